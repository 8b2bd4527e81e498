// Native side of the harness interface: replays one set of input bytes against the compiled real code.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <ucontext.h>

struct in { char name[128]; uint8_t *b; size_t n; };
static struct in *ins; static size_t nin;
static struct { char name[128]; unsigned k; } cnt[4096]; static size_t ncnt;
static int64_t ck[2][2] = {{1700000000, 0}, {1000000, 0}};
static int replaying = 0;

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
// file: lines "name hex"
void __vp_load(const char *path) {
    FILE *f = fopen(path, "r"); if (!f) { perror(path); _exit(3); }
    replaying = 1;
    char *line = 0; size_t cap = 0; ssize_t l;
    while ((l = getline(&line, &cap, f)) > 0) {
        char *sp = strrchr(line, ' '); if (!sp) continue; *sp = 0; char *h = sp + 1; size_t hn = strcspn(h, "\n");
        ins = realloc(ins, (nin + 1) * sizeof *ins);
        struct in *i = &ins[nin++]; snprintf(i->name, sizeof i->name, "%s", line);
        i->n = hn / 2; i->b = malloc(i->n + 1);
        for (size_t k = 0; k < i->n; k++) i->b[k] = hexv(h[2 * k]) * 16 + hexv(h[2 * k + 1]);
    }
    free(line); fclose(f);
}
void __vp_sym(uint8_t *p, size_t n, const char *name, size_t nl) {
    char nm[128], key[160]; if (nl > 100) nl = 100; memcpy(nm, name, nl); nm[nl] = 0;
    unsigned k = 0; size_t i;
    for (i = 0; i < ncnt; i++) if (!strcmp(cnt[i].name, nm)) { k = ++cnt[i].k; break; }
    if (i == ncnt) { strcpy(cnt[ncnt].name, nm); cnt[ncnt++].k = k = 1; }
    if (k == 1) snprintf(key, sizeof key, "%s", nm); else snprintf(key, sizeof key, "%s#%u", nm, k);
    memset(p, 0, n);
    for (i = 0; i < nin; i++) if (!strcmp(ins[i].name, key)) { memcpy(p, ins[i].b, n < ins[i].n ? n : ins[i].n); return; }
    if (replaying) printf("VPMISSING %s\n", key);
}
void __vp_assume(uint8_t c) { if (!(c & 1)) { printf("VPASSUME\n"); fflush(stdout); _exit(41); } }
void __vp_check(uint8_t c, const char *l, size_t n) { if (!(c & 1)) { printf("VPFAIL %.*s\n", (int)n, l); fflush(stdout); _exit(42); } }
void __vp_cover(const char *l, size_t n) { printf("VPCOVER %.*s\n", (int)n, l); fflush(stdout); }
uint64_t __vp_fix(uint64_t x) { return x; }
void __vp_clock(uint32_t w, uint64_t s, uint64_t ns) { ck[w & 1][0] = s; ck[w & 1][1] = ns; }
void __vp_observe(uint64_t x) { printf("VPOBS %llu\n", (unsigned long long)x); fflush(stdout); }
uint8_t __vp_and(uint8_t a, uint8_t b) { return a & b & 1; }
uint8_t __vp_eq(const uint8_t *a, const uint8_t *b, size_t n) { return memcmp(a, b, n) == 0; }
uint64_t __vp_ite(uint8_t c, uint64_t a, uint64_t b) { return c & 1 ? a : b; }
void __vp_note(const char *l, size_t n, uint64_t x) { fprintf(stderr, "note %.*s = %llu\n", (int)n, l, (unsigned long long)x); }
uint64_t __vp_tier(void) { const char *t = getenv("VP_TIER"); return t ? strtoull(t, 0, 10) : 0; }
// Another thread's operation, run on a thread of its own while the interrupted one stands still. Where it would block for
// good it is left as it is (with the locks it holds) and the interrupted operation goes on.
static __thread int intruding; static volatile long frozen; static sem_t back;
static struct { uint32_t (*f)(void *); void *d; uint32_t r; } job;
static void stay(uint32_t r) { job.r = r; sem_post(&back); for (;;) pause(); }
static void *other(void *x) { intruding = 1; stay(job.f(job.d)); return x; }
void __vp_nested(uint32_t on) { (void)on; }
uint32_t __vp_try(uint32_t (*f)(void *), void *d) {
    pthread_t t; job.f = f; job.d = d; sem_init(&back, 0, 0);
    if (pthread_create(&t, 0, other, 0)) _exit(3);
    while (sem_wait(&back)) {}
    return job.r;
}
// Preemption points: while armed, the processor stops after every instruction (trap flag), and before each atomic
// read-modify-write of this program the harness decides whether the other thread comes in.
extern void __vp_point(void); extern char __executable_start, etext;
static volatile int armed;
static int rmw(const uint8_t *p) {
    int i = 0;
    for (; i < 6; i++) { uint8_t b = p[i]; if (b == 0xf0) return 1; if (!(b == 0x66 || b == 0xf2 || b == 0xf3 || b == 0x2e || b == 0x3e || b == 0x64 || b == 0x65)) break; }
    if ((p[i] & 0xf0) == 0x40) i++;
    return (p[i] == 0x86 || p[i] == 0x87) && (p[i + 1] >> 6) != 3;
}
static void trap(int s, siginfo_t *si, void *u) {
    (void)s; (void)si; ucontext_t *c = u; char *ip = (char *)c->uc_mcontext.gregs[REG_RIP];
    if (armed && ip >= &__executable_start && ip < &etext && rmw((uint8_t *)ip)) __vp_point();
    if (armed) c->uc_mcontext.gregs[REG_EFL] |= 0x100; else c->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
}
void __vp_arm(uint32_t on) {
    armed = on; if (!on) return;
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = trap; a.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &a, 0);
    __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
}
void __vp_fail(void) { printf("VPDONE\n"); fflush(stdout); }

static uint64_t rs = 0x9e3779b97f4a7c15ull;
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; for (size_t i = 0; i < n; i++) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; ((uint8_t *)p)[i] = rs >> 24; } return n; }

// virtual clocks: the same values the symbolic machine hands out
int clock_gettime(clockid_t id, struct timespec *ts) {
    int w = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? 0 : 1;
    ts->tv_sec = ck[w][0]; ts->tv_nsec = ck[w][1];
    return 0;
}
static void adv(int64_t s, int64_t ns) { ck[1][0] += s; ck[1][1] += ns; if (ck[1][1] >= 1000000000) { ck[1][1] -= 1000000000; ck[1][0]++; } }
// single-threaded: a futex wait with a timeout just advances the virtual clock to the deadline
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex) {
        int op = a[1] & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(volatile uint32_t *)a[0] != (uint32_t)a[2]) { errno = EAGAIN; return -1; }
            struct timespec *t = (struct timespec *)a[3];
            if (!t && intruding) { frozen = a[0]; stay(1); }
            if (!t) { printf("VPFAIL deadlock\n"); fflush(stdout); _exit(42); }
            if (op == FUTEX_WAIT) adv(t->tv_sec, t->tv_nsec);
            else { ck[1][0] = t->tv_sec; ck[1][1] = t->tv_nsec; }
            errno = ETIMEDOUT; return -1;
        }
        if (frozen && (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) && a[0] == frozen) { printf("VPASSUME\n"); fflush(stdout); _exit(41); }
        return 0;
    }
    long r; register long r10 __asm__("r10") = a[3]; register long r8 __asm__("r8") = a[4]; register long r9 __asm__("r9") = a[5];
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
