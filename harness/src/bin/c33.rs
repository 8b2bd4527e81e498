//! C33: which file changes the resource watcher reports, and when.
//! bound: every relative path of up to 4 (thorough 5) of the bytes a, b, r, dot and slash under (and beside) the base directory, every choice of up to 2 include and 1 ignore patterns out of 10 made of names, `?`, `*` and `**`
//! bound: every history of 3 changes of 3 files, each created, modified or deleted, with waits of 3 (thorough 4) lengths in between, quiet periods of 3 (4) lengths, every set of watched files, with a reader that reads at once or only at the end; watching ended or begun in between
//! outside: the operating system's own reporting (the notify crate), other glob syntax (classes, braces), file names that are not UTF-8
use pmcp::server::resource_watcher::*;
use pmcp::types::protocol::{ResourceInfo, ServerNotification};
use std::path::Path;
use std::time::Duration;
use tokio::sync::mpsc;
use vph::*;

/// glob matching, written down independently: `?` and `*` stay within a name, `**` is any number of whole names
fn glob(p: &[u8], t: &[u8]) -> bool {
    if p.is_empty() { return t.is_empty(); }
    if p.starts_with(b"**/") { let mut at = 0; loop { if glob(&p[3..], &t[at..]) { return true; } match t[at..].iter().position(|&c| c == b'/') { Some(i) => at += i + 1, None => return false } } }
    if p == b"**" { return true; }
    match p[0] {
        b'*' => (0..=t.iter().position(|&c| c == b'/').unwrap_or(t.len())).any(|i| glob(&p[1..], &t[i..])),
        b'?' => !t.is_empty() && t[0] != b'/' && glob(&p[1..], &t[1..]),
        c => !t.is_empty() && t[0] == c && glob(&p[1..], &t[1..]),
    }
}
const PATS: [&str; 10] = ["**/*", "*.r", "**/*.r", "a/*", "**/a/**", "?", "b*", "a/**/b", "ab.r", "**/b"];
fn info(u: &str) -> ResourceInfo { ResourceInfo { uri: u.into(), name: "n".into(), description: None, mime_type: None } }
fn drain(rx: &mut mpsc::Receiver<ServerNotification>, got: &mut Vec<String>) { while let Ok(n) = rx.try_recv() { match n { ServerNotification::ResourceUpdated(p) => got.push(p.uri), _ => check(false, "something else than a change is reported") } } }

harness! {
    h_c33_patterns {
        let n = pick("len", tier(4, 5) as u64) + 1;
        let t = over("path", n, b"abr./");
        let b = t.as_bytes();
        assume(b[0] != b'/' && b[n - 1] != b'/');
        for i in 1..n { assume(!(b[i] == b'/' && b[i - 1] == b'/')); }
        // no "." or ".." as a name
        for name in t.split('/') { assume(!name.is_empty() && !name.bytes().all(|c| c == b'.')); }
        let inc: Vec<String> = (0..pick("includes", 3)).map(|_| PATS[pick("include", 10)].to_string()).collect();
        let ign: Vec<String> = (0..pick("ignores", 2)).map(|_| PATS[pick("ignore", 10)].to_string()).collect();
        let base = Path::new("/w/x");
        let want = inc.iter().any(|p| glob(p.as_bytes(), b)) && !ign.iter().any(|p| glob(p.as_bytes(), b));
        check(ResourceWatcher::vp_matches(&base.join(&t), base, &inc, &ign) == want, if want { "a file its patterns select is not reported" } else { "a file its patterns do not select is reported" });
        check(!ResourceWatcher::vp_matches(&Path::new("/w/y").join(&t), base, &inc, &ign) && !ResourceWatcher::vp_matches(&Path::new("/w/xa").join(&t), base, &inc, &ign), "a file outside the directory is reported");
        cover(if want { "selected" } else { "not selected" });
    }
    h_c33_bursts {
        rt(async {
            let quiet = [150u64, 0, 500, 1000][pick("quiet", tier(3, 4) as u64)];
            let (tx, mut rx) = mpsc::channel(if fixb(any_bool("slow reader")) { 1 } else { 100 });
            let slow = rx.max_capacity() == 1;
            let w = ResourceWatcher::new("/w", WatchConfig { debounce: Duration::from_millis(quiet), ..WatchConfig::default() }, tx);
            let files = ["/w/a", "/w/b", "/w/c d"];
            let watched = [true, true, fixb(any_bool("watched"))];
            for (f, k) in files.iter().zip(watched) { if k { check(w.add_resource(format!("file://{f}"), info(f)).await.is_ok(), "a file is not taken in"); } }
            let ev = w.vp_start().await;
            let mut got = vec![];
            // per file: the last change of a burst that is not over, and how many bursts were
            let mut last: [Option<u64>; 3] = [None; 3];
            let mut bursts = [0usize; 3];
            let mut now = 0u64;
            for k in 0..tier(3, 3) {
                let f = pick("file", 3);
                if last[f].is_none() { bursts[f] += 1; }
                last[f] = Some(now);
                ev.changed(files[f], if k == 1 { pick("kind", 3) } else { k }).await;
                // never a wait that ends within the 200 ms in which a burst may or may not be over
                let long = quiet + 300;
                let wait = [0, long, 100, 40][pick("wait", tier(3, 4) as u64)];
                if quiet == 0 { assume(wait == 0 || wait == long); }
                if quiet == 150 { assume(wait != 100); }
                tokio::time::sleep(Duration::from_millis(wait)).await;
                now += wait;
                if quiet == 150 { for l in last.iter().flatten() { assume(now - l < 150 || now - l > 350); } }
                if !slow { drain(&mut rx, &mut got); }
                for f in 0..3 {
                    let told = got.iter().filter(|u| **u == format!("file://{}", files[f])).count();
                    if let Some(l) = last[f] { if now - l < quiet { check(told <= bursts[f] - 1, "a change is reported before its quiet period is over"); } else if now - l > quiet + 200 { if !slow && watched[f] { check(told == bursts[f], "a change is not reported once its quiet period is over"); } last[f] = None; } }
                }
            }
            for _ in 0..5 { tokio::time::sleep(Duration::from_millis(quiet / 4 + 110)).await; drain(&mut rx, &mut got); }
            for f in 0..3 { let told = got.iter().filter(|u| **u == format!("file://{}", files[f])).count(); check(told == if watched[f] { bursts[f] } else { 0 }, if watched[f] { "a burst of changes is not reported exactly once" } else { "a file that is not watched is reported" }); }
            if bursts.iter().filter(|&&b| b > 0).count() == 3 { cover("together"); }
            if bursts.iter().any(|&b| b > 1) { cover("two bursts"); }
            if slow { cover("slow"); }
        });
    }
    h_c33_watched {
        // files taken in and let go while changes wait
        rt(async {
            let (tx, mut rx) = mpsc::channel(100);
            let max = pick("max", 3);
            let w = ResourceWatcher::new("/w", WatchConfig { debounce: Duration::from_millis(300), max_resources: max, ..WatchConfig::default() }, tx);
            let ev = w.vp_start().await;
            let mut in_ = [false; 2];
            let mut got = vec![];
            for _ in 0..tier(4, 4) {
                let f = pick("file", 2);
                let (path, uri) = (["/w/a", "/w/b"][f], ["file:///w/a", "file:///w/b"][f]);
                match pick("op", 3) {
                    0 => { check(w.add_resource(uri.into(), info(uri)).await.is_ok(), "a file is not taken in"); if in_[f] || in_.iter().filter(|x| **x).count() < max { in_[f] = true; } },
                    1 => { check(w.remove_resource(uri).await.is_ok(), "a file is not let go"); in_[f] = false; },
                    _ => {
                        ev.changed(path, 1).await;
                        tokio::time::sleep(Duration::from_millis(600)).await;
                        got.clear(); drain(&mut rx, &mut got);
                        check(got.len() == in_[f] as usize && got.iter().all(|u| u == uri), "a file is reported that is not watched, or not one that is");
                        cover(if in_[f] { "reported" } else { "passed over" });
                    },
                }
                let l = w.get_resources().await;
                check(l.len() == in_.iter().filter(|x| **x).count(), "other files are listed than are watched");
                for f in 0..2 { check(l.iter().filter(|r| r.uri == ["file:///w/a", "file:///w/b"][f]).count() == in_[f] as usize, "other files are listed than are watched"); }
            }
        });
    }
}
