#!/usr/bin/env python3
"""Regenerates the per-property section of DESIGN.md from the harness headers and HOW below."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
"C01": "An independent decoder written from the event-stream rules (in the harness) runs on the same symbolic text; events, last id and retry are compared, and one feed is compared with every chunking.",
"C02": "The written text goes through the real decoder and is compared member by member with the event.",
"C03": "The real `StdioTransport` (through a guarded constructor over in-memory pipes) sends and receives; what is read is compared with what was sent, cut streams and malformed headers with a reference reading of the header rules.",
"C04": "Serialise, parse, compare; classification is compared with the rule stated over which members are present.",
"C05": "Round trip over all 2^32 codes (one symbolic word), and a table of what each kind of error must become.",
"C06": "`create_*` then `parse_*`, compared as values; the method text is compared with the protocol's own table in the harness; every neighbour of a name must be refused.",
"C07": "The written JSON is compared with the JSON the protocol prescribes, built in the harness; reading it back is compared by writing it again; foreign members are added.",
"C08": "A reference map from id to waiter follows the same history.",
"C09": "A reference list of sessions with their last use follows the same history; all comparisons of times are symbolic.",
"C10": "A reference list of events and a table of tokens follow the same history.",
"C11": "Delays are compared with the policy's formula and its limits; the attempts made are recorded by the connecting closure and compared with the reference counters; virtual time.",
"C12": "An independent RFC 6570 expander in the harness; a match is checked by expanding the values it gives.",
"C13": "Recording members; what each sees is compared with what the one before it left.",
"C14": "Member-wise comparison; the task-local context is read at every step of every schedule.",
"C15": "Handlers record how many run; responses are compared with the requests by position, id and content.",
"C16": "A reference queue follows the history; what came out is compared at every wait.",
"C17": "The real `Server` answers one request through a guarded entry, and `Server::run` runs over a scripted transport; responses are compared with what the registered handler was given and returned.",
"C18": "A reference map follows the history; waiting tasks are checked under every schedule.",
"C19": "A reference relation of subscriptions follows the history.",
"C20": "A reference list follows the history; notifications are counted.",
"C21": "A reference table of waiting requests follows the history, with their deadlines in virtual time.",
"C22": "A reference list of pending notifications follows the history; deliveries are compared with submissions by subject, order and time.",
"C23": "Each exchange is compared with the conjunction of what the property requires; a second, entirely right exchange follows.",
"C24": "A reference table of tokens follows the history with a symbolic clock.",
"C25": "Admission is compared with the conjunction of what the property requires.",
"C26": "The real axum handlers are called (guarded entry) with real requests; statuses and headers are compared with a reference table of sessions.",
"C27": "A reference log per stream follows the history; what a client reads after losing its stream is compared with what it had not read.",
"C28": "The real `Client` over a scripted transport; what it sent and returned is compared with the operation called and the answer scripted.",
"C29": "A reference breaker and retry policy follow the history; the operation counts its runs; waits are read off virtual time.",
"C30": "Each routine against its plain definition in the harness or in std/serde_json, over the same symbolic bytes, with AVX2 intrinsics executed symbolically.",
"C31": "A reference table follows the history; announcements are counted; a server's listings are read back.",
"C32": "Filtering, order, limit and flags recomputed in the harness.",
"C33": "A reference glob matcher; bursts in virtual time with a reference table of what is due.",
"C34": "A stand-in for reqwest's client (hook) takes each request and gives the answer, its body piece by piece; every header of every request is compared with what the history so far demands, and what is received with what was sent so far.",
"C35": "The same stand-in; requests compared with the issuer, grant and credentials given (own form and base64 code), waits read off virtual time, results compared with the answer for every status.",
"C36": "A stand-in for tokio-tungstenite (hook): the harness holds the other end of a pair of channels; frames heard and messages received compared with those said and sent, in every history of events with the tasks running in between or not.",
"C37": "The stand-in of C34 behind hyper's pooled client; answers come in two pieces at chosen virtual times, and what is received after each step is compared with what had come by then.",
}
m = json.load(open(f"{ROOT}/tools/not_applicable.json")) if os.path.exists(f"{ROOT}/tools/not_applicable.json") else []
out = []
for l in open(f"{ROOT}/properties.jsonl"):
    p = json.loads(l); i = p["id"]; f = f"{ROOT}/harness/src/bin/{i.lower()}.rs"
    out.append(f"### {i} {p['title']}\n")
    if not os.path.exists(f) or i not in HOW:
        why = [x["reason"] for x in (m if isinstance(m, list) else [dict(property=k, reason=v) for k, v in m.items()]) if x["property"] == i]
        out.append("Not applicable: " + (why[0] if why else "") + "\n"); continue
    s = open(f).read()
    out.append(HOW[i] + "\n")
    for k in ("bound", "outside", "assume"):
        ls = re.findall(rf"^//! {k}: (.*)$", s, re.M)
        if ls: out.append(f"*{ {'bound': 'Bounds', 'outside': 'Outside', 'assume': 'Assumed'}[k]}:* " + "; ".join(ls) + ".\n")
    out.append("*Entries:* " + ", ".join(f"`{e}`" for e in re.findall(r"^    (h_c\w+) \{", s, re.M)) + "\n")
d = open(f"{ROOT}/DESIGN.md").read()
a, b = "<!-- per property: begin -->", "<!-- per property: end -->"
i, j = d.index(a) + len(a), d.index(b)
open(f"{ROOT}/DESIGN.md", "w").write(d[:i] + "\n" + "\n".join(out) + d[j:])
