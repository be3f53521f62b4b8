"""Kafka sink publishes each raw message at least once, retrying transient errors."""
from ..common import *
from .. import model as M
from ..wl_kafka import *

RUNS = {"quick": 3000, "thorough": 40000}
RULE = "a run counts when the broker stored at least two messages and at least one produce request was refused, dropped, delayed or interrupted"
REAL = REAL_CORE
STUB = STUB_CORE + ["Kafka brokers (ApiVersions, Metadata, Produce with message format v2)", "avro clients"]
STATES = "broker answers and faults met, limits, batch sizes"


def gen(r, tier, i):
    sig = r.random() < 0.35
    b, t = gen_kafka(r, sync_p=0 if sig else r.choice([0, 0, 0.2]), faulty=r.random() < 0.9, sigterm=sig)
    b.at(t + 70 * SEC, "end", keep=True)
    return b.case()


def check(case, log):
    v, st = [], set()
    msgs = present(case)
    stored = M.kafka_stored(log)
    req = requests(log)
    codes = set()
    for q in req.values():
        codes.add(q["code"])
    info = dict(nontrivial=len(stored) >= 2 and (len(codes) > 1 or bool(log.of("KDROP", "SRV", "XRST"))), states=st, counts=dict(messages=len(msgs), stored=len(stored), requests=len(req)))
    for c in codes:
        st.add("code%s" % c)
    for f in log.faults:
        st.add("f:" + f)
    for q in req.values():
        st.add("batch%d" % min(len(q["stored"]) + len(q["refused"]), 5))
    info["sample"] = {"events": [e[1][:60] for e in case["events"]][:12], "plan": [h for h in case["head"] if h.startswith("kafka")], "codes": sorted(map(str, codes))}
    if not log.ok_end():
        return v + [("stuck", "run ended with %s; panics %s" % (log.end, log.panics()[:2]))], info
    sig = case["meta"].get("sig")
    if sig:
        st.add("signal")
        if log.end != "EXIT" and not log.panics():
            return v + [("stuck", "cernan did not exit within 70 s of the end of the faults")], info
    if (log.end == "EXIT") != bool(sig) or sig and log.code != 0 or log.panics():
        return v + [("died", "cernan exited or panicked: %s" % (log.panics()[:2],))], info
    if log.of("KBAD"):
        v.append(("malformed", "the broker received a produce request it cannot read"))
    topics = ["topic-" + s for s in case["meta"]["sinks"]]
    byblob = {m["blob"]: m for m in msgs}
    fatal = set()
    for q in req.values():
        if q["code"] in FATAL:
            fatal.update(q["refused"])
    got = {}
    for s in stored:
        m = byblob.get(s["value"].hex())
        if m is None:
            v.append(("spurious", "the broker stored a payload nobody published: %r" % s["value"][:80]))
            continue
        if s["topic"] not in topics:
            v.append(("wrong-topic", "message %d stored on %s" % (m["i"], s["topic"])))
        if s["key"].decode("latin1") != m["key"]:
            v.append(("wrong-key", "message %d stored with key %r instead of %s" % (m["i"], s["key"], m["key"])))
        h = {k.hex(): x.hex() for k, x in s["headers"].items()} if s["headers"] is not None else m["headers"]
        if h != m["headers"]:
            v.append(("wrong-headers", "message %d stored with headers %r instead of %r" % (m["i"], h, m["headers"])))
        got.setdefault((m["i"], s["topic"]), []).append(s["t"])
    for m in msgs:
        for tp in topics:
            if (m["i"], tp) not in got and m["blob"] not in fatal:
                v.append(("lost", "message %d was never stored on %s although the broker never refused it for good; answers to requests that held it: %s" % (
                    m["i"], tp, [(n, q["code"]) for n, q in req.items() if m["blob"] in q["refused"]][:8])))
                break
    # in-flight limit, as a lower bound seen by the broker
    lim = case["meta"].get("limit")
    if lim:
        ev = []
        size = {m["blob"]: len(m["blob"]) // 2 for m in msgs}
        seen = {}
        for q in req.values():
            for val in [x[1] for x in q["stored"]] + q["refused"]:
                a = seen.setdefault(val, [q["t"], None])
                a[0] = min(a[0], q["t"])
                if q["code"] == 0 or q["code"] in FATAL:
                    a[1] = q["t_rsp"] if a[1] is None else min(a[1], q["t_rsp"])
        for val, (t0, t1) in seen.items():
            if val in size:
                ev.append((t0, 1, size[val]))
                if t1 is not None:
                    ev.append((t1, 0, -size[val]))
        cur = 0
        mx = max(size.values() or [0])
        for t, _, d in sorted(ev):
            cur += d
            if cur >= lim + mx:
                v.append(("in-flight", "%d payload bytes unanswered at the broker with a limit of %d and messages of at most %d" % (cur, lim, mx)))
                break
        st.add("lim%d" % lim)
    return v, info
