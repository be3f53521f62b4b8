"""TCP ingestion does not depend on how the byte stream is cut up."""
from ..common import *
from .. import wl_tcp as W

RUNS = {"quick": 7000, "thorough": 200000}
RULE = "a run counts when at least 5 messages were due and a connection's stream arrived in more pieces than it had messages"
REAL = REAL_CORE
STUB = STUB_CORE + ["clients of the sources", "endpoint of the native sink", "Kafka broker behind the avro source"]
STATES = "sources used, how the streams were cut, faults met, how the run ended"


def gen(r, tier, i):
    b = B(r, 120)
    b.sched()
    b.net_faults()
    tags = {"dc": "x1"} if r.random() < 0.2 else {}
    kinds = r.choice(["g", "n", "g", "n", "gn", "gn", "a", "gna"])
    W.config(b, kinds, tags)
    t0 = 250000
    metas = []
    end = t0
    for k in range(r.choice([1, 1, 2, 3, 5])):
        kind = kinds[k % len(kinds)]
        c = W.Conn(r, kind, "%s%d" % (kind, k), tags)
        t = t0 + r.choice([0, 0, 1000, 400000])
        b.at(t, "connect %s %d" % (c.cid, W.PORT[kind]), keep=True)
        for _ in range(r.choice([1, 3, 8, 20])):
            c.good(big=r.random() < 0.03)
        fin = r.random() < 0.5
        if fin and kind == "g" and r.random() < 0.5:
            c.add(("%s 1 5" % c.nid()).encode(), [["p", "%s-%04d" % (c.cid, c.n), "set", False, "1", 5, sorted(tags.items())]])
            c.items[-1].append("optional")
        t = c.emit(b, t + r.choice([0, 1, 200, 30000]))
        if fin:
            b.at(t, r.choice(["fin", "close"]) + " " + c.cid, keep=True)
        end = max(end, t)
        metas.append(c.meta())
    b.meta.update(conns=metas, kinds=kinds)
    b.at(end + 1, "nofaults", keep=True)
    if r.random() < 0.3:
        b.at(end + r.choice([300000, 2000000]), "signal 15", keep=True)
        b.meta["sig"] = True
    b.at(end + (30 if "a" in kinds else 8) * SEC, "end", keep=True)
    return b.case()


def check(case, log):
    meta, st = case["meta"], set()
    info = dict(nontrivial=False, states=st, counts={})
    info["sample"] = {"events": [e[1][:80] for e in case["events"]][:10], "faults": log.faults}
    for f in log.faults:
        st.add("f:" + f)
    sig = meta.get("sig")
    if not log.ok_end() or (log.end == "EXIT") != bool(sig):
        return [("stuck" if log.end != "EXIT" else "died", "run ended with %s; panics %s" % (log.end, log.panics()[:2]))], info
    if log.panics() or sig and log.code != 0:
        return [("died", "exit status %s; panics %s" % (log.code, log.panics()[:2]))], info
    v, n, streams = W.judge(case, log, meta["conns"])
    st.add(meta["kinds"] + ("!" if sig else ""))
    pieces = len([1 for e in case["events"] if e[1].startswith("send")])
    msgs = sum(len(m["items"]) for m in meta["conns"])
    reads = len([1 for x in log.of("r") if not x[3].split(" ")[1] == "0"])
    for m in meta["conns"]:
        st.add("%s:%d:%d" % (m["kind"], min(len(m["items"]), 4), min(9, pieces * 2 // max(1, msgs))))
    info["counts"] = dict(messages=msgs, items=n, pieces=pieces, reads=reads, bytes=sum(m["n"] for m in meta["conns"]))
    info["nontrivial"] = n >= 5 and (pieces > msgs or reads > msgs)
    return v, info
