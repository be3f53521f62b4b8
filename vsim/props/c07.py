"""An avro publish is acknowledged only when Kafka concluded on that very message."""
from ..common import *
from .. import model as M
from ..wl_kafka import *

RUNS = {"quick": 3000, "thorough": 40000}
RULE = "a run counts when at least one synchronous publish was acknowledged while other messages were published too"
REAL = REAL_CORE
STUB = STUB_CORE + ["Kafka brokers (ApiVersions, Metadata, Produce with message format v2)", "avro clients"]
STATES = "mixtures of synchronous and asynchronous publishes per connection, broker answers and faults met"


def gen(r, tier, i):
    b, t = gen_kafka(r, sync_p=r.choice([0.3, 0.6, 1]), faulty=r.random() < 0.8, sinks=r.choice([1, 1, 1, 2]))
    b.at(t + 80 * SEC, "end", keep=True)
    return b.case()


def check(case, log):
    v, st = [], set()
    msgs = present(case)
    req = requests(log)
    acks = {}
    for t, tid, k, rest in log.of("CR"):
        cid, hx = rest.split(" ")
        a = acks.setdefault(int(cid[1:]), [b"", []])
        a[0] += unhex(hx)
        while len(a[0]) >= 8:
            a[1].append((t, int.from_bytes(a[0][:8], "big")))
            a[0] = a[0][8:]
    nack = sum(len(a[1]) for a in acks.values())
    info = dict(nontrivial=nack >= 1 and len(msgs) > 1, states=st, counts=dict(messages=len(msgs), acks=nack))
    for f in log.faults:
        st.add("f:" + f)
    for q in req.values():
        st.add("code%s" % q["code"])
    info["sample"] = {"events": [e[1][:60] for e in case["events"]][:12], "sync": [m["i"] for m in msgs if m["sync"]], "plan": [h for h in case["head"] if h.startswith("kafka")]}
    if not log.ok_end():
        return v + [("stuck", "run ended with %s; panics %s" % (log.end, log.panics()[:2]))], info
    if log.end == "EXIT" or log.panics():
        return v + [("died", "cernan exited or panicked: %s" % (log.panics()[:2],))], info
    concluded = {}
    for q in req.values():
        if q["t_rsp"] is not None and (q["code"] == 0 or q["code"] in FATAL):
            for val in [x[1] for x in q["stored"]] + q["refused"]:
                concluded[val] = min(concluded.get(val, 1 << 60), q["t_rsp"])
    for c in sorted(set(m["conn"] for m in msgs) | set(acks)):
        mine = [m for m in msgs if m["conn"] == c]
        exp = [m for m in mine if m["sync"]]
        got = acks.get(c, [b"", []])
        st.add("".join("S" if m["sync"] else "a" for m in mine)[:6])
        if got[0]:
            v.append(("partial-ack", "connection %d received a torn acknowledgement %r" % (c, got[0])))
        ids = [a for _, a in got[1]]
        want = [m["id"] for m in exp]
        if ids != want[:len(ids)]:
            v.append(("wrong-ack", "connection %d asked for acknowledgements %s and received %s" % (c, want, ids)))
            continue
        if len(ids) < len(want):
            m = exp[len(ids)]
            v.append(("no-ack", "message %d (connection %d) was never acknowledged; concluded at %s, run ends at %s" % (m["i"], c, concluded.get(m["blob"]), log.t_us)))
        for (t, _), m in zip(got[1], exp):
            tc = concluded.get(m["blob"])
            if tc is None or t < tc:
                v.append(("early-ack", "message %d was acknowledged at %d us; Kafka concluded on it at %s" % (m["i"], t, tc)))
                break
    return v, info
