"""Graceful shutdown drains everything and terminates."""
from ..common import *
from .. import topo as T
from .c01 import topology, spill, SINKS

RUNS = {"quick": 9000, "thorough": 80000}
RULE = "a run counts when the signal landed after at least one event was taken in"
REAL = REAL_CORE
STUB = STUB_CORE + ["endpoints of the native, Wavefront, InfluxDB, Elasticsearch and Kafka sinks", "statsd, graphite, native and avro clients", "writer of the tailed files"]
STATES = "edges of the topology by kind, place of the signal relative to traffic, backlog, faults met"


def gen(r, tier, i):
    b = B(r, 400)
    b.sched(light=True)
    b.net_faults()
    tp = topology(b, r)
    if r.random() < 0.3:
        tp.add_internal()
    for f in tp.flt:
        if f["kind"] == "flush_boundary":
            f["tolerance"] = r.choice([0, 5, 300, 100000])
    glob = dict(flush_interval=1)
    if r.random() < 0.4:
        spill(r, glob)
        b.fs_faults()
        b.meta["spill"] = 1
    big = r.random() < 0.5
    for k in ("native", "influxdb", "wavefront", "elasticsearch", "console", "kafka"):
        if big:
            tp.opts[k] = {"flush_interval": r.choice([1, 10, 10000])}
    tp.config(**glob)
    t = 300000
    size = r.choice([0, 0, 300])
    gap = r.choice([0, 100, 5000, 100000])
    srcs = [s for s in tp.src if s["kind"] != "internal"]
    times = [t]
    for _ in range(r.randint(2, 25)):
        tp.emit(r.choice(srcs), t, k=r.choice([1, 1, 2, 5, 20]), size=size)
        times.append(t)
        t += r.choice([0, gap, r.randint(0, 2 * gap + 1)])
    if r.random() < 0.6:
        sig = r.choice(times) + r.choice([0, 1, 10, 100, 1000, 10000, 200000])
    else:
        sig = t + r.choice([0, 50000, 3000000, 6000000])
    sig = max(sig, 250000)
    dup = set()
    # an endpoint that is not there at first, or for a while
    if r.random() < 0.3:
        for s in tp.snk:
            k = s["kind"]
            if k in ("native", "wavefront", "influxdb", "elasticsearch") and r.random() < 0.6:
                p = T.PORTS[k]
                u = sig - r.choice([1000, 100000, 1])
                if r.random() < 0.6:
                    b.head = [h + " down" if h.startswith("server %d " % p) else h for h in b.head]
                else:
                    q = r.randint(min(200000, u - 2), u - 2)
                    b.at(q, "down %d" % p)
                    b.at(q, "kill %d" % p)
                    dup.add(s["path"])
                b.at(u, "up %d" % p, keep=True)
    # an endpoint that is slow for a while: the backlog is there when the signal comes
    if r.random() < 0.3:
        for s in tp.snk:
            k = s["kind"]
            if k in ("native", "wavefront"):
                b.at(200000, "stallall %d" % T.PORTS[k])
                b.at(sig + r.choice([0, 100000, 2000000]), "unstallall %d" % T.PORTS[k], keep=True)
            elif k in ("influxdb", "elasticsearch"):
                for q in range(4):
                    b.h("plan %d %d delay:%d+%s" % (T.PORTS[k], q, r.choice([50, 700, 1500]), "status:204" if k == "influxdb" else "items"))
    b.at(sig, "signal %d" % r.choice([15, 15, 2]), keep=True)
    b.at(sig + 200 * SEC, "end", keep=True)
    b.meta.update(tp.meta(), sig=sig, dup=sorted(dup))
    return b.case()


def check(case, log):
    v, st = [], set()
    evs = T.present_events(case)
    meta = case["meta"]
    sig = meta["sig"]
    info = dict(nontrivial=False, states=st, counts=dict(events=len(evs)))
    info["sample"] = {"wiring": {x["path"]: x["fwd"] for x in meta["src"] + meta["flt"]}, "signal_at": sig, "events": [e[1][:80] for e in case["events"]][:8], "faults": log.faults}
    for f in log.faults:
        st.add("f:" + f)
    must = T.taken_in(case, log, evs)
    must |= set(e["id"] for e in evs if e["src"].startswith("sources.files") and e["t"] + 3 * SEC <= sig)
    info["counts"]["taken"] = len(must)
    info["nontrivial"] = len(must) > 0
    for s in meta["src"]:
        for k, trails in T.paths(meta, s["path"]).items():
            for tr in trails:
                st.add("%s>%s>%s" % (s["kind"], "+".join(tr), k.split(".")[1]))
    late = len([e for e in evs if e["t"] >= sig - 50000])
    st.add("busy" if late else "idle")
    if log.end != "EXIT":
        return [("no-exit", "%d s after the signal cernan still runs (%s); panics %s" % ((log.t_us - sig) // SEC, log.end, log.panics()[:2]))], info
    if log.code != 0:
        return [("exit-code", "exit status %s; panics %s" % (log.code, log.panics()[:2]))], info
    took = log.t_us - 1000000 - sig
    kafka = any(s["kind"] == "kafka" for s in meta["snk"])
    if took > (60 if kafka else 20) * SEC:
        v.append(("slow-exit", "needed %.1f s to terminate" % (took / 1e6)))
    sinks = [s["path"] for s in meta["snk"] if s["kind"] != "prometheus"]
    v += T.compare(case, log, evs, must, sinks=[s for s in sinks if s not in meta["dup"]])
    if meta["dup"]:     # connections were broken: at least once, in no certain order
        v += T.compare(case, log, evs, must, sinks=meta["dup"], may_dup=True)
    if log.panics():
        v.append(("panic", log.panics()[0]))
    return v, info
