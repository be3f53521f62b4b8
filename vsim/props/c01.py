"""Fan-out: every event reaches exactly its configured destinations, in order."""
from ..common import *
from .. import topo as T

RUNS = {"quick": 3000, "thorough": 80000}
RULE = "a run counts when at least 8 events were taken in, at least one of them was due at two destinations, and all endpoints were compared with the routing table"
REAL = REAL_CORE
STUB = STUB_CORE + ["endpoints of the native, Wavefront, InfluxDB, Elasticsearch and Kafka sinks", "Prometheus scraper", "statsd, graphite, native and avro clients", "writer of the tailed files"]
STATES = "edges of the topology by kind, whether the path spilled to disk, faults met"
SINKS = ["native", "influxdb", "wavefront", "console", "elasticsearch", "kafka", "prometheus"]


def topology(b, r, nsink=None, kinds=SINKS, filters=("delay", "programmable", "json_encode", "flush_boundary")):
    src = [r.choice(["statsd", "graphite", "native", "native", "avro", "files"]) for _ in range(r.choice([1, 2, 2, 3]))]
    pool = list(kinds)
    if r.random() < 0.7 and "kafka" in pool:
        pool.remove("kafka")
    if "avro" in src and "kafka" in kinds and "kafka" not in pool:
        pool.append("kafka")
    snk = r.sample(pool, nsink or r.choice([1, 2, 2, 3]))
    if "avro" in src and "kafka" in kinds and "kafka" not in snk:
        snk.append("kafka")
    if r.random() < 0.15:
        snk.append("null")
    flt = [r.choice(filters) for _ in range(r.choice([0, 0, 1, 2]))]
    tp = T.Topo(b, src, snk, flt, {"host": "h1"} if r.random() < 0.3 else {})
    tp.wire_random()
    return tp


def spill(r, glob):
    """small queue limits: from a few events upward"""
    glob["max_hopper_in_memory_bytes"] = r.choice([600, 2000, 20000])
    glob["max_hopper_queue_bytes"] = r.choice([1048576, 2000000])
    glob["max_hopper_queue_files"] = 1000


def gen(r, tier, i):
    b = B(r, 120)
    b.sched(light=True)
    b.net_faults()
    tp = topology(b, r)
    glob = dict(flush_interval=1)
    if r.random() < 0.6:
        spill(r, glob)
        b.fs_faults()
        b.meta["spill"] = 1
    tp.config(**glob)
    t = 300000
    size = r.choice([0, 0, 20, 300])
    gap = r.choice([0, 100, 5000, 100000])
    for _ in range(r.randint(3, 30)):
        s = r.choice(tp.src)
        tp.emit(s, t, k=r.choice([1, 1, 2, 5, 20]), size=size)
        t += r.choice([0, gap, r.randint(0, 2 * gap + 1)])
    end = t + 4 * SEC
    b.at(t + 1 * SEC, "nofaults", keep=True)
    if any(s["kind"] == "kafka" for s in tp.snk):
        end += 25 * SEC
    if any(s["kind"] == "prometheus" for s in tp.snk):
        for k in range(6):
            b.at(end - 600000 + k * 100003, "scrape x%d 8086" % k, keep=True)
    b.at(end, "end", keep=True)
    b.meta.update(tp.meta())
    return b.case()


def check(case, log):
    v, st = [], set()
    evs = T.present_events(case)
    meta = case["meta"]
    info = dict(nontrivial=False, states=st, counts=dict(events=len(evs)))
    info["sample"] = {"wiring": {x["path"]: x["fwd"] for x in meta["src"] + meta["flt"]}, "events": [e[1][:80] for e in case["events"]][:8], "faults": log.faults}
    for f in log.faults:
        st.add("f:" + f)
    if not log.ok_end() or log.end == "EXIT":
        return [("stuck" if log.end != "EXIT" else "died", "run ended with %s; panics %s" % (log.end, log.panics()[:2]))], info
    must = T.taken_in(case, log, evs)
    files = set(e["id"] for e in evs if e["src"].startswith("sources.files"))
    must |= files
    multi = False
    for s in meta["src"]:
        p = T.paths(meta, s["path"])
        n = sum(len(x) for x in p.values())
        multi = multi or n > 1
        for k, trails in p.items():
            for tr in trails:
                st.add("%s>%s>%s%s" % (s["kind"], "+".join(tr), k.split(".")[1], "/spill" if meta.get("spill") else ""))
    info["nontrivial"] = len(must) >= 8 and multi
    info["counts"]["taken"] = len(must)
    notread = [e for e in evs if e["id"] not in must]
    v += T.compare(case, log, [e for e in evs if e["id"] in must], must)
    if len(notread) and not v:
        # the property is about what was taken in; what is never read is C03/C05's business, but make sure the run is not vacuous
        info["counts"]["unread"] = len(notread)
    if v and log.panics():
        v = [(a, b_ + "; panics: %s" % log.panics()[:1]) for a, b_ in v]
    return v, info
