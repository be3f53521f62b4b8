"""A stalled or slow sink holds up nobody else; overflow is bounded and counted."""
import re, zlib
from ..common import *
from .. import topo as T
from ..runner import unhex

RUNS = {"quick": 1300, "thorough": 60000}
RULE = "a run counts when a destination was stalled, refusing or slow while at least 5 events due to it and to another destination were taken in"
REAL = REAL_CORE
STUB = STUB_CORE + ["endpoints of the native, Wavefront, InfluxDB, Elasticsearch and Kafka sinks", "statsd, graphite, native and avro clients", "writer of the tailed files"]
STATES = "kind of the stalled sink, how it fails, whether and how it recovers, size of the backlog (memory, disk, overflow), filters before it, faults met"
ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"
MB = 1048576
HOW = {"native": ["stall", "down", "blackhole"], "wavefront": ["stall", "down", "blackhole"], "influxdb": ["stall", "down", "blackhole", "500", "slow"],
       "elasticsearch": ["stall", "down", "blackhole", "500", "slow"], "kafka": ["down", "stall"]}


def stall(b, r, kind, how, t0, t1):
    """the endpoint of a sink is out of order from t0 to t1 (or for good)"""
    p = T.PORTS[kind]
    if how == "stall":
        b.at(t0, "stallall %d" % p, keep=True)
        if t1:
            b.at(t1, "unstallall %d" % p, keep=True)
    elif how in ("down", "blackhole"):
        b.at(t0, "%s %d" % (how, p), keep=True)
        b.at(t0, "kill %d" % p, keep=True)
        if t1:
            b.at(t1, ("un" if how == "blackhole" else "") + {"down": "up", "blackhole": "blackhole"}[how] + " %d" % p, keep=True)
    else:
        for q in range(400 if not t1 else r.choice([1, 3, 6])):
            b.h("plan %d %d %s" % (p, q, "status:500" if how == "500" else "delay:%d+%s" % (r.choice([300, 1500, 4000]), "status:204" if kind == "influxdb" else "items")))


def gen(r, tier, i):
    b = B(r, 300)
    over = i % 20 == 5
    b.sched(light=True)
    if over:
        b.head = [h for h in b.head if not h.startswith(("sched", "psw", "fault", "depth"))] + ["sched rw", "psw 0.01"]
        bad = [r.choice(["native", "native", "wavefront", "influxdb", "elasticsearch"])]
        src = ["native"]
        # the other sinks get the same events
        snk = bad + r.sample([k for k in ("native", "influxdb", "wavefront", "elasticsearch", "console", "prometheus") if k != bad[0]], r.choice([1, 2]))
        flt = [r.choice(["delay", "programmable"]) for _ in range(r.choice([0, 0, 1]))]
    else:
        b.net_faults()
        src = [r.choice(["statsd", "graphite", "native", "native", "avro", "files"]) for _ in range(r.choice([1, 2, 2, 3]))]
        pool = ["native", "influxdb", "wavefront", "elasticsearch"]
        if r.random() < 0.12:
            src.append("avro")
        bad = r.sample(pool, r.choice([1, 1, 1, 2]))
        if "avro" in src:
            bad = r.choice([bad, ["kafka"]])
        snk = bad + r.sample([k for k in pool + ["console", "prometheus"] if k not in bad], r.choice([1, 1, 2, 3]))
        if "avro" in src and "kafka" not in snk:
            snk.append("kafka")
        flt = [r.choice(["delay", "programmable", "json_encode", "flush_boundary"]) for _ in range(r.choice([0, 0, 1, 2]))]
    tp = T.Topo(b, src, snk, flt, {"host": "h1"} if r.random() < 0.3 else {})
    tp.wire_random()
    # everything comes by the stalled sink, too
    bp = ["sinks.kafka.k" if k == "kafka" else "sinks." + k for k in bad]
    allp = [s["path"] for s in tp.snk]
    for s in tp.src:
        if r.random() < 0.8 or over:
            f = s["fwd"]
            via = [x for x in tp.flt if x["path"] in f]
            tgt = r.choice(via)["fwd"] if via and r.random() < 0.5 else f
            for p in bp:
                if p not in tgt and not any(p in x["fwd"] for x in via):
                    tgt.append(p)
            if over or r.random() < 0.5:
                for p in allp:
                    if p not in bp and p not in f and not any(p in x["fwd"] for x in via):
                        f.append(p)
    glob = dict(flush_interval=1)
    if over and len(T.paths(dict(src=tp.src, flt=tp.flt, snk=tp.snk), tp.src[0]["path"]).get(bp[0], [])) > 1:
        for x in tp.src + tp.flt:       # one way to the stalled sink only
            x["fwd"] = [p for p in x["fwd"] if p != bp[0]] or [[p for p in allp if p != bp[0]][0]]
        tp.src[0]["fwd"].append(bp[0])
    if over:
        tp.add_internal()
        tp.src[-1]["fwd"] = [r.choice([p for p in allp if p not in bp and p.split(".")[1] in ("native", "influxdb", "wavefront", "console", "prometheus")] or ["sinks.console"])]
        if "sinks.console" in tp.src[-1]["fwd"] and "sinks.console" not in allp:
            tp.snk.append(dict(kind="console", path="sinks.console"))
            tp.by["sinks.console"] = tp.snk[-1]
        glob.update(max_hopper_in_memory_bytes=r.choice([600, 20000, 100000, 100000]), max_hopper_queue_bytes=r.choice([1, MB, 1500000]), max_hopper_queue_files=r.choice([1, 2]))
        b.meta.update(over=dict(qb=max(MB, glob["max_hopper_queue_bytes"]), files=glob["max_hopper_queue_files"]))
    elif r.random() < 0.6:
        glob.update(max_hopper_in_memory_bytes=r.choice([600, 2000, 20000]), max_hopper_queue_bytes=r.choice([MB, 2000000]), max_hopper_queue_files=1000)
        b.fs_faults()
        b.meta["spill"] = 1
    if "kafka" in bad and r.random() < 0.5:
        tp.opts["kafka"] = {"max_message_bytes": r.choice([100, 1000])}
    tp.config(**glob)
    hows = {}
    for k in bad:
        hows[k] = r.choice(HOW[k])
    if over:
        hows = {k: r.choice(["stall", "stall", "down", "blackhole"] if k != "elasticsearch" else ["stall", "blackhole"]) for k in bad}
        b.head = [h for h in b.head if not h.startswith("maxsteps")] + ["maxsteps 600000"]
    t = 300000
    t0 = {k: r.choice([200000, 290000, r.randint(200000, 2000000)]) for k in bad}
    srcs = [s for s in tp.src if s["kind"] != "internal"]
    if over:
        cap = (b.meta["over"]["files"] + 1) * b.meta["over"]["qb"]
        tot, want = 0, cap * r.choice([0.8, 1.5, 2.0, 2.5]) / 0.75
        t0 = {k: 200000 for k in bad}
        while tot < want:
            n = r.choice([20000, 60000, 150000, 150000])
            tp.emit(srcs[0], t, size=n, alpha=ALPHA)
            t += r.choice([60000, 100000])
            tot += n
    else:
        gap = r.choice([100, 5000, 100000, 400000])
        size = r.choice([0, 0, 20, 300])
        for _ in range(r.randint(5, 30)):
            tp.emit(r.choice(srcs), t, k=r.choice([1, 1, 2, 5, 20]), size=size)
            t += r.choice([0, gap, r.randint(0, 2 * gap + 1)])
    rec = r.random() < 0.6
    t1 = None
    if rec:         # a connection attempt into the void lasts 127 s
        hows = {k: "down" if h == "blackhole" and (over or r.random() < 0.8) else h for k, h in hows.items()}
    kafka = any(s["kind"] == "kafka" for s in tp.snk)
    if rec:
        t1 = max(t + r.choice([-200000, 0, 100000, 3000000, 12000000]), max(t0.values()) + 100000)
    for k in bad:
        stall(b, r, k, hows[k], t0[k], t1)
    b.at(t + 1, "nofaults", keep=True)
    sig = None
    again = 0
    if over and rec and r.random() < 0.4:       # and once more
        again = max(t1, t) + 9 * SEC
        b.at(again - 100000, "stallall %d" % T.PORTS[bad[0]], keep=True)
        t, tot = again, 0
        while tot < want / 2:
            n = r.choice([20000, 60000, 150000])
            tp.emit(srcs[0], t, size=n, alpha=ALPHA)
            t += 60000
            tot += n
        t1 = t + 1000000
        b.at(t1, "unstallall %d" % T.PORTS[bad[0]], keep=True)
    b.meta["again"] = again
    if rec:
        if r.random() < 0.3 and not over:
            sig = max(t1, t) + r.choice([0, 100000, 5000000])
            b.at(sig, "signal 15", keep=True)
            end = sig + 100 * SEC
        else:
            end = max(t1, t) + (30 if kafka else 9) * SEC + (20 * SEC if "slow" in hows.values() else 0)
        if "blackhole" in hows.values():
            end += 130 * SEC
    else:
        end = t + (25 if "kafka" in snk else 5) * SEC
    if not sig:
        if any(s["kind"] == "prometheus" for s in tp.snk):
            for k in range(6):
                b.at(end - 600000 + k * 100003, "scrape x%d 8086" % k, keep=True)
        if over:
            b.at(end - 1, "du /sim/data", keep=True)
            if not rec:
                b.at(end - 1, "dump /sim/data/%s" % bp[0], keep=True)
    if over:
        for x in range(5):
            b.at(t * (x + 1) // 5, "du /sim/data", keep=True)
    b.at(end, "end", keep=True)
    b.meta.update(tp.meta(), bad=bp, hows=hows, t0=t0, t1=t1, rec=rec, sig=sig, tlast=t, end=end)
    return b.case()


def hopper_ids(data):
    """ids of the events in a queue file, in order; number of other records"""
    out, other, i = [], 0, 0
    while i + 4 <= len(data):
        n = int.from_bytes(data[i:i + 4], "big")
        try:
            x = zlib.decompress(data[i + 4:i + 4 + n], -15)
        except zlib.error:
            break
        m = re.search(rb"e\d{5}", x)
        if m:
            out.append(m.group(0).decode())
        else:
            other += 1
        i += 4 + n
    return out, other


def counted(log, meta):
    """[(t, n)] drops reported, by whichever sink shows cernan's own metrics"""
    s = [x for x in meta["src"] if x["kind"] == "internal"][0]
    k = s["fwd"][0].split(".")[1]
    sink = [x for x in meta["snk"] if x["path"] == s["fwd"][0]][0]
    n = 0
    nm = "cernan.util.hopper.error.full"
    if k == "console":
        for m in re.finditer(r"^    %s\(-?\d+\): (\S+)$" % re.escape(nm), log.stdout().decode("utf8", "replace"), re.M):
            n += float(m.group(1))
    elif k == "native":
        from .. import model as M
        for t, p in M.native_events(log, T.PORTS[k])[0]:
            if p["name"] == nm:
                n += sum(p["samples"])
    elif k == "wavefront":
        for (ep, no), ch in log.written(T.PORTS[k]).items():
            for m in re.finditer(r"^%s (\S+) " % re.escape(nm), b"".join(d for t, d in ch).decode("utf8", "replace"), re.M):
                n += float(m.group(1))
    elif k == "influxdb":
        for t, tid, kk, rest in log.of("HREQ"):
            if rest.split(" ")[0] == str(T.PORTS[k]):
                for m in re.finditer(r"^%s\S* value=(\S+) " % re.escape(nm), unhex(rest.rsplit(" ", 1)[1]).decode("utf8", "replace"), re.M):
                    n += float(m.group(1))
    elif k == "prometheus":
        for t, tid, kk, rest in log.of("SCR"):
            i, st, hx = rest.split(" ")
            if st == "200":
                m = re.search(r"^%s(?:\{[^}]*\})? (\S+)$" % nm.replace(".", "_"), unhex(hx).decode("utf8", "replace"), re.M)
                n = float(m.group(1)) if m else n
    return n


def check(case, log):
    v, st = [], set()
    evs = T.present_events(case)
    meta = case["meta"]
    info = dict(nontrivial=False, states=st, counts=dict(events=len(evs)))
    info["sample"] = {"wiring": {x["path"]: x["fwd"] for x in meta["src"] + meta["flt"]}, "stalled": meta["hows"], "recovers": meta["t1"], "events": [e[1][:80] for e in case["events"]][:8], "faults": log.faults}
    for f in log.faults:
        st.add("f:" + f)
    over, rec, sig = meta.get("over"), meta["rec"], meta["sig"]
    hop = over and rec and any("hopper/src/private.rs" in p for p in log.panics())
    if over and rec and log.end == "STEPLIMIT" and any(int(x[3].rsplit(" ", 2)[1]) > 0.9 * over["files"] * over["qb"] for x in log.of("DU") if x[3].startswith(meta["bad"][0] + " ")):
        return [("after-overflow", "%s waits busily for events in queue files which are gone" % meta["bad"][0])], info
    if (log.end == "EXIT") != bool(sig) or not log.ok_end() and not hop or sig and log.code != 0:
        return [("died" if not sig or log.end == "EXIT" else "no-exit", "run ended with %s %s; panics %s" % (log.end, log.code, log.panics()[:2]))], info
    must = T.taken_in(case, log, evs)
    files = set(e["id"] for e in evs if e["src"].startswith("sources.files") and (not sig or e["t"] + 3 * SEC <= sig))
    must |= files
    pth = {s["path"]: T.paths(meta, s["path"]) for s in meta["src"]}
    shared = [e for e in evs if e["id"] in must and any(p in pth[e["src"]] for p in meta["bad"]) and any(p not in meta["bad"] for p in pth[e["src"]])]
    info["nontrivial"] = len(shared) >= 5
    info["counts"]["taken"] = len(must)
    for p in meta["bad"]:
        k = p.split(".")[1]
        st.add("%s:%s:%s:%s" % (k, meta["hows"].get(k), "rec" if rec else "stays", "over" if over else "disk" if meta.get("spill") else "mem"))
        for s in meta["src"]:
            for tr in pth[s["path"]].get(p, []):
                st.add("%s>%s>%s" % (s["kind"], "+".join(tr), k))
    # sources keep accepting
    if not sig:
        un = [e for e in evs if e["id"] not in must and not e["src"].startswith(("sources.files", "sources.statsd")) and e["t"] < meta["end"] - 3 * SEC]
        if un:
            v.append(("not-accepted", "%s, sent at %.3f s, was never read although its source has nothing to wait for" % (un[0]["id"], un[0]["t"] / 1e6)))
    healthy = [s["path"] for s in meta["snk"] if s["path"] not in meta["bad"] and not (sig and s["kind"] == "prometheus")]
    v += [("held-up-" + a if a.startswith("lost") else a, x) for a, x in T.compare(case, log, evs, must, sinks=healthy)]
    dup = any(h in ("down", "blackhole", "500") for h in meta["hows"].values())
    if not over:
        if rec:
            v += T.compare(case, log, evs, must, sinks=meta["bad"], may_dup=dup or "sinks.kafka.k" in meta["bad"])
    else:
        bad = meta["bad"][0]
        kind = bad.split(".")[1]
        form = {"native": "pl", "wavefront": "p", "influxdb": "p", "elasticsearch": "l"}[kind]
        due = [e for e in evs if e["id"] in must]      # one source, one connection most of the time: in the order sent
        big = max([len(e.get("name", e.get("text", ""))) for e in evs] + [0]) + 1000
        lim = (over["files"] + 1) * (over["qb"] + big)
        for t, tid, k, rest in log.of("DU"):
            d, n, c = rest.rsplit(" ", 2)
            if int(n) > lim:
                v.append(("too-much-disk", "queue %s holds %s bytes on disk, configured are %d files of %d bytes" % (d, n, over["files"], over["qb"])))
                break
        drops = counted(log, meta)
        st.add("drops%d" % bool(rec) if drops else "no-drops")
        pulses = log.t_us // 10000 + 50
        if rec:
            got, errs = T.sink_view(case, log, [s for s in meta["snk"] if s["path"] == bad][0])
            seen = set(i for f, i, d in got)
            miss = [e for e in due if e["ty"] in form and e["id"] not in seen]
            if hop and drops:
                return v + [("after-overflow", "%s is gone, %d events are missing, %d drops were counted: %s" % (bad, len(miss), drops, log.panics()[0]))], info
            if not drops:
                v += T.compare(case, log, evs, must, sinks=[bad], may_dup=dup)
            else:
                st.add("again%d" % bool(meta["again"]))
                # the backlog of before the first drop is delivered, in order
                order = [e["id"] for e in due if e["ty"] in form]
                first = {}
                for n, (f, i, d) in enumerate(got):
                    first.setdefault(i, n)
                ty = {e["id"]: e["ty"] for e in due}
                if any([first[i] for i in order if i in first and ty[i] == x] != sorted(first[i] for i in order if i in first and ty[i] == x) for x in "pl") and kind not in ("wavefront",):
                    v.append(("reordered-" + kind, "%s does not show its backlog in order" % bad))
                cap = (over["files"] + 1) * (over["qb"] - big)
                vol = 0
                for e in due:
                    if meta["again"] and e["t"] >= meta["again"]:
                        break
                    vol += len(e.get("name", e.get("text", ""))) * 0.78
                    if vol > cap:
                        break
                    if e["ty"] in form and e["id"] not in seen:
                        v.append(("lost-within-capacity", "%s never reached %s although only %d of %d bytes were queued when it came" % (e["id"], bad, vol, cap)))
                        break
                # hopper leaves a gap in the numbers of its files when it was full: what is behind it cannot be read
                if len(miss) > drops:
                    v.append(("after-overflow", "%s: %d events are missing, %d drops were counted" % (bad, len(miss), drops)))
        else:
            ids, other = [], 0
            for t, tid, k, rest in sorted(log.of("DUMP"), key=lambda x: int(x[3].split(" ")[0].rsplit("/", 1)[1])):
                a, o = hopper_ids(unhex(rest.split(" ")[1]))
                ids += a
                other += o
            order = [e["id"] for e in due]
            if len(set(ids)) != len(ids):
                v.append(("duplicated-queue", "the queue of %s holds an event twice: %s" % (bad, ids)))
            if ids:
                pos = {i: n for n, i in enumerate(order)}
                f = min(pos[i] for i in ids if i in pos)
                left = [i for i in order[f:] if i not in set(ids)]
                late = set(e["id"] for e in due if e["t"] > meta["end"] - 3 * SEC)
                st.add("dropped" if left else "all-queued")
                if len([i for i in left if i not in late]) > drops:
                    v.append(("uncounted", "%d events for %s are neither delivered nor in its queue, but %d drops were counted" % (len(left), bad, drops)))
                if drops > len(left) + pulses:
                    v.append(("overcounted", "%d events and at most %d pulses were dropped, but %d drops were counted" % (len(left), pulses, drops)))
                if left:
                    du = [int(x[3].rsplit(" ", 2)[1]) for x in log.of("DU") if x[3].startswith(bad + " ")]
                    need = (over["files"] + 1) * (over["qb"] - big)
                    if max(du) < need:
                        v.append(("dropped-early", "%d events for %s were dropped with %d bytes queued on disk, configured are %d more files of %d bytes" % (len(left), bad, max(du), over["files"], over["qb"])))
            elif drops:
                v.append(("overcounted", "nothing of %s went to disk, but %d drops were counted" % (bad, drops)))
    if log.panics():
        v = v or [("panic", log.panics()[0])]
    return v, info
