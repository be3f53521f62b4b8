"""Flush cadence: what sinks hold leaves within the flush interval, at the configured pace, whatever the topology, the load and the wall clock do."""
import re
from collections import defaultdict
from ..common import *
from .. import topo as T, model as M
from ..runner import unhex

RUNS = {"quick": 2000, "thorough": 50000}
RULE = "a run counts when at least 5 events were taken in and their delays between intake and endpoint, the paces of two or more flushes and the assigned timestamps were compared"
REAL = REAL_CORE
STUB = STUB_CORE + ["endpoints of the native, Wavefront, InfluxDB, Elasticsearch and Kafka sinks", "statsd, graphite, native and avro clients", "writer of the tailed files"]
STATES = "sink, flush interval, filters on the way, number of ways pulses take to the sink, clock jumps, load, spilling to disk, faults met"
EPOCH = 1500000000
SINKS = ["native", "influxdb", "wavefront", "console", "elasticsearch", "kafka"]
METER = """
local n = 0
function process_metric(p) end
function process_log(p) end
function tick(p)
  n = n + 1
  if n %% 20 == 0 then payload.push_metric(p, string.format("tick%%05d.%s", n), n) end
end
"""


def gen(r, tier, i):
    b = B(r, 120, EPOCH)
    b.sched(light=True)
    b.net_faults()
    src = [r.choice(["statsd", "statsd", "graphite", "native", "avro", "files"]) for _ in range(r.choice([1, 2, 3, 5]))]
    snk = r.sample(SINKS[:-1], r.choice([1, 2, 2, 3]))
    if "avro" in src or r.random() < 0.15:
        snk.append("kafka")
    flt = [r.choice(["delay", "programmable", "json_encode", "flush_boundary"]) for _ in range(r.choice([0, 0, 1, 2, 4]))]
    tp = T.Topo(b, src, snk, flt, {"host": "h1"} if r.random() < 0.2 else {})
    tp.wire_random()
    if r.random() < 0.4:
        tp.add_internal()
    for f in tp.flt:
        if f["kind"] == "flush_boundary":
            f["tolerance"] = r.choice([0, 1, 5, 20, 150])
    gi = r.choice([1, 1, 0.5, 1.5, 2])
    fi = {}
    for s in tp.snk:
        k = s["kind"]
        x = r.choice([None, None, 1, 1, 2, 3, 0.5, 0.2, 1.5, 5, 0.01 if k != "influxdb" else 0.1, 0 if k != "influxdb" else 1])
        if k in ("kafka", "elasticsearch") and x is not None and x < 0.2:
            x = 0.2         # their clients take longer than a pulse
        if k == "console" and x is not None and x < 1:
            x = 1           # the bin width is to be at most the interval
        tp.opts[k] = dict(flush_interval=x)
        fi[k] = gi if x is None else x
    glob = dict(flush_interval=gi)
    if r.random() < 0.2:
        glob["max_hopper_in_memory_bytes"] = r.choice([600, 2000])
        glob["max_hopper_queue_files"] = 1000
        b.meta["spill"] = 1
    tp.config(**glob)
    meters = [f["name"] for f in tp.flt if f["kind"] == "programmable"]
    for f in meters:
        b.cfg = [ln if ln != 'script = "id.lua"' else 'script = "meter.lua"' for ln in b.cfg]
        b.scripts = {"meter.lua": METER % "x"}
    jumps = []
    if r.random() < 0.5:
        for _ in range(r.randint(1, 4)):
            jt, d = r.randint(300000, 9000000), r.choice([-86400000, -3600000, -5000, -1500, -400, 700, 2000, 60000, 86400000])
            jumps.append((jt, d))
            b.at(jt, "jump %d" % d)
    jumps.sort()
    t = r.choice([300000, 300000, 2500000])
    style = r.choice(["steady", "bursts", "idle", "busy"])
    for _ in range({"steady": r.randint(8, 40), "bursts": r.randint(4, 12), "idle": r.randint(2, 6), "busy": r.randint(50, 150)}[style]):
        s = r.choice([x for x in tp.src if x["kind"] != "internal"])
        tp.emit(s, t, k=r.choice([1, 1, 2, 5]) if style != "bursts" else r.choice([1, 20, 60]))
        t += {"steady": r.choice([100000, 250000, r.randint(0, 500000)]), "bursts": r.choice([0, 0, 1000000, 3000000]), "idle": r.choice([2000000, 5000000, 8000000]),
              "busy": r.choice([0, 1000, 10000, 30000])}[style]
    hold = max([f.get("tolerance", 0) for f in tp.flt if f["kind"] == "flush_boundary"] + [0])
    nfb = sum(f["kind"] == "flush_boundary" for f in tp.flt)
    end = t + int((max(fi.values()) * 1.4 + hold * nfb * 0.013) * SEC) + 2 * SEC + (4 * SEC if "files" in src else 0) + (3 * SEC if "kafka" in snk else 0)
    b.at(end, "end", keep=True)
    b.meta.update(tp.meta())
    b.meta.update(fi=fi, jumps=jumps, style=style, end=end)
    return b.case()


def slowness(case):
    """how much longer than 10 ms a pulse's sleep is on average, at most, and how long a thread may be off the processor"""
    p = us = 0.0
    dp = dus = 0.0
    for h in case["head"]:
        w = h.split(" ")
        if w[:2] == ["fault", "oversleep"]:
            p = float(w[2])
        if w[0] == "oversleep":
            us = float(w[1])
        if w[:2] == ["fault", "malloc_preempt"]:
            dp = float(w[2])
        if w[0] == "desched":
            dus = float(w[1])
    return 1.08 + p * us / 10000.0 + (0.15 if dus and dp else 0), dus / 1e6 if dp else 0.0


def when_read(case, log, evs):
    """{command: time cernan had read all of it}; for files: when it was appended"""
    out = {}
    ur = defaultdict(list)
    for t, tid, k, rest in log.of("UR"):
        p, n, hx = rest.split(" ")
        ur[(p, hx)].append(t)
    eps = {c: int(ep[3:]) for c, ep in (x[3].split(" ") for x in log.of("CLIENT"))}
    sent, off = defaultdict(int), {}
    for e in sorted(case["events"], key=lambda e: e[0]):
        w = e[1].split(" ")
        if w[0] == "send":
            sent[w[1]] += len(w[2]) // 2
            off[e[1]] = sent[w[1]]
        if w[0] == "append":
            out[e[1]] = e[0]
        if w[0] == "udp" and (w[1], w[2]) in ur:
            out[e[1]] = ur[(w[1], w[2])][0]
    rd = defaultdict(list)
    for t, tid, k, rest in log.of("r"):
        f = rest.split(" ")
        rd[int(f[0])].append((t, int(f[1])))
    cum = {}
    for ep, xs in rd.items():
        n, c = 0, []
        for t, k in xs:
            n += k
            c.append((n, t))
        cum[ep] = c
    for cmd, o in off.items():
        for n, t in cum.get(eps.get(cmd.split(" ")[1], -1), []):
            if n >= o:
                out[cmd] = t
                break
    return out


def check(case, log):
    v, st = [], set()
    m = case["meta"]
    evs = T.present_events(case)
    cmds = set(e[1] for e in case["events"])
    jumps = [(jt, d) for jt, d in m["jumps"] if "jump %d" % d in cmds]
    info = dict(nontrivial=False, states=st, counts=dict(events=len(evs)))
    info["sample"] = dict(wiring={x["path"]: x["fwd"] for x in m["src"] + m["flt"]}, intervals=m["fi"], jumps=jumps, load=m["style"], faults=log.faults)
    for f in log.faults:
        st.add("f:" + f)
    if not log.ok_end() or log.end == "EXIT" or log.panics():
        return [("died", "run ended with %s; panics %s" % (log.end, log.panics()[:2]))], info
    read = when_read(case, log, evs)
    slow, off = slowness(case)
    allow = 0.35 + (0.8 + 20 * off if off else 0)
    endt = log.t_us

    def wall_range(a, b_):
        """whole seconds the wall clock showed between two times"""
        ts = [a, b_] + [x for jt, d in jumps for x in (jt - 1, jt, jt + 1) if a <= x <= b_]
        s = set()
        w = [(EPOCH * 1000000 + t + sum(d * 1000 for jt, d in jumps if jt <= t)) // 1000000 for t in sorted(ts)]
        for t, x in zip(sorted(ts), w):
            s.add(x)
        # between the ends of a stretch without a jump the clock runs on
        cut = sorted(set([a] + [jt for jt, d in jumps if a < jt <= b_] + [b_ + 1]))
        for p, q in zip(cut, cut[1:]):
            o = sum(d * 1000 for jt, d in jumps if jt <= p)
            for x in range((EPOCH * 1000000 + p + o) // 1000000, (EPOCH * 1000000 + q - 1 + o) // 1000000 + 1):
                s.add(x)
        return s

    pth = {s["path"]: T.paths(m, s["path"]) for s in m["src"]}
    flt = {x["path"]: x for x in m["flt"]}
    by = {e["id"]: e for e in evs}

    def trails(src, sink):
        """filters passed, as paths"""
        allx = {x["path"]: x for x in m["src"] + m["snk"] + m["flt"]}
        out = []

        def go(x, tr):
            for p in sorted(set(x["fwd"])):
                if p == sink:
                    out.append(tr)
                elif p in flt:
                    go(allx[p], tr + [p])
        go(allx[src], [])
        return out
    nt = paces = stamps = 0
    for sink in m["snk"]:
        k, path = sink["kind"], sink["path"]
        P = m["fi"][k] if m["fi"][k] > 0 else 0.01
        P = max(0.01, int(P * 100 + 1e-9) / 100.0)
        got, errs = T.sink_view(case, log, sink)
        if errs:
            v.append(("undecodable-" + k, errs[0]))
            continue
        ways = {s: trails(s, path) for s in pth}
        nways = sum(len(x) for x in ways.values())
        if not nways:
            continue
        st.add("%s:P%s:ways%d%s:%s%s" % (k, m["fi"][k], min(nways, 4), ":jump" if jumps else "", m["style"], ":spill" if m.get("spill") else ""))
        # ---- how long events stayed
        first = {}
        for form, i, d in got:
            first.setdefault((form, i), d)
        limit0 = P * slow + allow + (2.5 if k == "kafka" else 0)
        for e in evs:
            if e["cmd"] not in read:
                continue
            for tr in ways.get(e["src"], []):
                hold = sum(flt[x].get("tolerance", 0) * 0.01 * slow + 0.03 for x in tr if flt[x]["kind"] == "flush_boundary" and e["ty"] != "r")
                f = T.form_on(e, [flt[x]["kind"] for x in tr])
                if (f if f != "j" else "r") not in T.ACCEPTS[k]:
                    continue
                t0 = read[e["cmd"]]
                lim = limit0 + hold + (2.6 if e["src"].startswith("sources.files") else 0)
                if t0 + lim * SEC > endt:
                    continue
                d = first.get((f, e["id"]))
                nt += 1
                st.add("%s<%s" % (k, "+".join(sorted(set(flt[x]["kind"] for x in tr)))))
                if d is None or d["t"] - t0 > lim * SEC:
                    v.append(("late-" + k, "%s (interval %s s): %s %s of %s taken in at %.3f s %s; at most %.2f s were due" % (
                        path, m["fi"][k], f, e["id"], e["src"], t0 / 1e6, "did not come out in %.2f s" % ((endt - t0) / 1e6) if d is None else "came out %.3f s later" % ((d["t"] - t0) / 1e6), lim)))
                    break
            # ---- timestamps cernan gave
            if e["src"].startswith(("sources.statsd", "sources.files")):
                f = e["ty"]
                d = first.get((f, e["id"]))
                if not d:
                    continue
                if e["ty"] == "l" and k == "elasticsearch":
                    x = M.rfc3339(d["doc"]["timestamp"]) if "timestamp" in d.get("doc", {}) else None
                else:
                    x = d.get("ts")
                if x is None:
                    continue
                t0 = read[e["cmd"]]
                ok = wall_range(max(0, t0 - 1000000 - int(off * 1e6)), (d["t"] if e["ty"] == "l" else t0 + 200000 + int(3 * off * 1e6)))
                stamps += 1
                if x not in ok:
                    v.append(("timestamp", "%s: %s of %s was taken in at %.3f s, when the wall clock showed %s, and is stamped %s" % (path, e["id"], e["src"], t0 / 1e6, sorted(ok)[:6], x)))
            if v:
                break
        # cernan's own metrics and what scripts push on a tick: stamped when made
        for form, i, d in got:
            if form == "p" and d.get("ts") is not None and (d["name"].startswith("cernan") or d["name"].startswith("tick")):
                w = T_HOLD(m)
                ok = wall_range(max(0, int(d["t"] - (P * slow + allow + 1.2 + w * 0.01 * slow) * SEC)), d["t"])
                stamps += 1
                if d["ts"] not in ok:
                    v.append(("timestamp", "%s: %s came out at %.3f s stamped %s; the wall clock showed %s..%s" % (path, d["name"], d["t"] / 1e6, d["ts"], min(ok), max(ok))))
                    break
        # ---- the pace itself, where every flush shows
        fl = None
        if k == "influxdb":
            fl = [t for t, tid, kk, rest in log.of("HREQ") if int(rest.split(" ")[0]) == T.PORTS[k]]
        elif k == "console":
            fl = [t for t, ln in T.console_lines(log) if ln.startswith("Flushing metrics")]
        if fl is not None:
            early = 0.03 + 4 * off + 0.1 * P
            if not fl:
                if endt > (2 * limit0 + 1) * SEC:
                    v.append(("no-pace-" + k, "%s (interval %s s) never flushed in %.1f s" % (path, m["fi"][k], endt / 1e6)))
            else:
                if fl[0] > (limit0 + 0.5) * SEC:
                    v.append(("late-start-" + k, "%s (interval %s s) flushed first after %.3f s" % (path, m["fi"][k], fl[0] / 1e6)))
                if len(fl) * P > endt / 1e6 + P * 0.5:
                    v.append(("too-often-" + k, "%s (interval %s s) flushed %d times in %.2f s" % (path, m["fi"][k], len(fl), endt / 1e6)))
                for a, c in zip(fl, fl[1:]):
                    paces += 1
                    if (c - a) / 1e6 < P - early:
                        v.append(("repeated-" + k, "%s (interval %s s) flushed at %.3f s and again at %.3f s" % (path, m["fi"][k], a / 1e6, c / 1e6)))
                        break
                    if (c - a) / 1e6 > limit0:
                        v.append(("skipped-" + k, "%s (interval %s s) flushed at %.3f s and only again at %.3f s" % (path, m["fi"][k], a / 1e6, c / 1e6)))
                        break
                if endt - fl[-1] > limit0 * SEC:
                    v.append(("stopped-" + k, "%s (interval %s s) flushed last at %.3f s of %.3f s" % (path, m["fi"][k], fl[-1] / 1e6, endt / 1e6)))
    info["nontrivial"] = nt >= 5
    info["counts"].update(delays=nt, paces=paces, stamps=stamps)
    return v, info


def T_HOLD(m):
    return sum(f.get("tolerance", 0) + 3 for f in m["flt"] if f["kind"] == "flush_boundary")
