"""Time filters: the delay filter drops exactly what is out of date, the flush-boundary filter loses nothing and holds as long as configured."""
from collections import defaultdict
from ..common import *
from .. import intake as I, model as M
from ..runner import hexs, unhex

RUNS = {"quick": 5000, "thorough": 80000}
RULE = "a run counts when events went through the filter and some were held back for at least one pulse, or some were inside and some outside the tolerance"
REAL = REAL_CORE
STUB = STUB_CORE + ["native and avro clients", "endpoints of the native and Kafka sinks"]
STATES = "filter, tolerance class, kinds of events, distance of timestamps to the tolerance, number of upstreams, clock jumps, termination while events are held, faults met"
EPOCH = 1500000000
STAMP = """
local tk = 0
local n = 0
local function fld(p) end
function process_metric(p)
  n = n + 1
  payload.metric_set_tag(p, 1, "%(t)sk", string.format("%%d", tk))
  payload.metric_set_tag(p, 1, "%(t)sn", string.format("%%d", n))
end
function process_log(p)
  n = n + 1
  payload.log_set_tag(p, 1, "%(t)sk", string.format("%%d", tk))
  payload.log_set_tag(p, 1, "%(t)sn", string.format("%%d", n))
end
function tick(p) tk = tk + 1 end
"""


def gen(r, tier, i):
    b = B(r, 120, EPOCH)
    b.sched(light=True)
    mode = r.choice(["delay", "boundary", "boundary"])
    if mode == "delay":         # what the time is while an event passes must stay known
        b.head = [h for h in b.head if not h.startswith(("sched starve", "fault oversleep", "oversleep"))]
    b.net_faults()
    nsrc = r.choice([1, 1, 2, 3])
    raw = r.random() < 0.12
    tol = r.choice([0, 1, 2, 5, 60, 1000, 100000]) if mode == "delay" else r.choice([0, 0, 1, 1, 2, 5, 20, 99, 150])
    if raw and mode == "boundary":
        tol = 500
    c = ['data-directory = "/sim/data"', 'scripts-directory = "@DIR@"', "flush-interval = 1"]
    tags = {"dc": "x1"} if r.random() < 0.3 else {}
    spill = r.random() < 0.25 and mode == "boundary"
    if spill:
        c += ["max-hopper-in-memory-bytes = %d" % r.choice([600, 2000]), "max-hopper-queue-files = 1000"]
        b.fs_faults()
    if tags:
        c += ["[tags]", 'dc = "x1"']
    sinks = ["sinks.native"]
    c += ["[sinks.native]", 'host = "127.0.0.1"', "port = 1972", "flush_interval = 1"]
    b.h("server 1972 sink")
    if raw:
        sinks.append("sinks.kafka.k")
        c += ["[sinks.kafka.k]", 'topic = "topic"', 'brokers = "127.0.0.1:9092"', "flush_interval = 1", "[sinks.kafka.k.librdkafka]", '"queue.buffering.max.ms" = "5"', '"broker.version.fallback" = "0.11.0"']
        b.h("server 9092 kafka parts=2")
    direct = [False] * nsrc
    if mode == "delay":
        c += ["[filters.delay.f]", "tolerance = %d" % tol, "forwards = " + toml_list(sinks)]
        top = ["filters.delay.f"] * nsrc
    else:
        c += ["[filters.programmable.a]", 'script = "a.lua"', 'forwards = ["filters.flush_boundary.f"]']
        c += ["[filters.flush_boundary.f]", "tolerance = %d" % tol, 'forwards = ["filters.programmable.b"]']
        c += ["[filters.programmable.b]", 'script = "b.lua"', "forwards = " + toml_list(sinks)]
        b.scripts = {"a.lua": STAMP % dict(t="a"), "b.lua": STAMP % dict(t="b")}
        # a second way into the filter: the same pulses come twice
        direct = [s > 0 and r.random() < 0.4 for s in range(nsrc)]
        top = ["filters.flush_boundary.f" if d else "filters.programmable.a" for d in direct]
    for s in range(nsrc):
        c += ["[sources.native.n%d]" % s, 'ip = "127.0.0.1"', "port = %d" % (1980 + s), 'forwards = ["%s"]' % top[s]]
        b.at(200000, "connect n%d %d" % (s, 1980 + s), keep=True)
    if raw:
        c += ["[sources.avro.v]", 'host = "127.0.0.1"', "port = 2102", 'forwards = ["%s"]' % top[0]]
        b.at(200000, "connect v 2102", keep=True)
    b.cfg = c
    jumps = []
    if r.random() < 0.3:
        for _ in range(r.randint(1, 3)):
            jt, d = r.randint(400000, 9000000), r.choice([-3600000, -5000, -1500, 700, 2000, 60000, 86400000])
            jumps.append((jt, d))
            b.at(jt, "jump %d" % d)
    jumps.sort()

    def wall(t):
        return EPOCH + (t + sum(d * 1000 for jt, d in jumps if jt <= t)) / 1e6
    t, n, ev = 300000, 0, []
    for _ in range(r.randint(3, 25)):
        t += r.choice([0, 1000, 7000, 30000, 30000, 200000, 400000, 1200000])
        if mode == "delay" and r.random() < 0.6:        # where the second is unmistakable
            t += (700000 - t) % 1000000
        s = r.randrange(nsrc)
        pl, mine = b"", []
        for _ in range(r.choice([1, 1, 2, 3, 10])):
            n += 1
            e = dict(id="e%05d" % n, cid="n%d" % s, t=t)
            if mode == "delay":
                w = int(wall(t))
                e["ts"] = r.choice([w, w + tol, w - tol, w + tol - 1, w - tol + 1, w + tol + 1, w - tol - 1, w + r.randint(-2 * tol - 2, 2 * tol + 2), w - 86400, 0, -5, 4000000000000, -4000000000000])
            else:
                e["ts"] = r.choice([EPOCH, EPOCH + 1, EPOCH - 1, EPOCH + int(t / 1e6), EPOCH + r.randint(-20, 20), 0, -7, 4000000000000])
            tg = {"k": "v%d" % r.randint(0, 2)} if r.random() < 0.4 else {}
            e["tags"] = tg
            if r.random() < 0.55:
                e.update(ty="p", kind=r.choice(["sum", "set", "summarize"]), v=[float(r.randint(-9, 9)) for _ in range(r.choice([1, 1, 3]))], persist=r.random() < 0.3)
                if e["kind"] != "summarize":
                    e["v"] = e["v"][:1]
                pl += M.enc_point(e["id"], e["v"], e["kind"], tg, e["ts"] * 1000, e["persist"])
            else:
                e.update(ty="l", text=e["id"] + r.choice(["", " x", "\tyé"]))
                pl += M.enc_line("/p", e["text"], tg, e["ts"] * 1000)
            mine.append(e)
        b.at(t, "send n%d %s" % (s, M.frame(pl).hex()))
        # points come before lines out of a payload
        for e in [x for x in mine if x["ty"] == "p"] + [x for x in mine if x["ty"] == "l"]:
            e["cmd"] = b.events[-1][1]
            ev.append(e)
        if raw and r.random() < 0.5:
            n += 1
            blob = M.avro_blob("e%05d" % n)
            b.at(t, "send v %s" % M.avro_frame(blob, n, r.getrandbits(32), False).hex())
            ev.append(dict(id="e%05d" % n, cid="v", t=t, ty="r", blob=blob.hex(), cmd=b.events[-1][1]))
    sig = None
    b.at(t + 1, "nofaults", keep=True)
    if r.random() < 0.4:
        sig = t + r.choice([1, 1000, 9000, 100000, 1000000, (tol * 10000 if mode == "boundary" else 0) + 500000])
        b.at(sig, "signal 15", keep=True)
        end = sig + 40 * SEC
    else:
        end = t + (tol * 10000 if mode == "boundary" else 0) + 3500000 + (4 * SEC if raw else 0)
    b.at(end, "end", keep=True)
    b.meta.update(mode=mode, tol=tol, ev=ev, tags=tags, sig=sig, jumps=jumps, direct=direct, nsrc=nsrc, raw=raw, spill=spill, tlast=t)
    return b.case()


def check(case, log):
    v, st = [], set()
    m = case["meta"]
    cmds = set(e[1] for e in case["events"])
    ev = [e for e in m["ev"] if e["cmd"] in cmds]
    m = dict(m, jumps=[(jt, d) for jt, d in m["jumps"] if "jump %d" % d in cmds])
    mode, tol, sig = m["mode"], m["tol"], m["sig"]
    info = dict(nontrivial=False, states=st, counts=dict(events=len(ev)))
    info["sample"] = dict(mode=mode, tolerance=tol, signal=sig, jumps=m["jumps"], upstreams=m["nsrc"], faults=log.faults, events=[{k: e.get(k) for k in ("id", "t", "ty", "ts")} for e in ev[:8]])
    for f in log.faults:
        st.add("f:" + f)
    st.add("%s:tol%s:src%d%s%s%s" % (mode, tol, m["nsrc"], ":direct" if any(m["direct"]) else "", ":jump" if m["jumps"] else "", ":spill" if m["spill"] else ""))
    if (log.end == "EXIT") != bool(sig) or not log.ok_end() or sig and log.code != 0 or log.panics():
        return [("died" if not sig or log.end == "EXIT" else "no-exit", "run ended with %s %s; panics %s" % (log.end, log.code, log.panics()[:2]))], info
    # what was read in full, and when
    eps = I.client_eps(log)
    took = {}
    sent, off = defaultdict(int), {}
    for e in sorted(case["events"], key=lambda e: e[0]):
        w = e[1].split(" ")
        if w[0] == "send":
            sent[w[1]] += len(w[2]) // 2
            off[e[1]] = sent[w[1]]
    rd = defaultdict(list)
    for t, tid, k, rest in log.of("r"):
        f = rest.split(" ")
        rd[int(f[0])].append((t, int(f[1])))
    for cmd in set(e["cmd"] for e in ev):
        tot = 0
        for t, n in rd.get(eps.get(cmd.split(" ")[1], -1), []):
            tot += n
            if tot >= off[cmd]:
                took[cmd] = t
                break
    pts, lns, errs = M.native_events(log, 1972)
    if errs:
        return [("undecodable", errs[0])], info
    got = {}
    for kind, xs in (("p", pts), ("l", lns)):
        for n, (t, x) in enumerate(xs):
            i = (x["name"] if kind == "p" else x["value"])[:6]
            if i in got:
                v.append(("duplicated", "%s comes out twice" % i))
            got[i] = dict(t=t, n=n, x=x, ty=kind)
    by = {e["id"]: e for e in ev}
    for i in got:
        if i not in by and not i.startswith("cernan"):
            v.append(("spurious", "%r came out" % i))

    def fail(sig, e, msg):
        v.append((sig, "%s (%s sent at %.3f s, timestamp %s): %s" % (e["id"], {"p": "point", "l": "line", "r": "raw"}[e["ty"]], e["t"] / 1e6, e.get("ts"), msg)))

    def wall(t):
        return EPOCH + (t + sum(d * 1000 for jt, d in m["jumps"] if jt <= t)) / 1e6
    inn = out = held = 0
    order = defaultdict(list)
    for e in ev:
        if e["ty"] == "r":
            continue
        i, g, tk = e["id"], got.get(e["id"]), took.get(e["cmd"])
        if tk is None:
            if g:
                fail("spurious", e, "came out without having been read")
            continue
        if mode == "delay":
            # possible views of the time while the event passed
            # the filter's clock is read again every half second
            ws = [wall(tk - 560000), wall(tk), wall(tk + 250000)]
            for jt, d in m["jumps"]:
                if tk - 560000 <= jt <= tk + 250000:
                    ws += [wall(jt - 1), wall(jt)]
            if not m["jumps"] or not any(tk - 560000 <= jt <= tk + 250000 for jt, d in m["jumps"]):
                cand = set(range(int(min(ws)), int(max(ws)) + 1))
                ok = set(abs(e["ts"] - w) < tol if abs(e["ts"] - w) != tol else None for w in cand)
            else:
                ok = {True, False}
            if ok == {True}:
                inn += 1
                st.add("in%d" % min(3, tol - max(abs(e["ts"] - w) for w in cand)))
                if not g:
                    fail("dropped", e, "is within %d s of the current time %s, but did not pass the delay filter" % (tol, sorted(cand)))
            elif ok == {False}:
                out += 1
                st.add("out%d" % min(3, min(abs(e["ts"] - w) for w in cand) - tol))
                if g:
                    fail("not-dropped", e, "is more than %d s away from the current time %s, but passed the delay filter" % (tol, sorted(cand)))
        elif not g:
            fail("lost", e, "never came out of the flush-boundary filter" + (" (terminated at %.3f s)" % (sig / 1e6) if sig else ""))
        if g:
            x = g["x"]
            want = dict(e["tags"])
            have = {k: z for k, z in x["tags"].items() if k not in ("ak", "an", "bk", "bn", "dc")}
            if e["ty"] != g["ty"] or have != want or x["ts"] != e["ts"] * 1000 or (e["ty"] == "p" and (x["kind"] != e["kind"] or not M.seq_eq(sorted(x["samples"]), sorted(e["v"])) or x["persist"] != e["persist"])) \
                    or (e["ty"] == "l" and (x["value"] != e["text"] or x["path"] != "/p")):
                fail("altered", e, "came out as %s" % x)
            order[(e["cid"], e["ty"])].append((e, g))
    if mode == "delay":
        for k, xs in order.items():
            ns = [g["n"] for e, g in xs]
            if ns != sorted(ns):
                v.append(("reordered", "events of %s come out in another order than they were sent in" % (k,)))
        info["nontrivial"] = inn > 0 and out > 0
        info["counts"].update(inside=inn, outside=out)
    else:
        def stamp(g, k):
            return int(g["x"]["tags"][k])
        try:
            seq = sorted(((stamp(g, "bn"), e, g) for i, g in got.items() for e in [by.get(i)] if e), key=lambda x: x[0])
        except KeyError:
            return v or [("died", "stamps are missing")], info
        first = {}
        top = max([stamp(g, "bk") for bn, e, g in seq] + [0])       # what is left at the end comes with the last
        dn = [s for s, d in enumerate(m["direct"]) if d]
        for bn, e, g in seq:
            if int(e["cid"][1:]) in dn:
                first.setdefault(e["ts"], {}).setdefault("direct", True)
                continue
            f = first.setdefault(e["ts"], {})
            f.setdefault("xs", []).append((stamp(g, "an"), stamp(g, "ak"), stamp(g, "bk"), e, bn))
        for ts, f in first.items():
            xs = sorted(f.get("xs", []), key=lambda x: x[0])
            bns = [x[4] for x in xs]
            if bns != sorted(bns):
                v.append(("reordered", "events of timestamp %d leave the filter in another order than they came: %s" % (ts, [(x[3]["id"]) for x in sorted(xs, key=lambda x: x[4])])))
            if "direct" in f:
                continue
            # groups: the filter holds a timestamp from its first event until it is due
            lag = 0 if not dn else 100
            rel = start = None
            for an, ak, bk, e, bn in xs:
                if rel is None or ak > rel:
                    start, rel = ak, ak + tol
                held += bk > ak
                st.add("held%d" % min(3, bk - ak))
                if bk < rel and not (sig and bk >= top):
                    fail("early", e, "entered after pulse %d, the first of its timestamp after pulse %d, and left after pulse %d; configured are %d pulses" % (ak, start, bk, tol))
                    break
                if bk > rel + lag:
                    fail("late", e, "entered after pulse %d, the first of its timestamp after pulse %d, and left after pulse %d; configured are %d pulses" % (ak, start, bk, tol))
                    break
                if lag:
                    rel = max(rel, bk)
                if bk < rel:
                    st.add("shutdown-while-held")
        info["nontrivial"] = held > 0 or tol == 0 and len(seq) > 3
        info["counts"]["held"] = held
        # the order of each upstream and timestamp, for events which did not get a stamp on the way in
        for s in dn:
            per = defaultdict(list)
            for bn, e, g in seq:
                if e["cid"] == "n%d" % s:
                    per[(e["ts"], e["ty"])].append(e["id"])
            for k, ids in per.items():
                if ids != sorted(ids):
                    v.append(("reordered", "events of timestamp %d from n%d leave the filter in another order than they came: %s" % (k[0], s, ids)))
    if m["raw"]:
        have = defaultdict(list)
        for x in M.kafka_stored(log):
            have[x["value"].hex()].append(x)
        for e in ev:
            if e["ty"] != "r" or e["cmd"] not in took:
                continue
            xs = have.get(e["blob"], [])
            if not xs:
                fail("lost", e, "never reached Kafka")
            elif xs[0]["t"] > took[e["cmd"]] + 3500000 and not m["spill"]:
                fail("held", e, "reached Kafka at %.3f s" % (xs[0]["t"] / 1e6))
    return v, info
