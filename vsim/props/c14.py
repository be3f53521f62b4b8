"""Aggregation per flush: every arrival order and timing, against an independent model of bins."""
from collections import defaultdict
from ..common import *
from .. import model as M, intake as I
from ..runner import hexs

RUNS = {"quick": 5000, "thorough": 100000}
RULE = "a run counts when at least two flushes reported something, and some key got points in two bins, in two flushes, or was persistent"
REAL = REAL_CORE
STUB = STUB_CORE + ["Wavefront proxy (records) or standard output of the console sink", "clients of the sources"]
STATES = "sink, kinds, numbers of flushes with output, bins per key, persistence, padding, age threshold"
EPOCH = 1500000000
PCT = [("min", 0.0), ("max", 1.0), ("50", 0.5), ("90", 0.9), ("99", 0.99), ("999", 0.999)]
CPCT = [("min", 0.0), ("max", 1.0), ("50", 0.5), ("90", 0.9), ("99", 0.99), ("999", 0.999)]
BOUNDS = [0.5, 2.0, 10.0]


def gen(r, tier, i):
    b = B(r, 120, EPOCH)
    b.sched()
    b.faults(short_read=(0.05, 0.9), eintr=(0.01,), epoll_few=(0.5,), epoll_spurious=(0.1,), segment=(0.5, 0.9))
    sink = r.choice(["wavefront", "wavefront", "console"])
    fi = r.choice([1, 1, 2, 3])
    bw = r.choice([1, 1, 2, 5, 10])
    tags = {"dc": "x1"} if r.random() < 0.3 else {}
    pad, age = [], None
    if sink == "wavefront":
        if r.random() < 0.25:
            pad = r.sample(["set", "sum"], r.choice([1, 2]))
        elif r.random() < 0.2:
            age = 60
    pct = r.sample(PCT, r.randint(1, len(PCT)))
    b.meta.update(sink=sink, bw=bw, tags=tags, pad=pad, age=age, pct=pct)
    c = ['data-directory = "/sim/data"', "flush-interval = 1"]
    if tags:
        c += ["[tags]"] + ['%s = "%s"' % x for x in tags.items()]
    fwd = 'forwards = ["sinks.%s"]' % sink
    c += ["[sources.statsd.s]", 'host = "127.0.0.1"', "port = 8125", fwd]
    c += ["[sources.statsd.s.mapping.h]", 'mask = "^h"', "bounds = [10.0, 0.5, 2.0]"]
    c += ["[sources.native.n]", 'ip = "127.0.0.1"', "port = 1980", fwd]
    c += ["[sinks.%s]" % sink, "bin_width = %d" % bw, "flush_interval = %d" % fi]
    if sink == "wavefront":
        c += ["port = 2878", 'host = "127.0.0.1"']
        if age:
            c.append("age_threshold = %d" % age)
        c += ["[sinks.wavefront.percentiles]"] + ['"%s" = %s' % x for x in pct]
        if pad:
            c += ["[sinks.wavefront.padding]"] + ["%s = true" % x for x in pad]
        b.h("server 2878 sink")
    b.cfg = c
    b.at(250000, "connect n 1980", keep=True)
    # keys: (letter of its kind, name, tags)
    keys = []
    shared = {}
    for k in range(r.randint(1, 6)):
        q = r.random()
        if not pad and q < 0.45:
            ty = r.choice(["C", "G", "T", "h"])        # statsd
            keys.append((ty, "%s%d" % (ty, k), {}))
        else:
            ty = r.choice(["c", "e"]) if pad else r.choice(["c", "g", "g", "t", "p"])   # native: sum, (e: set), gauge, timer, lasting sum
            n = "%s%d" % (ty, k)
            tg = {}
            if sink == "wavefront" and r.random() < 0.5:
                # the same name under other tags
                n = shared.setdefault(ty, n)
                tg = {r.choice(["k", "l"]): r.choice(["1", "2"]) for _ in range(r.choice([0, 1, 2]))}
            if (ty, n, tg) not in keys:
                keys.append((ty, n, tg))
    spread = r.choice([[0, 0, 1], [-1, 0, 0, 1, 2], [-20, -10, -5, -1, 0, 1, 5, 10, 20], [0, 1, 5, 1000, EPOCH]])
    if age:
        spread = [-10, 0, 0, 5, 10, -200, -100000, 300, -EPOCH]
    t = 300000

    def val(nz):
        v = r.choice([1, 2, 3, 5, 0.5, 0.25, -1, -2.5, 7, 12, 100, 1e6, 0])
        return abs(v) or 1 if nz else v
    for _ in range(r.randint(4, 40)):
        t += r.choice([0, 0, 0, 10, 1000, 20000, 200000, 700000, 1300000, 3000000])
        st, pl = [], b""
        for _ in range(r.choice([1, 1, 2, 5])):
            ty, n, tg = r.choice(keys)
            v = val(bool(pad))
            if ty in "CGTh":
                f = {"C": "c", "T": "ms", "h": r.choice(["h", "ms"])}.get(ty) or "g"
                s = "%s:%s%s|%s" % (n, r.choice(["", "", "+"]) if f == "g" and v >= 0 else "", v, f)
                if f == "c" and r.random() < 0.2:
                    s += "|@0.5" if r.random() < 0.5 else "@0.25"
                st.append(s)
            else:
                o = r.choice(spread)
                ts = o if abs(o) == 1000 else EPOCH + int(t / 1e6) + o
                ts = max(0, ts)
                many = [val(bool(pad)) for _ in range(r.choice([1, 1, 1, 2, 5, 20]))]
                kind, per = {"c": ("sum", False), "e": ("set", False), "g": (r.choice(["set", "set", "sum"]), r.random() < 0.85), "t": ("summarize", False), "p": ("sum", True)}[ty]
                if pad and sum(many) == 0:
                    many = [1]
                pl += M.enc_point(n, [float(x) for x in many], kind, tg, ts * 1000 + r.randint(0, 999), per)
        if st:
            b.at(t, "udp 8125 " + hexs("\n".join(st)))
        if pl:
            b.at(t, "send n " + M.frame(pl).hex())
    if r.random() < 0.4:
        b.at(t + r.choice([200000, 200000, 800000, 1500000]), "signal 15", keep=True)
        b.meta["sig"] = True
    else:
        b.at(t + (fi * 2 + 1) * SEC, "end", keep=True)
    b.meta["keys"] = [list(k) for k in keys]
    return b.case()


# ------------------------------------------------------------------ the model
# a bin: (timestamp, persistent, kind, value); value: a number, a tuple of samples, or a tuple of counts
def add(a, x):
    ka, va, kx, vx = a[2], a[3], x[2], x[3]
    if kx == "set":
        v = vx
    elif kx == "sum":
        v = va + vx
    elif kx == "summarize":
        v = tuple(sorted(va + vx))
    else:
        v = tuple(p + q for p, q in zip(va, vx))
    return (a[0], x[1], kx, v)


def put(bins, x, bw):
    """bins: tuple ordered by bin number"""
    n = int(x[0] / bw)
    for k, a in enumerate(bins):
        m = int(a[0] / bw)
        if m == n:
            return bins[:k] + (add(a, x),) + bins[k + 1:]
        if m > n:
            break
    else:
        k = len(bins)
    if x[1] and k > 0:
        x = add((x[0],) + bins[k - 1][1:], x)
    return bins[:k] + (x,) + bins[k:]


def want(bins, name, meta):
    """[(line name, value or check, timestamp)]"""
    out = []
    con = meta["sink"] == "console"
    for ts, per, kind, v in bins:
        if kind in ("sum", "set"):
            out.append((kind if con else "", name, v, ts))
        elif kind == "summarize":
            n = len(v)
            for p, q in CPCT if con else meta["pct"]:
                out.append(("summarize" if con else "", "%s.%s" % (name, p), ("q", q, v), None if con else ts))
            if not con:
                out.append(("", name + ".count", n, ts))
                out.append(("", name + ".mean", ("mean", sum(v) / n, max(map(abs, v))), ts))
        else:
            for k, b in enumerate(["0.5", "2", "10", "pos_inf"]):
                out.append(("bin" if con else "", "%s_%s" % (name, b), v[k], ts))
    if con:
        out.sort(key=lambda x: ["sum", "set", "summarize", "bin"].index(x[0]))
    return out


def same(w, g):
    if len(w) != len(g):
        return False
    for a, x in zip(w, g):
        if a[0] != x[0] or a[1] != x[1] or a[3] is not None and a[3] != x[3]:
            return False
        v = a[2]
        if isinstance(v, tuple):
            if v[0] == "q":
                if not M.quantile_ok(list(v[2]), v[1], x[2]):
                    return False
            elif abs(v[1] - x[2]) > 1e-9 * max(1.0, v[2]):
                return False
        elif not M.feq(v, x[2]):
            return False
    return True


def batches(log, meta):
    """[(t, {(line name, tags): [(section, line name, value, ts)]})] in the order of the flushes"""
    out, bad = [], []
    # a flush which the end of the scenario may have cut short says nothing
    cut = log.t_us - 400000 if log.end == "SCENARIOEND" else 1 << 60
    if meta["sink"] == "wavefront":
        for (ep, no), chunks in sorted(log.written(2878).items()):
            for t, d in chunks:
                if t >= cut:
                    continue
                if not d.endswith(b"\n"):
                    bad.append("a flush does not end with a line: %r" % d[-60:])
                m = defaultdict(list)
                for l in d.decode(errors="replace").split("\n")[:-1]:
                    f = l.split(" ")
                    try:
                        tg = tuple(sorted(tuple(x.split("=", 1)) for x in f[3:] if x))
                        m[f[0], tg].append(("", f[0], float(f[1]), int(f[2])))
                    except (ValueError, IndexError):
                        bad.append("malformed line %r" % l)
                out.append((t, m))
        return out, bad
    cur, sec = None, ""
    buf = b""
    for t, tid, k, rest in log.of("O1"):
        buf += bytes.fromhex(rest)
        while b"\n" in buf:
            l, buf = buf.split(b"\n", 1)
            l = l.decode(errors="replace")
            if l.startswith("Flushing metrics"):
                cur = defaultdict(list)
                out.append([t, cur])
            elif l.startswith("Flushing lines"):
                cur = None
            elif l in ("  sums:", "  sets:", "  summaries:", "  histograms:"):
                sec = {"sums:": "sum", "sets:": "set", "summaries:": "summarize", "histograms:": "bin"}[l.strip()]
            elif l.startswith("    ") and cur is not None:
                out[-1][0] = t
                n, v = l[4:].rsplit(": ", 1)
                if sec == "summarize":
                    p, v = v.split(" ")
                    cur[n + "." + p, ()].append((sec, n + "." + p, float(v), None))
                else:
                    n, ts = n[:-1].rsplit("(", 1)
                    cur[n, ()].append((sec, n, float(v), int(ts)))
            elif l:
                bad.append("unexpected output %r" % l[:80])
    if out and out[-1][0] >= cut:
        out.pop()
    return out, bad


def owner(ln):
    k = 1
    while k < len(ln) and ln[k].isdigit():
        k += 1
    return ln[:k]


def follow(pts, per, key, meta, padded, wide):
    """is there a way to divide the points of a key over the flushes that explains what each reported? (bins seen, violation or None, flushes explained)"""
    name, bw, con = key[0], meta["bw"], meta["sink"] == "console"
    states = {(0, (), 0)}
    nbins = 0
    for fno, (t, d) in enumerate(per):
        g = d.get(key, [])
        if padded:
            g = [x for x in g if x[2] != 0]
        nxt = set()
        now = int(t / 1e6) + EPOCH
        front = {}
        for idx, bins, lt in states:
            front.setdefault(idx, set()).add((bins, lt))
        idx = min(front)
        alive = set()
        while True:
            alive |= front.get(idx, set())
            for bins, lt in alive:
                if same_lines(want(bins, name, meta), g):
                    nbins = max(nbins, len(bins))
                    if bins and bins[-1][1]:
                        for n in (now - 1, now, now + 1) if wide else (now - 1, now):
                            nxt.add((idx, ((n,) + bins[-1][1:],), lt))
                    else:
                        nxt.add((idx, (), lt))
            if idx >= len(pts) or pts[idx][0] > t:
                break
            x = pts[idx]
            alive = set((put(bins, (ts,) + x[2:], bw), ts) for bins, lt in alive for ts in x[1][wide] if ts >= lt or len(x[1][wide]) == 1)
            idx += 1
        if not nxt:
            i0 = min(states)
            return nbins, ("wrong", "key %s, flush %d at %.3f s reported %s; the points not reported before are %s; in force: %s" % (key, fno, t / 1e6, g[:8], [x[:1] + x[2:] for x in pts[i0[0]:i0[0] + 6]], i0[1])), fno
        states = nxt
    n = max(x[0] for x in states)
    if n < len(pts):
        return nbins, ("lost", "key %s: the last %d of %d points were in no flush" % (key, len(pts) - n, len(pts))), len(per)
    return nbins, None, len(per)


def check(case, log):
    meta, st, v = case["meta"], set(), []
    info = dict(nontrivial=False, states=st, counts={})
    info["sample"] = {"events": [e[1][:100] for e in case["events"]][:10], "faults": log.faults}
    sig = meta.get("sig")
    if not log.ok_end() or (log.end == "EXIT") != bool(sig):
        return [("stuck" if log.end != "EXIT" else "died", "run ended with %s; panics %s" % (log.end, log.panics()[:2]))], info
    if log.panics() or sig and log.code != 0:
        return [("died", "exit status %s; panics %s" % (log.code, log.panics()[:2]))], info
    bw, tags = meta["bw"], meta["tags"]
    con = meta["sink"] == "console"
    # what went in, per key and in order: [(earliest arrival, [timestamps it may have got], persistent, kind, value)]
    seqs = defaultdict(list)
    for t, port, d in I.udp(log):
        for m in M.statsd_datagram(d, [("^h", BOUNDS)]):
            w = t / 1e6 + EPOCH     # the clock is read twice a second
            x = tuple(m["samples"]) if m["kind"] in ("summarize", "bin") else m["samples"][0]
            seqs[m["name"], ()].append((t, (list(range(int(w - 0.65), int(w + 0.15) + 1)), list(range(int(w - 1.6), int(w + 1.1) + 1))), m["persist"], m["kind"], x))
    nr = I.reads(log).get(I.client_eps(log).get("n", -1), 0)
    off = 0
    for e in case["events"]:
        w = e[1].split(" ")
        if w[0] != "send":
            continue
        off += len(w[2]) // 2
        if off > nr:
            if not sig:
                v.append(("unread", "%d bytes sent, %d read" % (off, nr)))
            break
        for p in I.native_points(bytes.fromhex(w[2]))[0]:
            s = p["samples"]
            x = tuple(sorted(s)) if p["kind"] == "summarize" else sum(s[1:], s[0]) if p["kind"] == "sum" else s[-1]
            if meta["age"] and abs(p["ts"] - EPOCH - e[0] / 1e6) > meta["age"] * 1.5:
                st.add("aged")
                continue
            seqs[p["name"], () if con else tuple(sorted(p["tags"].items()))].append((e[0], ([p["ts"]],) * 2, p["persist"], p["kind"], x))
    bs, bad = batches(log, meta)
    v += [("garbled", x) for x in bad]
    # per flush and key
    per = []
    for t, m in bs:
        d = defaultdict(list)
        for (ln, tg), ls in m.items():
            tg = tuple(x for x in tg if x[0] not in tags)
            d[owner(ln), tg] += ls
        per.append((t, d))
    if tags and not con:
        for t, m in bs:
            for ln, tg in m:
                if not set(tags.items()) <= set(tg):
                    v.append(("tags", "%s lacks the configured tags: %s" % (ln, tg)))
    known = set(seqs)
    for t, d in per:
        for k in d:
            if k not in known:
                v.append(("spurious", "reported but never received: %s %s" % (k, d[k][:3])))
    nbins = 0
    for key, pts in sorted(seqs.items()):
        name = key[0]
        padded = pts[0][3] in meta["pad"]
        nb, err, fno = follow(pts, per, key, meta, padded, 0)
        if err and pts[0][1][0] != pts[0][1][1]:
            nb, err, fno = follow(pts, per, key, meta, padded, 1)
        nbins = max(nbins, nb)
        if err:
            v.append(err)
        if padded:
            last = []
            for t, d in per[:fno]:
                g = d.get(key, [])
                v += check_pad(key, g, last, bw)
                last += [x[3] for x in g]
        st.add("k:" + pts[0][3] + (":p" if any(x[2] for x in pts) else ""))
    st.add(meta["sink"])
    st.add("flushes%d" % min(6, sum(1 for t, d in per if d)))
    st.add("bins%d" % min(5, nbins))
    if meta["pad"]:
        st.add("pad")
    for f in log.faults:
        st.add("f:" + f)
    info["counts"] = dict(flushes=len(per), points=sum(len(x) for x in seqs.values()), keys=len(seqs))
    info["nontrivial"] = sum(1 for t, d in per if d) >= 2 and (nbins >= 2 or any(len(set(i for i, (t, d) in enumerate(per) if k in d)) >= 2 for k in seqs))
    return v, info


def same_lines(w, g):
    """the same lines, those of one line name in the same order"""
    if len(w) != len(g):
        return False
    a, b = defaultdict(list), defaultdict(list)
    for x in w:
        a[x[0], x[1]].append(x)
    for x in g:
        b[x[0], x[1]].append(x)
    return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)


def check_pad(key, g, last, bw):
    """zero points stand only in gaps"""
    v = []
    real = [x[3] for x in g if x[2] != 0]
    prev = last or []
    for x in g:
        if x[2] == 0:
            z = x[3]
            if z + 1 not in real and z - 1 not in real and z - 1 not in prev:
                v.append(("padding", "key %s: zero at %d is next to no point (points %s, before %s)" % (key, z, real, prev[-6:])))
            elif z in real:
                v.append(("padding", "key %s: zero at %d, where there is a point" % (key, z)))
    if not prev:
        zs = set(x[3] for x in g if x[2] == 0)
        for a, b in zip(real, real[1:]):
            if (b - a) // bw > 1 and not (a + 1 in zs and b - 1 in zs):
                v.append(("padding", "key %s: gap between %d and %d not padded: %s" % (key, a, b, sorted(zs))))
    return v
