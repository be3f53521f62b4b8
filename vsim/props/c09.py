"""Wavefront: every aggregated point is delivered despite proxy failures."""
from collections import Counter
from ..common import *
from .. import model as M, intake as I
from ..runner import hexs

RUNS = {"quick": 2500, "thorough": 100000}
RULE = "a run counts when at least 5 points were due at the proxy and a connection failed, was refused or stalled, or a write was short or interrupted"
REAL = REAL_CORE
STUB = STUB_CORE + ["Wavefront proxy (records bytes per connection; refuses, closes, resets, stalls)", "clients of the sources"]
STATES = "kinds of points, how connections ended (inside a line, on a line boundary, inside a flush), faults met"
PCT = [("min", 0.0), ("max", 1.0), ("50", 0.5), ("9x", 0.9), ("99", 0.99)]
VALS = [0.0, 1.0, -1.5, 3.25, 1e-9, 123456789.125, -0.0, 1e300, float("inf"), 1e21, 0.1, 2.5e-300]


def gen(r, tier, i):
    b = B(r, 120)
    b.sched()
    b.net_faults()
    sb = r.choice([100, 300, 2000, 20000]) if r.random() < 0.4 else 0
    fi = r.choice([1, 1, 1, 2, 3])
    tags = {"dc": "x1"} if r.random() < 0.3 else {}
    if tags and r.random() < 0.3:
        tags["a"] = "b"
    b.meta["tags"] = tags
    pct = r.sample(PCT, r.randint(1, len(PCT)))
    b.meta["pct"] = pct
    c = ['data-directory = "/sim/data"', "flush-interval = 1"]
    if tags:
        c += ["[tags]"] + ['%s = "%s"' % x for x in tags.items()]
    fwd = 'forwards = ["sinks.wavefront"]'
    c += ["[sources.statsd.s]", 'host = "127.0.0.1"', "port = 8125", fwd]
    c += ["[sources.graphite.g]", 'host = "127.0.0.1"', "port = 2003", fwd]
    c += ["[sources.native.n]", 'ip = "127.0.0.1"', "port = 1980", fwd]
    c += ["[sinks.wavefront]", "port = 2878", 'host = "%s"' % r.choice(["localhost", "127.0.0.1"]), "flush_interval = %d" % fi, "bin_width = %d" % r.choice([1, 1, 1, 5])]
    c += ["[sinks.wavefront.percentiles]"] + ['"%s" = %s' % x for x in pct]
    b.cfg = c
    b.h("server 2878 sink" + conn_opts(r))
    if r.random() < 0.3:
        b.h("dns6 1")
    b.at(250000, "connect g 2003", keep=True)
    b.at(250000, "connect n 1980", keep=True)
    ids = [0]

    def nid():
        ids[0] += 1
        return "e%05d" % ids[0]
    t = 300000
    big = r.random() < 0.05
    for k in range(r.randint(3, 25)):
        t += r.choice([0, 0, 100, 3000, 20000, 400000, 1500000])
        kind = r.random()
        if kind < 0.25:
            ls = ["%s:%s|%s" % (nid(), r.choice(["1", "2.5", "-3", "+4", "1e3"]), r.choice(["c", "ms", "h", "c|@0.5"])) for _ in range(r.choice([1, 2, 5]))]
            b.at(t, "udp 8125 " + hexs("\n".join(ls)))
        elif kind < 0.5:
            n = r.choice([1, 3, 20, 200]) if not big else r.choice([20, 3000, 11000])
            b.at(t, "send g " + hexs("".join("%s %s %d\n" % (nid() + r.choice(["", ".a-b", "é"]), r.choice(["1", "2.5", "-3", "1e-3"]), r.choice([1, 1500000000, 1400000000]) + r.randint(0, 99)) for _ in range(n))))
        else:
            pl = b""
            for _ in range(r.choice([1, 1, 2, 5, 30])):
                tg = {r.choice(["k", "k2", "ünï", "z"]): r.choice(["v", "漢", "a=b"]) for _ in range(r.choice([0, 0, 1, 2]))}
                ts = r.choice([0, 1, 999, 1000, 1500000000123, 1500000000999, -1, -1500, 4102444800000, r.randint(0, 1 << 42)])
                m = r.choice(["sum", "set", "summarize"])
                v = [r.choice(VALS) if r.random() < 0.3 else float(r.randint(-5, 5)) for _ in range(1 if r.random() < 0.6 else r.randint(1, 40))]
                if m == "summarize" and len(v) > 1:
                    v = [x for x in v if abs(x) < 1e200] or [1.0]       # the running mean of the quantiles crate makes NaN of infinities
                pl += M.enc_point(nid() + r.choice(["", ".a", "é"]), v, m, tg, ts)
            b.at(t, "send n " + M.frame(pl).hex())
    up = t
    if r.random() < 0.6:
        up = trouble(b, 2878, t)
    calm(b, 2878, up + 600000)
    # what a slow network takes to carry all of it, twice
    vol = sum(len(e[1]) // 2 for e in b.events if e[1].startswith("send "))
    if sb:
        sb = max(sb, vol // 2000)
        b.h("sndbuf %d" % sb)
    b.at(up + 9 * SEC + (2 * vol // sb * 4500 if sb else 0), "end", keep=True)
    return b.case()


def flt(s):
    return "%.12g" % (float(s) + 0.0)


def lines_of(p, pct):
    """what the proxy has to be told of a point: [(name, value or ('rank', …), ts, tags)]"""
    tg = tuple(sorted(p["tags"].items()))
    s = p["samples"]
    if p["kind"] == "set":
        return [(p["name"], s[-1], p["ts"], tg)]
    if p["kind"] == "sum":
        return [(p["name"], sum(s[1:], s[0]), p["ts"], tg)]
    out = [("%s.%s" % (p["name"], n), ("q", q, sorted(s)), p["ts"], tg) for n, q in pct]
    out.append((p["name"] + ".count", len(s), p["ts"], tg))
    out.append((p["name"] + ".mean", ("mean", sum(s) / len(s), max(map(abs, s))), p["ts"], tg))
    return out


def parse(line):
    """(name, value, ts, tags) or None"""
    f = line.split(" ")
    if len(f) < 3 or not f[0]:
        return None
    try:
        v, ts = float(f[1]), int(f[2])
    except ValueError:
        return None
    tg = []
    for x in f[3:]:
        if x == "" and len(f) == 4:
            continue
        if "=" not in x:
            return None
        tg.append(tuple(x.split("=", 1)))
    return f[0], v, ts, tuple(sorted(tg))


def check(case, log):
    v, st = [], set()
    meta = case["meta"]
    info = dict(nontrivial=False, states=st, counts={})
    info["sample"] = {"events": [e[1][:100] for e in case["events"]][:8], "faults": log.faults}
    for f in log.faults:
        st.add("f:" + f)
    if not log.ok_end() or log.end == "EXIT":
        return [("stuck" if log.end != "EXIT" else "died", "run ended with %s; panics %s" % (log.end, log.panics()[:2]))], info
    # what went in
    exp = []
    tags = meta["tags"]
    for c, (sent, got) in I.streams(case, log).items():
        if len(sent) != len(got):
            v.append(("unread", "client %s sent %d bytes, %d were read" % (c, len(sent), len(got))))
        exp += I.graphite_points(got, tags) if c == "g" else I.native_points(got, tags)[0]
    exp += I.udp_points(log, (), tags)
    due = {}
    for p in exp:
        st.add("p:%s:%d" % (p["kind"], min(2, len(p["samples"]))))
        for n, val, ts, tg in lines_of(p, meta["pct"]):
            due[n] = (val, ts, tg)
    # what came out: cut each connection's data at the point from which it was sent again
    refused = set()
    for t, tid, k, rest in log.of("we"):
        refused.add(int(rest.split(" ")[0]))
    cs, starts = [], {}
    for (ep, no), chunks in sorted(log.written(2878).items(), key=lambda x: x[0][1]):
        n, starts[no] = 0, set()
        for _, d in chunks:
            starts[no].add(n)
            n += len(d)
        cs.append((ep, no, b"".join(d for _, d in chunks)))
    got = Counter()
    unfinished = None       # the data whose re-sending the next connection owes
    for i, (ep, no, d) in enumerate(cs):
        nxt = next((x[2] for x in cs[i + 1:] if x[2]), b"")
        broke = ep in refused
        cut = len(d)
        tail = d.rfind(b"\n") + 1
        if tail != len(d) and not broke:
            v.append(("cut-line", "connection %d stayed healthy for the sink but its data ends inside a line: %r" % (no, d[tail:][:80])))
        if broke:
            # the batch that failed: the longest suffix, starting on a line, that the next connection begins with
            best = None
            more = next((x[0] in refused for x in cs[i + 1:] if x[2]), False)
            fl = nxt[:nxt.find(b"\n") + 1] or nxt
            p = d.find(fl) if fl else -1
            while p >= 0:
                if p == 0 or d[p - 1:p] == b"\n":
                    m = d[p:]
                    if nxt.startswith(m) or more and m.startswith(nxt):
                        best = p
                        break
                p = d.find(fl, p + 1)
            if best is None and fl and tail != len(d) and fl.startswith(d[tail:]) and (nxt.startswith(d[tail:]) or more):
                best = tail
            if best is not None and best not in starts[no]:
                v.append(("resent-part", "connection %d failed; what the next connection begins with is not the start of a batch but byte %d of it: %r" % (no, best, nxt[:60])))
            if best is not None:
                cut = best
                st.add("resent:%s" % ("line" if tail == len(d) else "mid"))
            elif tail != len(d):
                later = any(x[2] for x in cs[i + 1:])
                v.append(("not-resent", "connection %d failed inside a line and %s" % (no, "the next connection does not begin with that batch: %r…" % nxt[:60] if later else "nothing was sent after it")))
                cut = tail
            else:
                st.add("broke:clean")
        for l in d[:cut].split(b"\n")[:-1]:
            got[l] += 1
    bad = None
    seen = Counter()
    for l, n in got.items():
        try:
            q = parse(l.decode())
        except UnicodeDecodeError:
            q = None
        if q is None:
            v.append(("malformed", "line %r" % l[:120]))
            break
        e = due.get(q[0])
        if e is None:
            v.append(("spurious", "line %r: no such point was taken in" % l[:120]))
            break
        val = e[0]
        if isinstance(val, tuple) and val[0] == "mean":
            okv = M.feq(val[1], q[1]) or abs(val[1] - q[1]) <= 1e-9 * val[2]
        elif isinstance(val, tuple):
            okv = M.quantile_ok(val[2], val[1], q[1])
        else:
            okv = flt(val) == flt(q[1]) or M.feq(val, q[1]) or (val != val and q[1] != q[1])
        okt = q[2] == e[1] if e[1] is not None else 1499999999 <= q[2] <= 1500000200
        if not okv or not okt or q[3] != e[2]:
            v.append(("altered", "line %r; expected value %r, time %r, tags %r" % (l[:120], val, e[1], e[2])))
            break
        seen[q[0]] += n
    miss = [n for n in due if not seen[n]]
    dup = [n for n in due if seen[n] > 1]
    if miss and not v:
        v.append(("lost", "%d of %d lines never arrived, e.g. %r; panics %s" % (len(miss), len(due), miss[0], log.panics()[:1])))
    if dup and not v:
        v.append(("duplicated", "%d lines arrived more than once though their batch had been accepted, e.g. %r" % (len(dup), dup[0])))
    info["counts"] = dict(points=len(exp), lines=len(due), connections=len(cs), failed_writes=len(refused))
    info["nontrivial"] = len(exp) >= 5 and bool(refused or len(cs) > 1 or len(log.of("XREFUSED", "wblock")) or st & {"f:short_write", "f:eintr"})
    return v, info
