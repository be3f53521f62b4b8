"""StatsD datagrams are taken in all or nothing."""
from ..common import *
from .. import model as M
from ..runner import hexs, unhex

RUNS = {"quick": 7000, "thorough": 120000}
RULE = "a run counts when at least 3 well-formed datagrams were read and compared with what left through the native sink, and at least one fault or one malformed datagram was involved"
REAL = REAL_CORE
STUB = STUB_CORE + ["receiving end of the native sink (records bytes)", "StatsD clients"]
STATES = "kinds of datagrams and faults met"
MASKS = [("^hist", [1.0, 10.0, 5.5]), ("tail$", [0.5])]


def good_line(r, pfx):
    n = pfx + name(r, r.choice(["m", "hist", "x", "tail", "ünï", "a b"]))
    if r.random() < 0.1:
        n += "tail"
    v = r.choice(["%d" % r.randint(0, 1000), "%.3f" % r.uniform(-50, 50), "+%d" % r.randint(0, 99), "-%d.5" % r.randint(0, 99), "1e3", "0", "-0", ".5", "3."])
    t = r.choice(["c", "g", "ms", "h"])
    if t in "cg" and r.random() < 0.4:
        t += r.choice(["|@", "@"]) + r.choice(["0.1", "0.5", "1", "0.25", "1.0", ".5", "2", "10"])
    return "%s:%s|%s" % (n, v, t)


def bad_line(r, pfx):
    n = pfx + name(r)
    return r.choice([
        "%s" % n, "%s:" % n, "%s:1" % n, "%s:1|" % n, "%s:|c" % n, "%s:abc|c" % n, ":1|c", "%s:1|q" % n, "%s:1|cx" % n, "%s:1|c|@" % n,
        "%s:1|c|@zz" % n, "%s:1|g@x" % n, "%s:1|m" % n, "%s:1|mss" % n, "%s:1 |c" % n, "%s:1|c " % n, "%s1|c" % n, "%s:1c" % n, "%s:1..2|c" % n,
        "%s:0x10|c" % n, "%s:1|@0.5" % n, "%s:--1|g" % n])


def gen(r, tier, i):
    b = B(r, 40)
    b.sched()
    b.net_faults()
    if r.random() < 0.4:
        b.h("fault udp_err %g" % choose(r, 0.02, 0.2, 0.5))
    b.faults(udp_drop=(0.1,), udp_dup=(0.1,), udp_reorder=(0.3,), oversleep=(0.05,))
    nsrc = r.choice([1, 1, 1, 2])
    if r.random() < 0.2:
        b.h("dns6 1")
    b.h("server 1972 sink")
    b.cfg = ['data-directory = "/sim/data"', "flush-interval = 1"]
    ports = []
    for s in range(nsrc):
        port = 8125 + s
        ports.append(port)
        b.cfg += ["[sources.statsd.s%d]" % s, 'host = "%s"' % r.choice(["localhost", "127.0.0.1", "0.0.0.0"]), "port = %d" % port, 'forwards = ["sinks.native"]']
        for k, (m, bs) in enumerate(MASKS):
            b.cfg += ["[sources.statsd.s%d.mapping.k%d]" % (s, k), 'mask = "%s"' % m, "bounds = %s" % bs]
    b.cfg += ["[sinks.native]", "port = 1972", 'host = "127.0.0.1"', "flush_interval = 1"]
    nd = r.randint(3, 25)
    t = 100000
    for k in range(nd):
        s = r.randrange(nsrc)
        pfx = "s%d." % s
        kind = r.random()
        nl = r.choice([1, 1, 2, 3, 8]) if r.random() < 0.97 else r.choice([700, 1500])
        lines = [good_line(r, pfx) for _ in range(nl)]
        if kind < 0.3:
            lines.insert(r.randint(0, len(lines)), bad_line(r, pfx))
        d = "\n".join(lines) if r.random() < 0.9 else "\r\n".join(lines)
        if r.random() < 0.4:
            d += "\n"
        d = d.encode()
        if 0.3 <= kind < 0.36:
            p = r.randint(0, len(d))
            d = d[:p] + r.choice([b"\xff", b"\xc3", b"\xed\xa0\x80"]) + d[p:]
            try:
                d.decode()
                d += b"\xff"
            except UnicodeDecodeError:
                pass
        if kind > 0.98:
            d = b""
        d = d[:65507]
        t += r.choice([0, 0, 0, 10, 100, 3000, 300000])
        b.at(t, "udp %d %s" % (ports[s], hexs(d)))
        if r.random() < 0.015:
            for q in range(r.choice([20, 70, 300, 1100])):       # a burst
                b.at(t, "udp %d %s" % (ports[s], hexs("%sb%d.%d:%d|%s" % (pfx, k, q, q, r.choice(["c", "ms"])))))
    b.at(t + 1 * SEC, "nofaults", keep=True)
    b.at(t + 1 * SEC + 1000, "mark last", keep=True)
    if r.random() < 0.5:
        for s in range(nsrc):
            b.at(t + 1 * SEC + 2000, "udp %d %s" % (ports[s], hexs("s%d.last:1|c" % s)))
    b.at(t + 6 * SEC, "end", keep=True)
    return b.case()


def key(m):
    return (m["name"], m["kind"], m["persist"], tuple(round(x, 9) if x == x else "nan" for x in m["samples"]))


def check(case, log):
    v = []
    st = set()
    masks = MASKS
    exp = {}
    ngood = nbad = 0
    reads = {}
    for t, tid, k, rest in log.of("UR"):
        port, n, hx = rest.split(" ")
        d = unhex(hx)
        reads.setdefault(int(port), []).append(d)
        ms = M.statsd_datagram(d, masks)
        if ms:
            ngood += 1
            if len(d) > 16250:
                st.add("huge")
        else:
            nbad += 1
            st.add("bad")
        st.add("lines%d" % min(len(ms), 4))
        for m in ms:
            exp.setdefault("s%d" % (int(port) - 8125), []).append((t, m))
    queued = {}
    lastq = 0
    for t, tid, k, rest in log.of("UQ"):
        p = int(rest.split(" ")[0])
        queued[p] = queued.get(p, 0) + 1
    info = dict(nontrivial=ngood >= 3 and (nbad > 0 or bool(log.faults)), states=st, counts=dict(good=ngood, bad=nbad))
    info["sample"] = {"datagrams": [e[1][:160] for e in case["events"] if e[1].startswith("udp")][:4], "faults": log.faults}
    for f in log.faults:
        st.add("f:" + f)
    if not log.ok_end():
        v.append(("stuck", "the run ended with %s instead of reaching its end; panics: %s" % (log.end, log.panics()[:2])))
        return v, info
    if log.end == "EXIT":
        v.append(("died", "cernan exited by itself (code %s): %s" % (log.code, log.panics()[:2])))
        return v, info
    for p, n in queued.items():
        got = len(reads.get(p, []))
        if got != n:
            v.append(("unread", "%d datagrams were queued on port %d but only %d were ever read although cernan kept running" % (n, p, got)))
    pts, lns, errs = M.native_events(log, 1972)
    for e in errs:
        v.append(("undecodable", e))
    got = {}
    for t, p in pts:
        got.setdefault(p["name"].split(".")[0], []).append((t, p))
    for s in sorted(set(exp) | set(got)):
        d = M.diff_seq([m for _, m in exp.get(s, [])], [p for _, p in got.get(s, [])], key)
        if d:
            v.append((d[0], "source %s: %s; panics %s" % (s, d[1], log.panics()[:1])))
        else:
            for (t, m), (t2, p) in zip(exp.get(s, []), got.get(s, [])):
                wall = 1500000000 + t / 1e6
                if not -2.5 <= p["ts"] / 1000.0 - wall <= 1.0:
                    v.append(("timestamp", "%s read at %.3f carries timestamp %s" % (m["name"], wall, p["ts"])))
                    break
                if t2 < t:
                    v.append(("clairvoyant", "delivered before it was read"))
    return v, info
