"""Native transport carries events between cernans unchanged."""
from ..common import *
from .. import model as M, topo as T
from ..runner import hexs, unhex

RUNS = {"quick": 4000, "thorough": 100000}
RULE = "a run counts when at least 5 events went into the native sink and either a connection failed or was refused, or an idle period or segmentation fault occurred"
REAL = REAL_CORE
STUB = STUB_CORE + ["a relay between the native sink and the native source of the same process (cuts, delays, resets), or a recording endpoint", "clients of the sources", "endpoints of the InfluxDB and Elasticsearch sinks behind the receiving side"]
STATES = "kinds of events, how connections ended relative to a frame, faults met"
VALS = [0.0, 1.0, -1.5, 3.25, 1e-9, 123456789.125, -0.0, 1e300, float("inf"), float("-inf")]


def gen(r, tier, i):
    b = B(r, 120)
    b.sched()
    b.net_faults()
    loop = r.random() < 0.4
    b.meta["loop"] = loop
    big = r.random() < 0.04
    if r.random() < 0.4:
        b.h("sndbuf %d" % (60000 if big else r.choice([300, 2000, 20000])))
    fi = r.choice([1, 1, 1, 2, 3])
    tags = {"dc": "x1"} if r.random() < 0.3 else {}
    b.meta["tags"] = tags
    c = ['data-directory = "/sim/data"', "flush-interval = 1"]
    if tags:
        c += ["[tags]", 'dc = "x1"']
    fwd = 'forwards = ["sinks.native"]'
    nsrc = r.choice([1, 1, 2])
    opts = "server 1972 relay to=1990" if loop else "server 1972 sink"
    nconn = r.choice([0, 0, 1, 2, 4])
    for k in range(nconn):
        q = r.random()
        if q < 0.6:
            opts += " conn%d=rst:%d" % (k, r.choice([0, 1, 3, 4, 5, 50, r.randint(0, 3000), r.randint(0, 40000)]))
        elif q < 0.8:
            opts += " conn%d=kill:%d" % (k, r.randint(0, 3000000))
        else:
            opts += " conn%d=close:%d" % (k, r.randint(0, 3000000))
    if r.random() < 0.2:
        opts += " down"
    b.h(opts)
    if r.random() < 0.3:
        b.h("dns6 1")
    ids = [0]
    ev = []
    if loop:
        c += ["[sources.statsd.s]", 'host = "127.0.0.1"', "port = 8125", fwd]
        c += ["[sources.graphite.g]", 'host = "127.0.0.1"', "port = 2003", fwd]
        c += ["[sources.files.f]", 'path = "/sim/logs/f.log"', fwd]
        c += ["[sources.native.back]", 'ip = "127.0.0.1"', "port = 1990", 'forwards = ["sinks.influxdb", "sinks.elasticsearch"]']
        c += ["[sinks.influxdb]", 'host = "127.0.0.1"', "port = 8089", 'db = "db"', "secure = false", "flush_interval = 1"]
        c += ["[sinks.elasticsearch]", 'host = "127.0.0.1"', "port = 9200", "secure = false", "delivery_attempt_limit = 10", "flush_interval = 1"]
        b.h("server 8089 http")
        b.h("server 9200 http default=items")
        b.h("mkdir /sim/logs")
        b.h("file /sim/logs/f.log -")
        b.at(250000, "connect g 2003", keep=True)
    else:
        for s in range(nsrc):
            c += ["[sources.native.n%d]" % s, 'ip = "127.0.0.1"', "port = %d" % (1980 + s), fwd]
        if r.random() < 0.4:
            c += ["[sources.statsd.s]", 'host = "127.0.0.1"', "port = 8125", fwd]
        for k in range(nsrc * 2):
            b.at(250000, "connect n%d %d" % (k, 1980 + k % nsrc), keep=True)
    c += ["[sinks.native]", "port = 1972", 'host = "%s"' % r.choice(["localhost", "127.0.0.1"]), "flush_interval = %d" % fi]
    b.cfg = c

    def nid():
        ids[0] += 1
        return "e%05d" % ids[0]
    t = 300000
    n = r.randint(3, 25)
    for k in range(n):
        t += r.choice([0, 0, 100, 3000, 20000, 400000, 3000000])
        kind = r.random()
        if loop:
            if kind < 0.4:
                ls = []
                for _ in range(r.choice([1, 2, 5])):
                    ls.append("%s:%s|%s" % (nid(), r.choice(["1", "2.5", "-3", "+4", "1e3"]), r.choice(["c", "g", "ms", "h", "c|@0.5"])))
                b.at(t, "udp 8125 " + hexs("\n".join(ls)))
            elif kind < 0.7:
                b.at(t, "send g " + hexs("".join("%s %s %d\n" % (nid(), r.choice(["1", "2.5", "-3", "1e-3"]), r.choice([1, 1500000000, 1400000000]) + r.randint(0, 99)) for _ in range(r.choice([1, 3, 20])))))
            else:
                b.at(t, "append /sim/logs/f.log " + hexs("".join("%s %s\n" % (nid(), "".join(r.choice("ab c\t\"\\é漢{}") for _ in range(r.choice([0, 5, 60]))) + "x") for _ in range(r.choice([1, 3, 10])))))
        else:
            pl = b""
            for _ in range(r.choice([0, 1, 1, 2, 5, 30])):
                tg = {r.choice(["k", "k2", "ünï", "z"]): r.choice(["", "v", "漢", "a b"]) for _ in range(r.choice([0, 0, 1, 2]))}
                ts = r.choice([0, 1, 999, 1000, 1500000000123, 1500000000999, -1, -1500, 4102444800000, r.randint(0, 1 << 42)])
                if r.random() < 0.6:
                    m = r.choice(["sum", "set", "summarize"])
                    v = [r.choice(VALS) if r.random() < 0.3 else float(r.randint(-5, 5)) for _ in range(1 if r.random() < 0.6 else r.randint(1, 40))]
                    if float("inf") in v and float("-inf") in v:
                        v = [x for x in v if x != float("-inf")]
                    pl += M.enc_point(nid() + r.choice(["", ".a", " b", "é"]), v, m, tg, ts, r.random() < 0.3)
                else:
                    s = "".join(r.choice("ab c\t\"\\é漢{}\n") for _ in range(r.choice([0, 5, 60, 600])))
                    if big:
                        s += "y" * r.choice([40000, 200000])
                    if len(pl) + len(s) > 1000000:
                        continue
                    pl += M.enc_line(r.choice(["/a/b", "", "p q"]), nid() + s, tg, ts)
            cid = "n%d" % r.randrange(nsrc * 2)
            b.at(t, "send %s %s" % (cid, M.frame(pl).hex()))
            if r.random() < 0.1:
                b.at(t, "udp 8125 " + hexs("%s:1|c" % nid()))
    up = t
    if r.random() < 0.5:
        for _ in range(r.randint(1, 4)):
            q = r.randint(250000, t + 500000)
            w = r.choice(["kill", "kill", "closeall", "down", "stallall"])
            b.at(q, "%s 1972" % w)
            if w == "down":
                b.at(q + 1, "kill 1972")
                b.at(q + r.choice([1000, 300000, 2000000]), "up 1972", keep=True)
            if w == "stallall":
                b.at(q + r.choice([1000, 300000, 2000000]), "unstallall 1972", keep=True)
            if r.random() < 0.3:
                b.at(q + 2000, "fault conn_refused 0.5" if r.random() < 0.5 else "fault conn_reset 0.1")
    for e in b.events:
        if e[1] in ("up 1972", "unstallall 1972"):
            up = max(up, e[0])
    b.at(up + 600000, "nofaults", keep=True)
    b.at(up + 600001, "up 1972", keep=True)
    b.at(up + 600002, "unstallall 1972", keep=True)
    b.at(up + 9 * SEC, "end", keep=True)
    return b.case()


def ck(p):
    """what has to be the same of a point or a line"""
    if "samples" in p:
        s = list(p["samples"])
        if p["kind"] == "sum":
            s = [sum_like(s)]
        elif p["kind"] == "set":
            s = s[-1:]
        else:
            s = sorted(s)
        return ("p", p["name"], p["kind"], p["persist"], tuple("%.12g" % (x + 0.0) for x in s), p["ts"], tuple(sorted(p["tags"].items())))
    return ("l", p["path"], p["value"], p["ts"], tuple(sorted(p["tags"].items())))


def sum_like(s):
    x = s[0]
    for y in s[1:]:
        x += y
    return x


def secs(ms):
    return int(ms * 0.001) * 1000


def check(case, log):
    v, st = [], set()
    meta = case["meta"]
    info = dict(nontrivial=False, states=st, counts={})
    info["sample"] = {"events": [e[1][:100] for e in case["events"]][:8], "faults": log.faults}
    for f in log.faults:
        st.add("f:" + f)
    if not log.ok_end() or log.end == "EXIT":
        return [("stuck" if log.end != "EXIT" else "died", "run ended with %s; panics %s" % (log.end, log.panics()[:2]))], info
    # ---- what the sink put on each connection
    conns = []
    try:
        for (ep, no), chunks in sorted(log.written(1972).items()):
            data = b"".join(d for _, d in chunks)
            fr, rest = M.native_frames(data)
            conns.append(dict(ep=ep, no=no, frames=[M.native_payload(f) for f in fr], rest=rest, data=data, raw=fr))
    except Exception as e:
        return [("undecodable", "the native sink's stream does not decode: %r" % e)], info
    for c in conns:
        st.add("conn%d:%s" % (min(len(c["frames"]), 3), "partial" if c["rest"] else "whole"))
    for f in log.faults:
        if f in ("segment", "short_write", "short_read"):
            st.add("cut")
    broken = len(log.of("XRST", "RSTIN", "XREFUSED")) + len(conns) - 1
    gp = [p for c in conns for pts, _ in c["frames"] for p in pts]
    gl = [l for c in conns for _, ls in c["frames"] for l in ls]
    for c in conns:
        if any(not p and not l for p, l in c["frames"]):
            v.append(("empty-frame", "an empty payload was sent"))
        if any(len(x) > 1048576 for x in c["raw"]):
            v.append(("oversized-frame", "a frame of %d bytes was sent; no native source takes more than 1 MiB" % max(len(x) for x in c["raw"])))
    # a partly written frame is sent again from its start
    flat = [(c["no"], x) for c in conns for x in c["raw"]]
    for k, c in enumerate(conns):
        if c["rest"]:
            nxt = [M.frame(x) for n, x in flat if n > c["no"]][:1]
            if nxt and not (nxt[0].startswith(c["rest"]) or len(c["rest"]) < 4):
                v.append(("resend", "connection %d broke inside a frame; the next whole frame (connection > %d) is not that frame" % (c["no"], c["no"])))
            if not nxt and not any(d["rest"].startswith(c["rest"]) for d in conns[k + 1:]):
                v.append(("not-resent", "connection %d broke inside a frame that was never sent again" % c["no"]))
    # ---- what went into the sink
    exp_p, exp_l = {}, {}           # per origin
    if meta["loop"]:
        origin_checks(case, log, exp_p, exp_l)
    else:
        sent = {}
        eps = {}
        for t, tid, k, rest in log.of("CLIENT"):
            c, ep = rest.split(" ")
            eps[c] = int(ep[3:])
        nread = {}
        for t, tid, k, rest in log.of("r"):
            f = rest.split(" ")
            nread[int(f[0])] = nread.get(int(f[0]), 0) + int(f[1])
        for e in case["events"]:
            w = e[1].split(" ")
            if w[0] == "send":
                sent[w[1]] = sent.get(w[1], b"") + bytes.fromhex(w[2])
        for cid, d in sent.items():
            n = nread.get(eps[cid], 0)
            if n != len(d):
                v.append(("unread", "client %s sent %d bytes, %d were read" % (cid, len(d), n)))
            fr, _ = M.native_frames(d[:n])
            for f in fr:
                pts, lns = M.native_payload(f)
                for p in pts:
                    if not p["samples"]:
                        continue
                    q = dict(p, ts=secs(p["ts"]), tags=dict(meta["tags"], **p["tags"]))
                    exp_p.setdefault(cid, []).append(q)
                    st.add("p:" + p["kind"] + ("+" if len(p["samples"]) > 1 else ""))
                for l in lns:
                    exp_l.setdefault(cid, []).append(dict(l, ts=secs(l["ts"]), tags=dict(meta["tags"], **l["tags"])))
                    st.add("l")
        for t, tid, k, rest in log.of("UR"):
            for m in M.statsd_datagram(unhex(rest.split(" ")[2])):
                exp_p.setdefault("udp", []).append(dict(m, ts=None, tags=dict(meta["tags"])))
    info["counts"] = dict(points=sum(map(len, exp_p.values())), lines=sum(map(len, exp_l.values())), connections=len(conns), frames=sum(len(c["frames"]) for c in conns))
    info["nontrivial"] = info["counts"]["points"] + info["counts"]["lines"] >= 5 and (broken > 0 or bool(st & {"f:segment", "f:short_write", "f:short_read", "f:eintr"}) or len(case["events"]) > 4)
    for exp, got, what in ((exp_p, gp, "point"), (exp_l, gl, "line")):
        owner = {}
        for o, es in exp.items():
            for e in es:
                owner[ident(e)] = o
        by = {}
        for g in got:
            o = owner.get(ident(g))
            if o is None:
                v.append(("spurious", "%s %r was never taken in" % (what, g)))
                break
            by.setdefault(o, []).append(g)
        for o, es in exp.items():
            g = by.get(o, [])
            notime = {ident(e) for e in es if e["ts"] is None}
            if notime:
                for x in g:
                    if ident(x) in notime and not 1499999990000 <= x["ts"] <= 1500000200000:
                        v.append(("timestamp", "%r" % x))
                g = [dict(x, ts=None) if ident(x) in notime else x for x in g]
            d = M.diff_seq(es, g, ck)
            if d:
                v.append((d[0] + "-sink", "%ss of %s at the native sink's endpoint: %s; panics %s" % (what, o, d[1], log.panics()[:1])))
    # ---- what the receiving side made of it
    if meta["loop"] and not v:
        v += receiving(case, log, conns, st, info)
    return v, info


def ident(e):
    return (e["name"] if "name" in e else e["value"])[:6]


def origin_checks(case, log, exp_p, exp_l):
    tags = case["meta"]["tags"]
    for t, tid, k, rest in log.of("UR"):
        for m in M.statsd_datagram(unhex(rest.split(" ")[2])):
            exp_p.setdefault("udp", []).append(dict(m, ts=None, tags=dict(tags)))
    g = b""
    for e in case["events"]:
        w = e[1].split(" ")
        if w[0] == "send":
            g += bytes.fromhex(w[2])
        elif w[0] == "append":
            for l in bytes.fromhex(w[2]).decode().split("\n")[:-1]:
                exp_l.setdefault("file", []).append(dict(path=w[1], value=l, ts=None, tags=dict(tags)))
    for l in g.decode().split("\n")[:-1]:
        f = l.split(" ")
        exp_p.setdefault("graphite", []).append(dict(name=f[0], samples=[float(f[1])], kind="set", persist=False, ts=int(f[2]) * 1000, tags=dict(tags)))


def merges(seqs, got):
    """whether got interleaves the sequences: each connection is handled on its own, so what comes over successive ones may overlap"""
    state = {tuple(0 for _ in seqs)}
    for g in got:
        nxt = set()
        for s in state:
            here = [i for i in range(len(seqs)) if s[i] < len(seqs[i]) and seqs[i][s[i]] == g]
            for i in here:
                nxt.add(tuple(x + (j == i) for j, x in enumerate(s)))
            if len(here) > 1:
                nxt.add(tuple(x + (j in here) for j, x in enumerate(s)))
        state = nxt
        if not state or len(state) > 20000:
            return bool(state)
    return any(all(x == len(q) for x, q in zip(s, seqs)) for s in state)


def receiving(case, log, conns, st, info):
    v = []
    ep = {}
    for t, tid, k, rest in log.of("RELAY"):
        p, no, e = rest.split(" ")
        ep[int(no)] = int(e[3:])
    nread, lost = {}, set()
    for t, tid, k, rest in log.of("r"):
        f = rest.split(" ")
        nread[int(f[0])] = nread.get(int(f[0]), 0) + int(f[1])
    pts, lns, pc, lc = [], [], [], []
    for c in conns:
        e = ep.get(c["no"])
        n = nread.get(e, 0)
        fr, _ = M.native_frames(c["data"][:n])
        pc.append([])
        lc.append([])
        for f in fr:
            a, b = M.native_payload(f)
            pts += a
            lns += b
            pc[-1] += a
            lc[-1] += b
        # bytes accepted but not taken in by the receiver: only when the connection broke
        if n < len(c["data"]):
            dead = any(int(x[3].split(" ")[0]) in (e, c["ep"]) for x in log.of("RSTIN", "XRST", "SRST", "FININ", "SFIN"))
            if not dead:
                v.append(("unread", "the receiving side read %d of %d bytes of a connection that stayed healthy" % (n, len(c["data"]))))
            st.add("receiver-cut")
    tags = case["meta"]["tags"]
    got, e1 = T.sink_view(case, log, dict(kind="influxdb", path="sinks.influxdb"))

    def key(p):
        return (p["name"][:6], "%.12g" % p["samples"][-1], p["ts"] // 1000, tuple(sorted(p["tags"].items())))
    exp = [key(p) for p in pts]
    g = [(i, "%.12g" % d["v"][0], d["ts"], tuple(sorted(d["tags"].items()))) for f, i, d in got]
    # quantile lines per summary: every one carries the single sample
    def uniq(xs):
        out = []
        for x in xs:
            if not out or out[-1] != x:
                out.append(x)
        return out
    d = M.diff_seq(uniq(exp), uniq(g), lambda x: x)
    if d and not (d[0] == "reordered" and merges([uniq([key(p) for p in c]) for c in pc], uniq(g))):
        v.append((d[0] + "-received", "points behind the receiving side: %s; panics %s" % (d[1], log.panics()[:1])))
    got, e2 = T.sink_view(case, log, dict(kind="elasticsearch", path="sinks.elasticsearch"))
    d = M.diff_seq([(l["value"], l["path"]) for l in lns], [(d["text"], d["lpath"]) for f, i, d in got], lambda x: x)
    if d and not (d[0] == "reordered" and merges([[(l["value"], l["path"]) for l in c] for c in lc], [(d["text"], d["lpath"]) for f, i, d in got])):
        v.append((d[0] + "-received", "lines behind the receiving side: %s; panics %s" % (d[1], log.panics()[:1])))
    for e in (e1 + e2)[:1]:
        v.append(("malformed-received", e))
    info["counts"]["received"] = len(pts) + len(lns)
    return v
