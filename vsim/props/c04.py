"""A misbehaving TCP client harms nobody but itself."""
import struct
from ..common import *
from .. import wl_tcp as W, model as M, intake as I
from ..runner import hexs

RUNS = {"quick": 4000, "thorough": 200000}
RULE = "a run counts when at least one client misbehaved and at least 5 messages of others (or of its own, before) were due"
REAL = REAL_CORE
STUB = STUB_CORE + ["well-behaved and misbehaving clients of the sources", "endpoint of the native sink", "Kafka broker behind the avro source"]
STATES = "kinds of misbehaviour per source, how clients left, faults met, how the run ended"


def bad_graphite(r):
    return r.choice([b"bad\n", b"bad 1\n", b"bad x 1\n", b"bad 1 x\n", b"bad 1 1.5\n", b"bad 1 1 more\n", b"bad 1 1 more 2\n", b"bad NaN 1\n", b"bad inf 1\n", b"bad 1e999 1\n",
                     b"bad 1 9223372036854775808\n", b"bad\xff\xfe 1 1\n", b"\xc3\n", b"\n", b"  \n", b"\r\n", b"bad 1 1 \xed\xa0\x80 1 1\n", b"GET / HTTP/1.1\r\nHost: x\r\n\r\n", b"\x00\x00\x00\n", b"\x16\x03\x01\x02\x00\x01\n",
                     b"bad " * 5000 + b"\n", b"bad,1,1\n", b"bad 0x10 1\n", b"bad 1 1 b2 x 3\n", b"bad --1 1\n", b"bad 1 \n"])


def bad_native(r):
    """(kind, bytes)"""
    q = r.choice(["big", "huge", "garbage", "trunc", "wire", "utf8", "type", "http", "neglen", "group", "zero"])
    p = M.enc_point("bad-1", [1.0], "sum", {"k": "v"}, 5)
    f = {"big": lambda: struct.pack(">I", 1048577) + b"x" * 50, "huge": lambda: b"\xff\xff\xff\xff" + b"y" * r.choice([0, 3, 300]), "garbage": lambda: M.frame(bytes(r.randrange(1, 256) | 0x80 for _ in range(r.choice([12, 90])))),
         "trunc": lambda: M.frame(p[:-r.randint(1, len(p) - 2)]), "wire": lambda: M.frame(b"\x17\x01"), "utf8": lambda: M.frame(M._ld(2, M._ld(1, b"bad\xff\xfe"))), "type": lambda: M.frame(M._ld(2, M._ev(1 << 3) + b"\x05")),
         "http": lambda: b"POST /write HTTP/1.1\r\nHost: a\r\n\r\n", "neglen": lambda: M.frame(b"\x12" + b"\xff" * 9 + b"\x01"), "group": lambda: M.frame(b"\x1b" * r.choice([1, 1000])), "zero": lambda: M.frame(b"\x00" * 5)}[q]
    return q, f()


def _kv(k, v):
    return M._zz(len(k)) + k + M._zz(len(v)) + v


def bad_avro(r):
    S = b"0123456789abcdef"
    sch = _kv(b"avro.schema", b'"string"')
    blob = M.avro_blob("bad-text")
    n = r.choice([1 << 20, 1 << 31, 1 << 33, 1 << 40, 1 << 46, 1 << 55, 1 << 61, (1 << 63) - 1, -1, -5])
    q = r.choice(["short", "magic", "cut", "noschema", "json", "codec", "len", "klen", "count", "utf8", "null", "kv", "kvnul", "kvcut", "huge", "http", "empty", "deep", "nosync", "type"])
    hd = lambda kv=b"", ver=1: struct.pack(">IIQQ", ver, r.choice([0, 0, 1]), 7, 0) + kv
    fr = lambda b: M.frame(hd() + b)
    f = {"short": lambda: M.frame(b"\x00" * r.randint(0, 23)), "magic": lambda: fr(b"Obk\x01" + blob[4:]), "cut": lambda: fr(blob[:r.randint(0, 30)]),
         "noschema": lambda: fr(b"Obj\x01" + M._zz(1) + _kv(b"avro.codec", b"null") + M._zz(0) + S), "json": lambda: fr(b"Obj\x01" + M._zz(1) + _kv(b"avro.schema", b'{"type":') + M._zz(0) + S),
         "codec": lambda: fr(M.avro_blob("bad", codec=b"lzma")), "len": lambda: fr(b"Obj\x01" + M._zz(1) + M._zz(11) + b"avro.schema" + M._zz(n) + b'"string"' + M._zz(0) + S),
         "klen": lambda: fr(b"Obj\x01" + M._zz(1) + M._zz(n) + b"avro.schema" + M._zz(0) + S), "count": lambda: fr(b"Obj\x01" + M._zz(r.choice([n, -(1 << 63), -(1 << 40)])) + sch + M._zz(0) + S),
         "utf8": lambda: fr(b"Obj\x01" + M._zz(2) + sch + _kv(b"\xff\xfe", b"") + M._zz(0) + S), "null": lambda: fr(b"Obj\x01" + M._zz(1) + _kv(b"avro.schema", b'"nosuch"') + M._zz(0) + S),
         "kv": lambda: M.frame(hd(b"\x01\x02\xff\xfe\x00\x01x", 2) + blob), "kvnul": lambda: M.frame(hd(b"\x01\x02a\x00\x00\x01x", 2) + blob), "kvcut": lambda: M.frame(hd(b"\xff\x02ab\x00\x01x", 2) + b"x" * r.choice([0, 20])),
         "huge": lambda: b"\xff\xff\xff\xff" + b"z" * r.choice([0, 100]), "http": lambda: b"GET / HTTP/1.1\r\n\r\n", "empty": lambda: M.frame(b""), "deep": lambda: fr(b"Obj\x01" + M._zz(1) + _kv(b"avro.schema", b'{"type":"array","items":' * 3000 + b'"string"' + b"}" * 3000) + M._zz(0) + S),
         "nosync": lambda: fr(b"Obj\x01" + M._zz(1) + sch + M._zz(0) + S[:5]), "type": lambda: fr(b"Obj\x01" + M._zz(1) + _kv(b"avro.schema", r.choice([b"5", b"null", b"[]", b"{}", b'{"type":"record"}', b'{"type":"enum","name":"a","symbols":[]}', b'{"type":"fixed","name":"a","size":-1}', b'[[]]'])) + M._zz(0) + S)}[q]
    # an optional type may well be taken
    return q, f()


def gen(r, tier, i):
    b = B(r, 200)
    b.sched()
    b.net_faults()
    b.faults(accept_err=(0.1, 0.4))
    tags = {}
    kinds = r.choice(["g", "n", "a", "gn", "gna", "a"])
    W.config(b, kinds, tags)
    b.cfg += ["[sources.statsd.s]", 'host = "127.0.0.1"', "port = 8125", 'forwards = ["sinks.native"]']
    t0 = 250000
    metas, what, end, left = [], [], t0, 0
    b.at(t0 - 10000, "stat", keep=True)
    for k in range(r.choice([2, 3, 4, 6, 12])):
        kind = kinds[k % len(kinds)]
        bad = r.random() < 0.6
        c = W.Conn(r, kind, "%s%d" % (kind, k), tags)
        t = t0 + r.choice([0, 0, 1000, 400000, r.randint(0, 2000000)])
        b.at(t, "connect %s %d" % (c.cid, W.PORT[kind]), keep=True)
        for _ in range(r.choice([0, 1, 3, 8]) if bad else r.choice([1, 3, 8])):
            c.good(big=r.random() < 0.02)
        fate = "stay"
        extra = None
        if bad:
            way = r.choice(["bad", "bad", "bad", "half", "none"])
            if way == "bad":
                w, d = ("line", bad_graphite(r)) if kind == "g" else bad_native(r) if kind == "n" else bad_avro(r)
                what.append(kind + ":" + w)
                c.add(d, [])
                for _ in range(r.choice([0, 0, 1, 3])):
                    c.good()
                    c.items[-1].append("optional")
            elif way == "half":
                n0 = len(c.data)
                c.good(big=r.random() < 0.05)
                # cut the last message anywhere; a graphite line without its newline may count at the end of the stream
                c.data = c.data[:r.randint(n0, len(c.data) - 1)]
                its = c.items.pop()
                what.append(kind + ":half")
                if kind == "g":
                    extra = its
            fate = r.choice(["stay", "fin", "close", "rst", "rst", "close"])
            what.append(fate)
        else:
            fate = r.choice(["stay", "fin"])
        if c.data:
            t = c.emit(b, t + r.choice([0, 1, 200, 30000]))
        m = c.meta()
        m.update(fate=fate, bad=bad, must_read=not bad)
        if extra:
            # an unterminated line at the end: its text cut anywhere still may parse
            m["loose"] = True
        metas.append(m)
        if fate != "stay":
            b.at(t + (0 if r.random() < 0.5 or not bad else r.choice([1, 100, 5000])), "%s %s" % (fate, c.cid), keep=True)
        else:
            left += 1
        end = max(end, t)
    if "a" in kinds and r.random() < 0.12:
        # asks for acknowledgements and never reads one
        b.h("sndbuf %d" % r.choice([20, 40, 64]))
        c = W.Conn(r, "a", "a70", tags)
        b.at(t0, "connect a70 2002", keep=True)
        b.at(t0 + 1, "stall a70", keep=True)
        for _ in range(r.choice([4, 7, 10])):
            c.good(sync=True)
            c.items[-1].append("optional")
        end = max(end, c.emit(b, t0 + 10))
        m = c.meta()
        m.update(fate="stay", bad=True, must_read=False)
        metas.append(m)
        what.append("a:unread-acks")
        left += 1
    for k in range(r.choice([1, 3])):
        b.at(end + 1000 * k, "udp 8125 " + hexs("u-%d:1|c" % k))
    b.at(end + 10000, "nofaults", keep=True)
    # somebody new, afterwards
    for kind in kinds:
        c = W.Conn(r, kind, "%s9%d" % (kind, 9), tags)
        b.at(end + 20000, "connect %s %d" % (c.cid, W.PORT[kind]), keep=True)
        c.good()
        c.good()
        c.emit(b, end + 30000)
        m = c.meta()
        m.update(fate="stay", bad=False)
        metas.append(m)
        left += 1
    b.meta.update(conns=metas, kinds=kinds, what=what, left=left)
    sig = r.random() < 0.5
    t = end + (25 if "a" in kinds else 6) * SEC
    b.at(t, "stat", keep=True)
    b.at(t + 1, "mark settled", keep=True)
    if sig:
        b.at(t + 2, "signal 15", keep=True)
    b.meta["sig"] = sig
    b.at(t + 20 * SEC, "end", keep=True)
    return b.case()


def check(case, log):
    meta, st = case["meta"], set()
    info = dict(nontrivial=False, states=st, counts={})
    info["sample"] = {"what": meta["what"], "events": [e[1][:80] for e in case["events"]][:10], "faults": log.faults}
    for f in log.faults:
        st.add("f:" + f)
    sig = meta.get("sig")
    if not log.ok_end() or (log.end == "EXIT") != bool(sig):
        return [("stuck" if log.end != "EXIT" else "died", "run ended with %s after %s; panics %s" % (log.end, meta["what"], log.panics()[:2]))], info
    if sig and log.code != 0:
        return [("died", "exit status %s; panics %s" % (log.code, log.panics()[:2]))], info
    v, n, streams = W.judge(case, log, [m for m in meta["conns"] if not m["bad"]])
    v = [x for x in v if x[0] != "spurious"]
    # of the others: what was whole, well-formed and read before they misbehaved
    got, _ = W.delivered(log)
    import hashlib
    for m in meta["conns"]:
        if not m["bad"]:
            continue
        sent, read = streams.get(m["cid"], (b"", b""))
        if len(sent) != m["n"] or hashlib.sha1(sent).hexdigest() != m["sha"]:
            continue
        for k in ("p", "l", "a"):
            g = [W.js(x) for _, x in got[m["cid"]][k]]
            e, opt = [], set()
            for it in m["items"]:
                for x in it[1]:
                    if x[0] == k:
                        e.append(W.js(x))
                        if len(it) > 2 or it[0] > len(read):
                            opt.add(W.js(x))
            n += len(e) - len(opt)
            gs = set(g)
            e = [x for x in e if x not in opt or x in gs]
            if m.get("loose") and k == "p" and len(g) > len(e) and g[:len(e)] == e:
                g = g[:len(e)]
            d = M.diff_seq(e, g, lambda x: x)
            if d:
                v.append((d[0] + "-own", "misbehaving connection %s: %s" % (m["cid"], d[1][:700])))
    ud = len(I.udp(log))
    if len(got["u"]["p"]) != ud or ud != len([1 for e in case["events"] if e[1].startswith("udp")]):
        v.append(("udp", "%d statsd packets were sent, %d read, %d points delivered" % (len([1 for e in case["events"] if e[1].startswith("udp")]), ud, len(got["u"]["p"]))))
    whole = all(len(streams.get(m["cid"], (b"",))[0]) == m["n"] for m in meta["conns"])
    for c in got if whole else ():
        if c not in set(m["cid"] for m in meta["conns"]) | {"u"} and any(got[c].values()) and not c.startswith("bad") and c != "?":
            v.append(("spurious", "delivered from nowhere: %s" % W.short(list(got[c].values())[0][:1])))
    # ---- descriptors and threads
    stats = [dict(x.split("=") for x in rest.split(" ")) for t, tid, k, rest in log.of("STAT")]
    a = {k: int(x) for s in stats[:2] for k, x in s.items()}
    z = {k: int(x) for s in stats[2:4] for k, x in s.items()}
    if len(stats) >= 4:
        held = set()
        for t, tid, k, rest in log.of("A", "CLOSE", "MARK"):
            if k == "MARK":
                break
            (held.add if k == "A" else held.discard)(rest.split(" ")[0])
        if len(held) > meta["left"]:
            v.append(("descriptors", "%d connections are held open, %d clients are there" % (len(held), meta["left"])))
        if z["threads"] > a["threads"] + meta["left"]:
            v.append(("threads", "%d threads; %d at the start and %d clients there" % (z["threads"], a["threads"], meta["left"])))
        per = z["fds"] - a["fds"]
        info["counts"]["fds_per_client"] = round(per / max(1, meta["left"]), 1)
        if per > 6 * meta["left"] + 10:
            v.append(("descriptors", "%d descriptors more than at the start with %d clients there" % (per, meta["left"])))
    for w in meta["what"]:
        st.add(w)
    info["counts"].update(items=n, misbehaving=len([1 for m in meta["conns"] if m["bad"]]), panics=len(log.panics()))
    info["nontrivial"] = n >= 5 and bool(meta["what"])
    return v, info
