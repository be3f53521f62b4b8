"""TCP clients of the graphite, native and avro sources with known messages, cut up at will; what must come out."""
import hashlib, struct
from collections import defaultdict
from .common import *
from . import model as M, intake as I
from .runner import hexs, unhex

PORT = {"g": 2003, "n": 1980, "a": 2002}


def config(b, kinds, tags, fi=1, errors=True):
    c = ['data-directory = "/sim/data"', 'scripts-directory = "@DIR@"', "flush-interval = 1"]
    if tags:
        c += ["[tags]"] + ['%s = "%s"' % x for x in tags.items()]
    f = 'forwards = ["sinks.native"]'
    if "g" in kinds:
        c += ["[sources.graphite.g]", 'host = "127.0.0.1"', "port = 2003", f]
    if "n" in kinds:
        c += ["[sources.native.n]", 'ip = "127.0.0.1"', "port = 1980", f]
    if "a" in kinds:
        c += ["[sources.avro.a]", 'host = "127.0.0.1"', "port = 2002", 'forwards = ["sinks.kafka.k"]']
        c += ["[sinks.kafka.k]", 'topic = "t"', 'brokers = "127.0.0.1:9092"', "flush_interval = 1", "[sinks.kafka.k.librdkafka]", '"queue.buffering.max.ms" = "5"', '"broker.version.fallback" = "0.11.0"']
        b.h("server 9092 kafka parts=1")
    b.cfg = c + ["[sinks.native]", "port = 1972", 'host = "127.0.0.1"', "flush_interval = %d" % fi]
    b.h("server 1972 sink")


def _fv(f, v):
    return M._ev(f << 3) + M._ev(v)


def enc_point_any(r, name, samples, kind, tags, ts, persist):
    """the same point in any of the encodings protobuf allows"""
    fs = [M._ld(1, name.encode())]
    if r.random() < 0.5:
        fs.append(M._ld(2, struct.pack("<%dd" % len(samples), *samples)))
    else:
        fs += [M._ev(2 << 3 | 1) + struct.pack("<d", x) for x in samples]
    if persist:
        fs.append(_fv(3, 1))
    fs.append(_fv(4, {"sum": 1, "set": 2, "summarize": 3, "bin": 4}[kind]))
    fs += [M._ld(5, M._ld(1, k.encode()) + M._ld(2, v.encode())) for k, v in tags.items()]
    fs.append(_fv(6, ts))
    fs += [r.choice([_fv(90, 7), M._ld(91, b"xyz"), M._ev(92 << 3 | 1) + b"12345678", M._ev(93 << 3 | 5) + b"1234"]) for _ in range(r.choice([0, 0, 1]))]
    q = r.random()
    if q < 0.3:       # samples keep their order among themselves
        s = [x for x in fs if x[0] >> 3 == 2]
        o = [x for x in fs if x[0] >> 3 != 2]
        r.shuffle(o)
        for x in s:
            o.append(x)
        fs = o
    return M._ld(2, b"".join(fs))


TXT = "ab c\t\"\\é漢{}/\u2028\U0001f600"


class Conn:
    def __init__(self, r, kind, cid, tags):
        self.r, self.kind, self.cid, self.tags = r, kind, cid, tags
        self.data, self.items, self.marks, self.n = b"", [], [0], 0

    def nid(self):
        self.n += 1
        return "%s-%04d" % (self.cid, self.n)

    def text(self, big=False):
        r = self.r
        s = "".join(r.choice(TXT) for _ in range(r.choice([0, 0, 5, 60, 600])))
        return s + "y" * r.choice([9000, 60000]) if big else s

    def good(self, big=False, sync=False):
        """one well-formed message"""
        r = self.r
        if self.kind == "g":
            d, its = "", []
            for k in range(r.choice([1, 1, 1, 1, 2, 3])):
                nm = self.nid() + r.choice(["", "", ".é漢", "@a%b", "x" * 300, ":b|c"]) + ("z" * 20000 if big else "")
                val, ts = r.choice([("1", 1.0), ("2.5", 2.5), ("-3", -3.0), ("1e-3", 1e-3), ("+7", 7.0), (".5", .5), ("1.", 1.0)]), r.choice([0, 1, -1, 1400000000, 1500000000]) + r.randint(0, 99)
                d += (r.choice([" ", "  ", "\t"]) if d or r.random() < 0.05 else "") + nm + r.choice([" ", " ", "\t ", "  "]) + val[0] + r.choice([" ", " ", "\t"]) + r.choice([str(ts), str(ts), "+%d" % ts if ts >= 0 else str(ts)])
                its.append(["p", nm, "set", False, "%.12g" % val[1], ts, sorted(self.tags.items())])
            d += r.choice(["\n", "\n", "\n", "\r\n", " \n"])
            self.add(d.encode(), its)
        elif self.kind == "n":
            pl, its = b"", []
            for k in range(r.choice([0, 1, 1, 2, 6])):
                tg = {r.choice(["k", "k2", "ünï"]): r.choice(["", "v", "漢", "a b"]) for _ in range(r.choice([0, 0, 1, 2]))}
                ts = r.choice([0, 1, 999, 1000, 1500000000123, -1500, r.randint(0, 1 << 42)])
                at = sorted(dict(self.tags, **tg).items())
                if r.random() < 0.6:
                    kind = r.choice(["sum", "set", "summarize"])
                    v = [float(r.randint(-50, 50)) / 4 for _ in range(r.choice([1, 1, 2, 9]))]
                    pe = r.random() < 0.3
                    nm = self.nid() + r.choice(["", ".a", " b", "é"]) + ("n" * 30000 if big and k == 0 else "")
                    pl += enc_point_any(r, nm, v, kind, tg, ts, pe)
                    s = [sum(v)] if kind == "sum" else v[-1:] if kind == "set" else sorted(v)
                    its.append(["p", nm, kind, pe, ",".join("%.12g" % (x + 0.0) for x in s), int(ts * 0.001), at])
                else:
                    tx = self.nid() + " " + self.text(big and k == 0)
                    pa = r.choice(["/a/b", "", "p q", "漢"])
                    pl += M.enc_line(pa, tx, tg, ts)
                    its.append(["l", pa, tx, int(ts * 0.001), at])
            self.add(M.frame(pl), its)
        else:
            tx = self.nid() + " " + self.text(big)
            kv = None
            if r.random() < 0.5:
                kv = [(("h%d" % j).encode(), bytes(r.randrange(256) for _ in range(r.choice([0, 1, 40])))) for j in range(r.randint(0, 3))]
            blob = M.avro_blob(tx)
            self.add(M.avro_frame(blob, r.getrandbits(64), r.choice([0, r.getrandbits(64)]), sync, kv, 0 if kv is None and r.random() < 0.1 else None), [["a", blob.hex()]])

    def add(self, d, its):
        """its: what the bytes d turn into once they are all read"""
        self.data += d
        self.marks.append(len(self.data))
        self.items.append([len(self.data), its])

    def chunks(self):
        """cut the stream: [bytes]"""
        r, d = self.r, self.data
        q = r.random()
        cuts = set()
        if q < 0.1:
            pass
        elif q < 0.25:
            k = r.choice([1, 1, 2, 3, 7])
            cuts = set(range(0, min(len(d), 300 * k), k))
        elif q < 0.6:
            for m in self.marks:
                for _ in range(r.choice([0, 1, 2])):
                    cuts.add(m + r.choice([-2, -1, 0, 1, 2, 3, 4, 5, 8]))
        elif q < 0.75:
            cuts = set(self.marks)
        else:
            cuts = set(r.randrange(len(d) + 1) for _ in range(r.choice([1, 3, 10, 40])))
        if r.random() < 0.3:
            multi = [i for i, x in enumerate(d) if x & 0xC0 == 0x80]
            for _ in range(3):
                if multi:
                    cuts.add(r.choice(multi))
        cs = sorted(x for x in cuts if 0 < x < len(d))
        out, p = [], 0
        for x in cs + [len(d)]:
            if x > p:
                out.append(d[p:x])
                p = x
        return out

    def emit(self, b, t, gaps=(0, 0, 1, 5, 20, 100, 3000, 40000)):
        """send events from time t; returns the time after the last"""
        r = self.r
        mode = r.random()
        g = r.choice(gaps)
        cs = self.chunks()
        if len(cs) > 60:
            gaps = [x for x in gaps if x <= 3000]
            g = min(g, 3000)
        for c in cs:
            b.at(t, "send %s %s" % (self.cid, c.hex()))
            t += g if mode < 0.3 else r.choice(gaps)
        return t

    def meta(self):
        return dict(cid=self.cid, kind=self.kind, items=self.items, n=len(self.data), sha=hashlib.sha1(self.data).hexdigest())


def pkey(p):
    s = list(p["samples"])
    if p["kind"] == "sum":
        s = [sum(s)]
    elif p["kind"] == "set":
        s = s[-1:]
    else:
        s = sorted(s)
    if p["ts"] % 1000:
        return ["p", p["name"], "odd timestamp %d" % p["ts"]]
    return ["p", p["name"], p["kind"], p["persist"], ",".join("%.12g" % (x + 0.0) for x in s), p["ts"] // 1000, sorted(p["tags"].items())]


def delivered(log):
    """{cid: {"p": [...], "l": [...], "a": [...]}}, errors"""
    out, errs = defaultdict(lambda: defaultdict(list)), []
    pts, lns, e = M.native_events(log, 1972)
    errs += e
    for t, p in pts:
        out[p["name"].split("-")[0]]["p"].append((t, pkey(p)))
    for t, l in lns:
        out[l["value"].split("-")[0]]["l"].append((t, ["l", l["path"], l["value"], l["ts"] // 1000, sorted(l["tags"].items())]))
    for s in M.kafka_stored(log):
        i = s["value"].find(b"\x01" + b"0123456789"[:0])
        tx = s["value"].split(b"0123456789abcdef")[1] if s["value"].count(b"0123456789abcdef") >= 2 else b"?"
        # count varint, size varint, length varint, text
        j = 0
        try:
            for _ in range(3):
                _, j = M._varint(tx, j)
            cid = tx[j:].split(b"-")[0].decode()
        except Exception:
            cid = "?"
        out[cid]["a"].append((s["t"], ["a", s["value"].hex()]))
    return out, errs


def js(x):
    return repr([list(y) if isinstance(y, tuple) else y for y in x] if isinstance(x, list) else x).replace("(", "[").replace(")", "]")


def short(x):
    s = js(x)
    return s if len(s) < 300 else s[:200] + "..%d.." % len(s) + s[-60:]


def judge(case, log, conns, optional_tail=True):
    """every connection in conns (metas) gives exactly what its bytes read say"""
    v = []
    got, errs = delivered(log)
    for e in errs:
        v.append(("garbled", e))
    st = I.streams(case, log)
    eps = I.client_eps(log)
    aborted = set(int(x[3]) for x in log.of("ABORTED"))     # reset before they could be accepted
    n = 0
    for m in conns:
        sent, read = st.get(m["cid"], (b"", b""))
        full = len(sent) == m["n"] and hashlib.sha1(sent).hexdigest() == m["sha"]
        if sent and not full and not m.get("prefix"):
            continue        # pieces were taken out of the case: no verdict on this connection
        if m.get("prefix") and not full:
            continue
        if eps.get(m["cid"]) in aborted:
            continue
        if m.get("must_read", True) and len(read) < m.get("read_to", m["n"]):
            v.append(("unread", "connection %s sent %d bytes, %d were read" % (m["cid"], len(sent), len(read))))
        exp = defaultdict(list)
        opt = set()
        for item in m["items"]:
            if item[0] <= len(read):
                for it in item[1]:
                    exp[it[0]].append(it)
                    if len(item) > 2:
                        opt.add(js(it))
        for k in ("p", "l", "a"):
            e = [js(x) for x in exp[k]]
            g = [js(x) for _, x in got[m["cid"]][k]]
            n += len(e)
            if opt:
                gs = set(g)
                e = [x for x in e if x not in opt or x in gs]
            d = M.diff_seq(e, g, lambda x: x)
            if d:
                v.append((d[0], "connection %s (%s): %s" % (m["cid"], {"g": "graphite", "n": "native", "a": "avro"}[m["kind"]], d[1][:700])))
    known = set(m["cid"] for m in conns)
    for c in got if all(len(st.get(m["cid"], (b"",))[0]) == m["n"] for m in conns) else ():
        if c not in known and any(got[c].values()):
            v.append(("spurious", "delivered from nowhere: %s" % short(list(got[c].values())[0][:1])))
    return v, n, st
