"""A statsd, a graphite and a native source feeding one sink, with uniquely named points of every kind."""
from . import model as M, intake as I
from .runner import hexs

VALS = [0.0, 1.0, -1.5, 3.25, 1e-9, 123456789.125, -0.0, 1e300, 1e21, 0.1, 2.5e-300]
NAT_TS = [0, 1, 999, 1000, 1500000000123, 1500000000999, -1, -1500, 4102444800000]


def config(b, fwd, tags):
    c = ['data-directory = "/sim/data"', 'scripts-directory = "@DIR@"', "flush-interval = 1"]
    if tags:
        c += ["[tags]"] + ['%s = "%s"' % x for x in tags.items()]
    f = "forwards = [%s]" % ", ".join('"%s"' % x for x in fwd)
    c += ["[sources.statsd.s]", 'host = "127.0.0.1"', "port = 8125", f]
    c += ["[sources.graphite.g]", 'host = "127.0.0.1"', "port = 2003", f]
    c += ["[sources.native.n]", 'ip = "127.0.0.1"', "port = 1980", f]
    b.cfg = c
    b.at(250000, "connect g 2003", keep=True)
    b.at(250000, "connect n 1980", keep=True)
    return c


class Feed:
    def __init__(self, b, names=("",), tagk=("k", "k2", "ünï", "z"), tagv=("v", "漢", "a=b"), vals=VALS, nat_ts=NAT_TS, statsd=("c", "ms", "h", "c|@0.5"), multi=True):
        self.b, self.r, self.n = b, b.rng, 0
        self.names, self.tagk, self.tagv, self.vals, self.nat_ts, self.statsd, self.multi = names, tagk, tagv, vals, nat_ts, statsd, multi

    def nid(self):
        self.n += 1
        return "e%05d" % self.n

    def udp(self, t, k=None):
        r = self.r
        ls = ["%s:%s|%s" % (self.nid(), r.choice(["1", "2.5", "-3", "+4", "1e3"]), r.choice(self.statsd)) for _ in range(k or r.choice([1, 2, 5]))]
        self.b.at(t, "udp 8125 " + hexs("\n".join(ls)))

    def graphite(self, t, k=None):
        r = self.r
        n = k or r.choice([1, 3, 20, 200])
        nm = [x for x in self.names if " " not in x] or [""]
        self.b.at(t, "send g " + hexs("".join("%s %s %d\n" % (self.nid() + r.choice(nm), r.choice(["1", "2.5", "-3", "1e-3"]), r.choice([1, 1500000000, 1400000000]) + r.randint(0, 99)) for _ in range(n))))

    def native(self, t, k=None, lines=0.0):
        r = self.r
        pl = b""
        for _ in range(k or r.choice([1, 1, 2, 5, 30])):
            tg = {r.choice(self.tagk): r.choice(self.tagv) for _ in range(r.choice([0, 0, 1, 2]))}
            ts = r.choice(list(self.nat_ts) + [r.randint(0, 1 << 42)])
            m = r.choice(["sum", "set", "summarize"])
            v = [r.choice(self.vals) if r.random() < 0.3 else float(r.randint(-5, 5)) for _ in range(1 if r.random() < 0.6 or not self.multi else r.randint(1, 40))]
            if m == "summarize" and len(v) > 1:
                v = [x for x in v if abs(x) < 1e200] or [1.0]
            pl += M.enc_point(self.nid() + r.choice(self.names), v, m, tg, ts)
        self.b.at(t, "send n " + M.frame(pl).hex())

    def any(self, t):
        q = self.r.random()
        (self.udp if q < 0.25 else self.graphite if q < 0.5 else self.native)(t)


def taken(case, log, tags):
    """({origin: [points in order]}, problems)"""
    exp, v = {}, []
    for c, (sent, got) in I.streams(case, log).items():
        if len(sent) != len(got):
            v.append(("unread", "client %s sent %d bytes, %d were read" % (c, len(sent), len(got))))
        exp[c] = I.graphite_points(got, tags) if c == "g" else I.native_points(got, tags)[0]
    exp["udp"] = I.udp_points(log, (), tags)
    return exp, v
