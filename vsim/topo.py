"""Random topologies of sources, filters and sinks carrying uniquely identifiable events, and what each sink's endpoint shows of them."""
import json, re
from collections import Counter, defaultdict
from .common import *
from . import model as M
from .runner import hexs, unhex

ACCEPTS = {"native": "pl", "influxdb": "p", "wavefront": "p", "console": "pl", "elasticsearch": "l", "kafka": "r", "prometheus": "p", "null": "", "native2": "pl"}
PORTS = {"native": 1972, "influxdb": 8089, "wavefront": 2878, "elasticsearch": 9200, "kafka": 9092, "prometheus": 8086}


class Topo:
    def __init__(self, b, sources, sinks, filters, tags=None):
        """sources: [kind]; sinks: [kind]; filters: [kind] (chained or parallel as edges decide)"""
        self.b, self.r = b, b.rng
        self.src, self.snk, self.flt = [], [], []
        self.ev = []
        self.n = 0
        self.conns = {}
        cnt = Counter()
        for k in sources:
            i = cnt[k]
            cnt[k] += 1
            nm = "%s%d" % (k[0], i)
            s = dict(kind=k, name=nm, i=i, fwd=[])
            if k == "statsd":
                s.update(path="sources.statsd." + nm, port=8125 + i)
            elif k == "graphite":
                s.update(path="sources.graphite." + nm, port=2003 + i)
            elif k == "native":
                s.update(path="sources.native." + nm, port=1980 + i)
            elif k == "avro":
                s.update(path="sources.avro." + nm, port=2102 + i)
            elif k == "files":
                s.update(path="sources.files." + nm, file="/sim/logs/%s.log" % nm)
            self.src.append(s)
        for k in sinks:
            p = "sinks.kafka.k" if k == "kafka" else "sinks." + k
            self.snk.append(dict(kind=k, path=p))
        for k in filters:
            i = cnt["f" + k]
            cnt["f" + k] += 1
            self.flt.append(dict(kind=k, path="filters.%s.f%d" % (k, i), name="f%d" % i, fwd=[]))
        self.by = {x["path"]: x for x in self.src + self.snk + self.flt}
        self.opts = {}
        self.tags = tags or {}

    # ---------------------------------------------------------------- wiring
    def wire_random(self):
        r = self.r
        sp = [s["path"] for s in self.snk]
        for i, f in enumerate(self.flt):
            later = [x["path"] for x in self.flt[i + 1:]]
            c = r.sample(sp, r.randint(1, min(2, len(sp))))
            if later and r.random() < 0.4:
                c.append(r.choice(later))
            f["fwd"] = c
        for s in self.src:
            c = r.sample(sp, r.randint(0, len(sp)))
            c += [f["path"] for f in self.flt if r.random() < 0.5]
            s["fwd"] = c or [r.choice(sp)]
        # everything is reachable most of the time
        for x in self.snk + self.flt:
            if not any(x["path"] in y["fwd"] for y in self.src + self.flt) and r.random() < 0.8:
                r.choice(self.src)["fwd"].append(x["path"])

    def add_internal(self):
        s = dict(kind="internal", name="internal", i=0, path="sources.internal", fwd=[self.r.choice([x["path"] for x in self.snk + self.flt])])
        self.src.append(s)
        self.by[s["path"]] = s

    def config(self, **glob):
        b = self.b
        c = ['data-directory = "/sim/data"', 'scripts-directory = "@DIR@"']
        for k, v in glob.items():
            c.append("%s = %s" % (k.replace("_", "-"), v))
        if self.tags:
            c += ["[tags]"] + ['%s = "%s"' % kv for kv in self.tags.items()]
        for s in self.src:
            k = s["kind"]
            if k in ("statsd", "graphite", "avro"):
                c += ["[%s]" % s["path"], 'host = "127.0.0.1"', "port = %d" % s["port"]]
            elif k == "native":
                c += ["[%s]" % s["path"], 'ip = "127.0.0.1"', "port = %d" % s["port"]]
            elif k == "files":
                c += ["[%s]" % s["path"], 'path = "%s"' % s["file"]]
            elif k == "internal":
                c += ["[sources.internal]"]
            c.append("forwards = " + toml_list(s["fwd"]))
        for f in self.flt:
            c += ["[%s]" % f["path"]]
            if f["kind"] == "delay":
                c.append("tolerance = %d" % f.get("tolerance", 100000000000))
            elif f["kind"] == "flush_boundary":
                c.append("tolerance = %d" % f.get("tolerance", 5))
            elif f["kind"] == "json_encode":
                c.append("parse_line = false")
            elif f["kind"] == "programmable":
                c.append('script = "id.lua"')
                b.scripts["id.lua"] = "function process_metric(p) end\nfunction process_log(p) end\nfunction tick(p) end\n"
            c.append("forwards = " + toml_list(f["fwd"]))
        for s in self.snk:
            k = s["kind"]
            o = dict(self.opts.get(k, {}))
            c.append("[%s]" % s["path"])
            if k in PORTS and k != "kafka":
                if k != "prometheus":
                    c.append('host = "127.0.0.1"')
                else:
                    c.append('host = "127.0.0.1"')
                c.append("port = %d" % PORTS[k])
            if k in ("native", "influxdb", "wavefront", "elasticsearch", "console", "kafka"):
                o.setdefault("flush_interval", self.r.choice([1, 1, 2]))
            if k == "influxdb":
                c += ['db = "db"', "secure = false"]
            if k in ("wavefront", "console"):
                o.setdefault("bin_width", 1)
            if k == "wavefront":
                o.setdefault("percentiles", '{ "0.5" = 0.5, max = 1.0 }')
            if k == "elasticsearch":
                c += ["secure = false", "delivery_attempt_limit = 10", 'index-prefix = "ix"']
            if k == "kafka":
                c += ['topic = "topic"', 'brokers = "127.0.0.1:9092"']
            if k == "prometheus":
                o.setdefault("capacity_in_seconds", 100000)
            for a, v in o.items():
                if v is not None:
                    c.append("%s = %s" % (a, v))
            if k == "kafka":
                c += ["[sinks.kafka.k.librdkafka]"] + ['"%s" = "%s"' % kv for kv in sorted({
                    "queue.buffering.max.ms": "5", "broker.version.fallback": "0.11.0", "reconnect.backoff.jitter.ms": "100",
                    "topic.metadata.refresh.fast.interval.ms": "100", "message.timeout.ms": "20000", "socket.timeout.ms": "3000", "request.timeout.ms": "2000"}.items())]
        b.cfg = c
        for k in set(s["kind"] for s in self.snk):
            if k in ("native", "wavefront"):
                b.h("server %d sink" % PORTS[k])
            elif k == "influxdb":
                b.h("server %d http" % PORTS[k])
            elif k == "elasticsearch":
                b.h("server %d http default=items" % PORTS[k])
            elif k == "kafka":
                b.h("server 9092 kafka parts=2")
        b.h("mkdir /sim/logs")
        for s in self.src:
            if s["kind"] == "files":
                b.h("file %s -" % s["file"])

    # ---------------------------------------------------------------- traffic
    def _ev(self, s, grp, t, **kw):
        e = dict(id="e%05d" % self.n, src=s["path"], grp=grp, t=t, **kw)
        self.n += 1
        self.ev.append(e)
        return e

    def emit(self, s, t, k=1, size=0, alpha="abcdef"):
        """k events out of source s at time t; returns the latest time used"""
        r, b = self.r, self.b
        kind = s["kind"]
        pad = "".join(r.choice(alpha) for _ in range(size)) if size < 5000 else "".join(r.choices(alpha, k=size))
        if kind == "statsd":
            lines = []
            for _ in range(k):
                ty = r.choice(["c", "c", "ms"])
                v = r.randint(1, 999)
                e = self._ev(s, s["path"], t, ty="p", method="sum" if ty == "c" else "summarize", v=float(v))
                e["name"] = e["id"] + pad
                lines.append("%s:%d|%s" % (e["name"], v, ty))
            b.at(t, "udp %d %s" % (s["port"], hexs("\n".join(lines))))
            for e in self.ev[-k:]:
                e["cmd"] = b.events[-1][1]
        elif kind in ("graphite", "native", "avro"):
            key = s["path"]
            cs = self.conns.setdefault(key, [])
            if not cs or (len(cs) < 3 and r.random() < 0.1):
                cid = "c%d" % sum(len(x) for x in self.conns.values())
                cs.append(cid)
                b.at(max(100000, t - 20000), "connect %s %d" % (cid, s["port"]), keep=True)
            cid = r.choice(cs)
            data = b""
            mine = []
            for _ in range(k):
                if kind == "graphite":
                    v = r.randint(1, 999)
                    e = self._ev(s, cid, t, ty="p", method="set", v=float(v), ts=r.choice([1500000000, 1499999000, 1400000000]) + r.randint(0, 50))
                    e["name"] = e["id"] + pad
                    d = ("%s %d %d\n" % (e["name"], v, e["ts"])).encode()
                elif kind == "native":
                    if r.random() < 0.5:
                        m = r.choice(["sum", "set", "summarize"])
                        v = r.randint(1, 999)
                        e = self._ev(s, cid, t, ty="p", method=m, v=float(v), ts=1500000000 + r.randint(-50, 50), tags={"k": "v%d" % r.randint(0, 3)} if r.random() < 0.5 else {})
                        e["name"] = e["id"] + pad
                        d = M.frame(M.enc_point(e["name"], [v], m, e["tags"], e["ts"] * 1000))
                    else:
                        e = self._ev(s, cid, t, ty="l", ts=1500000000 + r.randint(-50, 50), tags={})
                        e["text"] = e["id"] + pad
                        e["lpath"] = "/n/" + cid
                        d = M.frame(M.enc_line(e["lpath"], e["text"], {}, e["ts"] * 1000))
                else:
                    e = self._ev(s, cid, t, ty="r")
                    e["blob"] = M.avro_blob(e["id"] + pad).hex()
                    d = M.avro_frame(bytes.fromhex(e["blob"]), self.n, r.getrandbits(32), False)
                mine.append(e)
                data += d
            b.at(t, "send %s %s" % (cid, data.hex()))
            for e in mine:
                e["cid"] = cid
                e["cmd"] = b.events[-1][1]
        elif kind == "files":
            data = ""
            mine = []
            for _ in range(k):
                e = self._ev(s, s["file"], t, ty="l")
                e["text"] = e["id"] + pad
                e["lpath"] = s["file"]
                data += e["text"] + "\n"
                mine.append(e)
            b.at(t, "append %s %s" % (s["file"], hexs(data)))
            for e in mine:
                e["cmd"] = b.events[-1][1]

    def meta(self):
        return dict(src=self.src, snk=self.snk, flt=self.flt, ev=self.ev, tags=self.tags)


# -------------------------------------------------------------------- oracle side
def present_events(case):
    """events whose command is still in the case (the minimiser removes commands)"""
    cmds = set(e[1] for e in case["events"])
    return [e for e in case["meta"]["ev"] if e["cmd"] in cmds]


def taken_in(case, log, evs):
    """events cernan read in full, judged by the bytes its system calls returned (not for files)"""
    got = set()
    udp = set()
    for t, tid, k, rest in log.of("UR"):
        p, n, hx = rest.split(" ")
        udp.add((p, hx))
    eps = {}
    for t, tid, k, rest in log.of("CLIENT"):
        c, ep = rest.split(" ")
        eps[c] = int(ep[3:])
    nread = Counter()
    for t, tid, k, rest in log.of("r"):
        f = rest.split(" ")
        nread[int(f[0])] += int(f[1])
    sent = defaultdict(int)
    off = {}
    for e in sorted(case["events"], key=lambda e: e[0]):
        w = e[1].split(" ")
        if w[0] == "send":
            off[e[1]] = sent[w[1]]
            sent[w[1]] += len(w[2]) // 2
    # events within one command: position by search
    by = defaultdict(list)
    for e in evs:
        by[e["cmd"]].append(e)
    for cmd, es in by.items():
        w = cmd.split(" ")
        if w[0] == "udp":
            if (w[1], w[2]) in udp:
                got.update(e["id"] for e in es)
        elif w[0] == "send":
            data = bytes.fromhex(w[2])
            base = off[cmd]
            n = nread.get(eps.get(w[1], -1), 0)
            ends = []
            if es[0]["src"].startswith("sources.graphite"):
                i = 0
                for _ in es:
                    i = data.index(b"\n", i) + 1
                    ends.append(i)
            else:
                i = 0
                for _ in es:
                    i += 4 + int.from_bytes(data[i:i + 4], "big")
                    ends.append(i)
            for e, x in zip(es, ends):
                if base + x <= n:
                    got.add(e["id"])
    return got


def paths(meta, src):
    """{sink path: [list of filter kinds along each path]}"""
    by = {x["path"]: x for x in meta["src"] + meta["snk"] + meta["flt"]}
    out = defaultdict(list)

    def go(x, trail):
        for p in sorted(set(x["fwd"])):
            y = by[p]
            if p.startswith("sinks."):
                out[p].append(trail)
            else:
                go(y, trail + [y["kind"]])
    go(by[src], [])
    return out


INFL = re.compile(r"^([^, ]+)((?:,[^ ]*)?) value=(\S+) (-?\d+)$")


LOGMSG = re.compile(r"\[\w[\w:]*\]\[\d+\]\[[^\]\n]*\]\[[A-Z]+\][^\n]*\n")


def console_lines(log):
    """[(time it was complete, line)] of standard output, without the messages of cernan's log, which come in between"""
    txt, ends = "", []
    for t, tid, k, rest in log.of("O1"):
        txt += unhex(rest).decode("latin-1")
        ends.append((len(txt), t))
    cuts = []
    for m in LOGMSG.finditer(txt):
        cuts.append((m.start(), m.end()))
    out, pos, cur, ci = [], 0, "", 0
    keep = []
    for a, b in cuts + [(len(txt), len(txt))]:
        keep.append((pos, txt[pos:a]))
        pos = b
    for base, part in keep:
        q = 0
        while True:
            j = part.find("\n", q)
            if j < 0:
                cur += part[q:]
                break
            cur += part[q:j]
            while ci < len(ends) - 1 and ends[ci][0] < base + j + 1:
                ci += 1
            out.append((ends[ci][1], cur.encode("latin-1").decode("utf8", "replace")))
            cur, q = "", j + 1
    if cur:
        out.append((ends[-1][1], cur.encode("latin-1").decode("utf8", "replace")))
    return out


def sink_view(case, log, sink):
    """[(form, id, detail)]: what the endpoint of this sink shows, in its own order; plus problems"""
    k, path = sink["kind"], sink["path"]
    out, errs = [], []
    ident = lambda nm: nm[:6]
    if k == "native":
        pts, lns, e = M.native_events(log, PORTS[k])
        errs += e
        out += [("p", ident(p["name"]), dict(name=p["name"], v=p["samples"], ts=p["ts"] // 1000, method=p["kind"], tags=p["tags"], t=t)) for t, p in pts]
        out += [("l", ident(l["value"]), dict(text=l["value"], lpath=l["path"], ts=l["ts"] // 1000, t=t, tags=l["tags"])) for t, l in lns]
    elif k == "wavefront":
        for (ep, no), chunks in sorted(log.written(PORTS[k]).items()):
            data, ends = b"", []
            for t, d in chunks:
                data += d
                ends.append((len(data), t))
            pos, ci = 0, 0
            for raw in data.split(b"\n"):
                pos += len(raw) + 1
                while ci < len(ends) - 1 and ends[ci][0] < pos:
                    ci += 1
                tt = ends[ci][1]
                ln = raw.decode("utf8", "replace")
                if not ln:
                    continue
                f = ln.split(" ")
                if len(f) < 3:
                    errs.append("wavefront line %r" % ln)
                    continue
                nm = f[0]
                base, _, suf = nm.partition(".")
                out.append(("p", ident(nm), dict(name=base, suf=suf, v=[float(f[1])], ts=int(f[2]), t=tt)))
    elif k == "influxdb":
        for t, tid, kk, rest in log.of("HREQ"):
            port, hx = rest.split(" ", 1)[0], rest.rsplit(" ", 1)[1]
            if int(port) != PORTS[k]:
                continue
            for ln in unhex(hx).decode("utf8", "replace").split("\n"):
                if not ln:
                    continue
                m = INFL.match(ln)
                if not m:
                    errs.append("influx line %r" % ln)
                    continue
                base, _, suf = m.group(1).partition(".")
                out.append(("p", ident(base), dict(name=base, suf=suf, v=[float(m.group(3))], ts=int(m.group(4)) // 10 ** 9, t=t, tags=dict(x.split("=", 1) for x in m.group(2)[1:].split(",")) if m.group(2) else {})))
    elif k == "elasticsearch":
        for t, tid, kk, rest in log.of("HREQ"):
            port, hx = rest.split(" ", 1)[0], rest.rsplit(" ", 1)[1]
            if int(port) != PORTS[k]:
                continue
            ls = unhex(hx).decode("utf8", "replace").split("\n")
            for a, d in zip(ls[0::2], ls[1::2]):
                o = json.loads(d)
                out.append(("l", ident(o["payload"]), dict(text=o["payload"], lpath=o["path"], t=t, doc=o, id=json.loads(a)["index"]["_id"])))
    elif k == "kafka":
        for m in M.kafka_stored(log):
            v = m["value"]
            if v[:3] == b"Obj":
                i = v.rfind(b"e0", 0, len(v) - 16)
                s = re.search(rb"e\d{5}", v)
                out.append(("r", s.group(0).decode() if s else "?", dict(blob=v.hex(), t=m["t"], part=m["part"], off=m["off"])))
            else:
                try:
                    o = json.loads(v.decode())
                    out.append(("j", ident(o["message"]), dict(text=o["message"], lpath=o["path"], t=m["t"])))
                except Exception as e:
                    errs.append("kafka value %r" % v[:60])
    elif k == "console":
        # without the messages of cernan's log, which come in between
        sec = None
        for tt, ln in console_lines(log):
            if ln.startswith("Flushing ") or ln.startswith("  ") and not ln.startswith("    "):
                sec = ln.strip().rstrip(":")
                continue
            if not ln:
                continue
            if sec == "sums" or sec == "sets":
                m = re.match(r"^    ([^(]+)\((-?\d+)\): (\S+)$", ln)
                if not m:
                    errs.append("console %r" % ln)
                    continue
                out.append(("p", ident(m.group(1)), dict(name=m.group(1), suf="", v=[float(m.group(3))], ts=int(m.group(2)), t=tt)))
            elif sec == "summaries":
                m = re.match(r"^    ([^:]+): (\w+) (\S+)$", ln)
                if m:
                    out.append(("p", ident(m.group(1)), dict(name=m.group(1), suf=m.group(2), v=[float(m.group(3))], ts=None, t=tt)))
            elif sec and sec.startswith("Flushing lines"):
                m = re.match(r"^(\S+) (\S+): (\S+)( .*)?$", ln)
                if m:
                    out.append(("l", ident(m.group(3)), dict(text=m.group(3), lpath=m.group(2), when=m.group(1), t=tt)))
    elif k == "prometheus":
        best = None
        for t, tid, kk, rest in log.of("SCR"):
            i, st, hx = rest.split(" ")
            if st == "200":
                best = unhex(hx).decode("utf8", "replace").replace("\r\n", "\n")
        if best is not None:
            for ln in best.split("\n"):
                m = re.match(r"^(e\d{5}\w*?)(_sum|_count)?(\{[^}]*\})? (\S+)( -?\d+)?$", ln)
                if m and not ("quantile" in (m.group(3) or "")):
                    out.append(("p", ident(m.group(1)), dict(name=m.group(1), suf=(m.group(2) or "")[1:], v=[float(m.group(4))], ts=None)))
    return out, errs


def form_on(e, trail):
    """what the event is after the filters of this path: p, l, r, j"""
    f = e["ty"]
    if f == "l" and "json_encode" in trail:
        return "j"
    return f


def compare(case, log, evs, must, may_dup=False, sinks=None, only=None):
    """violations of exactly-once delivery. must: ids that have to be there; evs: all that may be.
    may_dup: repetitions are allowed (at-least-once)"""
    meta = case["meta"]
    v = []
    by = {e["id"]: e for e in evs}
    pth = {s["path"]: paths(meta, s["path"]) for s in meta["src"]}
    for sink in meta["snk"]:
        if sinks is not None and sink["path"] not in sinks:
            continue
        k = sink["kind"]
        if k == "null":
            continue
        got, errs = sink_view(case, log, sink)
        for e in errs[:1]:
            v.append(("malformed-" + k, e))
        seen = defaultdict(list)
        for form, i, d in got:
            seen[(form, i)].append(d)
        exp = {}
        acc = ACCEPTS[k]
        for e in evs:
            for trail in pth[e["src"]].get(sink["path"], []):
                f = form_on(e, trail)
                if (f if f != "j" else "r") in acc:
                    exp[(f, e["id"])] = exp.get((f, e["id"]), 0) + 1
        for key in seen:
            if key[1] == "cernan":
                continue        # cernan's own metrics
            if key not in exp:
                if key[1] in by:
                    v.append(("stray", "%s shows %s, which is not routed there in that form" % (sink["path"], key)))
                elif not re.match(r"^e\d{5}$", key[1]):
                    v.append(("spurious", "%s shows %r %r" % (sink["path"], key, seen[key][0])))
                else:
                    v.append(("spurious", "%s shows unknown event %r" % (sink["path"], key)))
                break
        for key, n in exp.items():
            e = by[key[1]]
            ds = seen.get(key, [])
            if only and key[1] not in only and not ds:
                continue
            bad = check_one(k, e, key[0], n, ds, key[1] in must, may_dup, meta)
            if bad:
                v.append((bad[0] + "-" + k, "%s, event %s of %s (%s): %s" % (sink["path"], key[1], e["src"], e.get("name", e.get("text", "raw"))[:12], bad[1])))
                break
        # order, where there is one path and the sink keeps it
        if k in ("native", "influxdb", "elasticsearch"):
            for s in meta["src"]:
                tr = pth[s["path"]].get(sink["path"], [])
                if len(tr) != 1 or "flush_boundary" in tr[0]:
                    continue
                for form in "pl":
                    last = {}
                    for f, i, d in got:
                        e = by.get(i)
                        if f != form or not e or e["src"] != s["path"]:
                            continue
                        o = e.get("ord", int(i[1:]))
                        if o < last.get(e["grp"], -1) and not may_dup:
                            v.append(("reordered-" + k, "%s shows %s after e%05d although %s took it in before" % (sink["path"], i, last[e["grp"]], e["src"])))
                            break
                        last[e["grp"]] = max(o, last.get(e["grp"], -1))
    return v


def check_one(k, e, form, n, ds, must, may_dup, meta):
    """n copies of event e are due at a sink of kind k, which shows ds"""
    if not ds:
        return ("lost", "never delivered") if must else None
    lo = n if must else 1
    aggr = k in ("wavefront", "console", "prometheus")
    if form == "p":
        tagexp = dict(meta["tags"])
        tagexp.update(e.get("tags") or {})
        for d in ds:
            if d["name"] != e["name"]:
                return ("altered", "name is %r" % d["name"])
            if d["ts"] is not None and "ts" in e and d["ts"] != e["ts"]:
                return ("altered", "timestamp %r instead of %r" % (d["ts"], e["ts"]))
        if k == "native":
            for d in ds:
                if not M.seq_eq(d["v"], [e["v"]]) or d["method"] != e["method"] or (d["tags"] != tagexp):
                    return ("altered", "%r" % d)
            c = len(ds)
        elif k == "influxdb":
            sel = [d for d in ds if d["suf"] == ("0.5" if e["method"] == "summarize" else "")]
            for d in ds:
                if d["v"] != [e["v"]]:
                    return ("altered", "%r" % d)
            c = len(sel)
        elif e["method"] == "sum":
            c = sum(d["v"][0] for d in ds) / e["v"]
        elif e["method"] == "set":
            if any(d["v"] != [e["v"]] for d in ds):
                return ("altered", "%r" % ds)
            c = n
        elif k == "console":
            if any(d["v"] != [e["v"]] for d in ds):
                return ("altered", "%r" % ds)
            c = n
        else:
            cn = [d for d in ds if d["suf"] == "count"]
            c = sum(d["v"][0] for d in cn)
            if k == "prometheus":
                sm = [d for d in ds if d["suf"] == "sum"]
                if sum(d["v"][0] for d in sm) != c * e["v"]:
                    return ("altered", "%r" % ds)
            else:
                if any(d["v"] != [e["v"]] for d in ds if d["suf"] != "count"):
                    return ("altered", "%r" % ds)
    elif form in "lj":
        for d in ds:
            if d["text"] != e["text"] or d["lpath"] != e["lpath"]:
                return ("altered", "%r" % d)
        c = len(ds)
    else:
        for d in ds:
            if d["blob"] != e["blob"]:
                return ("altered", "bytes differ")
        c = len(ds)
    if c < lo:
        return ("lost", "delivered %g times, due %d times" % (c, n))
    if c > n and not may_dup:
        return ("duplicated", "delivered %g times, due %d times" % (c, n))
    return None
