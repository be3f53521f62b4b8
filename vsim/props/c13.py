"""Prometheus: every successful scrape is a well-formed snapshot of a prefix of the deliveries."""
import re
from collections import defaultdict
from ..common import *
from .. import model as M, intake as I
from ..runner import hexs, unhex

RUNS = {"quick": 3000, "thorough": 100000}
RULE = "a run counts when at least two scrapes succeeded with points delivered in between, or scrapers misbehaved while others succeeded"
REAL = REAL_CORE
STUB = STUB_CORE + ["scrapers (well-behaved, stalled, vanishing, malformed)", "clients of the sources"]
STATES = "kinds of metrics, kinds of scrapers, outcome of scrapes, window sizes, faults met"
EPOCH = 1500000000
QS = [0.0, 1.0, 0.25, 0.5, 0.75, 0.9, 0.95, 0.99, 0.999]
BOUNDS = [0.5, 2.0, 10.0]
LATE = 2 * SEC
GET = "GET /metrics HTTP/1.1\r\nHost: sim\r\n\r\n"


def gen(r, tier, i):
    b = B(r, 120, EPOCH)
    b.sched()
    b.faults(short_read=(0.05, 0.9), short_write=(0.05, 0.3), eintr=(0.01,), epoll_few=(0.5,), segment=(0.5, 0.9))
    if r.random() < 0.25:
        b.h("fault accept_err %g 3" % r.choice([0.1, 0.5]))
    if r.random() < 0.4:
        b.h("sndbuf %d" % r.choice([200, 1000, 5000]))
    tags = {"dc": r.choice(["x1", 'q"uo\\te'])} if r.random() < 0.4 else {}
    cap = r.choice([600, 600, 600, 3, 10])
    age = 60 if r.random() < 0.15 else None
    b.meta.update(tags=tags, cap=cap, age=age)
    c = ['data-directory = "/sim/data"', "flush-interval = 1"]
    if tags:
        c += ["[tags]"] + ["%s = '%s'" % x for x in tags.items()]
    fwd = 'forwards = ["sinks.prometheus"]'
    c += ["[sources.statsd.s]", 'host = "127.0.0.1"', "port = 8125", fwd]
    c += ["[sources.statsd.s.mapping.h]", 'mask = "^h"', "bounds = [10.0, 0.5, 2.0]"]
    c += ["[sources.native.n]", 'ip = "127.0.0.1"', "port = 1980", fwd]
    c += ["[sinks.prometheus]", "port = 8086", 'host = "127.0.0.1"']
    if cap != 600:
        c.append("capacity_in_seconds = %d" % cap)
    if age:
        c.append("age_threshold = %d" % age)
    b.cfg = c
    b.at(250000, "connect n 1980", keep=True)
    keys = []
    for k in range(r.choice([1, 2, 4, 8, 40])):
        ty = r.choice("CGTh" if r.random() < 0.45 else "cgtp")
        pre = r.choice(["", "", "9", "é"]) if ty in "cgtp" else ""
        n = "%s%s%d%s" % (pre, ty, k, r.choice(["", ".a-b", "_x", "é"] if ty in "cgtp" else ["", ".a", "-b"]))
        tg = {x: r.choice(["1", "v 2", 'a"b', "c\\d", "e\nf", "漢", "a=b,c}", ""]) for x in r.sample(["k", "l_2", "zz"], r.choice([0, 0, 1, 2]))} if ty in "cgtp" else {}
        keys.append((ty, n, tg))
    b.meta["keys"] = [[ty, n] for ty, n, tg in keys]
    t = 300000
    burst = r.random() < 0.2
    for _ in range(r.randint(3, 40)):
        t += r.choice([0, 0, 0, 10, 1000, 20000] if burst else [0, 0, 10, 1000, 20000, 200000, 700000, 1300000])
        st, pl = [], b""
        for _ in range(r.choice([1, 1, 2, 5])):
            ty, n, tg = r.choice(keys)
            v = r.choice([1, 2, 3, 5, 0.5, 0.25, -1, -2.5, 7, 12, 100, 1e6, 0])
            if ty in "CGTh":
                if ty == "G":
                    v = abs(v)
                f = {"C": "c", "T": "ms", "h": r.choice(["h", "ms"]), "G": "g"}[ty]
                st.append("%s:%s|%s" % (n, v, f) + ("|@0.5" if f == "c" and r.random() < 0.2 else ""))
            else:
                o = r.choice([0, 0, 0, -1, 1, -2, 2])
                if r.random() < 0.1:
                    o = r.choice([-20, -200, -100000, 300, -EPOCH])
                many = [r.choice([1, 2, 3.5, -1, 10, 0.125, 1e6]) for _ in range(r.choice([1, 1, 1, 2, 5, 20]))]
                kind = {"c": "sum", "g": "set", "t": "summarize", "p": "sum"}[ty]
                pl += M.enc_point(n, [float(x) for x in many], kind, tg, max(0, (EPOCH + int(t / 1e6) + o)) * 1000 + r.randint(0, 999), ty == "p")
        if st:
            b.at(t, "udp 8125 " + hexs("\n".join(st)))
        if pl:
            b.at(t, "send n " + M.frame(pl).hex())
    # scrapers
    ns = [0]
    for _ in range(r.randint(1, 8)):
        s = 250000 + r.randint(0, max(1, t - 250000))
        ns[0] += 1
        q = r.random()
        k = "S%d" % ns[0]
        if q < 0.5:
            b.at(s, "scrape %s 8086" % k)
        elif q < 0.6:
            b.at(s, "scrape %s 8086 vanish %d" % (k, r.choice([0, 10, 1000] if r.random() < 0.1 else [20000, 20000, 300000])))
        else:
            b.at(s, "connect %s 8086" % k)
            for _ in range(r.randint(1, 6)):
                for _ in range(r.choice([1, 1, 1, 3])):
                    b.at(s, "send %s %s" % (k, hexs(GET)))
                s += r.choice([0, 10, 5000, 100000, 1000000])
            if r.random() < 0.5:
                b.at(s + 300000, r.choice(["fin ", "close ", "rst "]) + k)
    nbad = r.choice([0, 0, 1, 2])        # no more: a worker of the library serves one connection, and four are always there
    for j in range(nbad):
        s = 250000 + r.randint(0, t)
        q = r.choice(["stall", "half", "garbage", "bighdr", "post", "silent"])
        k = "Z%d" % j
        if q == "stall":
            b.at(s, "scrape %s 8086 stall" % k)
        elif q == "half":
            b.at(s, "scrape %s 8086 half" % k)
        else:
            b.at(s, "connect %s 8086" % k)
            d = {"garbage": "\x00\x01garbage\r\n\r\n", "bighdr": "GET / HTTP/1.1\r\nX: " + "y" * 20000, "post": "POST /x HTTP/1.1\r\nContent-Length: 1000\r\n\r\nabc", "silent": ""}[q]
            if d:
                b.at(s, "send %s %s" % (k, hexs(d)))
        if r.random() < 0.5:
            b.at(s + r.choice([10, 100000, 2000000]), r.choice(["close ", "rst "]) + k) if q not in ("stall", "half") else 0
        b.meta.setdefault("bad", []).append(q)
    b.at(t + 1, "nofaults", keep=True)
    if r.random() < 0.3:
        b.at(t + r.choice([10, 1000, 300000]), "signal 15", keep=True)
        b.meta["sig"] = True
    else:
        for j in range(4):
            b.at(t + LATE + SEC + j * 137003, "scrape F%d 8086" % j, keep=True)
        b.at(t + LATE + 4 * SEC, "end", keep=True)
    return b.case()


# ------------------------------------------------------------------ what scrapers got
def http(chunks):
    """[(t of completion, status, body)] and what is left, from [(t, bytes)]"""
    out, buf = [], b""
    for t, d in chunks:
        buf += d
        while True:
            h = buf.find(b"\r\n\r\n")
            if h < 0:
                break
            head = buf[:h].decode("latin1").split("\r\n")
            hd = dict((x.split(":", 1)[0].lower(), x.split(":", 1)[1].strip()) for x in head[1:] if ":" in x)
            i = h + 4
            if "chunked" in hd.get("transfer-encoding", ""):
                body, ok = b"", False
                while True:
                    e = buf.find(b"\r\n", i)
                    if e < 0:
                        break
                    n = int(buf[i:e], 16)
                    if len(buf) < e + 4 + n:
                        break
                    body += buf[e + 2:e + 2 + n]
                    i = e + 4 + n
                    if n == 0:
                        ok = True
                        break
                if not ok:
                    break
            else:
                n = int(hd.get("content-length", "0"))
                if len(buf) < i + n:
                    break
                body = buf[i:i + n]
                i += n
            out.append((t, head[0].split(" ")[1], body))
            buf = buf[i:]
    return out, buf


def scrapes(case, log):
    """[dict(id, start, end, status, body)] of finished ones; {id: number of unanswered requests}"""
    out = []
    start, cr = {}, defaultdict(list)
    for t, tid, k, rest in log.of("SCRSTART"):
        start[rest.split(" ")[0]] = t
    for t, tid, k, rest in log.of("SCR"):
        f = rest.split(" ")
        out.append(dict(id=f[0], start=start[f[0]], end=t, status=f[1], body=unhex(f[2])))
    for t, tid, k, rest in log.of("CR"):
        f = rest.split(" ")
        cr[f[0]].append((t, unhex(f[1])))
    sent = defaultdict(list)
    for e in case["events"]:
        w = e[1].split(" ")
        if w[0] == "send" and w[1][0] == "S":
            sent[w[1]].append(e[0])
    for k, ch in cr.items():
        if k[0] == "S":
            rs, rest = http(ch)
            for n, (t, s, body) in enumerate(rs):
                if n < len(sent[k]):
                    out.append(dict(id="%s/%d" % (k, n), start=sent[k][n], end=t, status=s, body=body))
    return sorted(out, key=lambda x: x["start"])


LINE = re.compile(r"^([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{(.*)\})? (\S+)$")
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\]|\\[\\"n])*)"')


def labels(s):
    out, i = [], 0
    while i < len(s):
        m = LABEL.match(s, i)
        if not m:
            return None
        out.append((m.group(1), re.sub(r'\\(.)', lambda x: "\n" if x.group(1) == "n" else x.group(1), m.group(2))))
        i = m.end()
        if i < len(s):
            if s[i] != ",":
                return None
            i += 1
            while i < len(s) and s[i] == " ":
                i += 1
    return out


def exposition(body):
    """({metric: (type, {(sample name, labels): value})}, errors)"""
    try:
        s = body.decode()
    except UnicodeDecodeError:
        return {}, ["not UTF-8"]
    if s and not s.endswith("\n"):
        return {}, ["last line not terminated: %r" % s[-60:]]
    out, errs, cur = {}, [], None
    for l in s.split("\n")[:-1]:
        if l.startswith("#"):
            f = l.split(" ")
            if f[:2] != ["#", "TYPE"] or len(f) != 4 or f[3] not in ("counter", "gauge", "histogram", "summary") or not re.match("^[a-zA-Z_:][a-zA-Z0-9_:]*$", f[2]):
                errs.append("bad comment line %r" % l)
            elif f[2] in out:
                errs.append("%s has two TYPE lines" % f[2])
            else:
                cur = f[2]
                out[cur] = (f[3], {})
            continue
        m = LINE.match(l)
        lb = labels(m.group(2) or "") if m else None
        if lb is None:
            errs.append("bad line %r" % l)
            continue
        n = m.group(1)
        if cur is None or n != cur and not (out[cur][0] in ("histogram", "summary") and n in (cur + "_sum", cur + "_count")):
            errs.append("%r does not follow its TYPE line" % l)
            continue
        k = (n, tuple(sorted(lb)))
        try:
            v = float(m.group(3))
        except ValueError:
            errs.append("bad value in %r" % l)
            continue
        if k in out[cur][1]:
            errs.append("%r twice" % (k,))
        if len(set(x[0] for x in lb)) != len(lb):
            errs.append("label twice in %r" % l)
        out[cur][1][k] = v
    return out, errs


def sanitize(n):
    s = "".join(chr(c) if re.match(rb"[a-zA-Z0-9:_]", bytes([c])) else "_" for c in n.encode())
    return "_" + s if not s or s[0].isdigit() else s


# ------------------------------------------------------------------ model
def near(a, b):
    return M.feq(a, b) or abs(a - b) < 1e-6


def fits(kind, name, tg, pts, got, t0, t1, cap):
    """does what a scrape (between t0 and t1) shows of a metric fit the points delivered so far?"""
    if not pts:
        return got is None
    base = dict(tg)

    def key(n, **kw):
        return (n, tuple(sorted(dict(base, **kw).items())))
    if kind in ("sum", "set"):
        v = pts[-1]["v"][-1] if kind == "set" else sum(x for p in pts for x in p["v"])
        return got is not None and got[0] == {"sum": "counter", "set": "gauge"}[kind] and set(got[1]) == {key(name)} and near(got[1][key(name)], v)
    if kind == "bin":
        w, run = {}, 0
        for k, b in enumerate(["0.5", "2", "10", "+Inf"]):
            run += sum(p["v"][k] for p in pts)
            w[key(name, le=b)] = run
        w[key(name + "_count")] = run
        w[key(name + "_sum")] = sum(p["raw"] for p in pts)
    else:
        sure, may = [], []
        tss = set(p["ts"] for p in pts)
        for p in pts:
            d0, d1 = abs(p["ts"] - EPOCH - t0 / 1e6), abs(p["ts"] - EPOCH - t1 / 1e6)
            if max(d0, d1) < cap - 2 and sum(1 for x in tss if x >= p["ts"] - ("raw" in p)) <= cap - ("raw" in p):
                sure += p["v"]
                may += p["v"]
            elif min(d0, d1) < cap + 2 or p["t"] > t0 - LATE:
                may += p["v"]
        if got is None:
            return not sure
        if not may:
            return False
        w = {key(name + "_count"): sum(len(p["v"]) for p in pts), key(name + "_sum"): sum(x for p in pts for x in p["v"])}
        for q in QS:
            k = key(name, quantile="%g" % q)
            if k not in got[1]:
                return False
            x = got[1][k]
            if len(sure) == len(may):
                if not M.quantile_ok(sorted(may), q, x):
                    return False
            elif not any(near(x, y) for y in may) or sure and (q == 0 and x > min(sure) + 1e-9 or q == 1 and x < max(sure) - 1e-9):
                return False
        if got[0] != "summary" or set(got[1]) != set(w) | set(key(name, quantile="%g" % q) for q in QS):
            return False
        return all(near(got[1][k], x) for k, x in w.items())
    return got is not None and got[0] == "histogram" and set(got[1]) == set(w) and all(near(got[1][k], x) for k, x in w.items())


def check(case, log):
    meta, st, v = case["meta"], set(), []
    info = dict(nontrivial=False, states=st, counts={})
    info["sample"] = {"events": [e[1][:100] for e in case["events"]][:10], "faults": log.faults}
    for f in log.faults:
        st.add("f:" + f)
    sig = meta.get("sig")
    # tiny_http's thread dies of a connection which was reset before it was accepted
    rst = set()
    for t, tid, k, rest in log.rows:
        if k == "RSTIN":
            rst.add(rest.split(" ")[0])
        elif k == "A" and "port=8086" in rest and rest.split(" ")[0] in rst and any("code: 107, kind: NotConnected" in p for p in log.panics()):
            st.add("reset-before-accept")
            return [("reset-before-accept", "a scraper which resets its connection before it is accepted ends the thread which accepts connections: no scrape is answered any more")], info
    if not log.ok_end() or (log.end == "EXIT") != bool(sig):
        return [("stuck" if log.end != "EXIT" else "died", "run ended with %s; panics %s" % (log.end, log.panics()[:2]))], info
    if log.panics() or sig and log.code != 0:
        return [("died", "exit status %s; panics %s" % (log.code, log.panics()[:2]))], info
    if sig:
        ts = [e[0] for e in case["events"] if e[1].startswith("signal")][0]
        if log.t_us - ts > 12 * SEC:
            v.append(("slow-exit", "%d s from the signal to the exit" % ((log.t_us - ts) // SEC)))
    # deliveries per source, in order
    src = {"s": [], "n": []}
    for t, port, d in I.udp(log):
        for l, m in zip(d.decode().split("\n"), M.statsd_datagram(d, [("^h", BOUNDS)])):
            src["s"].append(dict(t=t, t0=t, name=m["name"], kind=m["kind"], v=list(m["samples"]), raw=float(l.split(":")[1].split("|")[0]), ts=EPOCH + t / 1e6, tags=dict(meta["tags"])))
    ep, got = I.client_eps(log).get("n", -1), []
    for t, tid, k, rest in log.of("r"):
        f = rest.split(" ")
        if int(f[0]) == ep:
            got.append((t, int(f[1]) + (got[-1][1] if got else 0)))
    off = 0
    for e in case["events"]:
        w = e[1].split(" ")
        if w[0] != "send" or w[1] != "n":
            continue
        off += len(w[2]) // 2
        tr = [t for t, n in got if n >= off]
        if not tr:
            st.add("unread")        # the connection failed to be accepted, or a signal came first
            if not sig and not any(k == "ABORTED" for t, tid, k, rest in log.rows):
                v.append(("unread", "a frame sent at %.3f s was never read" % (e[0] / 1e6)))
            break
        for p in I.native_points(bytes.fromhex(w[2]), meta["tags"])[0]:
            if meta["age"] and abs(p["ts"] - EPOCH - e[0] / 1e6) > meta["age"] * 1.5:
                st.add("aged")
                continue
            s = p["samples"]
            src["n"].append(dict(t=tr[0], name=p["name"], kind=p["kind"], v=s if p["kind"] == "summarize" else [sum(s[1:], s[0])] if p["kind"] == "sum" else s[-1:], ts=p["ts"], tags=p["tags"]))
    names = {}
    for k, ps in src.items():
        for p in ps:
            x = names.setdefault(p["name"], (k, p["kind"], tuple(sorted(p["tags"].items())), []))
            x[3].append(p)
    back = {sanitize(n): n for n in names}
    sc = scrapes(case, log)
    done = []
    nok = 0
    for x in sc:
        st.add("status" + x["status"])
        if x["status"] == "500":
            continue
        if x["status"] != "200":
            v.append(("status", "scrape %s got status %s" % (x["id"], x["status"])))
            continue
        nok += 1
        m, errs = exposition(x["body"])
        for e in errs:
            v.append(("malformed", "scrape %s: %s" % (x["id"], e)))
        if errs:
            continue
        for n in m:
            if n not in back:
                v.append(("spurious", "scrape %s shows %s, which was never delivered" % (x["id"], n)))
        lo = {k: max([0] + [d["n"][k] for d in done if d["end"] <= x["start"]]) for k in src}
        x["n"] = {}
        for k, ps in src.items():
            first = max(lo[k], sum(1 for p in ps if p["t"] < x["start"] - LATE))
            last = sum(1 for p in ps if p["t"] <= x["end"])
            feas = {}
            for n, (kk, kind, tg, pts) in names.items():
                if kk == k:
                    ids = [ps.index(p) if 0 else p["i"] for p in pts] if "i" in pts[0] else None
                    if ids is None:
                        for j, p in enumerate(ps):
                            p["i"] = j
                        ids = [p["i"] for p in pts]
                    a, z = sum(1 for j in ids if j < first), sum(1 for j in ids if j < last)
                    feas[n] = set(c for c in range(a, z + 1) if fits(kind, sanitize(n), tg, pts[:c], m.get(sanitize(n)), x["start"], x["end"], meta["cap"]))
                    if not feas[n]:
                        v.append(("wrong", "scrape %s at %.3f..%.3f s shows %s as %s, which is what no prefix from %d to %d of its %d points adds up to: %s" % (
                            x["id"], x["start"] / 1e6, x["end"] / 1e6, n, m.get(sanitize(n)), a, z, len(pts), [(p["t"], p["v"], p["ts"]) for p in pts[max(0, a - 2):z + 1]][:8])))
            if any(not f for f in feas.values()):
                x["n"][k] = first
                continue
            cnt = defaultdict(int)
            for p in ps[:first]:
                cnt[p["name"]] += 1
            n = first
            while n <= last:
                if all(cnt[a] in f for a, f in feas.items()):
                    break
                if n < len(ps):
                    cnt[ps[n]["name"]] += 1
                n += 1
            if n > last:
                v.append(("torn", "scrape %s at %.3f s: each metric is a prefix of its points, but together they are none of what came from source %s: %s" % (x["id"], x["start"] / 1e6, k, {a: (sorted(f)[:1], sorted(f)[-1:]) for a, f in feas.items()})))
                n = first
            x["n"][k] = n
        done.append(x)
    # liveness
    fin = [x for x in sc if x["id"][0] == "F"]
    if not sig:
        want = [e[1].split(" ")[1] for e in case["events"] if e[1].startswith("scrape F")]
        if len(fin) < len(want):
            v.append(("unanswered", "of the scrapes %s at the end only %s were answered" % (want, [x["id"] for x in fin])))
        elif names and want and not any(x["status"] == "200" for x in fin):
            if any(kind != "summarize" for k, kind, tg, p in names.values()):
                v.append(("unanswered", "none of the scrapes at the end succeeded"))
    for n, (k, kind, tg, pts) in names.items():
        st.add("k:%s:%s" % (k, kind))
    for x in meta.get("bad", []):
        st.add("bad:" + x)
    st.add("cap%d" % meta["cap"])
    if sig:
        st.add("signal")
    info["counts"] = dict(scrapes=len(sc), ok=nok, points=sum(map(len, src.values())))
    info["nontrivial"] = len(set(tuple(sorted(d["n"].items())) for d in done)) >= 2 or bool(meta.get("bad")) and nok > 0
    return v, info
