"""InfluxDB: every point is written until the server accepts it."""
from ..common import *
from .. import model as M, sources as S
from ..runner import hexs, unhex

RUNS = {"quick": 2200, "thorough": 100000}
RULE = "a run counts when at least 5 points were due and at least one write was refused, failed, or was left without an answer"
REAL = REAL_CORE
STUB = STUB_CORE + ["InfluxDB server (answers per plan: errors, delays, cut replies, resets, silence; refuses connections)", "clients of the sources"]
STATES = "kinds of points, fates of writes, length of failure streaks, faults met"
NAMES = ("", ".a-b", "é", " b", ",c", "=d")
PCT = [("0.25", .25), ("0.5", .5), ("0.75", .75), ("0.9", .9), ("0.99", .99), ("1", 1.0)]


def plan(r):
    a = r.choice(["status:500", "status:503", "status:400", "status:401", "status:429", "status:302", "rst", "close", "status:204+cut", "status:500+replyclose", "status:204+replyclose",
                  "delay:%d+status:204" % r.choice([50, 900, 5000]), "delay:%d+status:500" % r.choice([50, 900]), "delay:300+close", "status:200+body:6f6b", "status:500+garbage"])
    return a


def gen(r, tier, i):
    b = B(r, 400)
    b.sched(light=True)
    b.net_faults()
    tags = r.choice([{}, {}, {"dc": "x1"}, {"dc": "x 1", "a": "b,c=d"}])
    b.meta["tags"] = tags
    c = S.config(b, ["sinks.influxdb"], tags)
    c += ["[sinks.influxdb]", "port = 8089", 'host = "127.0.0.1"', 'db = "mydb"', "secure = false", "flush_interval = %d" % r.choice([1, 1, 1, 2, 3])]
    if r.random() < 0.3:
        b.h("sndbuf %d" % r.choice([300, 2000, 20000]))
    o = conn_opts(r)
    b.h("server 8089 http" + o)
    q = r.random()
    if q < 0.25:
        for k in range(r.choice([3, 12, 14])):
            b.h("plan 8089 %d %s" % (k + r.choice([0, 1]), r.choice(["status:500", "status:503"])))
    elif q < 0.75:
        for k in range(r.randint(1, 12)):
            b.h("plan 8089 %d %s" % (r.randint(0, 12), plan(r)))
    elif q < 0.8:
        b.h("plan 8089 %d hang" % r.randint(0, 3))
    f = S.Feed(b, names=NAMES, tagv=("v", "漢", "a=b", "a b", "x,y"))
    t = 300000
    for k in range(r.randint(3, 20)):
        t += r.choice([0, 0, 100, 3000, 20000, 400000, 1500000])
        f.any(t)
    up = t
    if r.random() < 0.4:
        up = trouble(b, 8089, t)
    calm(b, 8089, up + 600000)
    b.at(up + 600003, "mark calm", keep=True)
    b.at(up + (75 if q >= 0.75 and q < 0.8 else 25) * SEC, "end", keep=True)
    return b.case()


def unesc(s):
    """split a line-protocol line into its parts at unescaped separators"""
    parts, cur, i, sep = [], "", 0, []
    while i < len(s):
        ch = s[i]
        if ch == "\\" and i + 1 < len(s) and s[i + 1] in ",= ":
            cur += s[i + 1]
            i += 2
            continue
        if ch in ",= ":
            parts.append(cur)
            sep.append(ch)
            cur = ""
        else:
            cur += ch
        i += 1
    return parts + [cur], sep


def parse(line):
    """measurement[,tag=value…] value=V TS  -> (name, tags, value, ts) or None"""
    # the measurement ends at the first unescaped comma or space (an equals sign is part of it)
    i, name = 0, ""
    while i < len(line) and line[i] not in ", ":
        if line[i] == "\\" and line[i + 1:i + 2] in (",", " ", "="):
            i += 1
        name += line[i]
        i += 1
    parts, sep = unesc(line[i + 1:])
    first = line[i:i + 1]
    tags = {}
    k = 0
    if first == ",":
        while True:
            if k + 1 >= len(parts) or sep[k] != "=":
                return None
            if parts[k] in tags or not parts[k] or not parts[k + 1]:
                return None
            tags[parts[k]] = parts[k + 1]
            if k + 1 >= len(sep):
                return None
            s = sep[k + 1]
            k += 2
            if s == " ":
                break
            if s != ",":
                return None
    elif first != " ":
        return None
    if len(parts) - k != 3 or parts[k] != "value" or sep[k:] != ["=", " "] or not name:
        return None
    try:
        v, ts = float(parts[k + 1]), int(parts[k + 2])
    except ValueError:
        return None
    if v != v or v in (float("inf"), float("-inf")) or not -(1 << 63) <= ts < 1 << 63:
        return None
    return name, tags, v, ts


def lines_of(p):
    tg = tuple(sorted((k, x) for k, x in p["tags"].items() if k and x))
    s = p["samples"]
    if p["kind"] == "summarize":
        return [("%s.%s" % (p["name"], n), ("q", q, sorted(s)), p["ts"], tg) for n, q in PCT]
    return [(p["name"], s[-1] if p["kind"] == "set" else sum(s[1:], s[0]), p["ts"], tg)]


def check(case, log):
    v, st = [], set()
    meta = case["meta"]
    info = dict(nontrivial=False, states=st, counts={})
    info["sample"] = {"events": [e[1][:100] for e in case["events"]][:8], "faults": log.faults}
    for f in log.faults:
        st.add("f:" + f)
    if not log.ok_end() or log.end == "EXIT":
        return [("stuck" if log.end != "EXIT" else "died", "run ended with %s; panics %s" % (log.end, log.panics()[:2]))], info
    exp, bad = S.taken(case, log, meta["tags"])
    v += bad
    owner, due, order = {}, {}, {}
    for o, ps in exp.items():
        order[o] = []
        for p in ps:
            st.add("p:%s:%d" % (p["kind"], min(2, len(p["samples"]))))
            for n, val, ts, tg in lines_of(p):
                due[n] = (val, ts, tg)
                owner[n] = o
                order[o].append(n)
    # ---- writes and what became of them
    reqs = {}
    wr = []
    trouble_t = [t for t, tid, k, rest in log.of("XRST", "RSTIN", "SRST", "XREFUSED", "SRV")]
    for row in log.of("HREQ", "HRSP"):
        t, tid, k, rest = row
        f = rest.split(" ")
        if f[0] != "8089":
            continue
        if k == "HREQ":
            w = dict(t=t, n=int(f[2]), conn=f[1], start=" ".join(f[3:-1]), body=unhex(f[-1]), ans=None, t2=None)
            if not w["start"].startswith("POST /write?db=mydb"):
                v.append(("request", "unexpected request %r" % w["start"]))
            reqs[w["n"]] = w
            wr.append(w)
        else:
            reqs[int(f[2])].update(ans=f[3], t2=t)
    fails = 0
    for i, w in enumerate(wr):
        a = dict((x.split(":") + [""])[:2] for x in (w["ans"] or "hang").split("+"))
        code = int(a.get("status", 204)) if not set(a) & {"rst", "close", "hang"} else 0
        w["ok"] = 200 <= code < 300 and "cut" not in a
        nt = wr[i + 1]["t"] if i + 1 < len(wr) else log.t_us
        w["sure"] = w["ok"] and not any(w["t"] <= x <= nt for x in trouble_t)
        st.add("a:" + ("none" if w["ans"] is None else "%d%s" % (code, "+cut" if "cut" in a else "")))
    refused = [t for t, tid, k, rest in log.of("XREFUSED")]
    # ---- every point in a successful write, once for sure writes, in order
    sure, maybe = [], set()
    for w in wr:
        try:
            txt = w["body"].decode()
        except UnicodeDecodeError:
            v.append(("malformed", "write %d is not UTF-8" % w["n"]))
            continue
        if txt and not txt.endswith("\n"):
            v.append(("malformed", "write %d ends inside a line: %r" % (w["n"], txt[-60:])))
        names = []
        for l in txt.split("\n")[:-1]:
            q = parse(l)
            if q is None:
                v.append(("malformed", "line %r" % l[:160]))
                break
            e = due.get(q[0])
            if e is None:
                v.append(("spurious", "line %r: no such point was taken in" % l[:160]))
                break
            okv = M.quantile_ok(e[0][2], e[0][1], q[2]) if isinstance(e[0], tuple) else M.feq(e[0], q[2])
            okt = q[3] == e[1] * 10 ** 9 if e[1] is not None else 1499999999 <= q[3] / 1e9 <= 1500000400
            if not okv or not okt or tuple(sorted(q[1].items())) != e[2]:
                v.append(("altered", "line %r; expected value %r, time %r, tags %r" % (l[:160], e[0], e[1], e[2])))
                break
            names.append(q[0])
        w["names"] = names
        if v:
            break
    if not v:
        done = set()
        for w in wr:
            again = done & set(w["names"])
            if again:
                v.append(("duplicated", "write %d repeats %r although a write with it had been answered with success" % (w["n"], sorted(again)[:3])))
                break
            if len(set(w["names"])) != len(w["names"]):
                v.append(("duplicated", "write %d has a point twice" % w["n"]))
                break
            if w["sure"]:
                done |= set(w["names"])
            if w["ok"]:
                maybe |= set(w["names"])
        miss = [n for n in due if n not in maybe]
        if miss and not v:
            v.append(("lost", "%d of %d lines never were in a write answered with success, e.g. %r; panics %s" % (len(miss), len(due), miss[0], log.panics()[:1])))
        if not v:
            # order of first successful appearance
            seen = {}
            pos = 0
            for w in wr:
                if w["ok"]:
                    for n in w["names"]:
                        seen[n] = pos
                        pos += 1
            for o, ns in order.items():
                last = -1
                for n in ns:
                    if seen[n] < last:
                        v.append(("reordered", "%r of %s was accepted before a point taken in earlier" % (n, o)))
                        break
                    last = seen[n]
    # ---- pauses between failing attempts
    streak = 0
    att = sorted([(w["t"], 1 if w["ok"] else 0, w["t2"]) for w in wr] + [(t, 0, t) for t in refused])
    prev = None
    for t, ok, t2 in att:
        if prev is not None and streak >= 8:
            gap = t - prev
            need = 4000 if streak < 20 else 200000
            if gap < need:
                v.append(("no-backoff", "attempt %d after %d failures in a row came %d us after the last one" % (len(att), streak, gap)))
                break
        if ok:
            streak = 0
        else:
            streak += 1
        st.add("streak%d" % min(streak, 12))
        prev = t2 if t2 is not None else t
    info["counts"] = dict(points=sum(map(len, exp.values())), lines=len(due), writes=len(wr), failed=len([w for w in wr if not w["ok"]]), refused=len(refused))
    info["nontrivial"] = info["counts"]["points"] >= 5 and (len(refused) > 0 or any(not w["ok"] for w in wr))
    return v, info
