"""JSON-encode filter: each log line becomes one faithful JSON message, everything else passes."""
import json
from collections import defaultdict
from ..common import *
from .. import intake as I, model as M

RUNS = {"quick": 2200, "thorough": 60000}
RULE = "a run counts when at least 5 log lines and at least one other event went through the filter"
REAL = REAL_CORE
STUB = STUB_CORE + ["native and avro clients", "endpoint of the native sink, Kafka broker"]
STATES = "classes of line contents, parsing on or off, overriding members, fields set by a script, classes of times, other events in between, faults met"
SCRIPT = """
function process_metric(p) end
function process_log(p)
  local text = payload.log_value(p, 1)
  payload.log_set_field(p, 1, "f1", string.sub(text, 1, 6))
  payload.log_set_field(p, 1, "path", "field-path")
  payload.log_set_field(p, 1, "message", "field-message")
end
function tick(p) end
"""


def rnd_json(r, d=0):
    q = r.random()
    if d > 3 or q < 0.15:
        return r.choice(["", "é漢\u2028", "a\"b\\c", "\x01\x1f\x7f", "x" * r.randint(0, 40), "\U0001f600", "</script>"])
    if q < 0.4:
        return r.choice([0, 1, -1, 12345678901, 18446744073709551615, -9223372036854775808, 1.5, -2.25e-7, 1e300, 0.1, 123456.789e3])
    if q < 0.5:
        return r.choice([True, False, None])
    if q < 0.75:
        return [rnd_json(r, d + 1) for _ in range(r.randint(0, 4))]
    return {r.choice(["a", "b", "é", "", "a b", "message", "path", "time", "tags", "f1"]): rnd_json(r, d + 1) for _ in range(r.randint(0, 4))}


BARE = ["{}", "{}", " {} ", "{\n}", "\t{}\r", "", " ", "\n", "null", "[]", "[{}]", "0", "-0", '""', '"{}"', "true", '{"a":null}', '{"":""}', '{"a":{}}', '{"message":""}', '{"message":null}', '{"f1":0}', "{", "}", "{}{}", "{},"]


def text(r, i):
    """(class, the line)"""
    k = r.choice(["plain", "plain", "ctrl", "json", "json", "json", "over", "array", "scalar", "broken", "nest", "deep", "dup", "tail", "sur", "big", "empty", "huge", "nan", "space"])
    if k == "plain":
        return k, i + r.choice([" hello", "", " \"quoted\" \\ back/slash", " é漢字 \U0001f600", " {}", "\u2028\u2029\ufeff"])
    if k == "ctrl":
        return k, i + "".join(chr(r.choice([0, 1, 7, 8, 9, 10, 12, 13, 27, 31, 127, 128, 159])) for _ in range(r.randint(1, 8)))
    o = {"id": i}
    if k == "json":
        x = rnd_json(r)
        o["v"] = x
        return k, json.dumps(o, ensure_ascii=r.random() < 0.5)
    if k == "over":
        for _ in range(r.randint(1, 4)):
            o[r.choice(["message", "path", "time", "tags", "f1"])] = rnd_json(r)
        return k, json.dumps(o, ensure_ascii=r.random() < 0.5, separators=(",", ":"))
    if k == "array":
        return k, json.dumps([i, rnd_json(r)])
    if k == "scalar":
        return k, r.choice(['"%s"' % i, i])
    if k == "broken":
        s = json.dumps(dict(o, v=rnd_json(r)))
        return k, r.choice([s[:-1], s + "}", s + " x", s.replace(":", "=", 1), "\ufeff" + s, s + ",", "{'id': '%s'}" % i, s.replace('"id"', "id", 1)])
    if k in ("nest", "deep"):
        n = r.randint(2, 100) if k == "nest" else r.choice([200, 1000, 20000])
        return k, '{"id":"%s","v":%s%s}' % (i, "[" * n, "]" * n)
    if k == "dup":
        return k, '{"id":"x","id":"%s","a":1,"a":[2]}' % i
    if k == "tail":
        return k, "\t " + json.dumps(o) + " \n"
    if k == "sur":
        return k, '{"id":"%s","v":"%s"}' % (i, r.choice(["\\ud800", "\\udc00x", "\\ud83d\\ude00", "\\u0000", "\\x41", "\\ud800\\u0041"]))
    if k == "big":
        return k, json.dumps(dict(o, v="y\"\n" * r.choice([100, 3000, 20000])))
    if k == "huge":
        return k, '{"id":"%s","v":%s}' % (i, r.choice(["1e400", "-1e400", "123456789012345678901234567890", "0." + "3" * 400, "1" * 400, "-0", "1E5", "01", "1.", ".5", "+1"]))
    if k == "nan":
        return k, '{"id":"%s","v":%s}' % (i, r.choice(["NaN", "Infinity", "-Infinity", "nul", "True"]))
    if k == "space":
        return k, '{"id":"%s" , "v"\t:\r\n [ ] }' % i
    return k, '{"id":"%s"}' % i


def gen(r, tier, i):
    b = B(r, 120)
    b.sched(light=True)
    b.net_faults()
    parse = r.random() < 0.7
    script = r.random() < 0.35
    tags = {"dc": "x1"} if r.random() < 0.4 else {}
    c = ['data-directory = "/sim/data"', 'scripts-directory = "@DIR@"', "flush-interval = 1"]
    spill = r.random() < 0.2
    if spill:
        c += ["max-hopper-in-memory-bytes = %d" % r.choice([600, 2000]), "max-hopper-queue-files = 1000"]
        b.fs_faults()
    if tags:
        c += ["[tags]", 'dc = "x1"']
    top = "filters.programmable.p" if script else "filters.json_encode.f"
    c += ["[sources.native.n]", 'ip = "127.0.0.1"', "port = 1980", 'forwards = ["%s"]' % top]
    c += ["[sources.avro.v]", 'host = "127.0.0.1"', "port = 2102", 'forwards = ["filters.json_encode.f"]']
    if script:
        c += ["[filters.programmable.p]", 'script = "p.lua"', 'forwards = ["filters.json_encode.f"]']
        b.scripts["p.lua"] = SCRIPT
    c += ["[filters.json_encode.f]", "parse_line = %s" % ("true" if parse else "false"), 'forwards = ["sinks.kafka.k", "sinks.native"]']
    c += ["[sinks.native]", 'host = "127.0.0.1"', "port = 1972", "flush_interval = 1"]
    c += ["[sinks.kafka.k]", 'topic = "topic"', 'brokers = "127.0.0.1:9092"', "flush_interval = 1", "[sinks.kafka.k.librdkafka]",
          '"queue.buffering.max.ms" = "5"', '"broker.version.fallback" = "0.11.0"', '"topic.metadata.refresh.fast.interval.ms" = "100"']
    b.cfg = c
    b.h("server 1972 sink")
    b.h("server 9092 kafka parts=1")
    nc = r.choice([1, 1, 2])
    for k in range(nc):
        b.at(200000, "connect n%d 1980" % k, keep=True)
    b.at(200000, "connect v 2102", keep=True)
    t, n, ev = 300000, 0, []
    for _ in range(r.randint(2, 12)):
        t += r.choice([0, 1000, 30000, 200000, 900000])
        k = r.randrange(nc)
        pl, mine = b"", []
        for _ in range(r.choice([1, 2, 5, 15])):
            n += 1
            e = dict(id="e%05d" % n, cid="n%d" % k, tags={r.choice(["k", "ünï", "a\"b", "message"]): r.choice(["", "v", "漢", "a\nb"])} if r.random() < 0.5 else {})
            if r.random() < 0.25:
                e.update(ty="p", kind=r.choice(["sum", "set", "summarize"]), v=float(r.randint(-9, 9)), ts=1500000000)
                pl += M.enc_point(e["id"], [e["v"]], e["kind"], e["tags"], e["ts"] * 1000)
            else:
                cl, tx = text(r, e["id"])
                ms = r.choice([0, 1500000000000, 1500000000000 + r.randint(-10 ** 9, 10 ** 9), 253402300799000, 253402300800000, -1000, -62135596800000, -62167219201000, r.randint(-2 ** 45, 2 ** 45), 8210298412799000, 8210298412800000, 2 ** 62, -2 ** 62])
                if r.random() < 0.12:       # no identifier in the text itself
                    cl, tx = "bare", r.choice(BARE)
                    e["tags"]["k"] = "id " + e["id"]
                e.update(ty="l", text=tx, cl=cl, ms=ms, path=r.choice(["/p", "", "/a b/\"c\"", "é"]))
                add = M.enc_line(e["path"], tx, e["tags"], ms)
                if len(pl) + len(add) > 1000000:
                    continue
                pl += add
            mine.append(e)
        b.at(t, "send n%d %s" % (k, M.frame(pl).hex()))
        for e in [x for x in mine if x["ty"] == "p"] + [x for x in mine if x["ty"] == "l"]:
            e["cmd"] = b.events[-1][1]
            ev.append(e)
        if r.random() < 0.3:
            n += 1
            blob = M.avro_blob("e%05d" % n)
            b.at(t, "send v %s" % M.avro_frame(blob, n, r.getrandbits(32), False).hex())
            ev.append(dict(id="e%05d" % n, cid="v", ty="r", blob=blob.hex(), cmd=b.events[-1][1]))
    b.at(t + 1, "nofaults", keep=True)
    sig = None
    end = t + 9 * SEC
    if r.random() < 0.3:
        sig = t + r.choice([1000, 100000, 1000000])
        b.at(sig, "signal 15", keep=True)
        end = sig + 60 * SEC
    b.at(end, "end", keep=True)
    b.meta.update(ev=ev, parse=parse, script=script, tags=tags, sig=sig, nc=nc, spill=spill)
    return b.case()


def rfc3339(ms):
    s = abs(ms) // 1000 * (1 if ms >= 0 else -1)        # a source truncates to seconds
    lo, hi = -8334632851200, 8210298412799
    if s > hi:
        s = hi
    elif s < lo:
        s = lo
    days, sec = divmod(s, 86400)
    z = days + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    mo = mp + 3 if mp < 10 else mp - 9
    if mo <= 2:
        y += 1
    ys = "%04d" % y if 0 <= y <= 9999 else "%+05d" % y
    return "%s-%02d-%02dT%02d:%02d:%02d+00:00" % (ys, mo, d, sec // 3600, sec // 60 % 60, sec % 60)


class Bad(Exception):
    pass


def parse_object(s):
    """the members of a JSON object, None when the text is none"""
    depth = top = 0
    ins = esc = False
    for ch in s:
        if ins:
            if esc:
                esc = False
            elif ch == "\\":
                esc = True
            elif ch == '"':
                ins = False
        elif ch == '"':
            ins = True
        elif ch in "[{":
            depth += 1
            top = max(top, depth)
        elif ch in "]}":
            depth -= 1
    if top > 127:
        return "deep" if top <= 128 else None

    def const(x):
        raise Bad()

    def flt(x):
        f = float(x)
        if f in (float("inf"), float("-inf")):
            raise Bad()
        return f
    try:
        # only JSON's own white space
        if s.strip(" \t\r\n") != s.strip() and s.strip(" \t\r\n")[:1] not in ("{",):
            return None
        v = json.loads(s, parse_constant=const, parse_float=flt, parse_int=lambda x: int(x) if len(x) < 30 else flt(x))
        json.dumps(v, ensure_ascii=False).encode("utf8")
    except (Bad, ValueError, UnicodeEncodeError, RecursionError):
        return None
    return v if isinstance(v, dict) else None


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (not (isinstance(a, int) and isinstance(b, int) and -2 ** 63 <= a < 2 ** 64)) and abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def expected(e, m):
    o = parse_object(e["text"]) if m["parse"] else None
    if o == "deep":
        return None
    meta = {"time": rfc3339(e["ms"]), "path": e["path"], "tags": dict(m["tags"], **e["tags"])}
    fields = {"f1": e["text"].encode("utf8")[:6].decode("utf8", "replace"), "path": "field-path", "message": "field-message"} if m["script"] else {}
    return {**meta, **fields, **(o if o is not None else {"message": e["text"]})}


def check(case, log):
    v, st = [], set()
    m = case["meta"]
    cmds = set(e[1] for e in case["events"])
    sig = m["sig"]
    info = dict(nontrivial=False, states=st, counts={})
    for f in log.faults:
        st.add("f:" + f)
    eps, nr = I.client_eps(log), I.reads(log)
    sent, whole = defaultdict(int), set()
    for e in sorted(case["events"], key=lambda e: e[0]):
        w = e[1].split(" ")
        if w[0] == "send":
            sent[w[1]] += len(w[2]) // 2
            if nr.get(eps.get(w[1], -1), 0) >= sent[w[1]]:
                whole.add(e[1])
    ev = [e for e in m["ev"] if e["cmd"] in cmds and e["cmd"] in whole]
    nl = sum(e["ty"] == "l" for e in ev)
    info["counts"] = dict(lines=nl, others=len(ev) - nl)
    info["nontrivial"] = nl >= 5 and len(ev) > nl
    info["sample"] = dict(parse=m["parse"], script=m["script"], signal=sig, faults=log.faults, lines=[[e["cl"], e["text"][:60], e["ms"]] for e in ev if e["ty"] == "l"][:8])
    if (log.end == "EXIT") != bool(sig) or not log.ok_end() or sig and log.code != 0 or log.panics():
        return [("died" if not sig or log.end == "EXIT" else "no-exit", "run ended with %s %s; panics %s" % (log.end, log.code, log.panics()[:2]))], info
    for e in ev:
        if e["ty"] == "l":
            st.add("%s:%s:%s" % (e["cl"], "parse" if m["parse"] else "as-is", "fields" if m["script"] else "plain"))
            st.add("ms:%d" % (len(str(e["ms"])) * (-1 if e["ms"] < 0 else 1)))
    for f in ("spill", "sig"):
        if m[f]:
            st.add(f)
    # metrics pass unchanged
    pts, lns, errs = M.native_events(log, 1972)
    if errs:
        return [("undecodable", errs[0])], info
    if lns:
        v.append(("line-passed", "a line passed the filter: %s" % lns[0][1]))
    for cid in sorted(set(e["cid"] for e in ev)):
        exp = [e for e in ev if e["cid"] == cid and e["ty"] == "p"]
        ids = set(e["id"] for e in exp)
        got = [x for t, x in pts if x["name"] in ids]
        if [e["id"] for e in exp] != [x["name"] for x in got]:
            v.append(("points", "points of %s: expected %s, got %s" % (cid, [e["id"] for e in exp][:20], [x["name"] for x in got][:20])))
        for e, x in zip(exp, got):
            if x["kind"] != e["kind"] or x["samples"] != [e["v"]] or {k: z for k, z in x["tags"].items() if k != "dc"} != e["tags"]:
                v.append(("points", "point %s became %s" % (e, x)))
    # messages
    got = sorted(M.kafka_stored(log), key=lambda x: (x["part"], x["off"]))
    keyed = defaultdict(list)
    for n, x in enumerate(got):
        b = x["value"]
        try:
            js = json.loads(b.decode("utf8"))
        except Exception:
            js = None
        keyed["raw" if js is None else "js"].append((n, js, b))
    exp = [e for e in ev if e["ty"] == "l"]
    used = set()
    pos = {}
    for e in exp:
        e["x"] = expected(e, m)
    import re
    cand = defaultdict(list)
    for n, js, b in keyed["js"]:
        for i in set(re.findall(rb"e\d{5}", b)):
            cand[i.decode()].append((n, js))
    for e in exp:
        c = cand[e["id"]]
        if len(c) != 1:
            v.append(("lost" if not c else "duplicated", "line %s (%s %r) led to %d messages" % (e["id"], e["cl"], e["text"][:80], len(c))))
            continue
        n, js = c[0]
        pos[e["id"]] = n
        used.add(n)
        if e["x"] is not None and not eq(e["x"], js):
            v.append(("wrong", "line %r, time %d, path %r, tags %s became %s, expected %s" % (e["text"][:300], e["ms"], e["path"], e["tags"], json.dumps(js)[:600], json.dumps(e["x"])[:600])))
    for e in [e for e in ev if e["ty"] == "r"]:
        c = [n for n, js, b in keyed["raw"] if b.hex() == e["blob"]]
        if len(c) != 1:
            v.append(("raw", "raw message %s came out %d times" % (e["id"], len(c))))
        for n in c:
            pos[e["id"]] = n
            used.add(n)
    if len(used) < len(got) and not v:
        v.append(("spurious", "a message without cause: %r" % [b[:200] for n, js, b in keyed["js"] + keyed["raw"] if n not in used][:1]))
    for cid in sorted(set(e["cid"] for e in ev)):
        o = [pos[e["id"]] for e in ev if e["cid"] == cid and e["id"] in pos]
        if o != sorted(o):
            v.append(("reordered", "messages of %s are not in the order of the lines" % cid))
    for e in exp:
        e.pop("x", None)
    return v, info
