"""Elasticsearch: every log line is indexed or its attempts are used up."""
import datetime, json, re
from collections import defaultdict
from ..common import *
from .. import model as M, intake as I
from ..runner import hexs, unhex

RUNS = {"quick": 1800, "thorough": 100000}
RULE = "a run counts when at least 3 lines were due and at least one bulk request failed as a whole or one item was refused"
REAL = REAL_CORE
STUB = STUB_CORE + ["Elasticsearch server (bulk answers per item, whole-request errors, broken, cut, late and missing replies)", "clients of the sources, writer of the tailed file"]
STATES = "fates of bulk requests, refusals per item, faults met"
UUID = re.compile(r"^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$")


def err_body(kind, status):
    return json.dumps({"error": {"root_cause": [{"type": kind, "reason": "r", "index": "x"}], "type": kind, "reason": "r", "index": "x"}, "status": status}).encode().hex()


API = [("unavailable_shards_exception", 503), ("es_rejected_execution_exception", 429), ("index_not_found_exception", 404), ("parsing_exception", 400),
       ("mapper_parsing_exception", 400), ("action_request_validation_exception", 400), ("document_missing_exception", 404), ("index_already_exists_exception", 400),
       ("illegal_argument_exception", 400), ("cluster_block_exception", 403), ("circuit_breaking_exception", 503), ("process_cluster_event_timeout_exception", 503)]


def plan(r):
    q = r.random()
    if q < 0.5:
        return "items:" + ",".join(r.choice(["201", "201", "200", "400", "429", "503", "404"]) for _ in range(r.choice([1, 2, 3, 7]))) + r.choice(["", "", "", "+rst", "+close", "+cut", "+delay:400", "+replyclose"])
    if q < 0.55:
        return "items:" + ",".join(r.choice(["201", "u201", "u400", "400"]) for _ in range(3))
    if q < 0.6:
        return "items"
    if q < 0.8:
        k, n = r.choice(API)
        return "status:%d+body:%s" % (n, err_body(k, n))
    return r.choice(["status:500", "status:200+garbage", "status:200+body:" + b"{}".hex(), "status:413", "rst", "close", "status:502+garbage",
                     "status:200+body:" + b'{"took":1,"errors":false,"items":[]}'.hex(), "status:401", "status:500+replyclose"])


def gen(r, tier, i):
    b = B(r, 900)
    b.sched(light=True)
    b.net_faults()
    b.faults(fs_short_read=(0.05, 0.3), fs_eintr=(0.01,))
    tags = {"dc": "x 1"} if r.random() < 0.3 else {}
    limit = r.choice([0, 1, 2, 3, 10])
    refuse = False
    if r.random() < 0.006:
        limit, refuse = 255, True
    prefix = r.choice([None, "pre", "a-b"])
    fields = r.random() < 0.3
    b.meta.update(tags=tags, limit=limit, prefix=prefix, fields=fields)
    fwd = 'forwards = ["%s"]' % ("filters.programmable.p" if fields else "sinks.elasticsearch")
    c = ['data-directory = "/sim/data"', 'scripts-directory = "@DIR@"', "flush-interval = 1"]
    if tags:
        c += ["[tags]"] + ['%s = "%s"' % x for x in tags.items()]
    c += ["[sources.native.n]", 'ip = "127.0.0.1"', "port = 1980", fwd]
    c += ["[sources.files.f]", 'path = "/sim/logs/f.log"', fwd]
    if fields:
        c += ["[filters.programmable.p]", 'script = "f.lua"', 'forwards = ["sinks.elasticsearch"]']
        b.scripts["f.lua"] = 'function process_metric(p) end\nfunction process_log(p) payload.log_set_field(p, 1, "f1", "v\\"\\\\1") payload.log_set_field(p, 1, "f2", "") end\nfunction tick(p) end\n'
    c += ["[sinks.elasticsearch]", "port = 9200", 'host = "%s"' % r.choice(["localhost", "127.0.0.1"]), "secure = false", "delivery_attempt_limit = %d" % limit, "flush_interval = %d" % r.choice([1, 1, 1, 2])]
    if prefix:
        c.append('index-prefix = "%s"' % prefix)
    b.cfg = c
    b.h("mkdir /sim/logs")
    b.h("file /sim/logs/f.log -")
    if refuse:
        b.h("server 9200 http default=items:400" + conn_opts(r))
    else:
        b.h("server 9200 http default=items" + conn_opts(r))
        q = r.random()
        if q < 0.2:
            p = "items:" + r.choice(["400", "400,201", "201,429", "503,201,201"])
            for k in range(r.choice([3, 12, 14])):
                b.h("plan 9200 %d %s" % (k, p))
        elif q < 0.85:
            for k in range(r.randint(1, 12)):
                b.h("plan 9200 %d %s" % (r.randint(0, 12), plan(r)))
        elif q < 0.9:
            b.h("plan 9200 %d hang" % r.randint(0, 3))
    b.at(250000, "connect n 1980", keep=True)
    ids = [0]

    def nid():
        ids[0] += 1
        return "e%05d" % ids[0]
    t = 300000
    for k in range(r.randint(2, 14)):
        t += r.choice([0, 0, 100, 3000, 20000, 400000, 1500000])
        n = r.choice([1, 1, 3, 10, 60]) if not refuse else 1
        txt = lambda: "".join(r.choice("ab c\t\"\\é漢{}:/\u2028") for _ in range(r.choice([0, 5, 60])))
        if r.random() < 0.5:
            b.at(t, "append /sim/logs/f.log " + hexs("".join(nid() + txt() + "x\n" for _ in range(n))))
        else:
            pl = b""
            for _ in range(n):
                tg = {r.choice(["k", "k2", "ünï"]): r.choice(["v", "", "a\"b", "漢"]) for _ in range(r.choice([0, 0, 1, 2]))}
                pl += M.enc_line(r.choice(["/a/b", "p \"q\"", ""]), nid() + txt() + r.choice(["", "\n", "\x01"]), tg, r.choice([0, 1500000000999, -1500, 951782400000, 4102444800000, 1514764799999]))
            b.at(t, "send n " + M.frame(pl).hex())
    up = t
    if r.random() < 0.4:
        up = trouble(b, 9200, t)
    calm(b, 9200, up + 600000)
    end = up + (580 if refuse else 110 if any("hang" in h for h in b.head) else 60) * SEC
    if r.random() < 0.4:
        b.at(up + r.choice([700000, 1700000, 5700000]), "signal 15", keep=True)
        b.meta["sig"] = True
    b.at(end, "end", keep=True)
    return b.case()


def check(case, log):
    v, st = [], set()
    meta = case["meta"]
    info = dict(nontrivial=False, states=st, counts={})
    info["sample"] = {"plans": [h for h in case["head"] if h.startswith("plan")][:6], "events": [e[1][:100] for e in case["events"]][:6], "faults": log.faults}
    for f in log.faults:
        st.add("f:" + f)
    sig = meta.get("sig")
    if not log.ok_end() or (log.end == "EXIT") != bool(sig):
        return [("stuck" if log.end != "EXIT" else "died", "run ended with %s; panics %s" % (log.end, log.panics()[:2]))], info
    if log.panics() or sig and log.code != 0:
        return [("died", "exit status %s; panics %s" % (log.code, log.panics()[:2]))], info
    due, order, optional = {}, defaultdict(list), set()
    tsig = min([e[0] for e in case["events"] if e[1].startswith("signal")] + [1 << 60])
    for c, (sent, got) in I.streams(case, log).items():
        if len(sent) != len(got):
            v.append(("unread", "client %s sent %d bytes, %d were read" % (c, len(sent), len(got))))
        for l in I.native_points(got, meta["tags"])[1]:
            due[l["value"][:6]] = l
            order["n"].append(l["value"][:6])
    for e in case["events"]:
        w = e[1].split(" ")
        if w[0] == "append":
            for l in unhex(w[2]).decode().split("\n")[:-1]:
                due[l[:6]] = dict(path=w[1], value=l, ts=None, tags=dict(meta["tags"]))
                if e[0] > tsig - 6 * SEC:
                    optional.add(l[:6])     # perhaps not read before the signal
                order["f"].append(l[:6])
    # ---- requests
    reqs, wr, cur = {}, [], None
    for t, tid, k, rest in log.of("HREQ", "HRSP", "ITEM"):
        f = rest.split(" ")
        if k == "ITEM":
            if cur is not None:
                cur["items"].append((f[0], int(f[1])))
        elif f[0] == "9200":
            if k == "HREQ":
                cur = dict(t=t, n=int(f[2]), start=" ".join(f[3:-1]), body=unhex(f[-1]), items=[], ans=None, t2=None)
                reqs[cur["n"]] = cur
                wr.append(cur)
            else:
                reqs[int(f[2])].update(ans=f[3], t2=t)
    bad_t = [t for t, tid, k, rest in log.of("XRST", "RSTIN", "SRST", "SRV")]
    ident = {}
    byid = {}
    acked, refused, refused_sure, sent = {}, defaultdict(int), defaultdict(int), defaultdict(list)
    for i, w in enumerate(wr):
        if not re.match(r"^POST /(\S*/)?_bulk( |$|\?)", w["start"]):
            v.append(("request", "unexpected request %r" % w["start"]))
        try:
            ls = w["body"].decode().split("\n")
            docs = [(json.loads(a), json.loads(d)) for a, d in zip(ls[0:-1:2], ls[1:-1:2])]
            if ls[-1] != "" or len(ls) % 2 != 1:
                raise ValueError("odd number of lines")
        except Exception as e:
            return [("malformed", "bulk request %d: %r" % (w["n"], e))], info
        nt = wr[i + 1]["t"] if i + 1 < len(wr) else log.t_us
        a = set(x.split(":")[0] for x in (w["ans"] or "hang").split("+"))
        w["clean"] = bool(w["items"]) and not a & {"rst", "close", "cut", "hang"} and not any(w["t"] <= x <= nt for x in bad_t)
        w["maybe"] = bool(w["items"]) and not a & {"rst", "close", "cut", "hang"}
        ua = "u" in (w["ans"] or "") and "items:" in (w["ans"] or "") and re.search(r"items:[^+]*u", w["ans"])
        st.add("a:" + "+".join(sorted(a)) + ("!" if any(c >= 300 for _, c in w["items"]) else ""))
        for h, d in docs:
            hid = h.get("index", {}).get("_id", "")
            key = str(d.get("payload"))[:6]
            e = due.get(key)
            if e is None:
                return [("spurious", "document %r: no such line was taken in" % d)], info
            if not UUID.match(hid) or d.get("uuid") != hid:
                v.append(("id", "%s: _id %r, uuid %r" % (key, hid, d.get("uuid"))))
            if ident.setdefault(key, hid) != hid:
                v.append(("id-changed", "line %s was sent as %s and as %s" % (key, ident[key], hid)))
            if byid.setdefault(hid, key) != key:
                v.append(("id-shared", "%s and %s share the id %s" % (key, byid[hid], hid)))
            exp = {"uuid": hid, "path": e["path"], "payload": e["value"], "timestamp": None}
            exp.update(e["tags"])
            if meta["fields"]:
                exp.update(f1='v"\\1', f2="")
            ts = d.get("timestamp")
            x = dict(d, timestamp=None)
            try:
                tm = datetime.datetime.strptime(ts.replace("+00:00", ""), "%Y-%m-%dT%H:%M:%S")
                sec = int((tm - datetime.datetime(1970, 1, 1)).total_seconds())
                okt = sec == e["ts"] if e["ts"] is not None else 1499999999 <= sec <= 1500000900
                ix = (meta["prefix"] + "-" if meta["prefix"] else "") + tm.strftime("%Y-%m-%d")
            except Exception:
                okt, ix = False, "?"
            if x != exp or not okt or h["index"].get("_index") != ix or h["index"].get("_type") != "payload":
                v.append(("altered", "document %r under %r; expected %r at %r" % (d, h, exp, e["ts"])))
            if key in acked:
                v.append(("sent-again", "line %s was acknowledged in request %d and sent again in %d" % (key, acked[key], w["n"])))
            sent[key].append(w["n"])
        if v:
            return v[:2], info
        ust = re.search(r"items:([^+]*)", w["ans"] or "")
        ust = ust.group(1).split(",") if ust else [""]
        for k, (hid, code) in enumerate(w["items"]):
            key = byid.get(hid)
            if key is None or ust[k % len(ust)].startswith("u"):
                continue        # the answer named another id: nothing was said about this one
            if code < 300:
                if w["clean"]:
                    acked[key] = w["n"]
                if w["maybe"]:
                    w.setdefault("macked", set()).add(key)
            else:
                if w["clean"]:
                    refused_sure[key] += 1
                if w["maybe"]:
                    refused[key] += 1
    macked = set().union(*[w.get("macked", set()) for w in wr]) if wr else set()
    limit = meta["limit"]
    for key in due:
        if key in optional and not sent[key]:
            continue
        if not sent[key]:
            v.append(("lost", "line %s was never sent; %d requests; panics %s" % (key, len(wr), log.panics()[:1])))
            break
        if refused_sure[key] > limit + 1:
            v.append(("never-given-up", "line %s was refused %d times with a limit of %d" % (key, refused_sure[key], limit)))
            break
        if key in macked:
            continue
        if refused[key] < max(1, limit):
            v.append(("given-up", "line %s was refused %d times (limit %d), never acknowledged, and is no longer sent (last in request %d of %d)" % (key, refused[key], limit, sent[key][-1], len(wr))))
            break
    for k in refused.values():
        st.add("refused%d" % min(k, 12))
    # requests carry what is still due, in the order taken in
    for w in wr:
        ks = [str(json.loads(l)["payload"])[:6] for l in w["body"].decode().split("\n")[1:-1:2]]
        for o, ns in order.items():
            pos = {n: j for j, n in enumerate(ns)}
            x = [pos[k] for k in ks if k in pos]
            if len(set(x)) != len(x):
                v.append(("duplicated", "request %d has a line twice" % w["n"]))
            if x != sorted(x):
                v.append(("reordered", "request %d carries lines of %s out of order" % (w["n"], o)))
        if v:
            break
    info["counts"] = dict(lines=len(due), requests=len(wr), refusals=sum(refused.values()), failed=len([w for w in wr if not w["items"] or not w["maybe"]]))
    info["nontrivial"] = len(due) >= 3 and (info["counts"]["refusals"] > 0 or info["counts"]["failed"] > 0)
    return v, info
