"""Internal telemetry: what cernan counts about itself adds up."""
from collections import defaultdict
from ..common import *
from .. import intake as I, model as M, wl_kafka as K
from ..runner import hexs, unhex

RUNS = {"quick": 2400, "thorough": 80000}
RULE = "a run counts when at least three different counters had to be reported and one of them counted at least 20 times"
REAL = REAL_CORE
STUB = STUB_CORE + ["clients of the sources, writer of the tailed files", "endpoints of the native, Wavefront, InfluxDB, Elasticsearch and Kafka sinks, Prometheus scrapers"]
STATES = "counters reported, sizes of the counts, counters active together, termination, faults met"
EPOCH = 1500000000
ES = "cernan.sinks.elasticsearch."
PR = "cernan.sinks.prometheus."
WF = "cernan.sinks.wavefront."
# counters which must equal the number of times the thing happened
COUNTERS = ["cernan.util.hopper.error.full", "cernan.graphite.new_peer", "cernan.graphite.packet", "cernan.graphite.telemetry.received", "cernan.graphite.bad_packet", "cernan.statsd.packet",
            "cernan.statsd.bad_packet", "cernan.native.payload.success", "cernan.native.payload.parse.failure", "cernan.avro.payload.success", "cernan.avro.payload.parse.failure",
            "cernan.avro.payload.io.failure", ES + "records.delivery", ES + "records.total_delivered", ES + "records.total_failed", ES + "error.bulk_action.index",
            ES + "error.bulk_action.create", ES + "error.bulk_action.update", ES + "error.bulk_action.delete", ES + "error",
            WF + "proxy.connection_attempts", WF + "aggregation.histogram", WF + "aggregation.sum", WF + "aggregation.summarize",
            WF + "aggregation.summarize.total_percentiles", WF + "delivery.failure", WF + "valve.closed", PR + "aggregation.inside_baseball.windowed.purged", PR + "report.success", PR + "report.error",
            "cernan.sinks.influxdb.success", "cernan.sinks.influxdb.failure.client_error", "cernan.sinks.influxdb.failure.server_error", "cernan.sinks.kafka.publish.success",
            "cernan.sinks.kafka.publish.retry", "cernan.sinks.kafka.publish.failure", "cernan.sinks.kafka.publish.retry.failure", "cernan.filters.delay.telemetry.accept", "cernan.filters.delay.telemetry.reject",
            "cernan.filters.delay.log.reject", "cernan.filters.delay.log.accept", "cernan.filters.json_encode.log.processed", "cernan.filters.json_encode.log.parsed",
            "cernan.sources.file.bytes_read", "cernan.sources.file.switch", "cernan.sources.file.truncation"]


def gen(r, tier, i):
    b = B(r, 200, EPOCH)
    b.sched(desched=0.75)
    b.net_faults()
    src = r.sample(["statsd", "graphite", "native", "avro", "files"], r.choice([1, 2, 3, 5]))
    snk = [k for k in ("wavefront", "influxdb", "elasticsearch", "prometheus") if r.random() < 0.3]
    if "avro" in src:
        snk.append("kafka")
    flt = r.choice([None, None, "delay", "json"])
    c = ['data-directory = "/sim/data"', 'scripts-directory = "@DIR@"', "flush-interval = 1"]
    spill = r.random() < 0.15
    if spill:
        c += ["max-hopper-in-memory-bytes = %d" % r.choice([600, 2000]), "max-hopper-queue-files = 1000"]
        b.fs_faults()
    tags = {"dc": "x1"} if r.random() < 0.3 else {}
    if tags:
        c += ["[tags]", 'dc = "x1"']
    c += ["[sources.internal]", 'forwards = ["sinks.native"]']
    c += ["[sinks.native]", 'host = "127.0.0.1"', "port = 1972", "flush_interval = 1"]
    b.h("server 1972 sink")
    dest = ["sinks." + k for k in snk if k != "kafka"] + (["sinks.kafka.k"] if "kafka" in snk else [])
    if not dest:
        dest = ["sinks.null"]
        c += ["[sinks.null]"]
    down = None
    if "wavefront" in snk:
        c += ["[sinks.wavefront]", 'host = "127.0.0.1"', "port = 2878", "flush_interval = %d" % r.choice([1, 2])]
        b.h("server 2878 sink" + (conn_opts(r) if r.random() < 0.5 else ""))
    if "influxdb" in snk:
        c += ["[sinks.influxdb]", 'host = "127.0.0.1"', "port = 8089", 'db = "db"', "secure = false", "flush_interval = %d" % r.choice([1, 2])]
        b.h("server 8089 http")
        for _ in range(r.choice([0, 0, 1, 4])):
            b.h("plan 8089 %d %s" % (r.randint(0, 9), r.choice(["status:500", "status:503", "status:400", "status:429", "rst", "delay:300+status:500", "delay:700+status:204"])))
    if "elasticsearch" in snk:
        c += ["[sinks.elasticsearch]", 'host = "127.0.0.1"', "port = 9200", "secure = false", "delivery_attempt_limit = %d" % r.choice([0, 1, 10]), "flush_interval = %d" % r.choice([1, 2])]
        b.h("server 9200 http default=items")
        for _ in range(r.choice([0, 0, 1, 4])):
            b.h("plan 9200 %d %s" % (r.randint(0, 6), r.choice(["items:400", "items:201,429", "items:503,201,201", "status:500", "status:404", "status:200+garbage", "status:500+garbage", "rst", "delay:300+items"])))
    if "prometheus" in snk:
        c += ["[sinks.prometheus]", 'host = "127.0.0.1"', "port = 8086", "capacity_in_seconds = 2"]
    if "kafka" in snk:
        c += ["[sinks.kafka.k]", 'topic = "topic"', 'brokers = "127.0.0.1:9092"', "flush_interval = 1", "[sinks.kafka.k.librdkafka]", '"queue.buffering.max.ms" = "5"',
              '"message.send.max.retries" = "0"', '"broker.version.fallback" = "0.11.0"', '"topic.metadata.refresh.fast.interval.ms" = "100"']
        b.h("server 9092 kafka parts=2")
        for _ in range(r.choice([0, 0, 1, 3])):
            b.h("kafka 9092 plan %d err:%d" % (r.randint(0, 6), r.choice([7, 13, 14, 19, 20, 41])))      # others librdkafka retries by itself
    top = dest
    if flt == "delay":
        c += ["[filters.delay.d]", "tolerance = 1000", "forwards = " + toml_list(dest)]
        top = ["filters.delay.d"]
    elif flt == "json":
        c += ["[filters.json_encode.j]", "parse_line = true", "forwards = " + toml_list([d for d in dest if "kafka" not in d] or ["sinks.null"])]
        if "[sinks.null]" not in c:
            c += ["[sinks.null]"]
        top = ["filters.json_encode.j"]
    if "statsd" in src:
        c += ["[sources.statsd.a]", 'host = "127.0.0.1"', "port = 8125", "forwards = " + toml_list(top)]
    if "graphite" in src:
        c += ["[sources.graphite.a]", 'host = "127.0.0.1"', "port = 2003", "forwards = " + toml_list(top)]
    if "native" in src:
        c += ["[sources.native.a]", 'ip = "127.0.0.1"', "port = 1980", "forwards = " + toml_list(top)]
    if "avro" in src:
        c += ["[sources.avro.a]", 'host = "127.0.0.1"', "port = 2102", "forwards = " + toml_list(dest)]
    if "files" in src:
        c += ["[sources.files.a]", 'path = "/sim/logs/*.log"', "forwards = " + toml_list(top)]
        b.h("mkdir /sim/logs")
        b.h("file /sim/logs/f.log -")
        b.h("file /sim/logs/g.log -")
    b.cfg = c
    port = dict(graphite=2003, native=1980, avro=2102)
    cl = {}
    for s in src:
        if s in port:
            cl[s] = ["%s%d" % (s[0], k) for k in range(r.choice([1, 1, 2, 3]))]
            for k in cl[s]:
                b.at(200000 + r.choice([0, 0, 900000]), "connect %s %d" % (k, port[s]), keep=True)
    # bursts, so that there is counting while reports are made
    t, n = 1200000, 0
    dense = r.random() < 0.7
    poison = []
    for _ in range(r.randint(2, 8)):
        t += r.choice([0, 1000, 30000, 200000, 700000])
        s = r.choice(src)
        for _ in range(r.choice([1, 2, 10, 40]) if not dense else r.choice([30, 80, 150])):
            t += 0 if not dense else r.choice([0, 100, 2000, 9000])
            s = r.choice([s, s, s, r.choice(src)])
            n += 1
            bad = r.random() < 0.15
            k = "e%05d" % n
            old = r.random() < 0.3
            ts = EPOCH + t // SEC - (100000 if old else r.randint(0, 50))
            if s == "statsd":
                good = "\n".join("%s.%d:%d|%s" % (k, j, r.randint(0, 99), r.choice(["c", "ms", "h"])) for j in range(r.choice([1, 1, 3])))
                b.at(t, "udp 8125 " + hexs(good + r.choice(["", "\n"])) if not bad else "udp 8125 " + r.choice([hexs(k + ":x|c"), hexs(k), hexs(good + "\n" + k + ":1|q"), (k + ":1|c").encode().hex() + "ff"]))
            elif s == "graphite":
                cid = r.choice(cl[s])
                b.at(t, "send %s %s" % (cid, hexs((("%s %d %d\n" % (k, r.randint(-9, 9), ts)) if not bad else r.choice(["%s x %d\n" % (k, ts), "%s\n" % k, "%s 1 x\n" % k])))))
            elif s == "native":
                if not cl[s]:
                    continue
                cid = r.choice(cl[s])
                if bad and r.random() < 0.2 and len(cl[s]) > 1:
                    b.at(t, "send %s %s" % (cid, M.frame(bytes([0x12, 0x7f, 1])).hex()))
                    cl[s].remove(cid)
                    continue
                pl = b""
                for j in range(r.choice([0, 1, 1, 4])):
                    pl += M.enc_point("%s.%d" % (k, j), [float(r.randint(0, 9))], r.choice(["sum", "set", "summarize"]), {}, ts * 1000) if r.random() < 0.6 else \
                        M.enc_line("/p", r.choice(["%s.%d" % (k, j), '{"id":"%s.%d"}' % (k, j), '["%s.%d"]' % (k, j)]), {}, ts * 1000)
                b.at(t, "send %s %s" % (cid, M.frame(pl).hex()))
            elif s == "avro":
                if not cl[s]:
                    continue
                cid = r.choice(cl[s])
                if bad and r.random() < 0.3 and len(cl[s]) > 1:
                    b.at(t, "send %s %s" % (cid, r.choice([M.frame(bytes([0, 0, 0, 9, 0, 0])).hex(), "ffffffff00"])))
                    cl[s].remove(cid)
                    continue
                if r.random() < 0.05:
                    poison.append(k)
                b.at(t, "send %s %s" % (cid, M.avro_frame(M.avro_blob(k), n, r.getrandbits(32), False).hex()))
            else:
                b.at(t, "append /sim/logs/%s.log %s" % (r.choice("fg"), hexs("".join("%s.%d%s\n" % (k, j, "x" * r.randint(0, 30)) for j in range(r.choice([1, 1, 5]))))))
    for p in poison:
        b.h("kafka 9092 poison %d %s" % (r.choice(K.FATAL), p.encode().hex()))
    if "prometheus" in snk:
        for k in range(r.choice([0, 1, 5])):
            b.at(t * r.random(), "scrape %d 8086" % k)
    b.at(t + 1, "nofaults", keep=True)
    up = t
    if "wavefront" in snk:
        if r.random() < 0.4:
            up = trouble(b, 2878, t)
            if len(snk) > 1:        # it would hit the others, too: a reply may be written but never arrive
                b.events = [e for e in b.events if not e[1].startswith("fault conn_reset")]
        calm(b, 2878, up + 2)
    sig = None
    # every backlog is worked off and reported by then
    end = up + 16 * SEC
    rot = None
    if "files" in src and r.random() < 0.5:
        rot = r.choice(["rotate", "truncate"])
        q = t + 4 * SEC
        if rot == "rotate":
            b.at(q, "rename /sim/logs/f.log /sim/logs/f.1", keep=True)
            b.at(q + 1, "create /sim/logs/f.log", keep=True)
        else:
            b.at(q, "truncate /sim/logs/f.log 0", keep=True)
        b.at(q + 4 * SEC, "append /sim/logs/f.log " + hexs("later line\n"))
        end = q + 14 * SEC
    if r.random() < 0.2:
        sig = t * r.random() + r.choice([0, 1500000])
        b.at(sig, "signal 15", keep=True)
        end = sig + 100 * SEC
    b.at(end, "end", keep=True)
    b.meta.update(src=src, snk=snk, flt=flt, tags=tags, sig=sig, rot=rot, spill=spill, dense=dense, end=end)
    return b.case()


def happenings(case, log):
    """{counter: [times at which it may have been counted at the earliest]}, one entry per count"""
    m = case["meta"]
    H = defaultdict(list)
    for t, port, d in I.udp(log):
        H["cernan.statsd.packet" if M.statsd_datagram(d) else "cernan.statsd.bad_packet"].append(t)
    lines, points = [], []      # through the filter: (t, dict)
    for t, port, d in I.udp(log):
        points += [(t, dict(p, ts=None)) for p in M.statsd_datagram(d)]
    eps, nr = I.client_eps(log), I.reads(log)
    sent, gone, buf = defaultdict(int), set(), defaultdict(bytes)
    for t, cmd in sorted([(e[0], e[1]) for e in case["events"] if e[1].startswith("send ")], key=lambda e: e[0]):
        w, cid, hx = cmd.split(" ")
        data = bytes.fromhex(hx)
        sent[cid] += len(data)
        if cid in gone or nr.get(eps.get(cid, -1), 0) < (sent[cid] if hx != "ffffffff00" else sent[cid] - 1):
            gone.add(cid)
            continue
        if cid[0] == "g":
            for l in data.decode().split("\n")[:-1]:
                f = l.split(" ")
                if len(f) == 3 and f[1] != "x" and f[2] != "x":
                    H["cernan.graphite.packet"].append(t)
                    H["cernan.graphite.telemetry.received"].append(t)
                    points.append((t, dict(name=f[0], kind="set", samples=[float(f[1])], ts=int(f[2]))))
                else:
                    H["cernan.graphite.bad_packet"].append(t)
        elif cid[0] == "n":
            for f in M.native_frames(data)[0]:
                if f[:2] == b"\x12\x7f":
                    H["cernan.native.payload.parse.failure"].append(t)
                    gone.add(cid)
                else:
                    H["cernan.native.payload.success"].append(t)
            if cid not in gone:
                ps, ls = I.native_points(data)
                points += [(t, p) for p in ps]
                lines += [(t, l) for l in ls]
        elif cid[0] == "a":
            if data[:4] == b"\xff" * 4:
                H["cernan.avro.payload.io.failure"].append(t)
            elif len(data) == 10:
                H["cernan.avro.payload.parse.failure"].append(t)
            else:
                H["cernan.avro.payload.success"].append(t)
    for t, tid, k, rest in log.of("A"):
        if "port=2003" in rest.split(" "):
            H["cernan.graphite.new_peer"].append(t)
    # files
    for e in case["events"]:
        w = e[1].split(" ")
        if w[0] == "append":
            for l in unhex(w[2]).decode().split("\n")[:-1]:
                H["cernan.sources.file.bytes_read"] += [e[0]] * len(l)
                lines.append((e[0], dict(value=l, ts=e[0] // SEC + EPOCH)))
        elif w[0] == "create":
            H["cernan.sources.file.switch"].append(e[0])
        elif w[0] == "truncate":
            size = sum(len(unhex(x[1].split(" ")[2])) for x in case["events"] if x[1].startswith("append /sim/logs/f.log") and x[0] < e[0])
            H["cernan.sources.file.truncation"] += [e[0]] * size
    now = lambda t: EPOCH + t / 1e6
    if m["flt"] == "delay":
        for what, xs in (("telemetry", points), ("log", lines)):
            for t, x in xs:
                H["cernan.filters.delay.%s.%s" % (what, "accept" if x["ts"] is None or abs(now(t) - x["ts"]) < 500 else "reject")].append(t)
        points = [(t, x) for t, x in points if x["ts"] is None or abs(now(t) - x["ts"]) < 500]
        lines = [(t, x) for t, x in lines if x["ts"] is None or abs(now(t) - x["ts"]) < 500]
    elif m["flt"] == "json":
        H["cernan.filters.json_encode.log.processed"] += [t for t, x in lines]
        H["cernan.filters.json_encode.log.parsed"] += [t for t, x in lines if x["value"].startswith("{")]
    # sinks
    if "wavefront" in m["snk"]:
        for t, p in points:
            if p["kind"] == "summarize":
                H[WF + "aggregation.summarize"].append(t)
                H[WF + "aggregation.summarize.total_percentiles"] += [t] * 13
            else:
                H[WF + "aggregation.sum"].append(t)
        first = True
        for t, tid, k, rest in sorted(log.of("C", "XREFUSED", "XBLACKHOLE")):
            if "port=2878" in rest.split(" "):
                if not first:
                    H[WF + "proxy.connection_attempts"].append(t)
                first = False
        ep = set(rest.split(" ")[0] for t, tid, k, rest in log.of("C") if "port=2878" in rest.split(" "))
        for t, tid, k, rest in log.of("we"):
            f = rest.split(" ")
            if f[0] in ep and f[1] not in ("4", "11"):
                H[WF + "delivery.failure"].append(t)
    if "prometheus" in m["snk"]:
        H[PR + "aggregation.inside_baseball.windowed.purged"] += [t for t, p in points if p["kind"] == "summarize"]
        for t, tid, k, rest in log.of("SCR"):
            if rest.split(" ")[1] == "200":
                H[PR + "report.success"].append(t)
    if "kafka" in m["snk"]:
        for n, q in K.requests(log).items():
            H["cernan.sinks.kafka.publish.success"] += [q["t"]] * len(q["stored"])
        for t, tid, k, rest in log.of("KREFUSE"):
            H["cernan.sinks.kafka.publish." + ("retry" if int(rest.split(" ")[1]) in K.RECOVERABLE else "failure")].append(t)
    for t, tid, k, rest in log.of("HRSP"):
        f = rest.split(" ")
        pl = f[3].split("+")
        if "rst" in pl:
            continue
        st = next((int(x[7:]) for x in pl if x.startswith("status:")), None)
        if f[0] == "8089":
            H["cernan.sinks.influxdb." + ("success" if st is None or st < 300 else "failure.client_error" if st < 500 else "failure.server_error")].append(t)
        elif st is not None:
            H[ES + "error"].append(t)
        else:
            H[ES + "records.delivery"].append(t)
    for t, tid, k, rest in log.of("ITEM"):
        if int(rest.split(" ")[1]) < 300:
            H[ES + "records.total_delivered"].append(t)
        else:
            H[ES + "records.total_failed"].append(t)
            H[ES + "error.bulk_action.index"].append(t)
    return H


def check(case, log):
    v, st = [], set()
    m = case["meta"]
    sig = m["sig"]
    info = dict(nontrivial=False, states=st, counts={})
    for f in log.faults:
        st.add("f:" + f)
    if (log.end == "EXIT") != bool(sig) or not log.ok_end() or sig and log.code != 0 or log.panics():
        return [("died" if not sig or log.end == "EXIT" else "no-exit", "run ended with %s %s; panics %s" % (log.end, log.code, log.panics()[:2]))], info
    H = happenings(case, log)
    pts, lns, errs = M.native_events(log, 1972)
    if errs:
        return [("undecodable", errs[0])], info
    if lns:
        v.append(("spurious", "a line among the internal telemetry: %s" % lns[0][1]))
    got = defaultdict(list)
    for t, p in pts:
        n = p["name"]
        if n.startswith(ES + "error.") and "bulk_action" not in n:
            n = ES + "error"
        if p["kind"] != "sum" and n in COUNTERS:
            v.append(("kind", "%s is reported as %s" % (n, p["kind"])))
        if len(p["samples"]) != 1 or p["samples"][0] < 0 or p["samples"][0] != int(p["samples"][0]):
            v.append(("value", "%s is reported with %s" % (n, p["samples"])))
            continue
        if n.startswith("cernan.sources.file") and p["tags"].get("file_path") not in ("/sim/logs/f.log", "/sim/logs/g.log"):
            v.append(("tags", "%s is reported with tags %s" % (n, p["tags"])))
        got[n].append((t, int(p["samples"][0])))
    info["counts"] = {"reports": len(pts), "counted": sum(len(x) for x in H.values())}
    for n in COUNTERS:
        h = sorted(H.get(n, []))
        g = got.get(n, [])
        tot = sum(x for t, x in g)
        if h:
            st.add("%s:%d" % (n, len(str(len(h)))))
        k = c = 0
        for t, x in g:
            c += x
            while k < len(h) and h[k] <= t:
                k += 1
            if c > k:
                v.append(("too-many", "%s: %d reported at %.3f s, it had happened %d times" % (n, c, t / 1e6, k)))
                break
        else:
            due = sum(x < m["end"] - 4 * SEC for x in h)
            if not sig and tot < due:
                v.append(("too-few", "%s: %d reported of %d%s" % (n, tot, due, " (reports: %s)" % g[:12] if len(g) < 40 else "")))
    act = [n for n in COUNTERS if H.get(n)]
    st.add("active:%d:%s%s%s" % (len(act), "sig" if sig else "", "spill" if m["spill"] else "", m["flt"] or ""))
    info["nontrivial"] = len(act) >= 3 and any(len(H[n]) >= 20 for n in act)
    info["sample"] = dict(sources=m["src"], sinks=m["snk"], filter=m["flt"], signal=sig, faults=log.faults, counts={n: [len(H[n]), sum(x for t, x in got.get(n, []))] for n in act})
    return v, info
