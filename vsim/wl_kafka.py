"""Avro clients -> cernan -> (real librdkafka) -> simulated Kafka cluster."""
import re
from .common import *
from . import model as M
from .runner import hexs, unhex

RECOVERABLE = [2, 3, 5, 6, 7, 13, 14, 15, 16, 19, 20, 41]
FATAL = [10, 17, 18, 21, 29]
CH = "abcdefghijklmnopqrstuvwxyz"


def gen_kafka(r, sync_p, faulty=True, sinks=1, limit=None, sigterm=False):
    b = B(r, 400)
    b.sched(light=True)
    b.head = [h for h in b.head if not h.startswith("maxsteps")] + ["maxsteps 20000000"]
    if faulty:
        b.net_faults()
    nb = r.choice([1, 1, 2, 3])
    ports = [9092 + k for k in range(nb)]
    parts = r.randint(1, 4)
    for p in ports:
        b.h("server %d kafka parts=%d" % (p, parts))
    b.cfg = ['data-directory = "/sim/data"', "flush-interval = 1"]
    snames = ["k%d" % k for k in range(sinks)]
    nsrc = r.choice([1, 1, 2])
    for s in range(nsrc):
        b.cfg += ["[sources.avro.a%d]" % s, 'host = "127.0.0.1"', "port = %d" % (2002 + s), "forwards = %s" % toml_list(["sinks.kafka.%s" % k for k in snames])]
    for k in snames:
        b.cfg += ["[sinks.kafka.%s]" % k, 'topic = "topic-%s"' % k, 'brokers = "%s"' % ",".join("127.0.0.1:%d" % p for p in (ports if r.random() < 0.5 else ports[:1])),
                  "flush_interval = %d" % r.choice([1, 1, 2])]
        lim = limit or r.choice([None, None, 60, 500, 3000])
        if lim:
            b.cfg.append("max_message_bytes = %d" % lim)
            b.meta["limit"] = lim
        opt = {"message.send.max.retries": str(r.choice([0, 0, 1, 2, 5])), "retry.backoff.ms": str(r.choice([10, 100])),
               "reconnect.backoff.jitter.ms": str(r.choice([20, 200])), "queue.buffering.max.ms": str(r.choice([0, 5, 50])),
               "request.timeout.ms": str(r.choice([500, 2000])), "socket.timeout.ms": str(r.choice([1500, 5000])),
               "message.timeout.ms": str(r.choice([1000, 4000, 20000])), "topic.metadata.refresh.interval.ms": str(r.choice([1000, 300000])),
               "topic.metadata.refresh.fast.interval.ms": "100",
               # what librdkafka asks for with brokers of 0.10 and later; without it a version query that is cut off
               # makes it take the broker for 0.9 for 20 minutes and refuse headers by itself
               "broker.version.fallback": "0.11.0"}
        if r.random() < 0.3:
            opt["batch.num.messages"] = str(r.choice([1, 2, 3]))
        b.cfg += ["[sinks.kafka.%s.librdkafka]" % k] + ['"%s" = "%s"' % kv for kv in sorted(opt.items())]
    msgs = []
    t = 200000
    conns = []
    for c in range(r.choice([1, 1, 2, 3])):
        conns.append((c, 2002 + r.randrange(nsrc)))
        b.at(t + r.randint(0, 300000), "connect c%d %d" % conns[-1], keep=True)
    t += 400000
    n = r.randint(2, 14)
    poison = []
    gap = r.choice([0, 2000, 50000, 400000])
    for i in range(n):
        c, port = r.choice(conns)
        size = r.choice([0, 5, 40, 40, 300, 2000])
        text = "m%04d-" % i + "".join(r.choice(CH) for _ in range(size))
        kv = None
        ver = None
        if r.random() < 0.5:
            kv = []
            for j in range(r.randint(0, 4)):
                kv.append((("h%d" % j).encode() + (b"" if r.random() < 0.8 else "é".encode()), bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 40])))))
        elif r.random() < 0.1:
            ver = 0
        ident = r.choice([i, r.getrandbits(64)])
        ob = r.choice([0, r.randint(0, 300), r.getrandbits(64)])
        sync = r.random() < sync_p
        blob = M.avro_blob(text)
        fr = M.avro_frame(blob, ident, ob, sync, kv, ver)
        m = dict(i=i, conn=c, id=ident, key="%X" % ob, sync=sync, blob=blob.hex(), headers={k.hex(): v.hex() for k, v in (kv or [])})
        msgs.append(m)
        if faulty and r.random() < 0.08:
            poison.append(("m%04d-" % i).encode())
        t += r.choice([0, 0, gap, gap, r.randint(0, 3 * gap + 1)])
        if r.random() < 0.15 and len(fr) > 10:
            cut = r.randint(1, len(fr) - 1)
            # both halves or none: one event
            b.at(t, "send c%d %s" % (c, fr[:cut].hex()), keep=True)
            t += r.choice([0, 100, 30000])
            b.at(t, "send c%d %s" % (c, fr[cut:].hex()), keep=True)
            m["split"] = 1
        else:
            b.at(t, "send c%d %s" % (c, fr.hex()))
    if faulty:
        for q in range(r.choice([0, 2, 6, 12])):
            a = r.choice(["err:%d" % r.choice(RECOVERABLE)] * 4 + ["storeerr:%d" % r.choice([7, 13, 20, 19]), "drop", "storedrop", "hang", "storehang",
                         "delay:%d" % r.choice([10, 300, 3000]), "delay:100+err:%d" % r.choice(RECOVERABLE), "ok", "ok"])
            b.h("kafka %d plan %d %s" % (ports[0], r.randint(0, 20), a))
        if r.random() < 0.25:
            # the same answer over and over, longer than any one retry lasts
            a = r.choice(["err:%d" % r.choice(RECOVERABLE), "drop", "hang", "delay:5000+err:7"])
            for q in range(r.choice([10, 25, 60])):
                b.h("kafka %d plan %d %s" % (ports[0], q, a))
        for p in poison:
            b.h("kafka %d poison %d %s" % (ports[0], r.choice(FATAL), p.hex()))
        tt = 0
        for q in range(r.choice([0, 0, 1, 3])):
            tt += r.randint(10000, t)
            p = r.choice(ports)
            k = r.random()
            d = r.choice([1000, 300000, 3000000, 30000000])
            if k < 0.25:
                b.at(tt, "kill %d" % p)
            elif k < 0.4:
                b.at(tt, "closeall %d" % p)
            elif k < 0.6:
                b.at(tt, "down %d" % p)
                b.at(tt + 1, "kill %d" % p)
                b.at(tt + d, "up %d" % p)
            elif k < 0.75:
                b.at(tt, "kafka %d shift %d" % (p, r.randint(0, 3)))
            elif k < 0.9:
                b.at(tt, "kafka %d meta 5" % ports[0])
                b.at(tt + d, "kafka %d meta 0" % ports[0])
            else:
                b.at(tt, "stallall %d" % p)
                b.at(tt + d, "unstallall %d" % p)
        if r.random() < 0.2:
            b.h("kafka %d metaplan %d %s" % (ports[0], r.randint(0, 3), r.choice(["close", "delay:1000"])))
        if r.random() < 0.3:
            b.h("fault conn_reset %g" % choose(r, 0.01, 0.05))
        if r.random() < 0.3:
            b.h("fault connect_refused %g" % choose(r, 0.1, 0.4))
        t = max(t, tt)
    t += 3 * SEC
    if sigterm:
        b.at(t, "signal 15", keep=True)
        b.meta["sig"] = t
        t += r.choice([1, 500000, 5000000, 20000000])
    b.at(t, "nofaults", keep=True)
    for p in ports:
        b.at(t + 1, "up %d" % p, keep=True)
        b.at(t + 1, "unstallall %d" % p, keep=True)
    b.at(t + 2, "kafka %d clear" % ports[0], keep=True)
    b.at(t + 3, "mark calm", keep=True)
    b.meta.update(msgs=msgs, sinks=snames, ports=ports)
    return b, t


def present(case):
    """messages whose bytes are still part of the case (the minimiser removes events)"""
    sent = {}
    for e in case["events"]:
        w = e[1].split(" ")
        if w[0] == "send":
            sent.setdefault(int(w[1][1:]), []).append(w[2])
    out = []
    for m in case["meta"]["msgs"]:
        data = "".join(sent.get(m["conn"], []))
        if m["blob"] in data:
            out.append(m)
    return out


def requests(log):
    """{n: dict(topic, t, code, t_rsp, values)}; code None when never answered"""
    q = {}
    for t, tid, k, rest in log.of("KREQ", "KSTORE", "KREFUSE", "KRSP", "KDROP"):
        f = rest.split(" ")
        if k == "KREQ":
            q[int(f[2])] = dict(t=t, code=None, t_rsp=None, stored=[], refused=[])
        elif k == "KSTORE":
            q[int(f[0])]["stored"].append((f[1], f[5], f[4], f[6]))
        elif k == "KREFUSE":
            q[int(f[0])]["refused"].append(f[2])
        elif k == "KRSP":
            q[int(f[0])]["code"] = int(f[1])
            q[int(f[0])]["t_rsp"] = t + int(f[2])
    return q
