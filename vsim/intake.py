"""What went into the sources, judged by the bytes the system calls returned."""
from . import model as M
from .runner import unhex


def client_eps(log):
    return {c: int(ep[3:]) for c, ep in (x[3].split(" ") for x in log.of("CLIENT"))}


def reads(log):
    n = {}
    for t, tid, k, rest in log.of("r"):
        f = rest.split(" ")
        n[int(f[0])] = n.get(int(f[0]), 0) + int(f[1])
    return n


def streams(case, log):
    """{client: (bytes sent in full, bytes cernan read)}"""
    eps, nr = client_eps(log), reads(log)
    sent = {}
    for e in case["events"]:
        w = e[1].split(" ")
        if w[0] == "send":
            sent[w[1]] = sent.get(w[1], b"") + bytes.fromhex(w[2])
    return {c: (d, d[:nr.get(eps.get(c, -1), 0)]) for c, d in sent.items()}


def udp(log):
    """[(t, port, payload)] in the order read"""
    out = []
    for t, tid, k, rest in log.of("UR"):
        f = rest.split(" ")
        out.append((t, int(f[0]), unhex(f[2])))
    return out


def udp_points(log, masks=(), tags=None):
    out = []
    for t, port, d in udp(log):
        for m in M.statsd_datagram(d, masks):
            out.append(dict(m, ts=None, tags=dict(tags or {}), t=t, port=port))
    return out


def native_points(data, tags=None):
    """points as the native source passes them on: (points, lines)"""
    ps, ls = [], []
    for f in M.native_frames(data)[0]:
        a, b = M.native_payload(f)
        for p in a:
            if p["samples"] and not any(x != x for x in p["samples"]):
                ps.append(dict(p, ts=int(p["ts"] * 0.001), tags=dict(tags or {}, **p["tags"])))
        for l in b:
            ls.append(dict(l, ts=int(l["ts"] * 0.001), tags=dict(tags or {}, **l["tags"])))
    return ps, ls


def graphite_points(data, tags=None):
    """complete lines only, one triple each"""
    out = []
    for l in data.split(b"\n")[:-1]:
        f = l.decode().split(" ")
        out.append(dict(name=f[0], samples=[float(f[1])], kind="set", persist=False, ts=int(f[2]), tags=dict(tags or {})))
    return out
