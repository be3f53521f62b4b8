"""Tailed files: each appended line exactly once, whole and in order."""
from collections import defaultdict
from ..common import *
from .. import model as M
from ..runner import hexs, unhex

RUNS = {"quick": 3800, "thorough": 200000}
RULE = "a run counts when at least 5 lines were due and a line was written in pieces, or a file was rotated, truncated, added, or a file-system fault was met"
REAL = REAL_CORE
STUB = STUB_CORE + ["the programs which write and rotate the files", "endpoint of the native sink"]
STATES = "kinds of operations by the writers, fault kinds met, how the run ended"
SETTLE = 18 * SEC      # polls are at most 2 s apart, and at most 6 of them fail


def gen(r, tier, i):
    b = B(r, 900)
    b.sched(light=True)
    b.fs_faults()
    glob = r.random() < 0.5
    n = r.choice([1, 1, 2, 4]) if glob else 1
    b.h("mkdir /sim/logs")
    b.h("server 1972 sink")
    paths = ["/sim/logs/f%d.log" % k for k in range(n)]
    late = set(p for p in paths[1:] if r.random() < 0.3)
    b.h("file /sim/logs/other.txt " + hexs("never\n"))
    for p in paths:
        if p not in late:
            b.h("file %s %s" % (p, r.choice(["-", "-", hexs("old line\n"), hexs("old\n" * 3000)])))
    c = ['data-directory = "/sim/data"', "flush-interval = 1"]
    c += ["[sources.files.f]", 'path = "%s"' % ("/sim/logs/*.log" if glob else paths[0]), 'forwards = ["sinks.native"]']
    q = r.choice([None, None, 1, 50, 4096])
    if q:
        c.append("max_read_bytes = %d" % q)
    c += ["[sinks.native]", "port = 1972", 'host = "127.0.0.1"', "flush_interval = 1"]
    b.cfg = c
    for k in range(r.choice([0, 0, 1, 2])):
        f = r.choice(["fs_eio 0.02 3", "fs_eio 0.2 3", "fs_emfile 0.1 3", "fs_eintr 0.3", "fs_short_read 0.9"])
        b.at(250000 + r.randint(0, 3000000), "fault " + f)
    num = [0]

    def line():
        num[0] += 1
        q = r.random()
        t = "".join(r.choice("ab c\t\"\\é漢{}\u2028") for _ in range(r.choice([0, 0, 5, 60])))
        if q < 0.04:
            t += "y" * r.choice([8191, 9000, 40000])
        d = ("L%05d " % num[0] + t).encode()
        if q > 0.95:
            d += b"\xff\xfe\xe6\xbc"
        return d + (b"\r\n" if r.random() < 0.05 else b"\n")
    end = 0
    for p in paths:
        t = 300000 + r.choice([0, 1000, 2000000])
        if p in late:
            b.at(t, "create %s -" % p, keep=True)
            t += SETTLE
        last = t          # of the last write
        nrot = 0
        size = 0
        open_line = b""
        for _ in range(r.randint(2, 14)):
            t += r.choice([0, 1, 10, 100, 3000, 20000, 400000, 2500000])
            q = r.random()
            if q < 0.55:
                d = open_line + b"".join(line() if r.random() > 0.04 else b"\n" for _ in range(r.choice([1, 1, 3, 30])))
                open_line = b""
                b.at(t, "append %s %s" % (p, d.hex()))
                size += len(d)
            elif q < 0.8:
                d = line()
                k = sorted(r.randrange(len(d) + 1) for _ in range(r.choice([1, 1, 3])))
                x = [d[a:z] for a, z in zip([0] + k, k + [len(d)]) if z > a]
                for y in x:
                    b.at(t, "append %s %s" % (p, (open_line + y).hex()))
                    size += len(open_line + y)
                    open_line = b""
                    t += r.choice([0, 1, 20, 3000, 20000, 400000, 2500000])
            elif q < 0.92:
                if nrot and t < nrot + SETTLE:
                    t = nrot + SETTLE
                open_line = b""
                if r.random() < 0.25:          # its last line is never finished
                    b.at(t, "append %s %s" % (p, line()[:-1].hex()))
                    t += r.choice([0, 1, 3000, 400000])
                old = "%s.%d" % (p, num[0])
                b.at(t, "rename %s %s" % (p, old), keep=True)
                d = b"" if r.random() < 0.5 else line()
                if d and r.random() < 0.3:     # nor is the first of the next one yet
                    d, open_line = d[:len(d) // 2], d[len(d) // 2:]
                b.at(t, "create %s %s" % (p, d.hex() or "-"), keep=True)
                if r.random() < 0.5:
                    b.at(t + r.choice([0, 1, 1000000]), "unlink %s" % old, keep=True)
                nrot = t
                size = len(d)
            else:
                # everything has been read by then; and the next check sees the file short
                if r.random() < 0.4:           # its last line is never finished
                    b.at(t, "append %s %s" % (p, (open_line + line()[:-1]).hex()))
                    last = t
                open_line = b""
                t = max(t, last) + SETTLE
                b.at(t, "truncate %s 0" % p, keep=True)
                t += SETTLE
                size = 0
            last = t
        end = max(end, t)
    b.meta.update(paths=paths, n=n)
    b.at(end + 1, "nofaults", keep=True)
    if r.random() < 0.3:
        b.at(end + r.choice([100000, 1000000, 7000000, SETTLE + SEC]), "signal 15", keep=True)
        b.meta["sig"] = True
    b.at(end + SETTLE + 3 * SEC, "end", keep=True)
    return b.case()


def writer(case):
    """what the writers did: {path: [[t, line], ...]} - the complete lines, in file order"""
    out = defaultdict(list)
    cur = {}
    for h in case["head"]:
        w = h.split(" ")
        if w[0] == "file":
            cur[w[1]] = [b""]
    kinds = set()
    for e in case["events"]:
        w = e[1].split(" ")
        t = e[0]
        if w[0] in ("append", "create"):
            if w[0] == "create":
                cur[w[1]] = [b""]
            if w[1] not in cur:
                continue
            d = cur[w[1]][0] + unhex(w[2])
            ls = d.split(b"\n")
            if w[0] == "append" and (cur[w[1]][0] or ls[-1]):
                kinds.add("pieces")
            cur[w[1]][0] = ls.pop()
            out[w[1]] += [(t, l.decode(errors="replace")) for l in ls if l]
        elif w[0] == "rename":
            cur.pop(w[1], None)
            kinds.add("rotate")
        elif w[0] == "truncate":
            cur[w[1]] = [b""]
            kinds.add("truncate")
        elif w[0] == "unlink":
            kinds.add("unlink")
    return out, kinds


def check(case, log):
    meta, st, v = case["meta"], set(), []
    info = dict(nontrivial=False, states=st, counts={})
    info["sample"] = {"events": [e[1][:80] for e in case["events"]][:14], "faults": log.faults}
    for f in log.faults:
        st.add("f:" + f)
    sig = meta.get("sig")
    if not log.ok_end() or (log.end == "EXIT") != bool(sig):
        return [("stuck" if log.end != "EXIT" else "died", "run ended with %s; panics %s" % (log.end, log.panics()[:2]))], info
    if log.panics() or sig and log.code != 0:
        return [("died", "exit status %s; panics %s" % (log.code, log.panics()[:2]))], info
    exp, kinds = writer(case)
    pts, lns, errs = M.native_events(log, 1972)
    for e in errs:
        v.append(("garbled", e))
    got = defaultdict(list)
    for t, l in lns:
        got[l["path"]].append(l["value"])
    tsig = min([e[0] for e in case["events"] if e[1].startswith("signal")] + [1 << 60])
    for p in sorted(set(exp) | set(got)):
        if p not in meta["paths"]:
            v.append(("spurious", "lines of %s, which is not watched: %r" % (p, got[p][:2])))
            continue
        gs = set(got[p])
        e = [l for t, l in exp[p] if t < tsig - SETTLE or l in gs]
        d = M.diff_seq(e, got[p], lambda x: x)
        if d:
            v.append((d[0], "%s: %s" % (p, d[1][:600])))
        for t, l in exp[p]:
            if t >= tsig - SETTLE and l not in gs:
                break
        else:
            continue
        # unread at the end: what is missing is a tail of the file
        k = [l in gs for t, l in exp[p]]
        if True in k[k.index(False):]:
            v.append(("lost", "%s: line %r is missing before later ones" % (p, exp[p][k.index(False)][1][:80])))
    nl = sum(len(x) for x in exp.values())
    for k in kinds:
        st.add(k)
    if sig:
        st.add("signal")
    st.add("n%d" % meta["n"])
    info["counts"] = dict(lines=nl, delivered=sum(len(x) for x in got.values()), rotations=sum(1 for e in case["events"] if e[1].startswith("rename")), truncations=sum(1 for e in case["events"] if e[1].startswith("truncate")))
    info["nontrivial"] = nl >= 5 and (bool(kinds) or any(f.startswith("fs_") for f in log.faults))
    return v, info
