"""Programmable filter: scripts see each event once and in order, failures stay contained."""
from collections import Counter, defaultdict
from ..common import *
from .. import intake as I, model as M

RUNS = {"quick": 5000, "thorough": 80000}
RULE = "a run counts when at least 10 events went through scripts and at least one call failed, pushed or dropped something"
REAL = REAL_CORE
STUB = STUB_CORE + ["native clients", "endpoint of the native sink"]
STATES = "actions taken by scripts, kinds of failing calls, missing functions, length of the history, number of upstreams, termination, faults met"
PATH = "filters.programmable.f"
METRIC = """
function process_metric(p)
  n = n + 1
  local name = payload.metric_name(p, 1)
  local act = string.match(name, "%-(%a+)$")
  if act == "tag" then payload.metric_set_tag(p, 1, "sn", string.format("%d", n))
  elseif act == "ren" then payload.set_metric_name(p, 1, name .. ".r")
  elseif act == "rm" then payload.metric_remove_tag(p, 1, "k")
  elseif act == "cp" then payload.metric_set_tag(p, -1, "kc", payload.metric_tag_value(p, 1, "k") or "none")
  elseif act == "gt" then payload.metric_set_tag(p, 1, "g", payload.metric_tag_value(p, 1, "dc") or "none")
  elseif act == "push" then payload.push_metric(p, "x." .. name, n) payload.push_log(p, "x." .. name)
  elseif act == "many" then for j = 1, 7 do payload.push_metric(p, "y" .. j .. "." .. name, j) end
  elseif act == "drop" then payload.clear_metrics(p)
  elseif act == "swap" then payload.clear_metrics(p) payload.push_log(p, "s." .. name)
  elseif act == "err" then error("boom")
  elseif act == "errt" then error({})
  elseif act == "idx" then payload.metric_name(p, 2)
  elseif act == "idz" then payload.set_metric_name(p, 0, "zz")
  elseif act == "nofn" then no_such_function(p)
  elseif act == "pre" then payload.push_metric(p, "pre", 1) payload.push_log(p, "pre") payload.set_metric_name(p, 1, "pre") error("late")
  elseif act == "unset" then saved = saved or process_log process_log = nil
  elseif act == "num" then saved = saved or process_log process_log = 42
  elseif act == "restore" then process_log = saved or process_log
  end
end
"""
LOG = """
function process_log(p)
  n = n + 1
  local text = payload.log_value(p, 1)
  local act = string.match(text, "%-(%a+)$")
  if act == "tag" then payload.log_set_tag(p, 1, "sn", string.format("%d", n))
  elseif act == "rm" then payload.log_remove_tag(p, 1, "k")
  elseif act == "cp" then payload.log_set_tag(p, -1, "kc", payload.log_tag_value(p, 1, "k") or "none")
  elseif act == "gt" then payload.log_set_tag(p, 1, "g", payload.log_tag_value(p, 1, "dc") or "none")
  elseif act == "set" then payload.log_set_value(p, 1, text .. ".s")
  elseif act == "path" then payload.log_set_tag(p, 1, "pp", payload.log_path(p, 1))
  elseif act == "fld" then payload.log_set_field(p, 1, "f", text) payload.log_set_tag(p, 1, "ff", payload.log_field_value(p, 1, "f") or "none")
  elseif act == "push" then payload.push_metric(p, "x." .. text, n) payload.push_log(p, "x." .. text)
  elseif act == "many" then for j = 1, 7 do payload.push_log(p, "y" .. j .. "." .. text) end
  elseif act == "drop" then payload.clear_logs(p)
  elseif act == "swap" then payload.clear_logs(p) payload.push_metric(p, "s." .. text, 3)
  elseif act == "err" then error("boom")
  elseif act == "idx" then payload.log_value(p, 2)
  elseif act == "nofn" then no_such_function(p)
  elseif act == "pre" then payload.push_metric(p, "pre", 1) payload.push_log(p, "pre") payload.log_set_value(p, 1, "pre") error("late")
  end
end
"""
MA = ["tag", "ren", "rm", "cp", "gt", "push", "many", "drop", "swap", "err", "errt", "idx", "idz", "nofn", "pre"]
LA = ["tag", "rm", "cp", "gt", "set", "path", "fld", "push", "many", "drop", "swap", "err", "idx", "nofn", "pre"]
FAIL = ("err", "errt", "idx", "idz", "nofn", "pre")


def tick(K, E):
    return "function tick(p)\n  tk = tk + 1\n" + ("  if tk %% %d == 0 then error(\"tick\") end\n" % E if E else "") + "  if tk %% %d == 0 then payload.push_metric(p, \"tick\", tk) payload.push_metric(p, \"seen\", n) payload.push_log(p, \"tock \" .. string.format(\"%%d\", tk)) end\nend\n" % K


def gen(r, tier, i):
    b = B(r, 120)
    b.sched(light=True)
    b.net_faults()
    ncon = r.choice([1, 1, 1, 2, 3])
    nsrc = r.choice([1, 1, 2])
    tags = {"dc": "x1"} if r.random() < 0.4 else {}
    c = ['data-directory = "/sim/data"', 'scripts-directory = "@DIR@"', "flush-interval = 1"]
    spill = r.random() < 0.2
    if spill:
        c += ["max-hopper-in-memory-bytes = %d" % r.choice([600, 2000]), "max-hopper-queue-files = 1000"]
        b.fs_faults()
    if tags:
        c += ["[tags]", 'dc = "x1"']
    miss = r.choice([None, None, None, None, "process_metric", "process_log", "tick"])
    K, E = r.choice([1, 7, 50, 100]), r.choice([0, 0, 0, 3, 10, 1])
    s = "n = 0\ntk = 0\n"
    if miss != "process_metric":
        s += METRIC
    if miss != "process_log":
        s += LOG
    if miss != "tick":
        s += tick(K, E)
    b.scripts["f.lua"] = s
    # pulses reach the filter once more by way of a filter which passes nothing else
    dia = r.random() < 0.35
    if dia:
        c += ["[filters.delay.none]", "tolerance = 0", 'forwards = ["%s"]' % PATH]
    for x in range(nsrc):
        c += ["[sources.native.n%d]" % x, 'ip = "127.0.0.1"', "port = %d" % (1980 + x), 'forwards = ["%s"%s]' % (PATH, ', "filters.delay.none"' if dia else "")]
    c += ["[%s]" % PATH, 'script = "f.lua"', 'forwards = ["sinks.native"]']
    c += ["[sinks.native]", 'host = "127.0.0.1"', "port = 1972", "flush_interval = 1"]
    b.cfg = c
    b.h("server 1972 sink")
    for k in range(ncon):
        b.at(200000, "connect n%d %d" % (k, 1980 + k % nsrc), keep=True)
    t, n, ev = 300000, 0, []
    long = r.random() < 0.08
    acts = r.choice([1, 0.5, 0.15])
    ma, la = r.sample(MA, r.randint(1, len(MA))), r.sample(LA, r.randint(1, len(LA)))
    if long:
        ma, la = r.sample(FAIL, 2), ["err", "idx", "drop"]
    unset = ncon == 1 and miss is None and r.random() < 0.3
    for _ in range(r.randint(2, 14) if not long else 12):
        t += r.choice([0, 1000, 30000, 200000, 900000])
        k = r.randrange(ncon)
        pl, mine = b"", []
        for _ in range(r.choice([1, 2, 5, 20]) if not long else 150):
            n += 1
            e = dict(id="e%05d" % n, cid="n%d" % k, ts=1500000000 + r.randint(-9, 9), tags={"k": "v%d" % r.randint(0, 2)} if r.random() < 0.5 else {})
            if r.random() < 0.55:
                e.update(ty="p", act=r.choice(ma) if r.random() < acts else "keep", kind=r.choice(["sum", "set", "summarize"]), v=float(r.randint(-9, 9)))
                if unset and r.random() < 0.15:
                    e["act"] = r.choice(["unset", "num", "restore"])
                pl += M.enc_point(e["id"] + "-" + e["act"], [e["v"]], e["kind"], e["tags"], e["ts"] * 1000)
            else:
                e.update(ty="l", act=r.choice(la) if r.random() < acts else "keep")
                pl += M.enc_line("/p", e["id"] + "-" + e["act"], e["tags"], e["ts"] * 1000)
            mine.append(e)
        b.at(t, "send n%d %s" % (k, M.frame(pl).hex()))
        for e in [x for x in mine if x["ty"] == "p"] + [x for x in mine if x["ty"] == "l"]:
            e["cmd"] = b.events[-1][1]
            ev.append(e)
    b.at(t + 1, "nofaults", keep=True)
    sig = None
    end = t + 3500000 + (5 * SEC if long else 0)
    if r.random() < 0.3:
        sig = t + r.choice([1000, 100000, 1000000])
        b.at(sig, "signal 15", keep=True)
        end = sig + 40 * SEC
    b.at(end, "end", keep=True)
    b.meta.update(ev=ev, miss=miss, K=K, E=E, sig=sig, tags=tags, ncon=ncon, nsrc=nsrc, long=long, spill=spill, end=end, dia=dia)
    return b.case()


def model(evs, m, exact):
    """what the filter forwards: [(points, lines)] per event, in order"""
    n = 0
    logfn = True
    out = []
    gt = m["tags"].get("dc", "none")

    def fail(fn):
        return ([dict(name="cernan.filter.%s.%s.failure" % (PATH, fn), kind="sum", v=1.0, tags={}, ts=None)], [])
    for e in evs:
        a, tg, base = e["act"], dict(e["tags"]), e["id"] + "-" + e["act"]
        fn = "process_metric" if e["ty"] == "p" else "process_log"
        if m["miss"] == fn or e["ty"] == "l" and not logfn:
            out.append(fail(fn))
            continue
        n += 1
        if a in FAIL:
            out.append(fail(fn))
            continue
        if a == "tag":
            tg["sn"] = str(n) if exact else "*"
        elif a == "rm":
            tg.pop("k", None)
        elif a == "cp":
            tg["kc"] = tg.get("k", "none")
        elif a == "gt":
            tg["g"] = gt
        elif a == "path":
            tg["pp"] = "/p"
        elif a == "fld":
            tg["ff"] = base
        elif a in ("unset", "num"):
            logfn = False
        elif a == "restore":
            logfn = True

        def pm(name, v):
            return dict(name=name, kind="set", v=v, tags={}, ts=None)

        def plg(text):
            return dict(text=text, path=PATH, tags={}, ts=None)
        nv = float(n) if exact else None
        if e["ty"] == "p":
            me = dict(name=base + (".r" if a == "ren" else ""), kind=e["kind"], v=e["v"], tags=tg, ts=e["ts"])
            ps, ls = [me], []
            if a == "push":
                ps, ls = [me, pm("x." + base, nv)], [plg("x." + base)]
            elif a == "many":
                ps = [me] + [pm("y%d.%s" % (j, base), float(j)) for j in range(1, 8)]
            elif a == "drop":
                ps = []
            elif a == "swap":
                ps, ls = [], [plg("s." + base)]
        else:
            me = dict(text=base + (".s" if a == "set" else ""), path="/p", tags=tg, ts=e["ts"])
            ps, ls = [], [me]
            if a == "push":
                ps, ls = [pm("x." + base, nv)], [me, plg("x." + base)]
            elif a == "many":
                ls = [me] + [plg("y%d.%s" % (j, base)) for j in range(1, 8)]
            elif a == "drop":
                ls = []
            elif a == "swap":
                ps, ls = [pm("s." + base, 3.0)], []
        out.append((ps, ls))
    return out, n


def same(e, x, line):
    tg = {k: v for k, v in x["tags"].items() if k != "dc"}
    if e["tags"].get("sn") == "*" and "sn" in tg:
        tg["sn"] = "*"
    if tg != e["tags"] or e["ts"] is not None and x["ts"] != e["ts"] * 1000:
        return False
    if line:
        return x["value"] == e["text"] and x["path"] == e["path"]
    return x["name"] == e["name"] and x["kind"] == e["kind"] and len(x["samples"]) == 1 and (e["v"] is None or x["samples"][0] == e["v"])


def check(case, log):
    v, st = [], set()
    m = case["meta"]
    cmds = set(e[1] for e in case["events"])
    sig = m["sig"]
    info = dict(nontrivial=False, states=st, counts={})
    for f in log.faults:
        st.add("f:" + f)
    # what was read in full
    eps, nr = I.client_eps(log), I.reads(log)
    sent, whole = defaultdict(int), set()
    for e in sorted(case["events"], key=lambda e: e[0]):
        w = e[1].split(" ")
        if w[0] == "send":
            sent[w[1]] += len(w[2]) // 2
            if nr.get(eps.get(w[1], -1), 0) >= sent[w[1]]:
                whole.add(e[1])
    ev = [e for e in m["ev"] if e["cmd"] in cmds and e["cmd"] in whole]
    info["counts"] = dict(events=len(ev), failing=sum(e["act"] in FAIL for e in ev))
    info["sample"] = dict(missing=m["miss"], tick_errors=m["E"], signal=sig, connections=m["ncon"], faults=log.faults, events=[{k: e[k] for k in ("id", "ty", "act", "cid")} for e in ev[:10]])
    if (log.end == "EXIT") != bool(sig) or not log.ok_end() or sig and log.code != 0 or log.panics():
        return [("died" if not sig or log.end == "EXIT" else "no-exit", "run ended with %s %s; panics %s" % (log.end, log.code, log.panics()[:2]))], info
    for e in ev:
        st.add(e["ty"] + ":" + e["act"])
    st.add("missing:%s:E%d:K%d:c%d:s%d%s%s%s" % (m["miss"], m["E"], m["K"], m["ncon"], m["nsrc"], ":sig" if sig else "", ":long" if m["long"] else "", ":spill" if m["spill"] else "") + (":dia" if m["dia"] else ""))
    info["nontrivial"] = len(ev) >= 10 and any(e["act"] in FAIL + ("push", "many", "drop", "swap") for e in ev)
    pts, lns, errs = M.native_events(log, 1972)
    if errs:
        return [("undecodable", errs[0])], info
    tf = "cernan.filter.%s.tick.failure" % PATH
    ticks = [x for t, x in pts if x["name"] == "tick"]
    seen = [x for t, x in pts if x["name"] == "seen"]
    tocks = [x for t, x in lns if x["value"].startswith("tock ")]
    tfail = [x for t, x in pts if x["name"] == tf]
    P = [x for t, x in pts if x["name"] not in ("tick", "seen", tf)]
    L = [x for t, x in lns if not x["value"].startswith("tock ")]
    exact = m["ncon"] == 1
    if exact:
        out, n = model(ev, m, True)
        for what, exp, got in (("points", [p for ps, ls in out for p in ps], P), ("lines", [l for ps, ls in out for l in ls], L)):
            for k in range(max(len(exp), len(got))):
                if k >= len(exp):
                    v.append(("spurious", "%s: beyond the %d expected came %s" % (what, len(exp), got[k])))
                    break
                if k >= len(got):
                    v.append(("lost", "%s: only %d of %d came, the next would be %s" % (what, len(got), len(exp), exp[k])))
                    break
                if not same(exp[k], got[k], what == "lines"):
                    v.append(("wrong", "%s, position %d: expected %s, got %s" % (what, k, exp[k], got[k])))
                    break
    else:
        n = 0
        for cid in set(e["cid"] for e in ev):
            out, x = model([e for e in ev if e["cid"] == cid], m, False)
            n += x
            for what, exp, got in (("points", [p for ps, ls in out for p in ps if p["name"][:6] != "cernan"], P), ("lines", [l for ps, ls in out for l in ls], L)):
                ids = set(e["id"] for e in ev if e["cid"] == cid)
                mine = [g for g in got if g["name" if what == "points" else "value"].split("-")[0][-6:] in ids]
                bad = next((k for k in range(max(len(exp), len(mine))) if k >= len(exp) or k >= len(mine) or not same(exp[k], mine[k], what == "lines")), None)
                if bad is not None:
                    v.append(("wrong", "%s of %s, position %d: expected %s, got %s" % (what, cid, bad, exp[bad:bad + 1], mine[bad:bad + 1])))
        out, x = model(ev, m, False)
        ce = Counter(p["name"] for ps, ls in out for p in ps if p["name"].startswith("cernan"))
        cg = Counter(p["name"] for p in P if p["name"].startswith("cernan"))
        if ce != cg:
            v.append(("failures", "expected failure metrics %s, got %s" % (dict(ce), dict(cg))))
        sns = [int(x["tags"]["sn"]) for x in P + L if "sn" in x["tags"]]
        if len(set(sns)) != len(sns):
            v.append(("wrong", "two calls of the script saw the same count"))
    bad = [x for x in tfail if x["kind"] != "sum" or x["samples"] != [1.0]]
    if bad:
        v.append(("failures", "failure metric %s" % bad[0]))
    # ticks
    secs = (m["end"] if not sig else sig) / 1e6
    K, E = m["K"], m["E"]
    if m["miss"] == "tick":
        if ticks or tocks:
            v.append(("tick", "ticks without tick function"))
        lo = len(tfail)
    else:
        tv = [x["samples"][0] for x in ticks]
        top = max(tv + [0])
        exp = [float(x) for x in range(K, int(top) + 1, K) if not E or x % E]
        if tv != exp:
            v.append(("tick", "pushed by ticks: %s, expected %s" % (tv[:20], exp[:20])))
        if [x["value"] for x in tocks] != ["tock %d" % x for x in exp]:
            v.append(("tick", "lines pushed by ticks: %s, expected for %s" % ([x["value"] for x in tocks][:20], exp[:20])))
        sv = [x["samples"][0] for x in seen]
        if sv != sorted(sv) or len(sv) != len(tv):
            v.append(("state", "the count of calls seen by ticks is %s" % sv[:50]))
        # far behind the last event
        if sv and not sig and not m["long"] and sv[-1] != n:
            v.append(("state", "the last tick saw %d calls, there were %d" % (sv[-1], n)))
        if E and K % E == 0:
            top = len(tfail) * E
        elif E:
            if abs(len(tfail) - top / E) > max(K / E, 1) + 102 / E + 1:
                v.append(("failures", "%d failing ticks reported of %d ticks, every %dth fails" % (len(tfail), top, E)))
        elif tfail:
            v.append(("failures", "ticks fail: %d" % len(tfail)))
        lo = top
    # pulses come about every 10 ms
    if not sig and not any(f in log.faults for f in ("oversleep",)) and not lo > (secs - 0.5) * 60 - 2 * K:
        v.append(("ticks-stop", "only %d ticks in %.1f s" % (lo, secs)))
    if lo > secs * 101 + 20 and not sig:
        v.append(("tick", "%d ticks in %.1f s" % (lo, secs)))
    return v, info
