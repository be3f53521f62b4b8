"""Seeded exploration of one property: search, minimise, replay, evidence."""
import importlib, json, multiprocessing as mp, os, random, re, sys, time, traceback
from .runner import Runner, Case, VERIF, no_aslr

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def seed_for(prop, base, i):
    return random.Random("%s/%s/%d" % (prop, base, i)).getrandbits(62)


def load(prop):
    return importlib.import_module("vsim.props." + prop.lower())


def known():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def make_case(mod, prop, base, i, tier):
    seed = seed_for(prop, base, i)
    rng = random.Random(seed)
    case = mod.gen(rng, tier, i)
    return Case(case), seed


def _worker(wid, prop, base, tier, counter, total, deadline, q, cpu, every):
    try:
        if hasattr(os, "sched_setaffinity"):
            try:
                os.sched_setaffinity(0, {cpu})
            except OSError:
                pass
        no_aslr()
        mod = load(prop)
        r = Runner()
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= total or time.time() > deadline:
                break
            case, seed = make_case(mod, prop, base, i, tier)
            t = time.time()
            log = r.run(case, seed)
            wall = time.time() - t
            if log.end in ("NONE", "REALHANG"):
                # the simulator itself did not finish: try once more before blaming anyone
                log = r.run(case, seed)
            try:
                viol, info = mod.check(case, log)
            except Exception:
                q.put(("error", i, traceback.format_exc()))
                break
            rerun = None
            if every and i % every == 0:
                rerun = r.run(case, seed).hash == log.hash
            q.put(("run", i, seed, viol, info, dict(hash=log.hash, end=log.end, t_us=log.t_us, steps=log.steps, switches=log.switches,
                                                    faults={k: v[0] for k, v in log.faults.items()}, rerun=rerun, wall=wall)))
        r.close()
        q.put(("done", wid))
    except Exception:
        q.put(("error", -1, traceback.format_exc()))


def sigs(viol):
    return [v[0] for v in viol]


class Minimiser:
    def __init__(self, mod, case, seed, sig, budget=90):
        self.mod, self.case, self.seed, self.sig = mod, Case(case), seed, sig
        self.r = Runner()
        self.deadline = time.time() + budget
        self.tried = 0

    def fails(self, case, trace):
        self.tried += 1
        log = self.r.run(case, self.seed, replay=trace)
        try:
            viol, _ = self.mod.check(case, log)
        except Exception:
            return False
        return self.sig in sigs(viol)

    def ddmin(self, items, test):
        n = 2
        items = list(items)
        while len(items) >= 1 and time.time() < self.deadline:
            size = max(1, len(items) // n)
            changed = False
            i = 0
            while i < len(items) and time.time() < self.deadline:
                cand = items[:i] + items[i + size:]
                if test(cand):
                    items = cand
                    changed = True
                else:
                    i += size
            if not changed:
                if size == 1:
                    break
                n = min(len(items), n * 2) if items else 1
            else:
                n = max(2, n // 2)
        return items

    def go(self):
        log = self.r.run(self.case, self.seed, want_trace=True)
        trace = log.raw
        if not self.fails(self.case, trace):
            return self.case, trace, False
        if self.fails(self.case, []):
            trace = []
        else:
            kinds = sorted(set(l.split(" ", 1)[0] for l in trace))
            for k in kinds:
                cand = [l for l in trace if not l.startswith(k + " ")]
                if len(cand) < len(trace) and self.fails(self.case, cand):
                    trace = cand
        # workload
        fixed = [e for e in self.case["events"] if len(e) > 2 and e[2] == "keep"]
        free = [e for e in self.case["events"] if not (len(e) > 2 and e[2] == "keep")]

        def with_events(ev):
            c = Case(self.case)
            c["events"] = sorted(fixed + ev, key=lambda e: e[0])
            return c
        # first whole clients' streams, then single events
        groups = {}
        for e in free:
            w = e[1].split(" ")
            groups.setdefault(w[1] if w[0] in ("send", "fin", "close", "rst") else id(e), []).append(e)
        flat = lambda gs: sorted((e for g in gs for e in g), key=lambda e: e[0])
        if len(groups) < len(free):
            free = flat(self.ddmin(list(groups.values()), lambda gs: self.fails(with_events(flat(gs)), trace)))
        free = self.ddmin(free, lambda ev: self.fails(with_events(ev), trace))
        case = with_events(free)
        trace = self.ddmin(trace, lambda tr: self.fails(case, tr))
        ok = self.fails(case, trace)
        return (case, trace, True) if ok else (self.case, log.raw, True)


def minimise(mod, prop, case, seed, sig, msg, budget=90):
    no_aslr()
    m = Minimiser(mod, case, seed, sig, budget)
    try:
        c, tr, stable = m.go()
        log = m.r.run(c, seed, replay=tr)
        viol, _ = mod.check(c, log)
        msgs = [v[1] for v in viol if v[0] == sig] or [msg]
        rep = {"property": prop, "seed": seed, "signature": sig, "message": msgs[0], "config": c["config"], "scripts": c.get("scripts", {}),
               "head": c["head"], "events": c["events"], "meta": c.get("meta", {}), "args": c.get("args", []), "trace": tr,
               "expect_hash": log.hash, "minimised_with_runs": m.tried, "replayable": stable}
        return rep
    finally:
        m.r.close()


def write_replay(prop, rep):
    d = os.path.join(VERIF, "out", "replays")
    os.makedirs(d, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9_.-]", "_", "%s-%s-%d" % (prop, rep["signature"], rep["seed"]))[:120]
    path = os.path.join(d, name + ".json")
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    return path


def replay(path, verbose=True, keep_log=None):
    no_aslr()
    rep = json.load(open(path))
    mod = load(rep["property"])
    case = Case({k: rep[k] for k in ("config", "scripts", "head", "events", "meta", "args") if k in rep})
    r = Runner()
    try:
        log = r.run(case, rep["seed"], replay=rep["trace"], keep_log=keep_log)
        viol, _ = mod.check(case, log)
    finally:
        r.close()
    hit = rep["signature"] in sigs(viol)
    if verbose:
        print("replay %s: hash %s (recorded %s), end %s" % (path, log.hash, rep["expect_hash"], log.end))
        for s, m in viol:
            print("  %s: %s" % (s, m))
        print("reproduced exactly" if hit and log.hash == rep["expect_hash"] else ("reproduced" if hit else "NOT reproduced"))
    return hit, log.hash == rep["expect_hash"]


def explore(prop, tier, base):
    mod = load(prop)
    total = mod.RUNS[tier]
    cap = {"quick": 240, "thorough": 3000}[tier]
    if tier == "quick":
        cap = getattr(mod, "CAP", cap)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    total = max(8, int(total * scale))
    start = time.time()
    cpus = sorted(os.sched_getaffinity(0))
    n = min(WORKERS, max(1, len(cpus)))
    counter = mp.Value("l", 0)
    q = mp.Queue()
    every = max(1, total // 40)
    ps = [mp.Process(target=_worker, args=(w, prop, base, tier, counter, total, start + cap, q, cpus[w % len(cpus)], every)) for w in range(n)]
    for p in ps:
        p.start()
    done = 0
    runs = 0
    ends, faults, hashes, states, samples = {}, {}, set(), set(), []
    simt = steps = switches = nontriv = 0
    distinct_nt = set()
    reruns = mism = 0
    counts = {}
    violations = {}
    errors = []
    maxwall = 0
    stop_after = None
    while done < n:
        try:
            m = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps):
                break
            continue
        if m[0] == "done":
            done += 1
        elif m[0] == "error":
            errors.append((m[1], m[2]))
            done += 1
        else:
            _, i, seed, viol, info, st = m
            runs += 1
            ends[st["end"]] = ends.get(st["end"], 0) + 1
            for k, v in st["faults"].items():
                f = faults.setdefault(k, [0, 0])
                f[0] += v
                f[1] += 1
            hashes.add(st["hash"])
            simt += st["t_us"]
            steps += st["steps"]
            switches += st["switches"]
            maxwall = max(maxwall, st["wall"])
            if st["rerun"] is not None:
                reruns += 1
                mism += not st["rerun"]
                if not st["rerun"]:
                    errors.append((i, "seed %d: two executions differ" % seed))
            for k in info.get("states", ()):
                states.add(k)
            for k, v in info.get("counts", {}).items():
                counts[k] = counts.get(k, 0) + v
            if info.get("nontrivial"):
                nontriv += 1
                distinct_nt.add(st["hash"])
                if len(samples) < 5 and info.get("sample"):
                    samples.append({"run": i, "seed": seed, "case": info["sample"]})
            for s, msg in viol:
                if s not in violations or i < violations[s][0]:
                    violations[s] = (i, seed, msg)
            if viol and counter.value < total:
                # a violation ends the search soon: a few more runs, then report
                unl = [s for s in violations if not match_known(prop, s)]
                if unl and stop_after is None:
                    stop_after = runs + 16
            if stop_after is not None and runs >= stop_after:
                with counter.get_lock():
                    counter.value = total
    for p in ps:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    search_wall = time.time() - start
    if os.environ.get("VERIF_DEBUG"):
        for s, (i, seed, msg) in sorted(violations.items()):
            print("  [%s] run %d seed %d: %s" % (s, i, seed, msg[:600]))
    for k in known():
        if k.get("property") == prop and k.get("status") == "known":
            met = violations.get(k["signature"])
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k["what"], "met in run %d, seed %d" % met[:2] if met else "not met by this run's seeds"))
    unlisted = sorted((v[0], s, v[1], v[2]) for s, v in violations.items() if not match_known(prop, s))
    rc = 0
    replays = []
    if unlisted:
        i, s, seed, msg = unlisted[0]
        case, seed = make_case(mod, prop, base, i, tier)
        rep = minimise(mod, prop, case, seed, s, msg, budget=float(os.environ.get("VERIF_MINBUDGET", "60")))
        path = write_replay(prop, rep)
        replays.append(path)
        print("violated: [%s] %s" % (s, rep["message"]))
        print("  seed %d, run %d; minimised to %d events, %d schedule/fault decisions (%d runs)" % (seed, i, len(rep["events"]), len(rep["trace"]), rep["minimised_with_runs"]))
        print("  replay with: python3 %s/check.py replay %s" % (VERIF, path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    ev = {
        "property": prop, "tier": tier, "seed": int(base) if str(base).lstrip("-").isdigit() else 0, "level": "exploration", "wall_s": round(time.time() - start, 1), "technique": "deterministic simulation with fault injection (seeded random schedules and faults)",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(distinct_nt), "rule": mod.RULE, "samples": samples or [{"note": "no nontrivial run"}],
        },
        "runs": runs, "nontrivial_runs": nontriv, "runs_per_hour": int(runs / search_wall * 3600) if search_wall else 0, "seeds_per_hour": int(runs / search_wall * 3600) if search_wall else 0,
        "simulated_seconds": round(simt / 1e6, 1), "slowest_run_s": round(maxwall, 2),
        "scheduling_decision_points": steps, "context_switches": switches,
        "faults_injected": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(faults.items())},
        "distinct_interleavings": len(hashes), "interleaving_measure": "64-bit hash over (thread, operation) at every scheduling point and every fired fault",
        "states_reached": len(states), "state_measure": getattr(mod, "STATES", "property-specific situation labels"), "states": sorted(states)[:200],
        "oracle_counts": counts, "run_ends": ends, "determinism_reruns": {"pairs": reruns, "mismatches": mism},
        "components_real": mod.REAL, "components_stub": mod.STUB,
        "violations": [{"signature": s, "run": v[0], "seed": v[1], "message": v[2][:2000], "known": bool(match_known(prop, s))} for s, v in sorted(violations.items())],
        "replays": replays,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s: %d runs (%d nontrivial, %d distinct interleavings), %.0f simulated s in %.0f s, ends %s, %d situation labels, %d violations" % (
        prop, tier, runs, nontriv, len(hashes), simt / 1e6, time.time() - start, ends, len(states), len(violations)))
    if errors and rc == 0:
        for i, e in errors[:3]:
            print("MACHINERY ERROR in run %s:\n%s" % (i, e))
        rc = 3
    if runs == 0 and rc == 0:
        print("MACHINERY ERROR: nothing ran")
        rc = 3
    return rc


def match_known(prop, sig):
    for k in known():
        if k.get("property") == prop and k.get("status") == "known" and k.get("signature") == sig:
            return k
    return None
