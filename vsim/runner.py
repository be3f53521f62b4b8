"""Runs one simulated execution of cernan and parses its log."""
import ctypes, os, shutil, signal, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
T0 = 1000000            # simulated time at start (us)
REAL_TIMEOUT = 60      # seconds of real time for one run


def no_aslr():
    ctypes.CDLL(None).personality(0x0040000)


class Case(dict):
    """config: TOML text; scripts: {name: text}; head: [line]; events: [[t_us, cmd]]; meta: free."""

    def scenario(self):
        out = list(self["head"])
        for t, c, *_ in sorted(self["events"], key=lambda e: e[0]):
            out.append("at %d %s" % (t, c))
        return "\n".join(out) + "\n"


class Log:
    __slots__ = ("rows", "end", "code", "t_us", "steps", "switches", "threads", "live", "hash", "faults", "rc", "raw", "_c")

    def __init__(self, text, rc):
        self.rows = []
        self.end, self.code, self.t_us, self.steps, self.switches, self.hash = "NONE", rc, 0, 0, 0, "0"
        self.threads = self.live = 0
        self.faults = {}
        self.rc = rc
        self._c = {}
        for line in text.split("\n"):
            if not line:
                continue
            p = line.split(" ", 3)
            if len(p) < 3:
                continue
            try:
                t, tid = int(p[0]), int(p[1])
            except ValueError:
                continue
            rest = p[3] if len(p) > 3 else ""
            k = p[2]
            if k == "END":
                f = rest.split()
                self.end = f[0]
                for kv in f[1:]:
                    a, b = kv.split("=")
                    if a == "hash":
                        self.hash = b
                    else:
                        setattr(self, a, int(b))
            elif k == "FAULTS":
                f = rest.split()
                self.faults[f[0]] = (int(f[1]), int(f[3]))
            else:
                self.rows.append((t - T0, tid, k, rest))

    def of(self, *kinds):
        key = kinds
        if key not in self._c:
            ks = set(kinds)
            self._c[key] = [r for r in self.rows if r[2] in ks]
        return self._c[key]

    def stdout(self):
        return b"".join(unhex(r[3]) for r in self.of("O1"))

    def stderr(self):
        return b"".join(unhex(r[3]) for r in self.of("O2"))

    def panics(self):
        e = self.stderr().decode("utf8", "replace")
        return [l for l in e.split("\n") if "panicked at" in l]

    def ok_end(self):
        return self.end in ("EXIT", "SCENARIOEND")

    def marks(self):
        return {r[3]: r[0] for r in self.of("MARK")}

    # ---- TCP written by the application, per connection
    def written(self, port):
        """{(ep, connno): [(t, bytes)]} of what was accepted from the application on outgoing connections to port"""
        out = {}
        for t, tid, k, rest in self.of("w"):
            ep, p, no, hx = rest.split(" ")
            if int(p) == port:
                out.setdefault((int(ep), int(no)), []).append((t, bytes.fromhex(hx)))
        return out


def unhex(h):
    return b"" if h == "-" else bytes.fromhex(h)


def hexs(b):
    if isinstance(b, str):
        b = b.encode()
    return b.hex() if b else "-"


class Runner:
    def __init__(self, cpu=None):
        self.dir = tempfile.mkdtemp(prefix="cernansim-")
        self.cpu = cpu
        self.cernan = os.path.join(BUILD, "cernan")
        self.so = os.path.join(BUILD, "detsim.so")

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, case, seed, replay=None, want_trace=False, keep_log=None):
        d = self.dir
        cfg = case["config"].replace("@DIR@", d)
        with open(d + "/c.toml", "w") as f:
            f.write(cfg)
        for n, s in case.get("scripts", {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(s)
        with open(d + "/s.txt", "w") as f:
            f.write(case.scenario() if isinstance(case, Case) else Case(case).scenario())
        env = {"DETSIM_SCENARIO": d + "/s.txt", "DETSIM_LOG": d + "/log", "DETSIM_SEED": str(seed), "MALLOC_ARENA_MAX": "1",
               "LD_PRELOAD": self.so, "PATH": "/usr/bin:/bin", "HOME": d, "RUST_BACKTRACE": "0", "TZ": "UTC"}
        if want_trace:
            env["DETSIM_TRACE"] = d + "/trace"
        if replay is not None:
            with open(d + "/replay", "w") as f:
                f.write("\n".join(replay) + ("\n" if replay else ""))
            env["DETSIM_REPLAY"] = d + "/replay"
        if os.path.exists(d + "/log"):
            os.unlink(d + "/log")
        args = [self.cernan, "--config", "c.toml"] + list(case.get("args", []))
        p = subprocess.Popen(args, env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            rc = p.wait(timeout=REAL_TIMEOUT)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -999
        try:
            with open(d + "/log", errors="replace") as f:
                text = f.read()
        except FileNotFoundError:
            text = ""
        log = Log(text, rc)
        if rc == -999:
            log.end = "REALHANG"
        if keep_log:
            with open(keep_log, "w") as f:
                f.write(text)
        if want_trace:
            try:
                with open(d + "/trace") as f:
                    log.raw = f.read().split("\n")[:-1]
            except FileNotFoundError:
                log.raw = []
        return log
