"""Generator helpers shared by the properties."""
from .runner import hexs

SEC = 1000000
REAL_CORE = ["cernan's whole binary (sources, filters, sinks, config, main, hopper queues, mio, tiny_http, reqwest/hyper/tokio, librdkafka as linked) unmodified"]
STUB_CORE = ["kernel: threads' scheduling, futex-based pthread sync, clocks/timers, sockets, epoll, pipes (simulated at the libc boundary)",
             "file system below /sim (in memory)", "name resolution", "randomness (seeded)", "OpenSSL (stub returning success; only plain http is used)"]


def choose(rng, *xs):
    return xs[rng.randrange(len(xs))]


class B:
    """Case builder."""

    def __init__(self, rng, maxtime_s=60, epoch=1500000000):
        self.rng = rng
        self.head = ["epoch %d" % epoch, "maxtime %d" % (maxtime_s * 1000), "maxsteps 6000000", "mkdir /sim/data"]
        self.events = []
        self.scripts = {}
        self.meta = {}
        self.cfg = []

    def h(self, s):
        self.head.append(s)

    def at(self, t_us, cmd, keep=False):
        self.events.append([int(t_us), cmd, "keep"] if keep else [int(t_us), cmd])

    def sched(self, light=False, desched=0.2):
        """scheduling strategy and preemption faults; desched: how often preempted threads may stay off the processor for a while"""
        r = self.rng
        s = r.random()
        if s < 0.55:
            self.h("sched rw")
            self.h("psw %g" % choose(r, 0.002, 0.01, 0.05, 0.2))
        elif s < 0.75:
            self.h("sched pct")
            self.h("depth %d" % r.randint(3, 12))
        elif s < 0.85:
            self.h("sched starve")
            self.h("psw 0.02")
        else:
            self.h("sched none")
        self.h("opcost %d" % choose(r, 300, 1000, 3000))
        if desched and r.random() < desched:
            p, us = choose(r, (0.003, 40000), (0.01, 20000), (0.05, 3000))
            self.h("fault malloc_preempt %g" % p)
            self.h("desched %d" % us)
        elif r.random() < 0.5:
            self.h("fault malloc_preempt %g" % choose(r, 0.0003, 0.003, 0.02))
        if not light and r.random() < 0.3:
            self.h("fault step_preempt %g" % choose(r, 0.001, 0.01))
        self.h("fault signal_pick 0.5")
        if r.random() < 0.3:
            self.h("fault spurious_cond %g" % choose(r, 0.01, 0.1))
        if r.random() < 0.3:
            self.h("fault oversleep %g" % choose(r, 0.01, 0.1))
            self.h("oversleep %d" % choose(r, 1000, 8000, 20000))
        if r.random() < 0.6:
            self.h("fault latency 0.7")
            self.h("lat %d %d" % choose(r, (1, 50), (20, 200), (100, 3000)))

    def faults(self, **kw):
        """swarm: each kind is on with probability 1/2; value: tuple of probabilities"""
        for k, ps in kw.items():
            if self.rng.random() < 0.5:
                self.h("fault %s %g" % (k, choose(self.rng, *ps)))

    def net_faults(self):
        self.faults(short_read=(0.05, 0.3, 0.9), short_write=(0.05, 0.3), eintr=(0.01, 0.05), epoll_few=(0.1, 0.5), epoll_spurious=(0.01, 0.1),
                    segment=(0.1, 0.5, 0.9))

    def fs_faults(self):
        self.faults(fs_short_read=(0.05, 0.3), fs_short_write=(0.05, 0.3), fs_eintr=(0.01, 0.1), readdir_order=(0.5,), inode_reuse=(0.5, 1.0))

    def case(self):
        self.events.sort(key=lambda e: e[0])
        return dict(config="\n".join(self.cfg) + "\n", scripts=self.scripts, head=self.head, events=self.events, meta=self.meta)


def toml_list(xs):
    return "[" + ", ".join('"%s"' % x for x in xs) + "]"


def name(rng, prefix="m"):
    return prefix + "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789._-") for _ in range(rng.randint(1, 10)))


# ---------------------------------------------------------------- trouble at a TCP endpoint cernan writes to
def conn_opts(r):
    """how the first connections at the endpoint end, and whether it is down at first"""
    o = ""
    for k in range(r.choice([0, 0, 1, 2, 4])):
        q = r.random()
        if q < 0.6:
            o += " conn%d=rst:%d" % (k, r.choice([0, 1, 3, 4, 5, 50, r.randint(0, 3000), r.randint(0, 40000)]))
        elif q < 0.8:
            o += " conn%d=kill:%d" % (k, r.randint(0, 3000000))
        else:
            o += " conn%d=close:%d" % (k, r.randint(0, 3000000))
    if r.random() < 0.2:
        o += " down"
    return o


def trouble(b, port, t):
    """commands against the endpoint up to time t; returns the time by which they are over"""
    r = b.rng
    up = t
    for _ in range(r.randint(1, 4)):
        q = r.randint(250000, t + 500000)
        w = r.choice(["kill", "kill", "closeall", "down", "stallall"])
        b.at(q, "%s %d" % (w, port))
        d = r.choice([1000, 300000, 2000000])
        if w == "down":
            b.at(q + 1, "kill %d" % port)
            b.at(q + d, "up %d" % port, keep=True)
        if w == "stallall":
            b.at(q + d, "unstallall %d" % port, keep=True)
        up = max(up, q + d)
        if r.random() < 0.3:
            b.at(q + 2000, "fault conn_refused 0.5" if r.random() < 0.5 else "fault conn_reset 0.1")
    return up


def calm(b, port, t):
    b.at(t, "nofaults", keep=True)
    b.at(t + 1, "up %d" % port, keep=True)
    b.at(t + 2, "unstallall %d" % port, keep=True)
