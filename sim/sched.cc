// Threads, scheduling, synchronisation, time, choices, log.
#include "core.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>

bool g_active = false;
int g_insim = 0;
u64 g_now = 1000000000ull;
i64 g_rt_off = 0;
std::vector<Thread*>& g_threads = *new std::vector<Thread*>();
Thread* g_cur = nullptr;
u64 g_steps = 0, g_switches = 0;
Scn& scn = *new Scn();
static __thread Thread* self __attribute__((tls_model("initial-exec"))) = nullptr;

const char* kind_names[K_NKINDS] = {
    "sched", "malloc_preempt", "step_preempt", "spurious_cond", "signal_pick", "oversleep", "short_read", "short_write",
    "eintr", "latency", "epoll_few", "epoll_spurious", "udp_err", "udp_drop", "udp_dup", "udp_reorder", "accept_err",
    "connect_refused", "conn_reset", "segment", "fs_short_read", "fs_short_write", "fs_eintr", "fs_eio", "fs_enospc",
    "fs_emfile", "readdir_order", "inode_reuse", "server"};

// ---------------------------------------------------------------- log
static std::string* g_log = nullptr;
static int g_logfd = -1;
static u64 g_hash = 1469598103934665603ull;
void mix(u64 a, u64 b) {
  g_hash = (g_hash ^ a) * 1099511628211ull;
  g_hash = (g_hash ^ (b + 0x9e3779b97f4a7c15ull + (g_hash >> 29))) * 1099511628211ull;
}
void log_flush() {
  if (g_logfd < 0 || !g_log) return;
  size_t o = 0;
  while (o < g_log->size()) {
    long r = raws(SYS_write, g_logfd, (long)(g_log->data() + o), g_log->size() - o);
    if (r <= 0) break;
    o += r;
  }
  g_log->clear();
}
static void log_prefix() {
  char b[64];
  int n = snprintf(b, sizeof b, "%llu %d ", (unsigned long long)(g_now / 1000), g_cur ? g_cur->id : -1);
  g_log->append(b, n);
}
void logf(const char* fmt, ...) {
  if (!g_log) return;
  InSim s;
  log_prefix();
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof b) {
    std::string big(n + 1, 0);
    va_start(ap, fmt);
    vsnprintf(&big[0], n + 1, fmt, ap);
    va_end(ap);
    g_log->append(big.data(), n);
  } else g_log->append(b, n);
  g_log->push_back('\n');
  if (g_log->size() > (1 << 20)) log_flush();
}
std::string tohex(const void* p, size_t n) {
  static const char* H = "0123456789abcdef";
  std::string r;
  r.resize(n * 2);
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { r[2 * i] = H[c[i] >> 4]; r[2 * i + 1] = H[c[i] & 15]; }
  return r;
}
std::string unhex(const std::string& s) {
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char)(v(s[i]) * 16 + v(s[i + 1])));
  return r;
}
void log_hex(const char* prefix, const void* p, size_t n) {
  if (!g_log) return;
  InSim s;
  log_prefix();
  g_log->append(prefix);
  g_log->push_back(' ');
  if (n == 0) g_log->push_back('-');
  g_log->append(tohex(p, n));
  g_log->push_back('\n');
  if (g_log->size() > (1 << 20)) log_flush();
}

// ---------------------------------------------------------------- choices
struct Dec { Kind k; u64 idx; std::vector<u64> vals; };
struct KState {
  u64 rng = 0;
  double p = 0;
  u64 max = ~0ull;
  u64 count = 0, fired = 0;
  bool off = false;       // cleared by the scenario: nothing fires on replay either
  std::unordered_map<u64, std::vector<u64>>* replay = nullptr;
  size_t rpos = 0;
  std::vector<u64>* rcur = nullptr;
  Dec* cur = nullptr;
};
static KState ks[K_NKINDS];
static bool g_replay = false;
static std::deque<Dec>* g_trace = nullptr;
static u64 g_aux = 0;
static u64 splitmix(u64& s) {
  u64 z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
u64 rng_aux() { return splitmix(g_aux); }
static Dec* rec(Kind k, u64 idx) {
  g_trace->push_back(Dec{k, idx, {}});
  return &g_trace->back();
}
bool fault(Kind k) {
  KState& s = ks[k];
  if (g_replay) {
    u64 idx = s.count++;
    if (!s.replay || s.off) return false;
    auto it = s.replay->find(idx);
    if (it == s.replay->end()) return false;
    s.rcur = &it->second;
    s.rpos = 0;
    s.fired++;
    if (k >= K_SHORT_READ) mix(k, idx);
    return true;
  }
  u64 idx = s.count++;
  if (s.p <= 0) return false;
  if ((double)(splitmix(s.rng) >> 11) * (1.0 / 9007199254740992.0) >= s.p) return false;
  if (s.fired >= s.max) return false;
  s.fired++;
  InSim g;
  s.cur = rec(k, idx);
  if (k >= K_SHORT_READ) mix(k, idx);
  return true;
}
u64 drawk(Kind k, u64 n) {
  KState& s = ks[k];
  if (n == 0) return 0;
  if (g_replay) {
    if (s.rcur && s.rpos < s.rcur->size()) return (*s.rcur)[s.rpos++] % n;
    return 0;
  }
  u64 v = splitmix(s.rng) % n;
  InSim g;
  if (s.cur) s.cur->vals.push_back(v);
  return v;
}
u32 pick(Kind k, u32 n) {
  if (n <= 1) return 0;
  return fault(k) ? (u32)drawk(k, n) : 0;
}
void kind_set(const std::string& name, double p, u64 max) {
  for (int i = 0; i < K_NKINDS; i++)
    if (name == kind_names[i]) { ks[i].p = p; ks[i].max = max; ks[i].off = p <= 0; return; }
  logf("BADKIND %s", name.c_str());
}

void kind_clear_all() {
  for (int i = K_SPUR_COND; i < K_NKINDS; i++) if (i != K_LATENCY) { ks[i].p = 0; ks[i].off = true; }
}

// ---------------------------------------------------------------- threads
static void futex_wait(volatile int* w, int v) { raws(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(volatile int* w) { raws(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static std::map<std::pair<u64, u64>, std::function<void()>>* g_events;
static u64 g_evseq = 0, g_next_event = ~0ull;
void at(u64 t, std::function<void()> f) {
  InSim s;
  (*g_events)[{t, g_evseq++}] = std::move(f);
  g_next_event = g_events->begin()->first.first;
}
static void fire_events() {
  InSim s;
  while (!g_events->empty() && g_events->begin()->first.first <= g_now) {
    auto it = g_events->begin();
    auto f = std::move(it->second);
    g_events->erase(it);
    f();
  }
  g_next_event = g_events->empty() ? ~0ull : g_events->begin()->first.first;
}

struct MutexO { int lock; int count; int owner; int nusers; int kind; };
struct CondO { int clock; };
struct RwO { int writer; int readers; };
static u64 g_sigpending = 0;

static bool cond_ready(Thread* t) {
  switch (t->wk) {
    case W_MUTEX: return ((MutexO*)t->wobj)->owner == 0;
    case W_COND: return t->signaled;
    case W_RWR: return ((RwO*)t->wobj)->writer == 0;
    case W_RWW: return ((RwO*)t->wobj)->writer == 0 && ((RwO*)t->wobj)->readers == 0;
    case W_JOIN: return t->joining->finished;
    case W_FN: return (*t->wfn)();
    case W_SIG: return (g_sigpending & t->sigset) != 0;
    case W_ONCE: return *(volatile int*)t->wobj == 2;
    case W_SLEEP: case W_NONE: return false;
  }
  return false;
}
static bool is_ready(Thread* t) {
  if (t->finished) return false;
  if (t->ready) return true;
  if (cond_ready(t)) { t->timed_out = false; return true; }
  if (t->deadline && t->deadline <= g_now) { t->timed_out = true; return true; }
  return false;
}

// ---- strategies
static u64 g_sched_rng = 0, g_ops_since_switch = 0;
static std::vector<u64>* g_pct_points = nullptr;   // steps at which the running thread is demoted
static size_t g_pct_next = 0;
static i64 g_pct_low = 0;
static int g_starved = -1;
static double srnd() { return (double)(splitmix(g_sched_rng) >> 11) * (1.0 / 9007199254740992.0); }
static Thread* next_rr(Thread* cur) {
  size_t n = g_threads.size();
  for (size_t i = 1; i <= n; i++) {
    Thread* t = g_threads[(cur->id + i) % n];
    if (t != cur && is_ready(t)) return t;
  }
  return nullptr;
}
static Thread* random_ready(Thread* cur, bool incl_cur) {
  Thread* r[512];
  int n = 0;
  for (Thread* t : g_threads)
    if (n < 512 && (t != cur || incl_cur) && t->id != g_starved && is_ready(t)) r[n++] = t;
  if (n == 0) {
    for (Thread* t : g_threads)
      if (n < 512 && (t != cur || incl_cur) && is_ready(t)) r[n++] = t;
  }
  if (n == 0) return nullptr;
  return r[splitmix(g_sched_rng) % n];
}
// Pick who runs next. cur_ok: the current thread may continue. Returns nullptr if nobody is ready.
static Thread* choose_thread(Thread* cur, bool cur_ok, bool yield_hint) {
  KState& s = ks[K_SCHED];
  u64 idx = s.count++;
  bool quantum = cur_ok && ++g_ops_since_switch > 3000;
  bool deflt_cur = cur_ok && !quantum && !yield_hint;
  if (g_replay) {
    if (s.replay) {
      auto it = s.replay->find(idx);
      if (it != s.replay->end() && !it->second.empty()) {
        u64 id = it->second[0];
        if (id < g_threads.size()) {
          Thread* t = g_threads[id];
          if (is_ready(t) && (t != cur || cur_ok)) { s.fired++; return t; }
        }
      }
    }
    if (deflt_cur) return cur;
    Thread* t = next_rr(cur);
    return t ? t : (cur_ok ? cur : nullptr);
  }
  // recording
  if (scn.sched == "pct") {
    if (g_pct_next < g_pct_points->size() && g_steps >= (*g_pct_points)[g_pct_next]) { g_pct_next++; cur->prio = --g_pct_low; }
    if (yield_hint || quantum) cur->prio = --g_pct_low;
    Thread* best = cur_ok ? cur : nullptr;
    // full scan only at blocking points and occasionally, else keep running
    if (!cur_ok || yield_hint || quantum || (g_steps & 7) == 0 || (g_pct_next && (*g_pct_points)[g_pct_next - 1] + 1 >= g_steps))
      for (Thread* t : g_threads)
        if (t != cur && (!best || t->prio > best->prio) && is_ready(t)) best = t;
    if (!best) return nullptr;
    Thread* d = deflt_cur ? cur : next_rr(cur);
    if (!d) d = cur;
    if (best != d) { InSim g; rec(K_SCHED, idx)->vals.push_back(best->id); s.fired++; }
    return best;
  }
  if (scn.sched == "none") {
    if (deflt_cur) return cur;
    Thread* t = next_rr(cur);
    return t ? t : (cur_ok ? cur : nullptr);
  }
  bool dev = srnd() < (cur_ok ? scn.psw : 0.5);
  if (g_starved >= 0 && cur->id == g_starved) dev = true;
  if (!dev) {
    if (deflt_cur) return cur;
    Thread* t = next_rr(cur);
    return t ? t : (cur_ok ? cur : nullptr);
  }
  Thread* t = random_ready(cur, cur_ok);
  if (!t) return cur_ok ? cur : nullptr;
  Thread* d = deflt_cur ? cur : next_rr(cur);
  if (!d) d = cur;
  if (t != d) { InSim g; rec(K_SCHED, idx)->vals.push_back(t->id); s.fired++; }
  return t;
}

static void switch_to(Thread* t) {
  Thread* me = self;
  g_ops_since_switch = 0;
  if (t == me) return;
  g_switches++;
  mix(t->id, g_steps);
  g_cur = t;
  int saved_insim = g_insim;
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  futex_wake(&t->go);
  while (!__atomic_load_n(&me->go, __ATOMIC_ACQUIRE)) futex_wait(&me->go, 0);
  __atomic_store_n(&me->go, 0, __ATOMIC_RELAXED);
  g_insim = saved_insim;
}
static void check_limits() {
  if (g_now > scn.max_time) sim_end(87, "TIMELIMIT");
  if (g_steps > scn.max_steps) sim_end(88, "STEPLIMIT");
}
// The current thread cannot continue: run others / advance time until it is chosen again.
static void schedule_blocked() {
  Thread* me = self;
  for (;;) {
    if (g_next_event <= g_now) fire_events();
    Thread* t = nullptr;
    if (is_ready(me)) t = choose_thread(me, true, true);
    else t = choose_thread(me, false, false);
    if (t) {
      switch_to(t);
      return;
    }
    u64 nt = g_next_event;
    for (Thread* x : g_threads)
      if (!x->finished && !x->ready && x->deadline && x->deadline < nt) nt = x->deadline;
    if (nt == ~0ull) sim_end(86, "DEADLOCK");
    if (nt > g_now) g_now = nt;
    check_limits();
    if (g_next_event <= g_now) fire_events();
  }
}
static void begin_wait(WaitKind k, void* obj, u64 deadline) {
  self->ready = false; self->wk = k; self->wobj = obj; self->deadline = deadline;
  self->timed_out = false; self->signaled = false;
}
// returns true when the condition holds, false on timeout
static bool wait_here() {
  Thread* me = self;
  schedule_blocked();
  bool to = me->timed_out && !cond_ready(me);
  me->ready = true; me->wk = W_NONE; me->deadline = 0;
  return !to;
}
static u64 late(u64 deadline) {
  if (deadline && fault(K_OVERSLEEP)) return deadline + drawk(K_OVERSLEEP, scn.oversleep_max);
  return deadline;
}
bool block_on(const std::function<bool()>& ready, u64 deadline) {
  if (ready()) return true;
  begin_wait(W_FN, nullptr, late(deadline));
  self->wfn = &ready;
  bool r = wait_here();
  self->wfn = nullptr;
  return r;
}

// ---- instruction stepping
static bool g_stepping = false;
static i64 g_step_left = 0;
static u64 g_step_stall = 0;
// A preempted thread gives way; it may stay off the processor for a while.
static void deschedule(u64 ns) {
  if (ns) {
    begin_wait(W_SLEEP, nullptr, g_now + ns);
    wait_here();
    return;
  }
  Thread* t = choose_thread(self, true, true);
  if (t && t != self) switch_to(t);
}
static u64 draw_stall(Kind k) {
  if (!scn.desched_max) return 0;
  u64 v = drawk(k, 2 * scn.desched_max);
  return v < scn.desched_max ? v : 0;
}
static u64 g_text_lo = 0, g_text_hi = 0;
static inline void tf_clear() { asm volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static inline void tf_set() { asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static void on_trap(int, siginfo_t*, void* ucv) {
  ucontext_t* uc = (ucontext_t*)ucv;
  if (!g_stepping || g_cur != self || g_insim) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; g_stepping = false; return; }
  u64 ip = uc->uc_mcontext.gregs[REG_RIP];
  if (--g_step_left > 0 || ip < g_text_lo || ip >= g_text_hi) {
    if (g_step_left < -5000) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; g_stepping = false; }
    return;
  }
  uc->uc_mcontext.gregs[REG_EFL] &= ~0x100;
  g_stepping = false;
  int e = errno;
  g_insim++;
  g_steps++;
  g_now += scn.op_cost;
  if (g_next_event <= g_now) fire_events();
  mix(self->id, 0x57e9);
  deschedule(g_step_stall);
  g_insim--;
  errno = e;
}

void sched_point(int op) {
  if (g_stepping) { tf_clear(); g_stepping = false; }
  g_insim++;
  g_steps++;
  g_now += scn.op_cost;
  mix(self->id, op);
  if (g_next_event <= g_now) fire_events();
  if ((g_steps & 255) == 0) check_limits();
  Thread* t = choose_thread(self, true, op == 'Y');
  if (t && t != self) switch_to(t);
  g_insim--;
  if (fault(K_STEP)) {
    g_step_left = 1 + (i64)drawk(K_STEP, 400);
    g_step_stall = draw_stall(K_STEP);
    g_stepping = true;
    tf_set();
  }
}

static void run_dtors() {
  while (self->dtors && !self->dtors->empty()) {
    auto d = self->dtors->back();
    { InSim s; self->dtors->pop_back(); }
    d.first(d.second);
  }
}
[[noreturn]] static void park_forever() {
  static volatile int never = 0;
  for (;;) futex_wait(&never, 0);
}
[[noreturn]] static void thread_finish(void* ret) {
  run_dtors();
  if (g_stepping) { tf_clear(); g_stepping = false; }
  g_insim++;
  self->ret = ret;
  self->finished = true;
  self->ready = false;
  logf("THREND %d", self->id);
  schedule_blocked();   // never returns: nobody switches to a finished thread
  park_forever();
}
static void* tramp(void* p) {
  self = (Thread*)p;
  while (!__atomic_load_n(&self->go, __ATOMIC_ACQUIRE)) futex_wait(&self->go, 0);
  __atomic_store_n(&self->go, 0, __ATOMIC_RELAXED);
  g_insim = 0;
  void* r = self->fn(self->arg);
  thread_finish(r);
}
static Thread* new_thread() {
  Thread* t = new Thread();
  t->id = (int)g_threads.size();
  t->dtors = new std::vector<std::pair<void (*)(void*), void*>>();
  t->prio = (i64)(splitmix(g_sched_rng) % 1000000) + 1;
  t->created = g_now;
  g_threads.push_back(t);
  return t;
}
static Thread* by_pthread(pthread_t p) {
  for (Thread* t : g_threads)
    if (t->real == p) return t;
  return nullptr;
}
template <class T> static T real(const char* n) { return (T)dlsym(RTLD_NEXT, n); }

EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!g_active) return r(out, attr, fn, arg);
  sched_point('c');
  InSim s;
  Thread* t = new_thread();
  t->fn = fn; t->arg = arg;
  int det = 0;
  if (attr) pthread_attr_getdetachstate(attr, &det);
  t->detached = det == PTHREAD_CREATE_DETACHED;
  int rc = r(&t->real, attr, tramp, t);
  if (rc) { t->finished = true; return rc; }
  *out = t->real;
  logf("THR %d", t->id);
  return 0;
}
EXPORT int pthread_join(pthread_t p, void** ret) {
  static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
  if (!g_active) return r(p, ret);
  sched_point('j');
  InSim s;
  Thread* t = by_pthread(p);
  if (!t) return ESRCH;
  if (!t->finished) {
    begin_wait(W_JOIN, nullptr, 0);
    self->joining = t;
    wait_here();
  }
  if (ret) *ret = t->ret;
  return 0;
}
EXPORT int pthread_detach(pthread_t p) {
  static auto r = real<int (*)(pthread_t)>("pthread_detach");
  if (!g_active) return r(p);
  return 0;
}
EXPORT void pthread_exit(void* ret) {
  static auto r = real<void (*)(void*)>("pthread_exit");
  if (!g_active) r(ret);
  thread_finish(ret);
}
EXPORT int pthread_kill(pthread_t p, int sig) {
  static auto r = real<int (*)(pthread_t, int)>("pthread_kill");
  if (!g_active) return r(p, sig);
  logf("PTHREAD_KILL %d", sig);
  return 0;
}
EXPORT int pthread_setname_np(pthread_t p, const char* n) {
  if (!g_active) return 0;
  Thread* t = by_pthread(p);
  if (t) { strncpy(t->name, n, 15); logf("NAME %d %s", t->id, t->name); }
  return 0;
}
EXPORT int prctl(int op, ...) {
  va_list ap;
  va_start(ap, op);
  unsigned long a = va_arg(ap, unsigned long), b = va_arg(ap, unsigned long), c = va_arg(ap, unsigned long), d = va_arg(ap, unsigned long);
  va_end(ap);
  if (g_active && op == PR_SET_NAME && self) { strncpy(self->name, (const char*)a, 15); logf("NAME %d %s", self->id, self->name); return 0; }
  return rawret(raws(SYS_prctl, op, a, b, c, d));
}
extern "C" int __cxa_thread_atexit_impl(void (*f)(void*), void* o, void* dso);
EXPORT int __cxa_thread_atexit_impl(void (*f)(void*), void* o, void* dso) {
  if (g_active && self && self->id != 0) { InSim s; self->dtors->push_back({f, o}); return 0; }
  static auto r = real<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit_impl");
  return r ? r(f, o, dso) : 0;
}

// ---------------------------------------------------------------- mutex / cond / rwlock / once
static void mlock(MutexO* m) {
  if (m->owner != 0) { begin_wait(W_MUTEX, m, 0); wait_here(); }
  m->owner = self->id + 1; m->count = 1;
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  static auto r = real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init");
  return r(m, a);
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) { return 0; }
EXPORT int pthread_mutex_lock(pthread_mutex_t* pm) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!simming()) { if (!g_active) return r(pm); return 0; }
  MutexO* m = (MutexO*)pm;
  if (m->owner == self->id + 1) {
    if ((m->kind & 3) == 1) { m->count++; return 0; }
    if ((m->kind & 3) == 2) return EDEADLK;
  }
  sched_point('L');
  InSim s;
  mlock(m);
  return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* pm) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!simming()) { if (!g_active) return r(pm); return 0; }
  sched_point('T');
  MutexO* m = (MutexO*)pm;
  if (m->owner) {
    if (m->owner == self->id + 1 && (m->kind & 3) == 1) { m->count++; return 0; }
    return EBUSY;
  }
  m->owner = self->id + 1; m->count = 1;
  return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* pm) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!simming()) { if (!g_active) return r(pm); return 0; }
  MutexO* m = (MutexO*)pm;
  if (m->count > 1) { m->count--; return 0; }
  m->owner = 0; m->count = 0;
  sched_point('U');
  return 0;
}
static u64 abs_to_mono(const struct timespec* ts, bool mono) {
  i64 t = (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (!mono) t -= g_rt_off;
  if (t < 1) t = 1;
  return (u64)t;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* pm, const struct timespec* ts) {
  if (!simming()) return 0;
  sched_point('L');
  InSim s;
  MutexO* m = (MutexO*)pm;
  if (m->owner) { begin_wait(W_MUTEX, m, abs_to_mono(ts, false)); if (!wait_here()) return ETIMEDOUT; }
  m->owner = self->id + 1; m->count = 1;
  return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  memset(c, 0, sizeof *c);
  clockid_t clk = CLOCK_REALTIME;
  if (a) pthread_condattr_getclock(a, &clk);
  ((CondO*)c)->clock = clk == CLOCK_MONOTONIC ? 2 : 0;
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* pm, const struct timespec* ts) {
  sched_point('W');
  InSim s;
  MutexO* m = (MutexO*)pm;
  int cnt = m->count;
  bool ok = true;
  m->owner = 0; m->count = 0;
  if (fault(K_SPUR_COND)) {
    g_insim--;
    sched_point('w');
    g_insim++;
  } else {
    u64 dl = ts ? late(abs_to_mono(ts, ((CondO*)c)->clock == 2)) : 0;
    begin_wait(W_COND, c, dl);
    ok = wait_here();
  }
  mlock(m);
  m->count = cnt;
  return ok ? 0 : ETIMEDOUT;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!simming()) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return r(c, m); }
  return cond_wait(c, m, nullptr);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!simming()) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait"); return r(c, m, ts); }
  return cond_wait(c, m, ts);
}
static void cond_wake(pthread_cond_t* c, bool all) {
  Thread* w[512];
  int n = 0;
  for (Thread* t : g_threads)
    if (n < 512 && !t->finished && !t->ready && t->wk == W_COND && t->wobj == c && !t->signaled) w[n++] = t;
  if (n == 0) return;
  if (all) { for (int i = 0; i < n; i++) w[i]->signaled = true; }
  else w[pick(K_SIGNAL_PICK, n)]->signaled = true;
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  if (!simming()) return 0;
  { InSim s; cond_wake(c, false); }
  sched_point('S');
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!simming()) return 0;
  { InSim s; cond_wake(c, true); }
  sched_point('B');
  return 0;
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!simming()) return 0;
  sched_point('R');
  InSim s;
  RwO* o = (RwO*)l;
  if (o->writer) { begin_wait(W_RWR, o, 0); wait_here(); }
  o->readers++;
  return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!simming()) return 0;
  sched_point('X');
  InSim s;
  RwO* o = (RwO*)l;
  if (o->writer || o->readers) { begin_wait(W_RWW, o, 0); wait_here(); }
  o->writer = self->id + 1;
  return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!simming()) return 0;
  sched_point('R');
  RwO* o = (RwO*)l;
  if (o->writer) return EBUSY;
  o->readers++;
  return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!simming()) return 0;
  sched_point('X');
  RwO* o = (RwO*)l;
  if (o->writer || o->readers) return EBUSY;
  o->writer = self->id + 1;
  return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!simming()) return 0;
  RwO* o = (RwO*)l;
  if (o->writer) o->writer = 0; else if (o->readers) o->readers--;
  sched_point('V');
  return 0;
}
EXPORT int pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!g_active) { static auto r = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once"); return r(o, f); }
  volatile int* v = (volatile int*)o;
  if (*v == 2) return 0;
  if (*v == 1) { InSim s; begin_wait(W_ONCE, (void*)v, 0); wait_here(); return 0; }
  *v = 1;
  f();
  *v = 2;
  return 0;
}

// ---------------------------------------------------------------- time
static void to_ts(i64 ns, struct timespec* ts) { ts->tv_sec = ns / 1000000000ll; ts->tv_nsec = ns % 1000000000ll; }
static i64 now_for(clockid_t c) {
  switch (c) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: return (i64)g_now + g_rt_off;
    default: return (i64)g_now;
  }
}
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!g_active) return rawret(raws(SYS_clock_gettime, c, (long)ts));
  if (!g_insim) sched_point('t');
  to_ts(now_for(c), ts);
  return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*) {
  if (!g_active) return rawret(raws(SYS_gettimeofday, (long)tv, 0));
  i64 n = now_for(CLOCK_REALTIME);
  tv->tv_sec = n / 1000000000ll; tv->tv_usec = n % 1000000000ll / 1000;
  return 0;
}
EXPORT time_t time(time_t* t) {
  time_t r;
  if (!g_active) { struct timespec ts; raws(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); r = ts.tv_sec; }
  else r = now_for(CLOCK_REALTIME) / 1000000000ll;
  if (t) *t = r;
  return r;
}
EXPORT clock_t clock(void) { return g_active ? (clock_t)(g_now / 1000) : 0; }
static int sim_sleep(u64 ns) {
  sched_point('Z');
  InSim s;
  begin_wait(W_SLEEP, nullptr, late(g_now + (ns ? ns : 1)));
  wait_here();
  return 0;
}
EXPORT int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (!simming()) return rawret(raws(SYS_nanosleep, (long)ts, (long)rem));
  return sim_sleep((u64)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
EXPORT int usleep(useconds_t us) {
  if (!simming()) return 0;
  return sim_sleep((u64)us * 1000);
}
EXPORT unsigned sleep(unsigned s) {
  if (!simming()) return 0;
  sim_sleep((u64)s * 1000000000ull);
  return 0;
}
EXPORT int sched_yield(void) {
  if (!simming()) return 0;
  sched_point('Y');
  return 0;
}
EXPORT int sched_getaffinity(pid_t, size_t n, cpu_set_t* s) {
  memset(s, 0, n);
  for (int i = 0; i < 4; i++) CPU_SET(i, s);
  return 0;
}
EXPORT long sysconf(int n) {
  static auto r = real<long (*)(int)>("sysconf");
  if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 4;
  return r(n);
}
EXPORT pid_t getpid(void) { return g_active ? 4242 : (pid_t)raws(SYS_getpid); }

// ---------------------------------------------------------------- randomness & raw syscalls
static void fill_random(void* p, size_t n) {
  unsigned char* c = (unsigned char*)p;
  for (size_t i = 0; i < n; i += 8) {
    u64 v = rng_aux();
    memcpy(c + i, &v, n - i < 8 ? n - i : 8);
  }
}
EXPORT ssize_t getrandom(void* p, size_t n, unsigned fl) {
  if (!g_active) return rawret(raws(SYS_getrandom, (long)p, n, fl));
  fill_random(p, n);
  return n;
}
extern "C" int accept4(int fd, struct sockaddr* a, unsigned* l, int flags);
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (g_active) {
    switch (n) {
      case SYS_getrandom: fill_random((void*)a, b); return b;
      case SYS_gettid: return self ? 5000 + self->id : 5000;
      case SYS_accept4: return accept4((int)a, (struct sockaddr*)b, (unsigned*)c, (int)d);
      case SYS_futex: logf("RAWFUTEX"); break;
      case SYS_pipe2: { extern int sim_pipe(int*, int); return sim_pipe((int*)a, (int)b); }
      default: logf("RAWSYSCALL %ld", n);
    }
  }
  return rawret(raw6(n, a, b, c, d, e, f));
}

// ---------------------------------------------------------------- signals
void sim_signal(int sig) { g_sigpending |= 1ull << sig; logf("SIGNAL %d", sig); }
// signals are simulated; SIGTRAP must stay deliverable
EXPORT int pthread_sigmask(int how, const sigset_t* set, sigset_t* old) {
  u64 m = 0;
  if (set) { memcpy(&m, set, 8); m &= ~(1ull << (SIGTRAP - 1)); }
  long r = raws(SYS_rt_sigprocmask, how, set ? (long)&m : 0, (long)old, 8);
  return r < 0 ? (int)-r : 0;
}
EXPORT int sigprocmask(int how, const sigset_t* set, sigset_t* old) { int r = pthread_sigmask(how, set, old); if (r) { errno = r; return -1; } return 0; }
EXPORT int sigwait(const sigset_t* set, int* sig) {
  if (!simming()) { static auto r = real<int (*)(const sigset_t*, int*)>("sigwait"); return r(set, sig); }
  sched_point('G');
  InSim s;
  u64 m = 0;
  for (int i = 1; i < 64; i++)
    if (sigismember(set, i) == 1) m |= 1ull << i;
  if (!(g_sigpending & m)) {
    self->sigset = m;
    begin_wait(W_SIG, nullptr, 0);
    wait_here();
  }
  for (int i = 1; i < 64; i++)
    if (g_sigpending & m & (1ull << i)) { g_sigpending &= ~(1ull << i); *sig = i; return 0; }
  return EINTR;
}

// ---------------------------------------------------------------- allocation as a preemption point
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
static inline void alloc_point() {
  if (g_active && !g_insim && g_cur == self && self && ks[K_MALLOC].p + (g_replay ? 1 : 0) > 0) {
    if (g_stepping) return;
    if (fault(K_MALLOC)) {
      int e = errno;
      g_insim++;
      g_steps++;
      g_now += scn.op_cost;
      mix(self->id, 'M');
      if (g_next_event <= g_now) fire_events();
      deschedule(draw_stall(K_MALLOC));
      g_insim--;
      errno = e;
    }
  }
}
EXPORT void* malloc(size_t n) { alloc_point(); return __libc_malloc(n); }
EXPORT void* calloc(size_t a, size_t b) { alloc_point(); return __libc_calloc(a, b); }
EXPORT void* realloc(void* p, size_t n) { alloc_point(); return __libc_realloc(p, n); }

// ---------------------------------------------------------------- start and end
static void dump_trace() {
  const char* tf = getenv("DETSIM_TRACE");
  if (!tf || !g_trace) return;
  int fd = (int)raws(SYS_open, (long)tf, O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd < 0) return;
  std::string o;
  char b[64];
  for (auto& d : *g_trace) {
    o.append(kind_names[d.k]);
    o.append(b, snprintf(b, sizeof b, " %llu", (unsigned long long)d.idx));
    for (u64 v : d.vals) o.append(b, snprintf(b, sizeof b, " %llu", (unsigned long long)v));
    o.push_back('\n');
  }
  for (size_t p = 0; p < o.size();) {
    long r = raws(SYS_write, fd, (long)(o.data() + p), o.size() - p);
    if (r <= 0) break;
    p += r;
  }
  raws(SYS_close, fd);
}
static bool g_ended = false;
static void finish_log(int code, const char* why) {
  if (g_ended) return;
  g_ended = true;
  for (int i = 0; i < K_NKINDS; i++)
    if (ks[i].fired) logf("FAULTS %s %llu of %llu", kind_names[i], (unsigned long long)ks[i].fired, (unsigned long long)ks[i].count);
  int live = 0;
  for (Thread* t : g_threads) if (!t->finished) live++;
  logf("END %s code=%d t_us=%llu steps=%llu switches=%llu threads=%zu live=%d hash=%016llx", why, code,
       (unsigned long long)((g_now - 1000000000ull) / 1000), (unsigned long long)g_steps, (unsigned long long)g_switches, g_threads.size(), live,
       (unsigned long long)g_hash);
  log_flush();
  dump_trace();
}
void threads_stat_log() {
  std::string s;
  int live = 0;
  for (Thread* t : g_threads) if (!t->finished) live++;
  if (scn.verbose)
    for (Thread* t : g_threads)
      if (!t->finished) logf("  thread %d name=%s ready=%d wk=%d", t->id, t->name, t->ready, t->wk);
  logf("STAT threads=%d", live);
}
void sim_end(int code, const char* why) {
  g_insim++;
  if (scn.verbose || code) threads_stat_log();
  finish_log(code, why);
  raws(SYS_exit_group, code);
  for (;;) {}
}
__attribute__((destructor)) static void fini() {
  if (!g_active) return;
  g_insim++;
  finish_log(0, "EXIT");
}
EXPORT void exit(int c) {
  static auto r = real<void (*)(int)>("exit");
  if (g_active && !g_insim) { sched_point('E'); logf("EXITCALL %d", c); }
  r(c);
  __builtin_unreachable();
}
EXPORT void abort(void) {
  if (g_active) { g_insim++; logf("ABORT"); finish_log(134, "ABORT"); raws(SYS_exit_group, 134); }
  raws(SYS_exit_group, 134);
  __builtin_unreachable();
}
static void on_fatal(int sig) {
  raws(SYS_write, 2, (long)"detsim: fatal signal\n", 21);
  g_insim = 1000;
  logf("FATALSIG %d", sig);
  finish_log(128 + sig, "FATALSIG");
  raws(SYS_exit_group, 128 + sig);
}

static int phdr_cb(struct dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_X)) { g_text_lo = i->dlpi_addr + p.p_vaddr; g_text_hi = g_text_lo + p.p_memsz; }
  }
  return 1;  // first entry only: the main program
}
static void load_replay(const char* path) {
  FILE* f = fopen(path, "re");
  if (!f) { g_replay = true; return; }
  g_replay = true;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    char* sp = strchr(line, ' ');
    if (!sp || line[0] == '#') continue;
    *sp = 0;
    int k = -1;
    for (int i = 0; i < K_NKINDS; i++) if (!strcmp(line, kind_names[i])) k = i;
    if (k < 0) continue;
    char* e = sp + 1;
    u64 idx = strtoull(e, &e, 10);
    std::vector<u64> v;
    while (*e == ' ') v.push_back(strtoull(e, &e, 10));
    if (!ks[k].replay) ks[k].replay = new std::unordered_map<u64, std::vector<u64>>();
    (*ks[k].replay)[idx] = v;
  }
  fclose(f);
}
void net_init();
static void init() {
  const char* sp = getenv("DETSIM_SCENARIO");
  if (!sp || strcmp(program_invocation_short_name, "cernan")) return;
  g_insim = 1;
  const char* cpu = getenv("DETSIM_CPU");
  if (cpu) {
    unsigned long mask[16] = {0};
    int c = atoi(cpu);
    mask[c / 64] |= 1ul << (c % 64);
    raws(SYS_sched_setaffinity, 0, sizeof mask, (long)mask);
  }
  g_log = new std::string();
  g_log->reserve(2 << 20);
  g_trace = new std::deque<Dec>();
  g_events = new std::map<std::pair<u64, u64>, std::function<void()>>();
  const char* out = getenv("DETSIM_LOG");
  g_logfd = (int)raws(SYS_open, (long)(out ? out : "/dev/null"), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0644);
  if (g_logfd >= 0) { int n = (int)raws(SYS_fcntl, g_logfd, F_DUPFD_CLOEXEC, 900); raws(SYS_close, g_logfd); g_logfd = n; }
  u64 seed = strtoull(getenv("DETSIM_SEED") ?: "1", nullptr, 10);
  u64 s = seed * 0x9e3779b97f4a7c15ull + 12345;
  for (int i = 0; i < K_NKINDS; i++) { ks[i].rng = splitmix(s); }
  g_sched_rng = splitmix(s);
  g_aux = splitmix(s);
  Thread* t = new_thread();
  t->real = pthread_self();
  self = t;
  g_cur = t;
  const char* rp = getenv("DETSIM_REPLAY");
  if (rp) load_replay(rp);
  net_init();
  scenario_load(sp);
  g_rt_off = scn.epoch * 1000000000ll - (i64)g_now;
  scn.max_time += g_now;
  g_pct_points = new std::vector<u64>();
  for (int i = 0; i < scn.depth; i++) g_pct_points->push_back(splitmix(g_sched_rng) % 60000);
  std::sort(g_pct_points->begin(), g_pct_points->end());
  if (scn.sched == "starve") { g_starved = 1 + (int)(splitmix(g_sched_rng) % 12); scn.sched = "rw"; }
  dl_iterate_phdr(phdr_cb, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, nullptr);
  (void)on_fatal;
  g_insim = 0;
  g_active = true;
}

static struct Init { Init() { init(); } } g_init;   // after every other static object
