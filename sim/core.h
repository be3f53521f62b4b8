// detsim: deterministic simulation of a whole process at the libc boundary.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

#define EXPORT extern "C" __attribute__((visibility("default")))

// ---------------------------------------------------------------- raw syscalls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static inline long raws(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return raw6(n, a, b, c, d, e, f); }
static inline long rawret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

// ---------------------------------------------------------------- choices
// Every nondeterministic decision is one call of fault()/pick(): kind + per-kind counter.
enum Kind {
  K_SCHED,        // which thread runs next
  K_MALLOC,       // preemption inside the application at an allocation
  K_STEP,         // preemption after n machine instructions
  K_SPUR_COND,    // spurious condition-variable wake-up
  K_SIGNAL_PICK,  // which waiter a cond_signal wakes
  K_OVERSLEEP,    // timers/timeouts fire late
  K_SHORT_READ,   // stream read returns fewer bytes than available
  K_SHORT_WRITE,  // stream write accepts fewer bytes than asked
  K_EINTR,        // socket call interrupted
  K_LATENCY,      // network delay
  K_EPOLL_FEW,    // epoll_wait reports only some of the ready descriptors
  K_EPOLL_SPUR,   // spurious readiness
  K_UDP_ERR,      // receive error reported by a UDP socket
  K_UDP_DROP, K_UDP_DUP, K_UDP_REORDER,
  K_ACCEPT_ERR,   // accept fails transiently
  K_CONN_REFUSE,  // outgoing connect refused
  K_CONN_RST,     // established outgoing connection reset at a write
  K_SEG,          // how sent data is cut into segments
  K_FS_SHORT_READ, K_FS_SHORT_WRITE, K_FS_EINTR, K_FS_EIO, K_FS_ENOSPC, K_FS_EMFILE,
  K_READDIR,      // directory order
  K_INO_REUSE,    // inode number of a deleted file is given to the next new one
  K_SRV,          // server-side answers
  K_NKINDS
};
extern const char* kind_names[K_NKINDS];
bool fault(Kind k);                  // true with the scenario's probability for k
u32 pick(Kind k, u32 n);             // uniform in [0,n); 0 is the default
u64 rng_aux();                       // auxiliary deterministic stream (values, not decisions)
u64 drawk(Kind k, u64 n);            // value in [0,n) that belongs to a decision just taken

// ---------------------------------------------------------------- log
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void log_hex(const char* prefix, const void* p, size_t n);   // prefix + hex
void log_flush();
void mix(u64 a, u64 b = 0);          // fold into the run's interleaving hash
[[noreturn]] void sim_end(int code, const char* why);

// ---------------------------------------------------------------- threads & time
enum WaitKind { W_NONE, W_MUTEX, W_COND, W_RWR, W_RWW, W_JOIN, W_SLEEP, W_FN, W_SIG, W_ONCE };
struct Thread {
  int id = 0;
  volatile int go = 0;
  char name[20] = {0};
  bool ready = true, finished = false, detached = false;
  WaitKind wk = W_NONE;
  void* wobj = nullptr;
  u64 deadline = 0;                  // 0: none (monotonic ns)
  bool timed_out = false, signaled = false;
  const std::function<bool()>* wfn = nullptr;
  pthread_t real = 0;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  Thread* joining = nullptr;
  std::vector<std::pair<void (*)(void*), void*>>* dtors = nullptr;
  i64 prio = 0;
  u64 sigset = 0;
  u64 created = 0;
};
extern bool g_active;
extern int g_insim;
extern u64 g_now;                    // monotonic ns
extern i64 g_rt_off;                 // realtime = now + off
extern std::vector<Thread*>& g_threads;
extern Thread* g_cur;
extern u64 g_steps, g_switches;

struct InSim { InSim() { g_insim++; } ~InSim() { g_insim--; } };

void sched_point(int op);                                    // possible preemption
bool block_on(const std::function<bool()>& ready, u64 deadline);  // true: ready, false: timed out
void at(u64 t, std::function<void()> f);                     // run f at simulated time t
static inline bool simming() { return g_active && !g_insim; }

struct Scn {
  i64 epoch = 1500000000;
  u64 max_time = 30000000000ull, max_steps = 20000000;
  u64 op_cost = 1000;
  u64 lat_min = 20000, lat_max = 200000;
  u64 sndbuf = 65536;
  u64 fs_cap = ~0ull;
  u64 oversleep_max = 20000000;
  u64 desched_max = 0;               // how long a preempted thread may stay off the processor
  std::string sched = "rw";
  double psw = 0.05;
  int depth = 5;
  bool verbose = false;
};
extern Scn& scn;
void scenario_load(const char* path);
void scenario_cmd(const std::vector<std::string>& w);        // execute one timed command
std::string unhex(const std::string& s);
std::string tohex(const void* p, size_t n);

// ---------------------------------------------------------------- files/sockets
struct File;
struct Ep;
File* fd_file(int fd);
u64 open_fds();
void fd_stat_log();
std::string vfs_path(const char* p);  // "" when the path is not ours
// VFS for actors
void vfs_append(const std::string& path, const std::string& data);
void vfs_create(const std::string& path, const std::string& data);
void vfs_mkdir(const std::string& path);
void vfs_rename(const std::string& a, const std::string& b);
void vfs_unlink(const std::string& path);
void vfs_truncate(const std::string& path, size_t n);
u64 vfs_usage(const std::string& prefix, u64* nfiles);

// actors (simulated remote ends)
struct Actor {
  virtual ~Actor() {}
  virtual void on_data(Ep* ep, const std::string& d) = 0;
  virtual void on_fin(Ep* ep) {}
  virtual void on_rst(Ep* ep) {}
};
// an application socket connects to a port: returns 0 accept, else errno; sets actor
struct Server {
  int port = 0;
  std::string kind;
  bool down = false;                 // refuse
  bool blackhole = false;            // connect hangs
  u64 nconn = 0;
  std::vector<Ep*> conns;
  std::map<std::string, std::string> opt;
  std::function<Actor*(Ep*, u64 connno)> make;
};
extern std::map<int, Server*>& g_servers;
struct Ep {
  int id = 0;
  bool is_app = false;
  Ep* other = nullptr;
  Actor* actor = nullptr;
  Server* srv = nullptr;
  u64 connno = 0;
  std::string rx; size_t rxo = 0;    // received, unread (application side)
  u64 inflight = 0;                  // bytes on their way to the other end
  u64 last_arr = 0;
  bool fin_rx = false, fin_sent = false, rst = false, rst_reported = false, closed = false, connected = false;
  bool stalled = false;              // actor does not read
  std::string stall_buf;
  u64 in_seq = 1, out_seq = 1;       // edge-trigger sequence numbers
  u64 tx_total = 0, rx_total = 0;    // bytes accepted from the application / received from it
  int port = 0;                      // listening port of the connection
  int myport = 0;
  u64 rst_after = ~0ull;             // server plan: reset once that many bytes were received
  u64 cap = 0;
  u64 unread() const { return rx.size() - rxo; }
};
Ep* client_connect(int port, Actor* a);                    // actor connects to the application
void ep_send(Ep* ep, const std::string& d);                // actor sends
void ep_fin(Ep* ep); void ep_rst(Ep* ep);
void ep_unstall(Ep* ep);
bool udp_inject(int port, const std::string& d);
