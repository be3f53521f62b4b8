// Descriptors of the simulated process.
#pragma once
#include "core.h"
#include <netinet/in.h>
#include <sys/epoll.h>
#include <sys/socket.h>

enum FType { T_SOCK, T_TCP, T_LISTEN, T_UDP, T_EPOLL, T_EVENTFD, T_PIPER, T_PIPEW, T_REG, T_DIR };
struct Reg { int fd; struct File* f; u32 events; u64 data; u64 seen_in, seen_out; bool disabled; };
struct Pipe { std::string buf; int readers = 0, writers = 0; };
struct Inode {
  u64 ino = 0;
  bool dir = false;
  int nlink = 0, opens = 0;
  std::string data;
  std::map<std::string, Inode*> kids;
  u64 mtime = 0;
  mode_t perm = 0;                   // 0: as created
};
struct File {
  FType t;
  int refs = 1;
  bool nonblock = false;
  int family = AF_INET, stype = SOCK_STREAM;
  u64 in_seq = 1, out_seq = 1;
  u64 rcvtimeo = 0, sndtimeo = 0;    // ns
  bool reuse = false;
  // tcp
  Ep* ep = nullptr;
  bool shut_rd = false, shut_wr = false;
  int connecting = 0;                // 1 in progress, 2 done/failed
  int so_error = 0;
  int target = 0;
  // listen
  std::deque<Ep*> backlog;
  int port = 0;
  // udp
  std::deque<std::string> dq;
  u64 dqbytes = 0;
  // epoll
  std::vector<Reg> regs;
  // eventfd
  u64 counter = 0;
  // pipe
  Pipe* pipe = nullptr;
  // vfs
  Inode* ino = nullptr;
  u64 off = 0;
  int oflags = 0;
  std::string path;
};
int fd_alloc(File* f);               // -1/EMFILE
extern u64 g_fdmax;
ssize_t vfs_read(File* f, void* p, size_t n);
ssize_t vfs_write(File* f, const void* p, size_t n);
void vfs_close(File* f);
