// Control over the steps in which processes connect to each other: the calls that create, publish, read and
// remove connection files and that connect sockets can be delayed, put into a given order, or be the last
// ones before all processes die.
#pragma once
#include <atomic>
#include <cstdarg>
#include <deque>
#include <dlfcn.h>
#include <netinet/in.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>

namespace gate {

struct Shared {
  std::atomic<int> counter, broken, at;
};

inline Shared                                *shared = nullptr;
inline std::map<char, std::deque<int>>        mine; // positions of the steps of this process
inline int                                    total  = 0;
inline bool                                   crash  = false;
inline unsigned                               jitter = 0;
inline bool                                   on     = false;

inline void doze(int ms)
{
  std::this_thread::sleep_for(std::chrono::milliseconds(ms));
}

inline unsigned random()
{
  jitter = jitter * 1664525u + 1013904223u;
  return jitter >> 16;
}

// all processes wait for their turn; a schedule that cannot be followed is given up
inline int enter(char op)
{
  if (!on)
    return -1;
  if (jitter)
    doze(random() % 12);
  if (!shared)
    return -1;
  auto &q = mine[op];
  if (q.empty()) {
    while (crash && !shared->broken)
      doze(1);
    return -1;
  }
  int pos = q.front();
  q.pop_front();
  for (int i = 0; i < 8000 && shared->counter < pos && !shared->broken; ++i)
    std::this_thread::sleep_for(std::chrono::microseconds(250));
  if (shared->counter < pos && !shared->broken) {
    shared->at     = shared->counter.load();
    shared->broken = 1;
  }
  return pos;
}

inline void leave(int pos)
{
  if (!on)
    return;
  if (shared && pos >= 0) {
    int c = shared->counter;
    while (c < pos + 1 && !shared->counter.compare_exchange_weak(c, pos + 1)) {
    }
  }
  if (jitter)
    doze(random() % 12);
}

// schedule: lines "name step"; crash: die after the last of them
inline void load(const std::string &file, const std::string &name, bool die)
{
  std::ifstream i(file);
  std::string   n, op;
  while (i >> n >> op) {
    if (n == name)
      mine[op[0]].push_back(total);
    ++total;
  }
  int fd = open((file + ".mem").c_str(), O_RDWR | O_CREAT, 0600);
  if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0)
    throw std::runtime_error("no shared memory");
  shared = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  close(fd);
  crash = die;
  on    = true;
  if (die)
    std::thread([] {
      for (int i = 0; i < 20000 && shared->counter < total && !shared->broken; ++i)
        std::this_thread::sleep_for(std::chrono::microseconds(250));
      if (shared->counter < total)
        shared->broken = 1;
      kill(getpid(), SIGKILL);
    }).detach();
  leave(enter('S'));
}

template <typename F>
F next(const char *name)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

inline bool ours(const char *path)
{
  return on && path && std::strstr(path, "precice-run");
}

} // namespace gate

extern "C" {
int rename(const char *a, const char *b)
{
  static auto f = gate::next<int (*)(const char *, const char *)>("rename");
  if (!gate::ours(b))
    return f(a, b);
  int p = gate::enter('P'), r = f(a, b), e = errno;
  gate::leave(p);
  errno = e;
  return r;
}

int remove(const char *a)
{
  static auto f = gate::next<int (*)(const char *)>("remove");
  struct stat st;
  if (!gate::ours(a) || stat(a, &st) != 0 || S_ISDIR(st.st_mode))
    return f(a);
  int p = gate::enter('D'), r = f(a), e = errno;
  gate::leave(p);
  errno = e;
  return r;
}

FILE *fopen64(const char *a, const char *m)
{
  static auto f = gate::next<FILE *(*) (const char *, const char *)>("fopen64");
  if (!gate::ours(a))
    return f(a, m);
  int   p = gate::enter(*m == 'r' ? 'R' : 'W');
  FILE *r = f(a, m);
  int   e = errno;
  gate::leave(p);
  errno = e;
  return r;
}

FILE *fopen(const char *a, const char *m)
{
  return fopen64(a, m);
}

int connect(int fd, const struct sockaddr *a, socklen_t l)
{
  static auto f = gate::next<int (*)(int, const struct sockaddr *, socklen_t)>("connect");
  if (!gate::on || a->sa_family != AF_INET)
    return f(fd, a, l);
  int p = gate::enter('C'), r = f(fd, a, l), e = errno;
  gate::leave(p);
  errno = e;
  return r;
}
}
