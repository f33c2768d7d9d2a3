// Runs participants as processes; the result of each is its exit code.
#pragma once
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "precice/precice.hpp"

inline int demoFailures = 0;

#define EXPECT(cond)                                                     \
  do {                                                                   \
    if (!(cond)) {                                                       \
      std::printf("%s:%d: not fulfilled: %s\n", __FILE__, __LINE__, #cond); \
      std::fflush(stdout);                                               \
      ++demoFailures;                                                    \
    }                                                                    \
  } while (0)

inline bool same(double a, double b, double tol = 1e-9)
{
  return std::fabs(a - b) <= tol * std::max(1.0, std::fabs(b));
}

/// 0 if all participants ended without failures within the time limit
inline int runAll(std::vector<std::function<void()>> parts, int limit = 60)
{
  std::vector<pid_t> pids;
  for (auto &f : parts) {
    pid_t p = fork();
    if (p == 0) {
      alarm(limit);
      try {
        f();
      } catch (std::exception &e) {
        std::printf("exception: %s\n", e.what());
        std::fflush(stdout);
        _exit(3);
      }
      std::fflush(stdout);
      _exit(demoFailures ? 1 : 0);
    }
    pids.push_back(p);
  }
  int bad = 0;
  for (auto p : pids) {
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
      ++bad;
  }
  return bad ? 1 : 0;
}
