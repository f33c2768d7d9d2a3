// Replay driver: runs scripts of preCICE API calls, one process per participant and rank.
//
//   runner BATCH JOBS
//
// BATCH lines:  S <dir> <timeout-s> <nproc>      (a scenario; followed by nproc lines)
//               P <participant> <rank> <size> <script> <out> <log> <backend> <delay-ms>
// All paths are relative to the scenario directory. For every scenario one line
//   R <index> <elapsed-s> <status>...   with status = exit:<code> | sig:<n> | timeout
// is printed. Every process is forked from this single-threaded parent, so each one starts with
// pristine library state.
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>

#include "precice/precice.hpp"
#include "api.hpp"
#include "drive.hpp"
#include "gate.hpp"

using Clock = std::chrono::steady_clock;

namespace {

struct Proc {
  std::string part;
  int         rank, size;
  std::string script, out, log, backend;
  int         delay;
  pid_t       pid  = -1;
  bool        done = false;
  std::string status;
};

struct Scenario {
  std::string       dir;
  double            timeout;
  std::vector<Proc> procs;
  Clock::time_point start;
};

class Script {
public:
  Script(const Proc &p) : _p(p) {}

  int run()
  {
    std::ifstream in(_p.script);
    int           fd = open(_p.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (!in || fd < 0)
      return 90;
    std::string line;
    int         idx = 0;
    while (std::getline(in, line)) {
      std::istringstream is(line);
      std::string        op;
      if (!(is >> op) || op[0] == '#')
        continue;
      _res.clear();
      std::string state = "ok";
      bool        stop  = false;
      try {
        exec(op, is);
      } catch (const precice::Error &e) {
        state = "err";
        _res  = e.what();
        stop  = _stopOnError;
      } catch (const std::exception &e) {
        state = "exc";
        _res  = e.what();
        stop  = true;
      } catch (...) {
        state = "exc";
        _res  = "unknown";
        stop  = true;
      }
      std::replace(_res.begin(), _res.end(), '\n', ' ');
      std::string o = std::to_string(idx++) + " " + op + " " + state + " " + _res + "\n";
      size_t      w = 0;
      while (w < o.size()) {
        ssize_t n = write(fd, o.data() + w, o.size() - w);
        if (n <= 0)
          return 91;
        w += n;
      }
      if (stop) {
        _exit(3); // an error nobody handles ends the process
      }
    }
    _api.reset();
    return 0;
  }

private:
  const Proc                                &_p;
  std::unique_ptr<Api>                       _api;
  std::string                                _res;
  bool                                       _stopOnError = true;
  std::map<std::string, std::vector<int>>    _accIds;
  std::map<std::string, std::vector<double>> _accCoords;

  template <class T>
  void put(const T &v)
  {
    char buf[64];
    if constexpr (std::is_floating_point_v<T>)
      snprintf(buf, sizeof buf, "%.17g ", v);
    else
      snprintf(buf, sizeof buf, "%lld ", static_cast<long long>(v));
    _res += buf;
  }
  template <class T>
  void putAll(const std::vector<T> &v)
  {
    for (auto &x : v)
      put(x);
  }
  static std::string str(std::istream &is)
  {
    std::string s;
    is >> s;
    // %20-style escapes allow empty and odd names
    if (s == "%")
      return "";
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
      if (s[i] == '%' && i + 2 < s.size()) {
        r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
        i += 2;
      } else
        r += s[i];
    }
    return r;
  }
  static double dbl(std::istream &is)
  {
    std::string s;
    is >> s;
    if (s == "nan")
      return std::nan("");
    if (s == "inf")
      return std::numeric_limits<double>::infinity();
    if (s == "max")
      return std::numeric_limits<double>::max();
    return std::strtod(s.c_str(), nullptr);
  }
  static long num(std::istream &is)
  {
    long n = 0;
    is >> n;
    return n;
  }
  static std::vector<int> ints(std::istream &is)
  {
    std::vector<int> v(num(is));
    for (auto &x : v)
      x = static_cast<int>(num(is));
    return v;
  }
  static std::vector<double> dbls(std::istream &is)
  {
    std::vector<double> v(num(is));
    for (auto &x : v)
      x = dbl(is);
    return v;
  }

  Api &api()
  {
    if (!_api)
      throw std::runtime_error("no participant");
    return *_api;
  }

  std::vector<int> idsAt(const std::string &m, const std::vector<double> &x)
  {
    size_t           dim = api().getMeshDimensions(m);
    auto            &ids = _accIds[m];
    auto            &c   = _accCoords[m];
    std::vector<int> res;
    for (size_t i = 0; i < x.size(); i += dim)
      for (size_t j = 0; j < ids.size(); ++j)
        if (std::equal(x.begin() + i, x.begin() + i + dim, c.begin() + j * dim))
          res.push_back(ids[j]);
    if (res.size() * dim != x.size())
      throw std::runtime_error("no such vertices");
    return res;
  }

  void exec(const std::string &op, std::istream &is)
  {
    if (op == "new") {
      auto cfg = str(is);
      _api     = makeApi(_p.backend, _p.part, cfg, _p.rank, _p.size);
    } else if (op == "newx") { // explicit participant name, rank, size
      auto cfg = str(is), name = str(is);
      int  r = num(is), s = num(is);
      _api.reset();
      _api = makeApi(_p.backend, name, cfg, r, s);
    } else if (op == "cont") {
      _stopOnError = num(is) == 0;
    } else if (op == "slp") {
      std::this_thread::sleep_for(std::chrono::milliseconds(num(is)));
    } else if (op == "die") {
      kill(getpid(), SIGKILL);
    } else if (op == "pid") {
      auto          f = str(is);
      std::ofstream o(f + ".tmp");
      o << getpid();
      o.close();
      rename((f + ".tmp").c_str(), f.c_str());
    } else if (op == "killpid") { // a process of the same scenario, which wrote its id
      std::ifstream i(str(is));
      int           pid = 0;
      i >> pid;
      if (pid > 1 && getpgid(pid) == getpgrp())
        kill(pid, SIGKILL);
    } else if (op == "gate") { // file name (1: die after the last step)
      auto f = str(is), n = str(is);
      gate::load(f, n, num(is) == 1);
    } else if (op == "jitter") {
      gate::jitter = num(is);
      gate::on     = true;
    } else if (op == "gone") { // wait until processes that wrote their ids are gone
      for (int n = num(is); n > 0; --n) {
        auto f = str(is);
        for (int max = 20000; max > 0; --max) {
          std::ifstream i(f);
          int           pid = 0;
          if (i >> pid && kill(pid, 0) != 0)
            break;
          std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
      }
    } else if (op == "quit") {
      _exit(0);
    } else if (op == "touch") {
      std::ofstream f(str(is));
      f << "x";
    } else if (op == "waitfor") { // wait until a file exists
      auto f   = str(is);
      int  max = num(is);
      while (access(f.c_str(), F_OK) != 0 && max-- > 0)
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
      put(access(f.c_str(), F_OK) == 0 ? 1 : 0);
    } else if (op == "del") {
      _api.reset();
    } else if (op == "init") {
      api().initialize();
    } else if (op == "adv") {
      api().advance(dbl(is));
    } else if (op == "advmax") {
      double dt = api().getMaxTimeStepSize();
      put(dt);
      api().advance(dt);
    } else if (op == "loop") {
      auto r = drive::loop(api(), is);
      put(r.capped ? 1 : 0);
      putAll(std::vector<int>{r.calls, r.rejected});
      putAll(std::vector<double>{r.time, r.sum, r.last});
      if (r.capped)
        _exit(77);
    } else if (op == "fin") {
      api().finalize();
    } else if (op == "on") {
      put(api().isCouplingOngoing());
    } else if (op == "cp") {
      put(api().isTimeWindowComplete());
    } else if (op == "dt") {
      put(api().getMaxTimeStepSize());
    } else if (op == "ri") {
      put(api().requiresInitialData());
    } else if (op == "rc") {
      put(api().requiresReadingCheckpoint());
    } else if (op == "wc") {
      put(api().requiresWritingCheckpoint());
    } else if (op == "mdim") {
      put(api().getMeshDimensions(str(is)));
    } else if (op == "ddim") {
      auto m = str(is), d = str(is);
      put(api().getDataDimensions(m, d));
    } else if (op == "msz") {
      put(api().getMeshVertexSize(str(is)));
    } else if (op == "rconn") {
      put(api().requiresMeshConnectivityFor(str(is)));
    } else if (op == "rgrad") {
      auto m = str(is), d = str(is);
      put(api().requiresGradientDataFor(m, d));
    } else if (op == "rst") {
      api().resetMesh(str(is));
    } else if (op == "mv") { // mesh coords... nids
      auto             m = str(is);
      auto             c = dbls(is);
      std::vector<int> ids(num(is), -7);
      api().setMeshVertices(m, c, ids);
      putAll(ids);
    } else if (op == "mv1") {
      auto m = str(is);
      auto c = dbls(is);
      put(api().setMeshVertex(m, c));
    } else if (op == "edge") {
      auto m = str(is);
      int  a = num(is), b = num(is);
      api().setMeshEdge(m, a, b);
    } else if (op == "tri") {
      auto m = str(is);
      int  a = num(is), b = num(is), c = num(is);
      api().setMeshTriangle(m, a, b, c);
    } else if (op == "quad") {
      auto m = str(is);
      int  a = num(is), b = num(is), c = num(is), d = num(is);
      api().setMeshQuad(m, a, b, c, d);
    } else if (op == "tet") {
      auto m = str(is);
      int  a = num(is), b = num(is), c = num(is), d = num(is);
      api().setMeshTetrahedron(m, a, b, c, d);
    } else if (op == "edges") {
      auto m = str(is);
      api().setMeshEdges(m, ints(is));
    } else if (op == "tris") {
      auto m = str(is);
      api().setMeshTriangles(m, ints(is));
    } else if (op == "quads") {
      auto m = str(is);
      api().setMeshQuads(m, ints(is));
    } else if (op == "tets") {
      auto m = str(is);
      api().setMeshTetrahedra(m, ints(is));
    } else if (op == "wd") {
      auto m = str(is), d = str(is);
      auto ids = ints(is);
      auto v   = dbls(is);
      api().writeData(m, d, ids, v);
    } else if (op == "rd") { // mesh data ids t nvals
      auto                m = str(is), d = str(is);
      auto                ids = ints(is);
      double              t   = dbl(is);
      std::vector<double> v(num(is), -777.0);
      api().readData(m, d, ids, t, v);
      putAll(v);
    } else if (op == "wg") {
      auto m = str(is), d = str(is);
      auto ids = ints(is);
      auto v   = dbls(is);
      api().writeGradientData(m, d, ids, v);
    } else if (op == "wm") {
      auto m = str(is), d = str(is);
      auto c = dbls(is);
      auto v = dbls(is);
      api().writeAndMapData(m, d, c, v);
    } else if (op == "rm") {
      auto                m = str(is), d = str(is);
      auto                c = dbls(is);
      double              t = dbl(is);
      std::vector<double> v(num(is), -777.0);
      api().mapAndReadData(m, d, c, t, v);
      putAll(v);
    } else if (op == "reg") {
      auto m = str(is);
      api().setMeshAccessRegion(m, dbls(is));
    } else if (op == "gid") { // explicit sizes
      auto                m = str(is);
      std::vector<int>    ids(num(is), -7);
      std::vector<double> c(num(is), -777.0);
      api().getMeshVertexIDsAndCoordinates(m, ids, c);
      putAll(ids);
      putAll(c);
    } else if (op == "acc") { // all accessible vertices: n ids... coords...
      auto                m = str(is);
      int                 n = api().getMeshVertexSize(m), dim = api().getMeshDimensions(m);
      std::vector<int>    ids(n, -7);
      std::vector<double> c(n * dim, -777.0);
      api().getMeshVertexIDsAndCoordinates(m, ids, c);
      _accIds[m]    = ids;
      _accCoords[m] = c;
      put(n);
      putAll(ids);
      putAll(c);
    } else if (op == "wacc") { // mesh data c0 cx cy cz : affine values on the accessible vertices
      auto                m = str(is), d = str(is);
      double              k[4]{dbl(is), dbl(is), dbl(is), dbl(is)};
      auto               &ids = _accIds[m];
      auto               &c   = _accCoords[m];
      int                 dim = api().getMeshDimensions(m), dd = api().getDataDimensions(m, d);
      std::vector<double> v;
      for (size_t i = 0; i < ids.size(); ++i) {
        double x = k[0];
        for (int j = 0; j < dim; ++j)
          x += k[1 + j] * c[i * dim + j];
        for (int j = 0; j < dd; ++j)
          v.push_back(x * (j + 1));
      }
      api().writeData(m, d, ids, v);
    } else if (op == "racc") { // mesh data t : values on the accessible vertices
      auto                m = str(is), d = str(is);
      double              t   = dbl(is);
      auto               &ids = _accIds[m];
      int                 dd  = api().getDataDimensions(m, d);
      std::vector<double> v(ids.size() * dd, -777.0);
      api().readData(m, d, ids, t, v);
      putAll(v);
    } else if (op == "wdx") { // mesh data coords vals : on the accessible vertices at these coordinates
      auto m = str(is), d = str(is);
      auto ids = idsAt(m, dbls(is));
      auto v   = dbls(is);
      api().writeData(m, d, ids, v);
    } else if (op == "rdx") { // mesh data coords t nvals
      auto                m = str(is), d = str(is);
      auto                ids = idsAt(m, dbls(is));
      double              t   = dbl(is);
      std::vector<double> v(num(is), -777.0);
      api().readData(m, d, ids, t, v);
      putAll(v);
    } else if (op == "alarm") {
      alarm(num(is));
    } else if (op == "sp") {
      api().startProfilingSection(str(is));
    } else if (op == "ep") {
      api().stopLastProfilingSection();
    } else {
      throw std::runtime_error("unknown op " + op);
    }
  }
};

int child(const Scenario &s, const Proc &p)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (chdir(s.dir.c_str()) != 0)
    return 92;
  int fd = open(p.log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
  }
  if (p.delay > 0)
    std::this_thread::sleep_for(std::chrono::milliseconds(p.delay));
  int rc = Script(p).run();
  fflush(nullptr);
  return rc;
}

} // namespace

int main(int argc, char **argv)
{
  if (argc < 3)
    return 2;
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGPIPE, SIG_IGN);
  std::ifstream         in(argv[1]);
  int                   jobs = std::atoi(argv[2]);
  std::vector<Scenario> all;
  std::string           line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string        k;
    is >> k;
    if (k == "S") {
      Scenario s;
      int      n;
      is >> s.dir >> s.timeout >> n;
      all.push_back(s);
    } else if (k == "P") {
      Proc p;
      is >> p.part >> p.rank >> p.size >> p.script >> p.out >> p.log >> p.backend >> p.delay;
      all.back().procs.push_back(p);
    }
  }
  size_t                     next = 0, finished = 0;
  std::vector<size_t>        active;
  std::map<pid_t, std::pair<size_t, size_t>> pids;
  int                        running = 0; // processes
  int                        expired = 0; // scenarios that ran out of time
  const int                  patience = argc > 3 ? std::atoi(argv[3]) : 1 << 30;
  auto report = [&](size_t i) {
    auto  &s = all[i];
    double e = std::chrono::duration<double>(Clock::now() - s.start).count();
    printf("R %zu %.3f", i, e);
    for (auto &p : s.procs)
      printf(" %s", p.status.c_str());
    printf("\n");
    fflush(stdout);
  };
  while (finished < all.size()) {
    while (next < all.size() && (active.empty() || running + static_cast<int>(all[next].procs.size()) <= jobs)) {
      auto &s = all[next];
      s.start = Clock::now();
      fflush(stdout);
      if (expired >= patience) {
        for (auto &p : s.procs)
          p.status = "skipped";
        report(next++);
        ++finished;
        continue;
      }
      for (size_t k = 0; k < s.procs.size(); ++k) {
        pid_t pid = fork();
        if (pid == 0) {
          int rc = 93;
          rc     = child(s, s.procs[k]);
          fflush(nullptr);
          _exit(rc);
        }
        s.procs[k].pid = pid;
        pids[pid]      = {next, k};
        ++running;
      }
      active.push_back(next);
      ++next;
    }
    int   st;
    pid_t pid;
    bool  any = false;
    while ((pid = waitpid(-1, &st, WNOHANG)) > 0) {
      any     = true;
      auto it = pids.find(pid);
      if (it == pids.end())
        continue;
      auto [i, k] = it->second;
      pids.erase(it);
      auto &p = all[i].procs[k];
      p.done  = true;
      --running;
      if (p.status.empty())
        p.status = WIFEXITED(st) ? "exit:" + std::to_string(WEXITSTATUS(st)) : "sig:" + std::to_string(WTERMSIG(st));
    }
    auto now = Clock::now();
    for (size_t a = 0; a < active.size();) {
      auto &s    = all[active[a]];
      bool  done = std::all_of(s.procs.begin(), s.procs.end(), [](auto &p) { return p.done; });
      if (done) {
        report(active[a]);
        ++finished;
        active.erase(active.begin() + a);
        continue;
      }
      if (std::chrono::duration<double>(now - s.start).count() > s.timeout) {
        bool first = true;
        for (auto &p : s.procs)
          if (!p.done && p.status.empty()) {
            p.status = "timeout";
            kill(p.pid, SIGKILL);
            expired += first;
            first = false;
          }
      }
      ++a;
    }
    if (!any)
      std::this_thread::sleep_for(std::chrono::microseconds(500));
  }
  return 0;
}
