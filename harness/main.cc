// drv SUBSYSTEM SCENARIOS.ndjson TRACE.ndjson [WORKERS]
// Runs every scenario in a child process of its own, so that a crash or an
// endless loop in the code under test ends that scenario only (a scenario may
// name another to be run in its process before it, or in turns with it: a step
// of the one, a step of the other), and writes one line per scenario: {"sid":..,"ev":[..],"end":"ok"|"signal N"|"timeout"|"exit N"}.
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <poll.h>
#include <unistd.h>
#include <condition_variable>
#include <fstream>
#include <iostream>
#include <mutex>
#include <thread>
#include <typeinfo>

#include "drv.hh"
#include "errors.hh"

using js::Value;

namespace vh {

static bool mpi_is_up = false;
void mpi_up() {
  if (mpi_is_up) return;
  int flag = 0;
  MPI_Initialized(&flag);
  if (!flag) MPI_Init(nullptr, nullptr);
  mpi_is_up = true;
}

std::string guarded(std::function<void()> const& f) {
  try { f(); }
  catch (Errors::Message& e) { return std::string("Jali: ") + e.what(); }
  catch (Exceptions::Jali_exception&) { return "Jali exception"; }
  catch (std::exception& e) { return std::string("std: ") + e.what(); }
  catch (...) { return "unknown"; }
  return "";
}

}  // namespace vh

static vh::Handler handler(std::string const& s) {
  if (s == "mesh") return vh::run_mesh;
  if (s == "sets") return vh::run_sets;
  if (s == "geom") return vh::run_geom;
  if (s == "region") return vh::run_region;
  if (s == "state") return vh::run_state;
  if (s == "part") return vh::run_part;
  if (s == "factory") return vh::run_factory;
  if (s == "error") return vh::run_error;
  std::cerr << "unknown subsystem " << s << "\n";
  exit(2);
}

// The driver is built with AddressSanitizer: an access outside an object, or
// after its end, ends the run of the scenario, which the specification rejects.
extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:max_allocation_size_mb=3000"; }

static long resident_mb(pid_t pid) {
  std::ifstream f("/proc/" + std::to_string(pid) + "/statm");
  long total = 0, res = 0;
  f >> total >> res;
  return res / 256;
}

// Two scenarios that take turns, a step at a time; only one ever runs.
struct Turns {
  std::mutex m; std::condition_variable cv; int whose = 0; bool over = false;
  void pass(int from) {      // waits until it is from's turn again
    std::unique_lock<std::mutex> l(m);
    if (over) return;
    whose = 1 - from; cv.notify_all();
    cv.wait(l, [&]() { return over || whose == from; });
  }
  void wait(int me) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&]() { return whose == me; }); }
  void leave() { std::unique_lock<std::mutex> l(m); over = true; cv.notify_all(); }
};

static std::string one(vh::Handler h, Value const& sc, int limit, bool verbose) {
  int fd[2];
  if (pipe(fd)) { perror("pipe"); exit(2); }
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    close(fd[0]);
    if (!verbose) {
      int n = open("/dev/null", O_RDWR);
      dup2(n, 1); dup2(n, 2);
    }
    struct itimerval used = {{0, 0}, {limit, 0}};      // of processor time; the clock is allowed more, as the machine may be busy
    setitimer(ITIMER_PROF, &used, nullptr);
    alarm(4 * limit);
    vh::Emit emit;
    emit.out = [&](Value const& v) {
      std::string s = v.dump() + "\n";
      const char *p = s.data(); size_t left = s.size();
      while (left) { ssize_t w = write(fd[1], p, left); if (w <= 0) _exit(3); p += w; left -= w; }
    };
    static Turns turns;
    if (sc.has("before") && sc.yes("turns", false)) {
      vh::mpi_up();
      std::function<void(Value const&)> out = emit.out;
      emit.out = [out](Value const& v) { out(v); turns.pass(0); };
      std::thread([&sc, h]() {
        turns.wait(1);
        vh::Emit other; other.out = [](Value const&) { turns.pass(1); };
        vh::guarded([&]() { h(sc["before"], other); });
        turns.leave();
      }).detach();
    } else if (sc.has("before")) { vh::Emit mute; mute.out = [](Value const&) {}; vh::guarded([&]() { h(sc["before"], mute); }); }
    std::string exc = vh::guarded([&]() { h(sc, emit); });
    if (exc.size()) { Value v = Value::object(); v.set("op", "uncaught"); v.set("what", exc); emit(v); }
    _exit(0);
  }
  close(fd[1]);
  std::string buf; char tmp[65536]; ssize_t r;
  for (;;) {
    struct pollfd p = {fd[0], POLLIN, 0};
    if (poll(&p, 1, 100) == 0) { if (resident_mb(pid) > 3000) kill(pid, SIGKILL); continue; }
    if ((r = read(fd[0], tmp, sizeof tmp)) <= 0) break;
    buf.append(tmp, r);
  }
  close(fd[0]);
  int st; waitpid(pid, &st, 0);
  std::string end = "ok";
  if (WIFSIGNALED(st)) end = WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF ? "timeout" : "signal " + std::to_string(WTERMSIG(st));
  else if (WEXITSTATUS(st)) end = "exit " + std::to_string(WEXITSTATUS(st));
  std::string line = "{\"sid\":" + std::to_string(sc["sid"].num()) + ",\"ev\":[";
  size_t pos = 0; bool first = true;
  while (pos < buf.size()) {
    size_t nl = buf.find('\n', pos);
    if (nl == std::string::npos) break;      // incomplete last event
    if (!first) line += ",";
    first = false;
    line.append(buf, pos, nl - pos);
    pos = nl + 1;
  }
  return line + "],\"end\":\"" + end + "\"}\n";
}

int main(int argc, char **argv) {
  if (argc < 4) { std::cerr << "usage: drv SUBSYSTEM SCENARIOS TRACE [WORKERS]\n"; return 2; }
  std::string sub = argv[1];
  vh::Handler h = handler(sub);
  int nw = argc > 4 ? atoi(argv[4]) : 1;
  bool verbose = getenv("DRV_VERBOSE") != nullptr;
  int limit = getenv("DRV_LIMIT") ? atoi(getenv("DRV_LIMIT")) : 20;
  std::vector<std::string> lines;
  {
    std::ifstream in(argv[2]);
    std::string l;
    while (std::getline(in, l)) if (l.size()) lines.push_back(l);
  }
  std::vector<pid_t> w;
  std::string out = argv[3];
  for (int k = 0; k < nw; k++) {
    pid_t p = fork();
    if (p == 0) {
      std::ofstream o(out + "." + std::to_string(k));
      int slow = 0;      // a hang is reported by a few scenarios as well as by all
      for (size_t i = k; i < lines.size(); i += nw) {
        Value sc = js::parse(lines[i]);
        std::string l = slow < 3 ? one(h, sc, limit, verbose) : "{\"sid\":" + std::to_string(sc["sid"].num()) + ",\"ev\":[],\"end\":\"skipped\"}\n";
        if (l.find("\"end\":\"timeout\"}") != std::string::npos) slow++;
        o << i << " " << l;
      }
      o.close();
      _exit(o.good() ? 0 : 4);
    }
    w.push_back(p);
  }
  int bad = 0;
  for (pid_t p : w) { int st; waitpid(p, &st, 0); if (st) bad = 1; }
  std::vector<std::string> res(lines.size());
  for (int k = 0; k < nw; k++) {
    std::string fn = out + "." + std::to_string(k);
    std::ifstream i(fn);
    std::string l;
    while (std::getline(i, l)) { size_t sp = l.find(' '); res[atoi(l.c_str())] = l.substr(sp + 1); }
    i.close();
    unlink(fn.c_str());
  }
  std::ofstream o(out);
  for (auto const& l : res) o << l << "\n";
  o.close();
  if (bad || !o.good()) { std::cerr << "driver failed\n"; return 2; }
  return 0;
}
