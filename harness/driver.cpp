// Drives the real DynamicTrajectory through a script under the virtual scheduler and records
// what a user of the class can observe, one JSON object per line.
//
// usage: driver BATCHFILE OUTFILE
//   BATCHFILE: runs separated by lines "RUN <id>"; each following line is a command (see README).
//   Every run is executed in a forked child.
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include <glog/logging.h>

#include "dynamic_trajectory.hpp"
#include "vsched.h"

using dynamic_traj_generator::DynamicTrajectory;
using dynamic_traj_generator::DynamicWaypoint;
using dynamic_traj_generator::References;
typedef std::vector<std::string> Toks;

static int outFd = -1;
static long seqNo = 0;
static long nEmitted = 0;

static void emit(const std::string &s) {
  nEmitted++;
  std::string l = s + "\n";
  size_t o = 0;
  while (o < l.size()) {
    ssize_t k = write(outFd, l.data() + o, l.size() - o);
    if (k <= 0) _exit(98);
    o += k;
  }
}
static std::string fmt(const char *f, ...) {
  char b[512];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
static const long BIG = 2000000000L;
static long scaled(double v, double k) {
  double x = v * k;
  if (!(x == x)) return BIG + 7;
  if (x > (double)BIG) return BIG;
  if (x < -(double)BIG) return -BIG;
  return lround(x);
}
static long T(double t) { return scaled(t, 1e6); }    // time: microseconds
static long P(double p) { long v = scaled(p, 1e5); return v > 1000000000L && v != BIG + 7 ? 1000000000L : v < -1000000000L ? -1000000000L : v; }    // lengths and derivatives: 10 micrometres
static std::string vec(const Eigen::Vector3d &v) {
  return fmt("[%ld,%ld,%ld]", P(v[0]), P(v[1]), P(v[2]));
}
static std::string q(const std::string &s) { return "\"" + s + "\""; }
static std::string nm(const std::string &t) { return t == "-" ? "" : t; }

static DynamicTrajectory *dt = nullptr;
static std::map<std::string, std::vector<Toks>> clientScripts;
static std::map<int, std::string> lastCall;

static std::map<std::string, Eigen::Vector3d> velocityOf;   // CON: the velocity asked for at the waypoints of this name
static DynamicWaypoint mkWp(const std::string &name, double x, double y, double z) {
  mav_trajectory_generation::Vertex v(3);
  v.addConstraint(mav_trajectory_generation::derivative_order::POSITION, Eigen::Vector3d(x, y, z));
  auto it = velocityOf.find(name);
  if (it != velocityOf.end() && name.size() % 2 == 0)
    v.addConstraint(mav_trajectory_generation::derivative_order::VELOCITY, it->second);
  DynamicWaypoint w(v, nm(name));
  if (it != velocityOf.end() && name.size() % 2 == 1) w.setConstraint(1, it->second);
  return w;
}
template <class C> static std::string wpsJson(const C &c) {
  std::string s = "[";
  bool first = true;
  for (const auto &w : c) {
    if (!first) s += ",";
    first = false;
    s += "{\"n\":" + q(w.getName()) + ",\"p\":" + vec(w.getCurrentPosition()) + fmt(",\"t\":%ld}", T(w.getTime()));
  }
  return s + "]";
}

static double argd(const Toks &t, size_t i) { return i < t.size() ? atof(t[i].c_str()) : 0; }
static thread_local int clientId = 0;
static thread_local double evalClock = 0;   // the client's evaluation time

struct Op {   // emits call on construction and ret on destruction
  std::string name;
  std::string res;
  double t0;
  Op(const std::string &n, const std::string &args) : name(n) {
    t0 = vs::now();
    emit(fmt("{\"k\":\"call\",\"c\":%d,\"op\":\"%s\"", clientId, n.c_str()) + (args.empty() ? "" : "," + args) +
         fmt(",\"vt\":%ld}", T(t0)));
  }
  void ret(const std::string &r = "") {
    double t1 = vs::now();
    emit(fmt("{\"k\":\"ret\",\"c\":%d,\"op\":\"%s\"", clientId, name.c_str()) + (r.empty() ? "" : "," + r) +
         fmt(",\"dur\":%ld,\"vt\":%ld}", T(t1 - t0), T(t1)));
  }
};

static void doEval(double t, bool plot, bool only) {
  float ft = (float)t;
  Op op("eval", fmt("\"t\":%ld,\"plot\":%s,\"only\":%s", T(ft), plot ? "true" : "false", only ? "true" : "false"));
  References r;
  r.position = r.velocity = r.acceleration = Eigen::Vector3d(-1, -1, -1);
  bool ok = dt->evaluateTrajectory(ft, r, only, plot);
  op.ret(fmt("\"t\":%ld,\"plot\":%s,\"only\":%s,\"ok\":%s,\"p\":", T(ft), plot ? "true" : "false",
             only ? "true" : "false", ok ? "true" : "false") + vec(r.position) + ",\"v\":" +
         (only ? "[0,0,0]" : vec(r.velocity)) + ",\"a\":" + (only ? "[0,0,0]" : vec(r.acceleration)));
}
static void doFlags() {
  {
    Op op("gen", "");
    bool v = dt->getGenerateNewTraj();
    op.ret(fmt("\"v\":%s", v ? "true" : "false"));
  }
  {
    Op op("comp", "");
    bool v = dt->getComputingNewTrajectoryStatus();
    op.ret(fmt("\"v\":%s", v ? "true" : "false"));
  }
}
static DynamicWaypoint::Deque doPlan() {
  Op op("plan", "");
  auto w = dt->getDynamicWaypoints();
  op.ret("\"wps\":" + wpsJson(w));
  return w;
}
static void doNext() {
  Op op("next", "");
  auto w = dt->getNextTrajectoryWaypoints();
  op.ret("\"wps\":" + wpsJson(w));
}
static void doBase() {
  {
    Op op("min", "");
    double a = dt->getMinTime();
    op.ret(fmt("\"v\":%ld", T(a)));
  }
  {
    Op op("max", "");
    double a = dt->getMaxTime();
    op.ret(fmt("\"v\":%ld", T(a)));
  }
}
static void doOff() {
  Op op("off", "");
  double a = dt->getTimeCompensation();
  op.ret(fmt("\"v\":%ld", T(a)));
}
static void doGetSpeed() {
  Op op("getspeed", "");
  double a = dt->getSpeed();
  op.ret(fmt("\"v\":%ld", P(a)));
}
static void doRegen() {
  Op op("regen", "");
  bool v = dt->getWasTrajectoryRegenerated();
  op.ret(fmt("\"v\":%s", v ? "true" : "false"));
}
static void doRem() {
  Op op("rem", "");
  int v = dt->getRemainingWaypoints();
  op.ret(fmt("\"v\":%d", v));
}
static bool trajSeen = false;  // some blocking call has returned: a trajectory exists

// everything a user can see, without preemption
static void observe() {
  vs::atomicBegin();
  doFlags();
  doOff();
  doGetSpeed();
  if (trajSeen) {
    doBase();
    doNext();
    if (!dt->getComputingNewTrajectoryStatus()) doPlan();
  }
  vs::atomicEnd();
}
// positions at every waypoint of the plan, and around the borders of the trajectory
static void probe() {
  if (!trajSeen) return;
  vs::atomicBegin();
  if (!dt->getComputingNewTrajectoryStatus()) {
    auto w = doPlan();
    double off = dt->getTimeCompensation();
    double mx = dt->getMaxTime(), mn = dt->getMinTime();
    doOff(); doBase();
    for (auto &x : w) {
      doEval(x.getTime() - off - 2e-4, true, false);
      doEval(x.getTime() - off, true, false);
      doEval(x.getTime() - off, true, true);
      doEval(x.getTime() - off + 2e-4, true, false);
    }
    doEval(mn - off - 0.7, true, false);
    doEval(mn - off, true, false);
    doEval(mx - off, true, false);
    doEval(mx - off + 0.9, true, false);
    doEval(mx - off + 300, true, false);
    doEval(-5, true, false);
  }
  vs::atomicEnd();
}
// dense samples
static void samples(double from, double step, int n, bool relative) {
  vs::atomicBegin();
  if (trajSeen && !dt->getComputingNewTrajectoryStatus()) {
    double off = dt->getTimeCompensation();
    double t = relative ? dt->getMinTime() - off + from : from;
    double mx = dt->getMaxTime() - off;
    for (int i = 0; i < n; i++) {
      double x = t + i * step;
      if (relative && x > mx + 3 * step) break;
      doEval(x, true, false);
    }
  }
  vs::atomicEnd();
}

static void runScript(const std::vector<Toks> &s);

static void command(const Toks &a) {
  const std::string &c = a[0];
  if (c == "NEW") {
    Op op("new", "");
    dt = new DynamicTrajectory();
    vs::fields(dt, sizeof *dt);
    trajSeen = false;
    op.ret();
  } else if (c == "DEL") {
    Op op("del", "");
    delete dt;
    dt = nullptr;
    op.ret(fmt("\"live\":%ld,\"poison\":%ld", vs::liveThreads(), vs::poisonViolations()));
  } else if (c == "SET") {
    DynamicWaypoint::Vector v;
    int n = atoi(a[1].c_str());
    for (int i = 0; i < n; i++)
      v.push_back(mkWp(a[2 + 4 * i], argd(a, 3 + 4 * i), argd(a, 4 + 4 * i), argd(a, 5 + 4 * i)));
    Op op("set", "\"wps\":" + wpsJson(v));
    dt->setWaypoints(v);
    op.ret();
  } else if (c == "CON") {            // CON name vx vy vz: before the waypoint is used
    velocityOf[a[1]] = Eigen::Vector3d(argd(a, 2), argd(a, 3), argd(a, 4));
    emit("{\"k\":\"mark\",\"c\":0,\"op\":\"con\",\"n\":" + q(a[1]) + ",\"v\":" + vec(velocityOf[a[1]]) + "}");
  } else if (c == "APP") {
    auto w = mkWp(a[1], argd(a, 2), argd(a, 3), argd(a, 4));
    DynamicWaypoint::Vector v{w};
    Op op("app", "\"wps\":" + wpsJson(v));
    dt->appendWaypoint(w);
    op.ret();
  } else if (c == "MOD") {
    Eigen::Vector3d p(argd(a, 2), argd(a, 3), argd(a, 4));
    bool g = a.size() < 6 || a[5] == "1";
    Op op("mod", "\"mods\":[{\"n\":" + q(nm(a[1])) + ",\"p\":" + vec(p) + "}],\"g\":" + (g ? "true" : "false"));
    dt->modifyWaypoint(nm(a[1]), p, g);
    op.ret();
  } else if (c == "MODS") {
    std::vector<std::pair<std::string, Eigen::Vector3d>> m;
    int n = atoi(a[1].c_str());
    std::string js = "[";
    for (int i = 0; i < n; i++) {
      Eigen::Vector3d p(argd(a, 3 + 4 * i), argd(a, 4 + 4 * i), argd(a, 5 + 4 * i));
      m.emplace_back(nm(a[2 + 4 * i]), p);
      js += (i ? "," : "") + std::string("{\"n\":") + q(nm(a[2 + 4 * i])) + ",\"p\":" + vec(p) + "}";
    }
    Op op("mods", "\"mods\":" + js + "],\"g\":true");
    dt->modifyWaypoints(m);
    op.ret();
  } else if (c == "EVAL") {           // EVAL t [plot] [only]
    if (argd(a, 2) == 0) evalClock = argd(a, 1);
    doEval(argd(a, 1), argd(a, 2) != 0, argd(a, 3) != 0);
    trajSeen = true;
  } else if (c == "STEP") {           // STEP dt [plot] [only]: advance the evaluation clock, sleep dt
    double d = argd(a, 1);
    vs::sleepFor(d);
    evalClock += d;
    doEval(evalClock, argd(a, 2) != 0, argd(a, 3) != 0);
    trajSeen = true;
  } else if (c == "POLL") {           // POLL dt n [obs every]
    double d = argd(a, 1);
    int n = (int)argd(a, 2), every = (int)argd(a, 3);
    for (int i = 0; i < n; i++) {
      vs::sleepFor(d);
      evalClock += d;
      doEval(evalClock, false, false);
      trajSeen = true;
      if (every && i % every == 0) observe();
    }
  } else if (c == "SETTLE") {         // SETTLE dt max: evaluate and wait until nothing is pending
    double d = argd(a, 1);
    int n = (int)argd(a, 2), quiet = 0;
    for (int i = 0; i < n && quiet < 4; i++) {
      vs::sleepFor(d);
      evalClock += d;
      doEval(evalClock, false, false);
      trajSeen = true;
      if (i % 4 == 0) observe();
      if (!dt->getGenerateNewTraj() && !dt->getComputingNewTrajectoryStatus()) quiet++; else quiet = 0;
    }
    vs::sleepFor(0.1);
    emit(fmt("{\"k\":\"mark\",\"c\":%d,\"op\":\"%s\"}", clientId, quiet >= 4 ? "settled" : "unsettled"));
    observe();
  } else if (c == "PLAN") { doPlan(); trajSeen = true;
  } else if (c == "NEXT") { doNext();
  } else if (c == "REM") { doRem();
  } else if (c == "FLAGS") { doFlags();
  } else if (c == "REGEN") { doRegen();
  } else if (c == "BASE") { doBase(); trajSeen = true;
  } else if (c == "OFF") { doOff();
  } else if (c == "GETSPEED") { doGetSpeed();
  } else if (c == "SPEED") {
    Op op("speed", fmt("\"v\":%ld", P(argd(a, 1))));
    dt->setSpeed(argd(a, 1));
    op.ret();
  } else if (c == "VEH") {
    Eigen::Vector3d p(argd(a, 1), argd(a, 2), argd(a, 3));
    Op op("veh", "\"p\":" + vec(p));
    dt->updateVehiclePosition(p);
    op.ret();
  } else if (c == "OBS") { observe();
  } else if (c == "PROBE") { probe();
  } else if (c == "SAMPLE") { samples(argd(a, 1), argd(a, 2), (int)argd(a, 3), false);
  } else if (c == "RSAMPLE") { samples(argd(a, 1), argd(a, 2), (int)argd(a, 3), true);
  } else if (c == "CURVE") {          // the same, announced as a description of the trajectory in use
    emit(fmt("{\"k\":\"mark\",\"c\":%d,\"op\":\"curve\"}", clientId));
    samples(argd(a, 1), argd(a, 2), (int)argd(a, 3), true);
    emit(fmt("{\"k\":\"mark\",\"c\":%d,\"op\":\"curveend\"}", clientId));
  } else if (c == "EVALWP") {         // EVALWP index delta [real]: at the time of a waypoint of the plan
    auto w = doPlan();
    trajSeen = true;
    size_t i = (size_t)argd(a, 1);
    bool real = argd(a, 3) != 0;
    if (real)                         // a real evaluation: counted from the first one ahead
      while (i < w.size() && w[i].getTime() <= evalClock) i++;
    if (i < w.size()) {
      double t = w[i].getTime() + argd(a, 2) - (real ? 0 : dt->getTimeCompensation());
      if (real) { if (t < evalClock) t = evalClock; evalClock = t; }
      doEval(t, !real, false);
    }
  } else if (c == "EVALBASE") {       // EVALBASE delta: for plotting, delta after the start of the trajectory
    doEval(dt->getMinTime() - dt->getTimeCompensation() + argd(a, 1), false, true);
    trajSeen = true;
  } else if (c == "EVALEND") {        // EVALEND delta: a real evaluation, delta after the end of the trajectory
    double t = dt->getMaxTime() - dt->getTimeCompensation() + argd(a, 1);
    evalClock = t;
    doEval(t, false, false);
    trajSeen = true;
  } else if (c == "SLEEP") { vs::sleepFor(argd(a, 1));
  } else if (c == "RUNW") { vs::runRole(vs::WORKER, atol(a[1].c_str()));
  } else if (c == "RUNC") { vs::runRole(vs::COMPUTE, atol(a[1].c_str()));
  } else if (c == "PRE") {            // PRE point role(W|C) n [S]: inside the next operation; S: only points after stores to atomics count
    vs::preemptAt(atol(a[1].c_str()), a[2] == "C" ? vs::COMPUTE : vs::WORKER, atol(a[3].c_str()), a.size() > 4);
  } else if (c == "NOPRE") { vs::preemptOff();
  } else if (c == "POL") { vs::setPolicy((vs::Policy)atoi(a[1].c_str()), argd(a, 2));
  } else if (c == "COST") {
    vs::setComputeCost(argd(a, 1), argd(a, 2));
    emit(fmt("{\"k\":\"mark\",\"c\":%d,\"op\":\"cost\",\"v\":%ld}", clientId, T(argd(a, 1))));
  } else if (c == "CLOCK") { evalClock = argd(a, 1);
  } else if (c == "SPAWN") {
    std::string id = a[1];
    int num = atoi(a[1].c_str());
    double ec = evalClock;
    vs::spawn([id, num, ec] { clientId = num; evalClock = ec; runScript(clientScripts[id]); });
  } else if (c == "JOIN") { vs::joinClients();
  } else {
    fprintf(stderr, "unknown command %s\n", c.c_str());
    _exit(96);
  }
}
static void runScript(const std::vector<Toks> &s) {
  for (auto &a : s) command(a);
}

static void die(const char *what, const char *detail) {
  emit(fmt("{\"k\":\"fail\",\"c\":0,\"op\":\"%s\",\"why\":\"%.200s\"}", what, detail));
}
static void onSignal(int s) {
  char b[160];
  int n = snprintf(b, sizeof b, "{\"k\":\"fail\",\"c\":0,\"op\":\"crash\",\"why\":\"signal %d\"}\n", s);
  if (write(outFd, b, n)) {}
  _exit(95);
}

static void child(const std::string &id, const std::vector<Toks> &lines, int fd) {
  outFd = fd;
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  static char alt[65536];
  stack_t ss = {};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
  alarm(120);
  vs::Config cfg;
  bool quick = false;   // the clock is not advanced by preemptions: durations of calls are meaningful
  std::vector<Toks> main;
  std::vector<Toks> *cur = &main;
  for (auto &t : lines) {
    if (t[0] == "CFG") {  // CFG key value ...
      for (size_t i = 1; i + 1 < t.size(); i += 2) {
        const std::string &k = t[i];
        double v = atof(t[i + 1].c_str());
        if (k == "seed") cfg.seed = (uint64_t)atoll(t[i + 1].c_str());
        else if (k == "policy") cfg.policy = (vs::Policy)(int)v;
        else if (k == "preempt") cfg.preempt = v;
        else if (k == "sleeper") cfg.sleeper = v;
        else if (k == "depth") cfg.pct_depth = (int)v;
        else if (k == "len") cfg.pct_len = (int)v;
        else if (k == "cost") cfg.compute_cost = v;
        else if (k == "jitter") cfg.compute_jitter = v;
        else if (k == "mid") cfg.compute_mid = v;
        else if (k == "maxtime") cfg.max_time = v;
        else if (k == "mempre") cfg.mempre = v;
        else if (k == "memburst") cfg.memburst = v;
        else if (k == "memmax") cfg.memmax = (int)v;
        else if (k == "races") cfg.races = v != 0;
        else if (k == "quick") quick = v != 0;
      }
    } else if (t[0] == "CLIENT") { cur = &clientScripts[t[1]];
    } else if (t[0] == "ENDCLIENT") { cur = &main;
    } else cur->push_back(t);
  }
  vs::onStuck = [](const char *w) {
    std::string s = std::string(w) + " " + vs::whereAll();
    die("stuck", s.c_str());
  };
  emit("{\"k\":\"run\",\"c\":0,\"op\":\"" + id + "\"," + fmt("\"cost\":%ld,\"hint\":true,\"quick\":%s}", T(cfg.compute_cost), quick ? "true" : "false"));
  vs::onThread = [](const char *w, long tid) {
    static long last = -1, twice = -1;
    bool often = !strcmp(w, "wake") || !strcmp(w, "cp");
    if (often && last == nEmitted && (w[0] == 'c' || twice == nEmitted)) return;   // nothing happened since the last one
    bool again = often && last == nEmitted;
    emit(fmt("{\"k\":\"thr\",\"c\":%ld,\"op\":\"%s\",\"n\":%ld,\"vt\":%ld}", tid, w, vs::points(), T(vs::now())));
    if (often) last = nEmitted;
    if (again) twice = nEmitted;
  };
  vs::start(cfg);
  try {
    runScript(main);
  } catch (const std::exception &e) {
    std::string w = e.what();
    for (auto &ch : w) if (ch == '"' || ch == '\\' || ch < 32) ch = ' ';
    die("exception", w.c_str());
    _exit(94);
  }
  emit("{\"k\":\"mark\",\"c\":0,\"op\":\"end\"}");
  _exit(0);
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  google::InitGoogleLogging(argv[0]);
  FLAGS_logtostderr = 0;
  FLAGS_minloglevel = 3;
  std::ifstream f(argv[1]);
  int out = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  if (out < 0) return 2;
  int devnull = open("/dev/null", O_WRONLY);
  if (argc < 4) { dup2(devnull, 1); dup2(devnull, 2); }
  std::string line, id;
  std::vector<std::pair<std::string, std::vector<Toks>>> runs;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    Toks t;
    std::string w;
    while (is >> w) t.push_back(w);
    if (t.empty() || t[0][0] == '#') continue;
    if (t[0] == "RUN") runs.push_back({t[1], {}});
    else if (!runs.empty()) runs.back().second.push_back(t);
  }
  for (auto &r : runs) {
    pid_t p = fork();
    if (p == 0) child(r.first, r.second, out);
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    if (WIFSIGNALED(st)) {
      outFd = out;
      emit(fmt("{\"k\":\"fail\",\"c\":0,\"op\":\"crash\",\"why\":\"killed %d\"}", WTERMSIG(st)));
    }
  }
  return 0;
}
