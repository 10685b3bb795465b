// Executes scripts of library operations (one JSON object per line) on the real mav_trajectory_generation
// library and writes every operation with what it returned, encoded as integers in the units of the
// specification (spec/TrajLib.tla): times in quarters of a second, coefficients per unit with denominator 2^f.
// The driver holds no expectation: it only converts.  Every section ("start" to the next "start") runs in a
// child process; a death of the child is recorded as a "crash" line.
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <dlfcn.h>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <yaml-cpp/yaml.h>
#include <glog/logging.h>
#include "mav_trajectory_generation/io.h"
#include "mav_trajectory_generation/polynomial.h"
#include "mav_trajectory_generation/polynomial_optimization_linear.h"
#include "mav_trajectory_generation/polynomial_optimization_nonlinear.h"
#include "mav_trajectory_generation/segment.h"
#include "mav_trajectory_generation/timing.h"
#include "mav_trajectory_generation/trajectory.h"
#include "mav_trajectory_generation/trajectory_sampling.h"
#include "mav_trajectory_generation/vertex.h"
#include "dynamic_waypoint.hpp"

using namespace mav_trajectory_generation;
typedef YAML::Node Y;
typedef long long ll;

// virtual wall clock for the timers, in microseconds
static bool g_virtual = false;
static ll g_now = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
  static int (*real)(clockid_t, struct timespec *) = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
  if (!g_virtual) return real(id, ts);
  ts->tv_sec = g_now / 1000000; ts->tv_nsec = (g_now % 1000000) * 1000; return 0;
}

static const ll BAD = 2000000001;
static double DEN = 1;          // 2^f
static double Q = 4;            // units per second
static double qpow(int n) { return std::pow(Q, n); }

// integers
static ll enc(double x) {       // must be an integer in the units of the specification
  if (!std::isfinite(x) || std::fabs(x) > 2e9) return BAD;
  double r = std::floor(x + 0.5);
  if (std::fabs(x - r) > std::min(0.25, 1e-6 * std::max(1.0, std::fabs(x)))) return BAD;
  return (ll)r;
}
static ll rnd(double x) { if (!std::isfinite(x) || std::fabs(x) > 2e9) return BAD; return (ll)std::floor(x + 0.5); }

struct J {                       // JSON writer
  std::string s;
  J &raw(const std::string &t) { s += t; return *this; }
};
static std::string num(ll x) { return std::to_string(x); }
static std::string bl(bool b) { return b ? "true" : "false"; }
template <class V, class F> static std::string arr(const V &v, F f) {
  std::string s = "["; bool first = true;
  for (auto &x : v) { if (!first) s += ","; first = false; s += f(x); }
  return s + "]";
}
static std::string ints(const std::vector<ll> &v) { return arr(v, [](ll x) { return num(x); }); }
static std::vector<ll> encv(const Eigen::VectorXd &v, double scale = 1) { std::vector<ll> r; for (int i = 0; i < v.size(); i++) r.push_back(enc(v[i] * scale)); return r; }

static std::vector<int> iv(const Y &n) { std::vector<int> r; for (auto x : n) r.push_back(x.as<int>()); return r; }
static Eigen::VectorXd vec(const Y &n, double scale = 1) { Eigen::VectorXd v(n.size()); for (size_t i = 0; i < n.size(); i++) v[i] = n[i].as<double>() * scale; return v; }
// polynomial coefficients from and to units
static Eigen::VectorXd coeffs(const Y &n) { Eigen::VectorXd v(n.size()); for (size_t i = 0; i < n.size(); i++) v[i] = n[i].as<double>() / DEN * qpow(i); return v; }
static std::string pdump(const Eigen::VectorXd &c) { std::vector<ll> r; for (int i = 0; i < c.size(); i++) r.push_back(enc(c[i] * DEN / qpow(i))); return ints(r); }
static double T(ll u) { return u / Q; }

static std::map<int, Trajectory> R;
static std::map<int, std::shared_ptr<Polynomial>> PR;
static std::map<int, Vertex> VR;
static std::map<int, std::shared_ptr<dynamic_traj_generator::DynamicWaypoint>> WR;   // dynamic waypoints, positions in 1/128 m
static std::map<int, std::shared_ptr<timing::Timer>> TR;
static std::map<int, mav_msgs::EigenTrajectoryPoint> SR;       // full states

static std::string sdump(const Segment &s) {
  std::string r = "{\"t\":" + num(enc(s.getTime() * Q)) + ",\"p\":[";
  for (int d = 0; d < s.D(); d++) r += (d ? "," : "") + pdump(s[d].getCoefficients());
  return r + "]}";
}
static std::string tdump(const Trajectory &t) {
  std::string r = "{\"n\":" + num(t.N()) + ",\"d\":" + num(t.D()) + ",\"mt\":" + num(enc(t.getMaxTime() * Q)) + ",\"segs\":[";
  bool f = true; for (auto &s : t.segments()) { r += (f ? "" : ",") + sdump(s); f = false; }
  r += "],\"ts\":"; std::vector<ll> ts; for (double x : t.getSegmentTimes()) ts.push_back(enc(x * Q));
  return r + ints(ts) + "}";
}
static Segment seg(const Y &n, int N, int D) {
  Segment s(N, D); s.setTime(T(n["t"].as<ll>()));
  for (int d = 0; d < D; d++) s[d] = Polynomial(coeffs(n["p"][d]));
  return s;
}
static std::string vdump(const Vertex &v, double scale = 4) {
  std::string r = "{\"d\":" + num(v.D()) + ",\"n\":" + num(v.getNumberOfConstraints()) + ",\"c\":[";
  bool f = true;
  for (auto it = v.cBegin(); it != v.cEnd(); ++it) { r += (f ? "" : ",") + std::string("[") + num(it->first) + "," + ints(encv(it->second, scale)) + "]"; f = false; }
  return r + "]}";
}
// vertices that hold derivatives of a trajectory: values in units
static std::string udump(const Vertex &v) {
  std::string r = "{\"d\":" + num(v.D()) + ",\"n\":" + num(v.getNumberOfConstraints()) + ",\"c\":[";
  bool f = true;
  for (auto it = v.cBegin(); it != v.cEnd(); ++it) { r += (f ? "" : ",") + std::string("[") + num(it->first) + "," + ints(encv(it->second, DEN / qpow(it->first))) + "]"; f = false; }
  return r + "]}";
}
// vertices of dynamic waypoints: all values in units of length
static std::string udump0(const Vertex &v) { return vdump(v, DEN); }
static std::string state(const mav_msgs::EigenTrajectoryPoint &s) {
  auto e = [&](const Eigen::Vector3d &v, int d) { return ints(encv(v, DEN / qpow(d))); };
  std::string r = "{\"x\":[" + e(s.position_W, 0) + "," + e(s.velocity_W, 1) + "," + e(s.acceleration_W, 2) + "," + e(s.jerk_W, 3) + "," + e(s.snap_W, 4) + "]";
  ll ns = s.time_from_start_ns, q = 250000000, k = (ns + q / 2) / q;
  r += ",\"u\":" + num(std::llabs(ns - k * q) <= 1 ? k : BAD);
  r += ",\"dof\":" + num(s.degrees_of_freedom == mav_msgs::MavActuation::DOF6 ? 6 : 4);
  r += ",\"yaw\":" + num(rnd(s.getYaw() * 1e5)) + ",\"yr\":" + num(enc(s.getYawRate() * DEN / Q)) + ",\"ya\":" + num(enc(s.getYawAcc() * DEN / Q / Q));
  // rotation of the body x axis and the angular velocity, for six dimensions
  Eigen::Vector3d bx = s.orientation_W_B * Eigen::Vector3d::UnitX();
  r += ",\"bx\":" + ints({rnd(bx.x() * 1e4), rnd(bx.y() * 1e4), rnd(bx.z() * 1e4)});
  r += ",\"om\":" + ints({rnd(s.angular_velocity_W.x() * DEN / Q * 100), rnd(s.angular_velocity_W.y() * DEN / Q * 100), rnd(s.angular_velocity_W.z() * DEN / Q * 100)});
  return r + "}";
}
static std::string states(const mav_msgs::EigenTrajectoryPointVector &v) {
  std::string r = "["; bool f = true; for (auto &s : v) { r += (f ? "" : ",") + state(s); f = false; } return r + "]";
}
// extrema: time in hundredths of a unit, value in hundredths
static std::string ext(const Extremum &e, const Segment *s, int d, const std::vector<int> &dims, bool signedv) {
  double at = NAN;
  if (s && std::isfinite(e.time) && std::fabs(e.time) < 1e9) {
    double m = 0; for (int k : dims) if (k >= 0 && k < s->D()) { double x = (*s)[k].evaluate(e.time, d); m += x * x; if (signedv) at = x; }
    if (!signedv) at = std::sqrt(m);
  }
  double c = DEN / qpow(d) * 100;
  return "{\"t\":" + num(rnd(e.time * Q * 100)) + ",\"v\":" + num(rnd(e.value * c)) + ",\"seg\":" + num(e.segment_idx) + ",\"at\":" + num(rnd(at * c)) + "}";
}
static std::string ext(const std::pair<double, double> &e, const Polynomial &p, int d) {
  double c = DEN / qpow(d) * 100;
  double at = std::isfinite(e.first) && std::fabs(e.first) < 1e9 ? p.evaluate(e.first, d) : NAN;
  return "{\"t\":" + num(rnd(e.first * Q * 100)) + ",\"v\":" + num(rnd(e.second * c)) + ",\"seg\":0,\"at\":" + num(rnd(at * c)) + "}";
}
static std::string scratch;

template <int N> static std::string opt(const Y &n);
static std::string optAny(const Y &n) {
  switch (n["n"].as<int>()) {
    case 4: return opt<4>(n); case 6: return opt<6>(n); case 8: return opt<8>(n); case 10: return opt<10>(n); case 12: return opt<12>(n);
  }
  return ",\"ok\":false";
}
static Vertex::Vector verts(const Y &n, int dim) {
  Vertex::Vector v;
  for (auto x : n) { Vertex w(dim); for (auto c : x) w.addConstraint(c[0].as<int>(), vec(c[1], qpow(c[0].as<int>()) / DEN)); v.push_back(w); }
  return v;
}
// what a trajectory does at the borders of its segments: derivatives from the left and from the right,
// per segment [[left derivs per dim] at its start, ... at its end], in units times 1000
static std::string borders(const Trajectory &t, int maxd) {
  std::string r = "[";
  bool f = true;
  for (auto &s : t.segments()) {
    r += (f ? "" : ",") + std::string("["); f = false;
    for (int e = 0; e < 2; e++) {
      r += e ? ",[" : "[";
      for (int d = 0; d <= maxd; d++) {
        Eigen::VectorXd x = s.evaluate(e ? s.getTime() : 0, d); std::vector<ll> o;
        for (int i = 0; i < x.size(); i++) o.push_back(rnd(x[i] * DEN / qpow(d) * 1000));
        r += (d ? "," : "") + ints(o);
      }
      r += "]";
    }
    r += "]";
  }
  return r + "]";
}
template <int N> static std::map<int, std::shared_ptr<PolynomialOptimization<N>>> &OR() { static std::map<int, std::shared_ptr<PolynomialOptimization<N>>> m; return m; }
static std::vector<double> times(const Y &n) { std::vector<double> t; for (auto x : n) t.push_back(T(x.as<ll>())); return t; }
// extrema of the magnitude over the whole solution: the answer, the value there, and what samples reach; hundredths of a unit
template <int N> static std::string optMax(const PolynomialOptimization<N> &o) {
  Segment::Vector sg; o.getSegments(&sg);
  std::string r = ",\"mx\":[";
  for (int k = 0; k <= 2; k++) {
    double c = DEN / qpow(k) * 100;
    std::vector<Extremum> cand; Extremum e = o.computeMaximumOfMagnitude(k, &cand);
    Extremum e2 = k == 0 ? o.template computeMaximumOfMagnitude<0>(nullptr) : k == 1 ? o.template computeMaximumOfMagnitude<1>(nullptr) : o.template computeMaximumOfMagnitude<2>(nullptr);
    bool in = e.segment_idx >= 0 && e.segment_idx < (int)sg.size() && e.time >= 0 && e.time <= sg[e.segment_idx].getTime() && e2.value == e.value;
    double at = in ? sg[e.segment_idx].evaluate(e.time, k).norm() : NAN, best = 0;
    for (auto &s : sg) for (int i = 0; i <= 48; i++) best = std::max(best, s.evaluate(s.getTime() * i / 48, k).norm());
    bool cok = true, has = false; int last = 0;
    for (auto &x : cand) {
      cok = cok && x.segment_idx >= last && x.segment_idx < (int)sg.size() && x.time >= 0 && x.time <= sg[x.segment_idx].getTime() && std::fabs(sg[x.segment_idx].evaluate(x.time, k).norm() - x.value) <= 1e-9 * (1 + x.value) && x.value <= e.value;
      last = x.segment_idx; has = has || x.value == e.value;
    }
    // candidates by sampling
    bool smp = true;
    for (auto &s : sg) for (double dt : {0.01, 0.07, s.getTime() / 16}) {
      std::vector<double> t;
      if (s.getTime() < 3 * dt) continue;
      if (k == 0) PolynomialOptimization<N>::template computeSegmentMaximumMagnitudeCandidatesBySampling<0>(s, 0, s.getTime(), dt, &t);
      else if (k == 1) PolynomialOptimization<N>::template computeSegmentMaximumMagnitudeCandidatesBySampling<1>(s, 0, s.getTime(), dt, &t);
      else PolynomialOptimization<N>::template computeSegmentMaximumMagnitudeCandidatesBySampling<2>(s, 0, s.getTime(), dt, &t);
      smp = smp && t.size() >= 2 && t.front() == 0 && t.back() == s.getTime();
      for (size_t i = 1; i < t.size(); i++) smp = smp && t[i] > t[i - 1];
    }
    r += (k ? "," : "") + std::string("{\"v\":") + num(rnd(e.value * c)) + ",\"at\":" + num(rnd(at * c)) + ",\"best\":" + num(rnd(best * c)) + ",\"in\":" + bl(in) + ",\"cand\":" + bl(cok && has) + ",\"smp\":" + bl(smp) + "}";
  }
  return r + "]";
}
// the matrices of the problem: how far they are, relatively, from what they are to each other, in units of 1e-8
template <int N> static std::string optMat(const PolynomialOptimization<N> &o, double cost) {
  Eigen::MatrixXd A, Ai, M, Mp, R_; o.getA(&A); o.getAInverse(&Ai); o.getM(&M); o.getMpinv(&Mp); o.getR(&R_);
  std::vector<Eigen::VectorXd> fx, fr; o.getFixedConstraints(&fx); o.getFreeConstraints(&fr);
  int n = A.rows(), m = M.cols();
  auto rel = [&](double e, double s) { return rnd(e / (1e-300 + s) * 1e8); };
  Eigen::MatrixXd AA = A * Ai - Eigen::MatrixXd::Identity(n, n);
  ll d1 = rel(AA.cwiseAbs().maxCoeff(), std::max(1.0, (A.cwiseAbs() * Ai.cwiseAbs()).maxCoeff()));
  ll d2 = rel((R_ - R_.transpose()).cwiseAbs().maxCoeff(), R_.cwiseAbs().maxCoeff());
  ll d3 = rel((Mp * M - Eigen::MatrixXd::Identity(m, m)).cwiseAbs().maxCoeff(), 1);
  bool sel = true; for (int i = 0; i < M.rows(); i++) { int ones = 0; for (int j = 0; j < m; j++) { if (M(i, j) == 1) ones++; else if (M(i, j) != 0) sel = false; } sel = sel && ones == 1; }
  double c = 0, sc = 0;
  for (size_t i = 0; i < fx.size(); i++) {
    Eigen::VectorXd d(fx[i].size() + fr[i].size()); d << fx[i], fr[i];
    c += 0.5 * d.dot(R_ * d); sc += d.cwiseAbs().dot(R_.cwiseAbs() * d.cwiseAbs());
  }
  return ",\"mat\":{\"ai\":" + num(d1) + ",\"sym\":" + num(d2) + ",\"mp\":" + num(d3) + ",\"sel\":" + bl(sel) + ",\"cost\":" + num(rel(std::fabs(c - cost), 1e-9 + sc)) + "}";
}
template <int N> static std::string opt(const Y &n) {
  int dim = n["d"].as<int>(), der = n["der"].as<int>();
  std::string kind = n["kind"].as<std::string>();
  Vertex::Vector v = verts(n["verts"], dim); std::vector<double> ts = times(n["ts"]);
  Trajectory t; std::string r;
  if (kind == "lin" || kind == "perturb") {
    auto &o = OR<N>()[dim]; if (!o || !n["reuse"].as<bool>()) o.reset(new PolynomialOptimization<N>(dim));
    bool ok = o->setupFromVertices(v, ts, der) && o->solveLinear();
    o->getTrajectory(&t);
    r += ",\"ok\":" + bl(ok) + ",\"v\":" + tdump(t);
    r += ",\"nf\":" + num(o->getNumberFreeConstraints()) + ",\"nx\":" + num(o->getNumberFixedConstraints()) + ",\"na\":" + num(o->getNumberAllConstraints());
    // cost in units: 1/2 sum of the integrals of the squared derivative, times DEN^2 and 2*1000
    double cs = DEN * DEN / std::pow(Q, 2 * der - 1);
    r += ",\"b\":" + borders(t, N / 2 - 1);
    double c0 = o->computeCost(); r += ",\"cost\":" + num(rnd(c0 * cs * 2)); 
    std::vector<ll> pert;
    if (kind == "perturb") {
      std::vector<Eigen::VectorXd> f; o->getFreeConstraints(&f);
      double fl = 0;
      for (size_t i = 0; i < f.size(); i++) for (int k = 0; k < f[i].size(); k++) for (double h : {0.25, -0.25}) {
        auto g = f; g[i][k] += h; o->setFreeConstraints(g); double c = o->computeCost();
        pert.push_back(c >= c0 - 1e-5 * (std::fabs(c0) + std::fabs(c)) ? 1 : 0); (void)fl;
      }
      o->setFreeConstraints(f);
      // the independent cost: integral of the squared derivative of the trajectory, by Gauss-Legendre quadrature per segment (exact degree)
      double best = 1e300, own = 0;
      auto integral = [&](const Trajectory &tr) { double s = 0; static const double X[8] = {-0.9602898564975363, -0.7966664774136267, -0.5255324099163290, -0.1834346424956498, 0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363}, W[8] = {0.1012285362903763, 0.2223810344533745, 0.3137066458778873, 0.3626837833783620, 0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
        for (auto &sg : tr.segments()) for (int k = 0; k < 4; k++) for (int i = 0; i < 8; i++) { double h = sg.getTime() / 4, tt = h * (k + (X[i] + 1) / 2); s += W[i] * h / 2 * sg.evaluate(tt, der).squaredNorm(); } return s; };
      Trajectory a; o->getTrajectory(&a); own = integral(a);
      for (size_t i = 0; i < f.size(); i++) for (int k = 0; k < f[i].size(); k++) for (double h : {0.25, -0.25, 0.01, -0.01}) {
        auto g = f; g[i][k] += h; o->setFreeConstraints(g); Trajectory b; o->getTrajectory(&b); best = std::min(best, integral(b) - own);
      }
      o->setFreeConstraints(f);
      r += ",\"ind\":" + num(f.empty() || f[0].size() == 0 || best >= -1e-5 * (1 + own) ? 1 : 0) + ",\"icost\":" + num(rnd(own * cs));
    }
    r += ",\"pert\":" + ints(pert) + optMax<N>(*o) + optMat<N>(*o, c0);
  } else {
    NonlinearOptimizationParameters p; p.max_iterations = 300; p.f_rel = 0.05; p.x_rel = 0.1; p.time_penalty = 500; p.inequality_constraint_tolerance = 0.2;
    p.time_alloc_method = (NonlinearOptimizationParameters::TimeAllocMethod)n["alloc"].as<int>();
    if (p.time_alloc_method == NonlinearOptimizationParameters::kMellingerOuterLoop) { p.algorithm = nlopt::LD_LBFGS; p.use_soft_constraints = true; }
    PolynomialOptimizationNonLinear<N> o(dim, p);
    bool ok = o.setupFromVertices(v, ts, der);
    ok = o.addMaximumMagnitudeConstraint(1, n["vm"].as<double>()) && ok;
    ok = o.addMaximumMagnitudeConstraint(2, n["am"].as<double>()) && ok;
    o.optimize(); o.getTrajectory(&t);
    std::vector<ll> st; bool pos = true; for (auto &s : t.segments()) { st.push_back(rnd(s.getTime() * 1e5)); pos = pos && s.getTime() > 0; }
    r += ",\"ok\":" + bl(ok) + ",\"pos\":" + bl(pos) + ",\"k\":" + num(t.K()) + ",\"n2\":" + num(t.N()) + ",\"d2\":" + num(t.D()) + ",\"st\":" + ints(st) + ",\"mt\":" + num(rnd(t.getMaxTime() * 1e5)) + ",\"b\":" + borders(t, N / 2 - 1);
  }
  return r;
}

static std::string resp(const Y &n) {
  std::string op = n["op"].as<std::string>();
  auto I = [&](const char *k) { return n[k].as<int>(); };
  if (op == "start") { DEN = std::pow(2.0, I("f")); g_virtual = false; return ""; }
  // ---------------------------------------------------------------- trajectories
  if (op == "new") {
    Segment::Vector v; for (auto s : n["segs"]) v.push_back(seg(s, I("n"), I("d")));
    Trajectory t; if (!v.empty()) t.setSegments(v); R[I("q")] = t; return ",\"ok\":true,\"v\":" + tdump(t);
  }
  if (op == "eval") return ",\"v\":" + ints(encv(R[I("r")].evaluate(T(I("u")), I("k")), DEN / qpow(I("k"))));
  if (op == "range") {
    std::vector<Eigen::VectorXd> x; std::vector<double> t;
    bool st = n["st"].as<bool>();
    R[I("r")].evaluateRange(T(I("u0")), T(I("u1")), T(I("du")), I("k"), &x, st ? &t : nullptr);
    std::vector<ll> ts; for (double y : t) ts.push_back(enc(y * Q));
    return ",\"v\":" + arr(x, [&](const Eigen::VectorXd &y) { return ints(encv(y, DEN / qpow(I("k")))); }) + ",\"t\":" + ints(ts);
  }
  if (op == "rangef") {             // a step of a milliseconds; compared with the evaluation at the reported times, away from borders
    std::vector<Eigen::VectorXd> x; std::vector<double> t; Trajectory &tr = R[I("r")];
    double dt = I("a") / 1000.0, t0 = T(I("u0")), t1 = T(I("u1")); int k = I("k");
    tr.evaluateRange(t0, t1, dt, k, &x, &t);
    auto border = [&](double y) { double s = 0; for (auto &g : tr.segments()) { s += g.getTime(); if (std::fabs(y - s) < 1e-7) return true; } return false; };
    double terr = 0, verr = x.size() == t.size() ? 0 : 1, serr = 0, stime = 0;
    for (size_t j = 0; j < std::min(x.size(), t.size()); j++) {
      terr = std::max(terr, std::fabs(t[j] - (t0 + j * dt)) * 1e9);
      if (!border(t[j])) { Eigen::VectorXd y = tr.evaluate(t[j], k); verr = std::max(verr, (x[j] - y).norm() / (1 + y.norm()) * 1e6); }
    }
    mav_msgs::EigenTrajectoryPointVector st; ll ns = -1;
    if (sampleTrajectoryInRange(tr, t0, t1, dt, &st)) {
      ns = st.size();
      for (size_t j = 0; j < st.size(); j++) {
        double y = st[j].time_from_start_ns * 1e-9; stime = std::max(stime, std::fabs(y - (t0 + j * dt)) * 1e9);
        if (border(y)) continue;
        for (int d = 0; d < 3; d++) { Eigen::VectorXd w = tr.evaluate(y, d); Eigen::Vector3d z = d == 0 ? st[j].position_W : d == 1 ? st[j].velocity_W : st[j].acceleration_W; serr = std::max(serr, (z - w.head<3>()).norm() / (1 + w.norm()) * 1e6); }
      }
    }
    return ",\"n\":" + num(x.size()) + ",\"terr\":" + num(rnd(terr)) + ",\"verr\":" + num(rnd(verr)) + ",\"ns\":" + num(ns) + ",\"serr\":" + num(rnd(serr)) + ",\"stime\":" + num(rnd(stime));
  }
  if (op == "sat") { mav_msgs::EigenTrajectoryPoint s; bool ok = sampleTrajectoryAtTime(R[I("r")], T(I("u")), &s); return ",\"ok\":" + bl(ok) + ",\"v\":" + (ok ? "[" + state(s) + "]" : "[]"); }
  if (op == "sseg") { mav_msgs::EigenTrajectoryPoint s; bool ok = sampleSegmentAtTime(R[I("r")].segments()[I("k")], T(I("u")), &s); return ",\"ok\":" + bl(ok) + ",\"v\":" + (ok ? "[" + state(s) + "]" : "[]"); }
  if (op == "srange" || op == "sstart" || op == "swhole") {
    mav_msgs::EigenTrajectoryPointVector s; bool ok;
    if (op == "srange") ok = sampleTrajectoryInRange(R[I("r")], T(I("u0")), T(I("u1")), T(I("du")), &s);
    else if (op == "sstart") ok = sampleTrajectoryStartDuration(R[I("r")], T(I("u0")), T(I("u1")), T(I("du")), &s);
    else ok = sampleWholeTrajectory(R[I("r")], T(I("du")), &s);
    return ",\"ok\":" + bl(ok) + ",\"v\":" + (ok ? states(s) : "[]");
  }
  if (op == "sfile") {              // the file of sampled states against the samples themselves
    Trajectory &tr = R[I("r")];
    std::string f = n["bad"].as<bool>() ? scratch + "/nowhere/states.txt" : scratch + "/states.txt";
    bool ok = sampledTrajectoryStatesToFile(f, tr);
    ll rows = 0, cols = 0; double err = 0; std::vector<ll> ends;
    mav_msgs::EigenTrajectoryPointVector st;
    if (ok) {
      sampleWholeTrajectory(tr, 0.01, &st);
      std::ifstream in(f); std::string line;
      while (std::getline(in, line)) {
        std::istringstream ls(line); std::vector<double> x; double y; while (ls >> y) x.push_back(y);
        if (x.empty()) continue;
        cols = rows ? (cols == (ll)x.size() ? cols : -1) : x.size();
        if (rows < (ll)st.size() && x.size() == 27) {
          auto &p = st[rows]; std::vector<double> w{(double)p.time_from_start_ns};
          for (auto &v : {p.position_W, p.velocity_W, p.acceleration_W, p.jerk_W, p.snap_W}) for (int i = 0; i < 3; i++) w.push_back(v[i]);
          for (double q : {p.orientation_W_B.w(), p.orientation_W_B.x(), p.orientation_W_B.y(), p.orientation_W_B.z()}) w.push_back(q);
          for (auto &v : {p.angular_velocity_W, p.angular_acceleration_W}) for (int i = 0; i < 3; i++) w.push_back(v[i]);
          for (size_t i = 0; i < w.size(); i++) err = std::max(err, std::fabs(w[i] - x[i]) / (1e-9 + std::fabs(w[i])) * 1e6);
        }
        if (rows < (ll)tr.K() && x.size() == 27) ends.push_back(rnd(x[26] * 1000)); else if (x.size() == 27 && x[26] != 0) ends.push_back(-1);
        rows++;
      }
      unlink(f.c_str());
    }
    return ",\"ok\":" + bl(ok) + ",\"rows\":" + num(rows) + ",\"n\":" + num(st.size()) + ",\"cols\":" + num(cols) + ",\"err\":" + num(rnd(err)) + ",\"ends\":" + ints(ends);
  }
  if (op == "single") { R[I("q")] = Trajectory(R[I("r")].getTrajectoryWithSingleDimension(I("k"))); return ",\"ok\":true,\"v\":" + tdump(R[I("q")]); }
  if (op == "ssingle" || op == "sapp") {    // the same at segment level
    Segment s(0, 0); bool ok;
    if (op == "ssingle") ok = R[I("r")].segments()[I("i")].getSegmentWithSingleDimension(I("k"), &s);
    else ok = R[I("r")].segments()[I("i")].getSegmentWithAppendedDimension(R[I("s")].segments()[I("j")], &s);
    return ",\"ok\":" + bl(ok) + ",\"v\":" + (ok ? "[" + sdump(s) + "]" : "[]");
  }
  if (op == "app") { Trajectory t; bool ok = R[I("r")].getTrajectoryWithAppendedDimension(R[I("s")], &t); if (ok) R[I("q")] = t; return ",\"ok\":" + bl(ok) + ",\"v\":" + tdump(R[I("q")]); }
  if (op == "add") { std::vector<Trajectory> v; for (int x : iv(n["s"])) v.push_back(R[x]); Trajectory t; bool ok = R[I("r")].addTrajectories(v, &t); if (ok) R[I("q")] = t; return ",\"ok\":" + bl(ok) + ",\"v\":" + tdump(R[I("q")]) + ",\"w\":" + tdump(R[I("r")]); }
  if (op == "addsegs") { R[I("q")].addSegments(R[I("r")].segments()); return ",\"ok\":true,\"v\":" + tdump(R[I("q")]); }
  if (op == "off") { bool ok = R[I("q")].offsetTrajectory(vec(n["x"], 1 / DEN)); return ",\"ok\":" + bl(ok) + ",\"v\":" + tdump(R[I("q")]); }
  if (op == "scale") { bool ok = R[I("q")].scaleSegmentTimes((double)I("a") / I("b")); return ",\"ok\":" + bl(ok) + ",\"v\":" + tdump(R[I("q")]); }
  if (op == "copy") { R[I("q")] = Trajectory(R[I("r")]); return ",\"ok\":true,\"v\":" + tdump(R[I("q")]); }
  if (op == "clear") { R[I("q")].clear(); return ",\"ok\":true,\"v\":" + tdump(R[I("q")]); }
  if (op == "eq") return ",\"ok\":" + bl(R[I("r")] == R[I("s")]) + ",\"v\":" + bl(R[I("r")] != R[I("s")]);
  if (op == "vat") { Vertex v = R[I("r")].getVertexAtTime(T(I("u")), I("k")); return ",\"v\":" + udump(v); }
  if (op == "vse") { return ",\"v\":[" + udump(R[I("r")].getStartVertex(I("k"))) + "," + udump(R[I("r")].getGoalVertex(I("k"))) + "]"; }
  if (op == "vall") { Vertex::Vector v; bool ok = R[I("r")].getVertices(I("k"), &v); return ",\"ok\":" + bl(ok) + ",\"v\":" + arr(v, [](const Vertex &x) { return udump(x); }); }
  if (op == "vall2") { Vertex::Vector p, y; bool ok = R[I("r")].getVertices(I("k"), I("j"), &p, &y); return ",\"ok\":" + bl(ok) + ",\"v\":" + (ok ? arr(p, [](const Vertex &x) { return udump(x); }) : "[]") + ",\"w\":" + (ok ? arr(y, [](const Vertex &x) { return udump(x); }) : "[]"); }
  if (op == "lim") {                // scale to meet limits: x[0] velocity, x[1] acceleration, in units times DEN / 100
    Trajectory old = R[I("q")], &t = R[I("q")];
    bool ok = t.scaleSegmentTimesToMeetConstraints(I("v") / DEN * Q, I("a") / DEN * Q * Q);
    bool same = old == t;
    std::vector<ll> ratio; for (int i = 0; i < t.K(); i++) ratio.push_back(rnd(t.segments()[i].getTime() / old.segments()[i].getTime() * 1e6));
    // the path at the same fraction of every segment (quarters of units of the old one), and the pace there
    std::string x = "[", s = "["; double vmax = 0, amax = 0;
    for (int i = 0; i < t.K(); i++) {
      const Segment &a = t.segments()[i], &o = old.segments()[i]; int U = (int)std::llround(o.getTime() * Q);
      x += i ? ",[" : "["; 
      for (int u = 0; u <= U; u++) { x += (u ? "," : "") + ints(encv(a.evaluate(a.getTime() * u / U, 0), DEN)); }
      x += "]";
      for (int k = 0; k <= 400; k++) { vmax = std::max(vmax, a.evaluate(a.getTime() * k / 400, 1).norm()); amax = std::max(amax, a.evaluate(a.getTime() * k / 400, 2).norm()); }
    }
    double total = 0; for (auto &g : t.segments()) total += g.getTime();
    std::string r = ",\"ok\":" + bl(ok) + ",\"same\":" + bl(same) + ",\"ratio\":" + ints(ratio) + ",\"x\":" + x + "]" + ",\"vm\":" + num(rnd(vmax * DEN / Q * 1000)) + ",\"am\":" + num(rnd(amax * DEN / Q / Q * 1000)) + ",\"sum\":" + num(rnd((t.getMaxTime() - total) * 1e6));
    t = old; return r;
  }
  if (op == "mm") {                 // extrema of the magnitude over the whole trajectory
    Extremum a, b; std::vector<int> dims = iv(n["dims"]); bool ok = R[I("r")].computeMinMaxMagnitude(I("k"), dims, &a, &b);
    if (!ok) return ",\"ok\":false,\"v\":[]";
    auto s = [&](const Extremum &e) -> const Segment * { return e.segment_idx >= 0 && e.segment_idx < R[I("r")].K() ? &R[I("r")].segments()[e.segment_idx] : nullptr; };
    return ",\"ok\":true,\"v\":[" + ext(a, s(a), I("k"), dims, false) + "," + ext(b, s(b), I("k"), dims, false) + "]";
  }
  if (op == "maxva") { double v = 0, a = 0; bool ok = R[I("r")].computeMaxVelocityAndAcceleration(&v, &a); return ",\"ok\":" + bl(ok) + ",\"v\":" + ints({rnd(v * DEN / Q * 100), rnd(a * DEN / Q / Q * 100)}); }
  if (op == "smm") {                // of one segment on an interval
    const Segment &g = R[I("r")].segments()[I("i")]; std::vector<int> dims = iv(n["dims"]); std::vector<Extremum> c; Extremum a, b;
    bool ok = g.computeMinMaxMagnitudeCandidates(I("k"), T(I("u0")), T(I("u1")), dims, &c);
    ok = ok && g.selectMinMaxMagnitudeFromCandidates(I("k"), T(I("u0")), T(I("u1")), dims, c, &a, &b);
    return ",\"ok\":" + bl(ok) + ",\"v\":" + (ok ? "[" + ext(a, &g, I("k"), dims, false) + "," + ext(b, &g, I("k"), dims, false) + "]" : "[]");
  }
  if (op == "save") {               // write and read back, several times
    Trajectory t = R[I("r")]; bool ok = true; std::string kind = n["kind"].as<std::string>();
    for (int i = 0; i < I("k") && ok; i++) {
      Trajectory x;
      if (kind == "node") ok = trajectoryFromYaml(trajectoryToYaml(t), &x);
      else if (kind == "text") { std::stringstream ss; ss.precision(17); ss << trajectoryToYaml(t); ok = trajectoryFromYaml(YAML::Load(ss.str()), &x); }
      else { std::string f = scratch + "/t.yaml"; ok = trajectoryToFile(f, t) && trajectoryFromFile(f, &x); unlink(f.c_str()); }
      t = x;
    }
    if (ok) R[I("q")] = t;
    return ",\"ok\":" + bl(ok) + ",\"v\":" + tdump(R[I("q")]);
  }
  if (op == "exact") {              // times and coefficients that are not representable in few digits
    Segment s(3, 1); Eigen::VectorXd c(3); unsigned h = I("x"); auto f = [&]() { h = h * 1103515245u + 12345u; return ((h >> 8) % 2000001u) / 1000003.0 - 1; };
    c << f() * std::pow(10, (int)(h % 7) - 3), f(), f() / 3; s[0] = Polynomial(c); uint64_t ns = (uint64_t)I("x") * 1000003ull + 1; s.setTimeNSec(ns);
    Trajectory t, x; t.setSegments({s}); bool ok; std::string kind = n["kind"].as<std::string>(), fn = scratch + "/e.yaml";
    if (kind == "node") ok = trajectoryFromYaml(trajectoryToYaml(t), &x); else { ok = trajectoryToFile(fn, t) && trajectoryFromFile(fn, &x); unlink(fn.c_str()); }
    double err = 1; bool same = false, tm = false;
    if (ok && x.K() == 1 && x.N() == 3) { Eigen::VectorXd d = x.segments()[0][0].getCoefficients(); err = 0; for (int i = 0; i < 3; i++) err = std::max(err, std::fabs(d[i] - c[i]) / std::max(1e-12, std::fabs(c[i]))); same = d == c; tm = x.segments()[0].getTimeNSec() == ns; }
    return ",\"ok\":" + bl(ok) + ",\"same\":" + bl(same) + ",\"tm\":" + bl(tm) + ",\"err\":" + num(rnd(std::min(err, 1.0) * 1e9));
  }
  if (op == "load") {               // a document given as text
    Trajectory x; bool ok; std::string kind = n["kind"].as<std::string>(), txt = n["txt"].as<std::string>();
    if (kind == "node") { Y d; try { d = YAML::Load(txt); } catch (...) { return ",\"ok\":false,\"v\":{},\"np\":true"; } ok = trajectoryFromYaml(d, &x); }
    else if (kind == "none") { ok = trajectoryFromFile(scratch + "/missing.yaml", &x); }
    else { std::string f = scratch + "/l.yaml"; { std::ofstream o(f); o << txt; } ok = trajectoryFromFile(f, &x); unlink(f.c_str()); }
    if (ok) R[I("q")] = x;
    return ",\"ok\":" + bl(ok) + ",\"v\":" + (ok ? tdump(x) : std::string("{}")) + ",\"np\":false";
  }
  // ---------------------------------------------------------------- polynomials
  if (op == "pnew") { PR[I("q")].reset(new Polynomial(coeffs(n["p"]))); return ",\"ok\":true,\"v\":" + pdump(PR[I("q")]->getCoefficients()); }
  auto pset = [&](const Polynomial &p) { PR[I("q")].reset(new Polynomial(p)); return ",\"ok\":true,\"v\":" + pdump(PR[I("q")]->getCoefficients()); };
  if (op == "padd") return pset(*PR[I("r")] + *PR[I("s")]);
  if (op == "paddto") { *PR[I("q")] += *PR[I("r")]; return ",\"ok\":true,\"v\":" + pdump(PR[I("q")]->getCoefficients()); }
  if (op == "pmul") { double old = DEN; Polynomial p = *PR[I("r")] * *PR[I("s")]; std::string v = pset(p); DEN = old; return v + ",\"n\":" + num(p.N()); }
  if (op == "pconv") { int len = Polynomial::getConvolutionLength(PR[I("r")]->N(), PR[I("s")]->N()); return pset(Polynomial(Polynomial::convolve(PR[I("r")]->getCoefficients(), PR[I("s")]->getCoefficients()))) + ",\"n\":" + num(len); }
  if (op == "psc") return pset(*PR[I("r")] * (double)I("x"));
  if (op == "pder") { Eigen::VectorXd c = PR[I("r")]->getCoefficients(I("k")); std::vector<ll> o; for (int i = 0; i < c.size(); i++) o.push_back(enc(c[i] * DEN / qpow(i + I("k")))); return ",\"v\":" + ints(o); }
  if (op == "ppad") { Polynomial p(1); bool ok = PR[I("r")]->getPolynomialWithAppendedCoefficients(I("n"), &p); std::string v = pset(p); return v + ",\"ret\":" + bl(ok) + ",\"n2\":" + num(p.N()); }
  if (op == "poff") { PR[I("q")]->offsetPolynomial(I("x") / DEN); return ",\"ok\":true,\"v\":" + pdump(PR[I("q")]->getCoefficients()); }
  if (op == "pts") { PR[I("q")]->scalePolynomialInTime((double)I("a") / I("b")); return ",\"ok\":true,\"v\":" + pdump(PR[I("q")]->getCoefficients()); }
  if (op == "pset") { PR[I("q")]->setCoefficients(coeffs(n["p"])); return ",\"ok\":true,\"v\":" + pdump(PR[I("q")]->getCoefficients()); }
  if (op == "pev") return ",\"v\":" + num(enc(PR[I("r")]->evaluate(T(I("u")), I("k")) * DEN / qpow(I("k"))));
  if (op == "pevv") { Eigen::VectorXd x(I("k")); PR[I("r")]->evaluate(T(I("u")), &x); std::vector<ll> o; for (int i = 0; i < x.size(); i++) o.push_back(enc(x[i] * DEN / qpow(i))); return ",\"v\":" + ints(o); }
  if (op == "peq") return ",\"ok\":" + bl(*PR[I("r")] == *PR[I("s")]) + ",\"v\":" + bl(*PR[I("r")] != *PR[I("s")]);
  if (op == "pbase") { Eigen::VectorXd b = Polynomial::baseCoeffsWithTime(I("n"), I("k"), T(I("u"))); std::vector<ll> o; for (int i = 0; i < b.size(); i++) o.push_back(enc(b[i] * qpow(i - I("k")))); return ",\"v\":" + ints(o); }
  if (op == "proots") {             // all roots of a derivative: real and imaginary part in hundredths of a unit, multiplicity kept
    Eigen::VectorXcd r; bool ok = PR[I("r")]->getRoots(I("k"), &r); std::vector<std::pair<ll, ll>> o; if (ok) for (int i = 0; i < r.size(); i++) o.push_back({rnd(r[i].real() * Q * 100), rnd(r[i].imag() * Q * 100)});
    std::sort(o.begin(), o.end());
    return ",\"ok\":" + bl(ok) + ",\"v\":" + arr(o, [](const std::pair<ll, ll> &p) { return ints({p.first, p.second}); });
  }
  if (op == "pmm") { std::pair<double, double> a, b; const Polynomial &p = *PR[I("r")]; bool ok = p.computeMinMax(T(I("u0")), T(I("u1")), I("k"), &a, &b); return ",\"ok\":" + bl(ok) + ",\"v\":" + (ok ? "[" + ext(a, p, I("k")) + "," + ext(b, p, I("k")) + "]" : "[]"); }
  if (op == "pmmc") {               // the same through candidates and through roots
    const Polynomial &p = *PR[I("r")]; std::pair<double, double> a, b, c, d; std::vector<double> cand; Eigen::VectorXcd roots;
    bool ok = p.computeMinMaxCandidates(T(I("u0")), T(I("u1")), I("k"), &cand) && p.selectMinMaxFromCandidates(cand, I("k"), &a, &b);
    p.getRoots(I("k") + 1, &roots); bool ok2 = p.selectMinMaxFromRoots(T(I("u0")), T(I("u1")), I("k"), roots, &c, &d);
    return ",\"ok\":" + bl(ok) + ",\"ok2\":" + bl(ok2) + ",\"v\":" + (ok ? "[" + ext(a, p, I("k")) + "," + ext(b, p, I("k")) + "]" : "[]") + ",\"w\":" + (ok2 ? "[" + ext(c, p, I("k")) + "," + ext(d, p, I("k")) + "]" : "[]");
  }
  // ---------------------------------------------------------------- vertices (values in quarters)
  auto V = [&](const char *k) -> Vertex & { return VR.at(I(k)); };
  if (op[0] == 'w') {
    typedef dynamic_traj_generator::DynamicWaypoint W;
    auto p3 = [&](const Y &x) { return Eigen::Vector3d(vec(x, 1 / DEN)); };
    auto u3 = [&](const Eigen::Vector3d &x) { return ints(encv(x, DEN)); };
    if (op == "wnew") {
      Vertex v(3); v.addConstraint(0, p3(n["x"]));
      for (int k = 1; k <= 3; k++) if (n["c"][k - 1].size()) v.addConstraint(k, p3(n["c"][k - 1]));
      if (I("i") == -1) WR[I("q")] = std::make_shared<W>(v, n["name"].as<std::string>()); else WR[I("q")] = std::make_shared<W>(v, I("i"), n["name"].as<std::string>());
    } else if (op == "wdef") WR[I("q")] = std::make_shared<W>();
    else if (op == "wcopy") { if (n["assign"].as<bool>() && WR.count(I("q"))) *WR[I("q")] = *WR[I("r")]; else WR[I("q")] = std::make_shared<W>(*WR[I("r")]); }
    else if (op == "wget") {
      W &w = *WR[I("r")];
      return ",\"v\":" + udump0(w.getVertex()) + ",\"org\":" + u3(w.getOriginalPosition()) + ",\"cur\":" + u3(w.getCurrentPosition()) + ",\"t\":" + num(enc(w.getTime() * Q)) +
             ",\"idx\":" + num(w.getIndex()) + ",\"name\":\"" + w.getName() + "\",\"has\":" + bl(w.hasModifiers());
    } else if (op == "wcomp") {       // what is added at a time and at its mirror, in thousandths; derivatives next to difference quotients
      W &w = *WR[I("r")];
      double t = T(I("u")), h = 1.0 / 1024;
      auto r3 = [&](const Eigen::Vector3d &x, double s) { return ints({rnd(x[0] * DEN * s), rnd(x[1] * DEN * s), rnd(x[2] * DEN * s)}); };
      auto f = [&](double x, int k) { return w.trajectoryCompensation(x, k); };
      return ",\"x\":" + r3(f(t, 0), 1000) + ",\"y\":" + r3(f(T(I("m")), 0), 1000) + ",\"x1\":" + r3(f(t, 1), 10) + ",\"y1\":" + r3(f(T(I("m")), 1), 10) + ",\"n1\":" + r3((f(t + h, 0) - f(t - h, 0)) / (2 * h), 10) +
             ",\"x2\":" + r3(f(t, 2), 10) + ",\"n2\":" + r3((f(t + h, 1) - f(t - h, 1)) / (2 * h), 10);
    } else {
      W &w = *WR[I("q")];
      if (op == "wreset") w.resetWaypoint(p3(n["x"]));
      else if (op == "wkeep") w.resetWaypointWithCurrentPosition();
      else if (op == "wcon") w.setConstraint(I("k"), p3(n["x"]));
      else if (op == "wmove") w.setCurrentPosition(p3(n["x"]), T(I("a")));
      else if (op == "wtime") w.setTime(T(I("t")));
      else if (op == "widx") w.setIndex(I("i"));
      else if (op == "wdis") w.displaceIndex(I("i"));
      else if (op == "wname") w.setName(n["name"].as<std::string>());
    }
    return "";
  }
  if (op == "vsq") return ",\"v\":" + arr(createSquareVertices(I("k"), Eigen::Vector3d(vec(n["x"], 0.25)), I("a") * 0.5, I("n")), [](const Vertex &v) { return vdump(v); });
  if (op == "vrand") {
    auto make = [&] {
      if (n["one"].as<bool>()) return createRandomVertices1D(I("k"), I("n"), n["lo"][0].as<int>() * 0.25, n["hi"][0].as<int>() * 0.25, I("s"));
      return createRandomVertices(I("k"), I("n"), vec(n["lo"], 0.25), vec(n["hi"], 0.25), I("s")); };
    Vertex::Vector v = make(), w = make(); bool same = v.size() == w.size();
    std::string r = ",\"v\":[";
    for (size_t i = 0; i < v.size(); i++) {
      same = same && v[i].isEqualTol(w[i], 0);
      std::vector<ll> keys, pos; bool zero = true;
      for (auto it = v[i].cBegin(); it != v[i].cEnd(); ++it) { keys.push_back(it->first); if (it->first == 0) for (int d = 0; d < it->second.size(); d++) pos.push_back(rnd(it->second[d] * 1000)); else zero = zero && it->second.isZero(0) && it->second.size() == v[i].D(); }
      r += (i ? "," : "") + std::string("{\"d\":") + num(v[i].D()) + ",\"p\":" + ints(pos) + ",\"keys\":" + ints(keys) + ",\"z\":" + bl(zero) + "}";
    }
    return r + "],\"same\":" + bl(same);
  }
  if (op == "vnew") { VR.erase(I("q")); VR.emplace(I("q"), Vertex(I("d"))); return ",\"v\":" + vdump(V("q")); }
  if (op == "vadd") { V("q").addConstraint(I("k"), vec(n["x"], 0.25)); return ",\"v\":" + vdump(V("q")); }
  if (op == "vaddc") { V("q").addConstraint(I("k"), I("x") * 0.25); return ",\"v\":" + vdump(V("q")); }
  if (op == "vrem") { bool ok = V("q").removeConstraint(I("k")); return ",\"ok\":" + bl(ok) + ",\"v\":" + vdump(V("q")); }
  if (op == "vstart") { V("q").makeStartOrEnd(vec(n["x"], 0.25), I("k")); return ",\"v\":" + vdump(V("q")); }
  if (op == "vstartc") { V("q").makeStartOrEnd(I("x") * 0.25, I("k")); return ",\"v\":" + vdump(V("q")); }
  if (op == "vget") { Eigen::VectorXd x(2); x << 77, 78; bool ok = V("r").getConstraint(I("k"), &x); return ",\"ok\":" + bl(ok) + ",\"v\":" + ints(encv(x, ok ? 4 : 1)) + ",\"has\":" + bl(V("r").hasConstraint(I("k"))); }
  if (op == "vcopy") { Vertex c = V("r"); VR.erase(I("q")); VR.emplace(I("q"), c); return ",\"v\":" + vdump(V("q")); }
  if (op == "vtol") return ",\"ok\":" + bl(V("r").isEqualTol(V("s"), I("x") * 0.25));
  if (op == "vsub") { std::vector<size_t> d; for (int x : iv(n["dims"])) d.push_back(x); Vertex t(1); bool ok = V("r").getSubdimension(d, I("k"), &t); if (ok) { VR.erase(I("q")); VR.emplace(I("q"), t); } return ",\"ok\":" + bl(ok) + ",\"v\":" + (ok ? vdump(t) : std::string("{}")); }
  // ---------------------------------------------------------------- estimates and the optimiser
  if (op == "est") {
    Vertex::Vector v; int D = n["pts"][0].size(); size_t i = 0;
    for (auto p : n["pts"]) { Vertex w(D); w.addConstraint(0, vec(p)); int c = n["con"][i++].as<int>(); if (c == 1) w.addConstraint(1, Eigen::VectorXd::Zero(D)); if (c == 2) w.addConstraint(1, Eigen::VectorXd::Constant(D, 0.5)); v.push_back(w); }
    double vm = I("v0") / 100.0, am = I("a") / 100.0; std::string k = n["kind"].as<std::string>(); std::vector<double> t;
    if (k == "vr") t = estimateSegmentTimesVelocityRamp(v, vm, am); else if (k == "nf") t = estimateSegmentTimesNfabian(v, vm, am); else t = estimateSegmentTimes(v, vm, am);
    std::vector<ll> o; for (double x : t) o.push_back(rnd(x * 1e4)); return ",\"v\":" + ints(o);
  }
  if (op == "opt") return optAny(n);
  // ---------------------------------------------------------------- timers (durations in microseconds)
  if (op == "clock") { g_virtual = true; g_now = 1000000000ll + n["x"].as<ll>(); return ""; }
  if (op == "tnew") { TR[I("q")].reset(new timing::Timer(n["tag"].as<std::string>(), n["stopped"].as<bool>())); return ",\"v\":" + bl(TR[I("q")]->IsTiming()); }
  if (op == "tnewh") { TR[I("q")].reset(new timing::Timer(timing::Timing::GetHandle(n["tag"].as<std::string>()), n["stopped"].as<bool>())); return ",\"v\":" + bl(TR[I("q")]->IsTiming()); }
  if (op == "tstart") { TR[I("q")]->Start(); return ",\"v\":" + bl(TR[I("q")]->IsTiming()); }
  if (op == "tstop") { TR[I("q")]->Stop(); return ",\"v\":" + bl(TR[I("q")]->IsTiming()); }
  if (op == "tdel") { TR.erase(I("q")); return ",\"v\":false"; }
  if (op == "treset") { timing::Timing::Reset(); return ",\"v\":" + num(timing::Timing::GetTimers().size()); }
  if (op == "tq") {
    using timing::Timing; std::string g = n["tag"].as<std::string>(); size_t h = Timing::GetHandle(g); std::string r;
    for (int k = 0; k < 2; k++) {
      ll c = k ? Timing::GetNumSamples(g) : Timing::GetNumSamples(h);
      std::vector<ll> o; o.push_back(c); o.push_back(rnd((k ? Timing::GetTotalSeconds(g) : Timing::GetTotalSeconds(h)) * 1e6));
      if (c > 0) { for (double x : {k ? Timing::GetMinSeconds(g) : Timing::GetMinSeconds(h), k ? Timing::GetMaxSeconds(g) : Timing::GetMaxSeconds(h)}) o.push_back(rnd(x * 1e6));
        o.push_back(rnd((k ? Timing::GetMeanSeconds(g) : Timing::GetMeanSeconds(h)) * 1e6)); o.push_back(rnd((k ? Timing::GetVarianceSeconds(g) : Timing::GetVarianceSeconds(h)) * 1e12));
        double hz = k ? Timing::GetHz(g) : Timing::GetHz(h); o.push_back(std::isfinite(hz) ? rnd(1e6 / hz) : -1); }
      r += std::string(k ? ",\"w\":" : ",\"v\":") + ints(o);
    }
    std::string p = Timing::Print(); size_t pos = p.find("\n" + g); ll pc = -1; if (pos != std::string::npos) { size_t tab = p.find('\t', pos); if (tab != std::string::npos) pc = atoll(p.c_str() + tab); }
    return r + ",\"tag2\":" + bl(Timing::GetTag(h) == g) + ",\"pc\":" + num(pc) + ",\"nt\":" + num(Timing::GetTimers().size());
  }
  // ---------------------------------------------------------------- attitudes and full states; answers in ten thousandths
  if (op[0] == 'a') {
    typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
    auto v3 = [&](const Y &x) { return V3(vec(x)); };
    auto m3 = [&](const Y &x) { M3 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = x[i][j].as<double>(); return m; };
    auto qn = [&](const Y &x) { return Eigen::Quaterniond(x[0].as<double>(), x[1].as<double>(), x[2].as<double>(), x[3].as<double>()).normalized(); };
    auto rs = [&](const V3 &x, double k = 1e4) { std::vector<ll> r; for (int i = 0; i < 3; i++) r.push_back(rnd(x[i] * k)); return ints(r); };
    auto ms = [&](const M3 &m, double k = 1e4) { return "[" + rs(m.row(0), k) + "," + rs(m.row(1), k) + "," + rs(m.row(2), k) + "]"; };
    auto cs = [&](double a) { return ints({rnd(std::cos(a) * 1e4), rnd(std::sin(a) * 1e4)}); };
    if (op == "anew") {
      V3 v[7]; for (int i = 0; i < 7; i++) v[i] = v3(n["v"][i]);
      SR[I("q")] = mav_msgs::EigenTrajectoryPoint(5, v[0], v[1], v[2], v[3], v[4], qn(n["o"]), v[5], v[6]);
    } else if (op == "amove") {
      Eigen::Affine3d t = Eigen::Translation3d(v3(n["x"])) * qn(n["o"]);
      mav_msgs::EigenTrajectoryPoint s = t * SR[I("r")]; SR[I("q")] = s;
    } else if (op == "ayaw") SR[I("q")].setFromYaw(2 * std::atan2(I("b"), I("a")) + 2 * M_PI * I("w"));
    else if (op == "arate") { if (I("i") == 6) SR[I("q")].setFromYawRate(I("x")); else SR[I("q")].setFromYawAcc(I("x")); }
    else if (op == "aget") {
      auto &s = SR[I("r")];
      std::string r = ",\"mo\":" + ms(s.orientation_W_B.toRotationMatrix()) + ",\"vs\":[" + rs(s.position_W) + "," + rs(s.velocity_W) + "," + rs(s.acceleration_W) + "," + rs(s.jerk_W) + "," + rs(s.snap_W) + "," + rs(s.angular_velocity_W) + "," + rs(s.angular_acceleration_W) + "]";
      return r + ",\"yaw\":" + cs(s.getYaw()) + ",\"yr\":" + num(rnd(s.getYawRate() * 1e4)) + ",\"ya\":" + num(rnd(s.getYawAcc() * 1e4)) + ",\"ns\":" + num(s.time_from_start_ns) + ",\"dof\":" + num(s.degrees_of_freedom);
    } else if (op == "aconv") {
      Eigen::Quaterniond q = qn(n["o"]); V3 eu, e2, rv = V3::Zero(); M3 m = q.toRotationMatrix(), back;
      mav_msgs::getEulerAnglesFromQuaternion(q, &eu);
      bool ok = mav_msgs::vectorFromRotationMatrix(m, &rv); mav_msgs::matrixFromRotationVector(rv, &back);
      mav_msgs::EigenOdometry o(V3(1, 2, 3), q, V3(0, 0, 0), V3(4, 5, 6)); o.setVelocityWorld(v3(n["x"])); o.getEulerAngles(&e2);
      std::string r = ",\"yaw\":" + cs(mav_msgs::yawFromQuaternion(q)) + ",\"eu\":[" + cs(eu[0]) + "," + cs(eu[1]) + "," + cs(eu[2]) + "],\"same\":" + bl((eu - e2).norm() == 0 && o.getYaw() == mav_msgs::yawFromQuaternion(q) && o.getYawRate() == 6);
      r += ",\"my\":" + ms(mav_msgs::quaternionFromYaw(mav_msgs::yawFromQuaternion(q)).toRotationMatrix()) + ",\"ok\":" + bl(ok) + ",\"rv\":" + rs(rv) + ",\"back\":" + ms(back) + ",\"vb\":" + rs(o.velocity_B) + ",\"vw\":" + rs(o.getVelocityWorld());
      o.setFromYaw(2 * std::atan2(n["x"][0].as<double>(), 10)); o.setFromYawRate(n["x"][1].as<double>());
      return r + ",\"oy\":" + ms(o.orientation_W_B.toRotationMatrix()) + ",\"orr\":" + rs(o.angular_velocity_B);
    } else if (op == "amat") {
      M3 m = m3(n["m"]) / n["den"].as<double>(), back = M3::Zero(); V3 rv = V3::Zero();
      bool rot = mav_msgs::isRotationMatrix(m), ok = mav_msgs::vectorFromRotationMatrix(m, &rv); if (ok) mav_msgs::matrixFromRotationVector(rv, &back);
      return ",\"rot\":" + bl(rot) + ",\"ok\":" + bl(ok) + ",\"back\":" + ms(back);
    } else if (op == "askew") {
      V3 v = V3::Constant(7); M3 m; bool ok = mav_msgs::vectorFromSkewMatrix(m3(n["m"]), &v); mav_msgs::skewMatrixFromVector(v3(n["x"]), &m);
      return ",\"ok\":" + bl(ok) + ",\"v\":" + rs(v, 1) + ",\"sk\":" + ms(m, 1);
    } else if (op == "aomega") {    // against difference quotients of the rotation itself
      double k = n["k"].as<double>(); V3 r = v3(n["x"]) / k, d = v3(n["y"]), a = v3(n["z"]);
      auto rot = [&](double t) { V3 x = r + d * t + a * t * t / 2; double f = x.norm(); return f > 0 ? Eigen::AngleAxisd(f, x / f).toRotationMatrix() : M3(M3::Identity()); };
      auto vee = [&](const M3 &m) { return V3((m(2, 1) - m(1, 2)) / 2, (m(0, 2) - m(2, 0)) / 2, (m(1, 0) - m(0, 1)) / 2); };
      double h = 1e-4; M3 r0 = rot(0), r1 = (rot(h) - rot(-h)) / (2 * h), r2 = (rot(h) - 2 * r0 + rot(-h)) / (h * h);
      V3 om = vee(r1 * r0.transpose()), al = vee(r2 * r0.transpose() + r1 * r1.transpose());
      double e1 = (mav_msgs::omegaFromRotationVector(r, d) - om).norm() / (1 + d.norm()), e2 = (mav_msgs::omegaDotFromRotationVector(r, d, a) - al).norm() / (1 + d.squaredNorm() + a.norm());
      return ",\"e1\":" + num(rnd(e1 * 1e4)) + ",\"e2\":" + num(rnd(e2 * 1e4));
    } else if (op == "arotor") {
      Eigen::MatrixXd A(6, 4); for (int i = 0; i < 6; i++) for (int j = 0; j < 4; j++) A(i, j) = n["a"][i][j].as<double>();
      Eigen::VectorXd o; mav_msgs::getSquaredRotorSpeedsFromAllocationAndState(A, v3(n["x"]), n["m"].as<double>(), v3(n["y"]), v3(n["z"]), v3(n["f"]), &o);
      return ",\"v\":" + ints(encv(o));
    } else if (op == "agrav") return ",\"v\":" + num(rnd(mav_msgs::MagnitudeOfGravity(I("h"), I("k") * M_PI / 6) * 1e6));
    else if (op == "anano") return ",\"v\":" + num(rnd(mav_msgs::nanosecondsToSeconds(n["x"].as<ll>()) * 1e9)) + ",\"b\":" + num(mav_msgs::secondsToNanoseconds(mav_msgs::nanosecondsToSeconds(n["x"].as<ll>())));
    else { fprintf(stderr, "unknown operation %s\n", op.c_str()); _exit(9); }
    return "";
  }
  if (op == "mini") { timing::MiniTimer m; ll base = g_now; std::vector<ll> o; for (int x : iv(n["x"])) { g_now = base + x; if (o.size() % 3 == 2) { m.start(); o.push_back(-1); } else o.push_back(rnd(m.stop() * 1e6)); } return ",\"v\":" + ints(o); }
  fprintf(stderr, "unknown operation %s\n", op.c_str()); _exit(9);
}

int main(int argc, char **argv) {
  google::InitGoogleLogging("libdriver"); FLAGS_logtostderr = 1; FLAGS_minloglevel = 3;
  std::ifstream in(argv[1]); std::string outp = argv[2]; std::string line;
  std::vector<std::vector<std::string>> sections;
  while (std::getline(in, line)) { if (line.empty()) continue; if (line.find("\"op\":\"start\"") != std::string::npos || sections.empty()) sections.emplace_back(); sections.back().push_back(line); }
  char tmp[] = "/tmp/libdriverXXXXXX"; scratch = mkdtemp(tmp);
  FILE *out = fopen(outp.c_str(), "w"); setvbuf(out, nullptr, _IOFBF, 1 << 20);
  for (auto &s : sections) {
    fflush(out);
    pid_t p = fork();
    if (p == 0) {
      freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout);
      alarm(60);
      for (auto &l : s) {
        std::string r;
        try { Y n = YAML::Load(l); r = resp(n); } catch (const std::exception &e) { r = ",\"exc\":true"; }
        fprintf(out, "%s%s}\n", l.substr(0, l.size() - 1).c_str(), r.c_str()); fflush(out);
        if (r == ",\"exc\":true") _exit(0);
      }
      _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    fseek(out, 0, SEEK_END);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fprintf(out, "{\"op\":\"crash\",\"sig\":%d}\n", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
  }
  fclose(out); rmdir(scratch.c_str());
  return 0;
}
