// B03: response curves are the piecewise-linear functions that were entered.
#include <glib.h>
extern "C" {
#include "mypaint-mapping.h"
}
#include "mc.hpp"
#include "alloc.hpp"
typedef std::vector<std::pair<float, float>> Curve;
// Allowed value interval of the polyline at x; false: not specified there (vertical end segment beyond its abscissa).
static bool poly(const Curve &c, double x, double &lo, double &hi, double &scale) {
  lo = hi = 0; scale = 0;
  if (c.empty()) return true;
  size_t n = c.size(); bool hit = false;
  for (auto &p : c) if (p.first == (float)x) { if (!hit) lo = hi = p.second; lo = std::min(lo, (double)p.second); hi = std::max(hi, (double)p.second); hit = true; scale = std::max(scale, fabs((double)p.second)); }
  if (hit) return true;
  size_t i;   // segment [i, i+1] used at x
  if (x < c[0].first) i = 0; else if (x > c[n - 1].first) i = n - 2; else { i = 0; while (!(x > c[i].first && x < c[i + 1].first)) i++; }
  double x0 = c[i].first, y0 = c[i].second, x1 = c[i + 1].first, y1 = c[i + 1].second;
  if (x0 == x1) return false;
  lo = hi = y0 + (y1 - y0) * (x - x0) / (x1 - x0);
  scale = (fabs(y1 * (x - x0)) + fabs(y0 * (x1 - x))) / (x1 - x0);
  return true;
}
static std::string cstr(const Curve &c) { std::string s = "["; char b[64]; for (auto &p : c) { snprintf(b, 64, "(%g,%g)", p.first, p.second); s += b; } return s + "]"; }
static void put(MyPaintMapping *m, int in, const Curve &c) { mypaint_mapping_set_n(m, in, (int)c.size()); for (size_t i = 0; i < c.size(); i++) mypaint_mapping_set_point(m, in, (int)i, c[i].first, c[i].second); }
static void eval(MyPaintMapping *m, float base, const std::vector<Curve> &cs, std::vector<float> data) {
  double lo = base, hi = base, sc = fabs(base);
  for (size_t i = 0; i < cs.size(); i++) { double l, h, s; if (!poly(cs[i], data[i], l, h, s)) return; lo += l; hi += h; sc += s; }
  mc::step();
  float v = mypaint_mapping_calculate(m, data.data());
  double t = 4e-6 * sc + 1e-6;
  if (!(v >= lo - t && v <= hi + t)) { std::string d; char b[64]; for (size_t i = 0; i < data.size(); i++) { snprintf(b, 64, " input%zu=%.9g %s", i, data[i], cstr(cs[i]).c_str()); d += b; if (!cs[i].empty()) d += cstr(cs[i]); } mc::fail("base %g%s: value %.9g, the curve gives %.9g..%.9g", base, d.c_str(), v, lo, hi); }
  mc::g().cur->checks++;
  if (data.size() == 1) { float w = mypaint_mapping_calculate_single_input(m, data[0]); MC_CHECK(w == v, "calculate_single_input(%g) = %g, calculate = %g", data[0], w, v); }
  mc::observe_f(v);
}
static std::vector<float> probes(const Curve &c) {
  std::vector<float> v;
  for (size_t i = 0; i < c.size(); i++) { v.push_back(c[i].first); v.push_back(nextafterf(c[i].first, 1e9f)); v.push_back(nextafterf(c[i].first, -1e9f)); if (i + 1 < c.size()) v.push_back((c[i].first + c[i + 1].first) / 2); }
  float a = c.front().first, b = c.back().first; for (float d : {0.01f, 1.f, 37.f}) { v.push_back(a - d); v.push_back(b + d); }
  return v;
}
static const float DX[] = {0, 0.3f, 2, 1e-3f}, YS[] = {-1, 0.5f, 3, 0}, X0[] = {0, -3, 0.7f};
static Curve draw_curve(int n, int ndx, int ny) { Curve c; float x = X0[mc::choose(2)]; for (int i = 0; i < n; i++) { if (i) x += DX[mc::choose(ndx)]; c.push_back({x, YS[mc::choose(ny)]}); } return c; }
static void curves() {
  bool th = mc::thorough(); int n = 2 + mc::choose(th ? 5 : 4); float base = mc::choose(2) ? -2.5f : 0; Curve c = draw_curve(n, n >= 5 ? (th ? 3 : 2) : 3, n >= 5 ? (th ? 3 : 2) : 3);
  int in = mc::choose(2), inputs = in ? 3 : 1; mc::logf("base %g, input %d of %d: %s", base, in, inputs, cstr(c).c_str());
  MyPaintMapping *m = mypaint_mapping_new(inputs); mypaint_mapping_set_base_value(m, base); put(m, in, c);
  std::vector<Curve> cs(inputs); cs[in] = c;
  for (float x : probes(c)) { std::vector<float> d(inputs, 123.f); d[in] = x; eval(m, base, cs, d); }
  mypaint_mapping_free(m);
}
static Curve pattern(int n, int k) {
  Curve c; uint32_t r = 7 + k;
  for (int i = 0; i < n; i++) { float x, y; r = r * 1664525u + 1013904223u;
    if (k == 0) { x = i * 0.125f; y = (i & 1) ? 1 : -1; } else if (k == 1) { x = (i / 2) * 0.5f; y = i * i * 0.01f; } else if (k == 2) { x = -4 + i * i * 0.01f; y = (float)(r >> 20) / 512 - 4; } else { x = i < n / 2 ? 0 : 1; y = i * 0.3f; }
    c.push_back({x, y}); }
  return c;
}
static void lengths() {
  int n = 2 + mc::choose(63), k = mc::choose(4), inputs = 18, in = mc::choose(3) * 8; if (in > 17) in = 17; Curve c = pattern(n, k); mc::logf("%d points, pattern %d, input %d", n, k, in);
  MyPaintMapping *m = mypaint_mapping_new(inputs); mypaint_mapping_set_base_value(m, 0.25f); put(m, in, c);
  std::vector<Curve> cs(inputs); cs[in] = c;
  for (float x : probes(c)) { std::vector<float> d(inputs, -7.f); d[in] = x; eval(m, 0.25f, cs, d); }
  for (int i = 0; i < n; i++) { float x, y; mypaint_mapping_get_point(m, in, i, &x, &y); MC_CHECK(x == c[i].first && y == c[i].second, "point %d is (%g,%g), entered (%g,%g)", i, x, y, c[i].first, c[i].second); }
  MC_CHECK(mypaint_mapping_get_n(m, in) == n && mypaint_mapping_get_inputs_used_n(m) == 1 && !mypaint_mapping_is_constant(m), "%d points entered, %d reported, %d inputs in use", n, mypaint_mapping_get_n(m, in), mypaint_mapping_get_inputs_used_n(m));
  mypaint_mapping_free(m);
}
// several inputs at once: the contributions add up
static void sums() {
  static const Curve A[] = {{}, {{0, 0}, {1, 1}}, {{-1, 3}, {0.5f, 0}, {2, -1}}, {{0, -1}, {0, 2}, {1, 0}}};
  int inputs = 4; std::vector<Curve> cs; for (int i = 0; i < inputs; i++) cs.push_back(A[mc::choose(4)]);
  MyPaintMapping *m = mypaint_mapping_new(inputs); mypaint_mapping_set_base_value(m, 1.5f); int used = 0;
  for (int i = 0; i < inputs; i++) { if (!cs[i].empty()) { put(m, i, cs[i]); used++; } mc::logf("input %d %s", i, cstr(cs[i]).c_str()); }
  MC_CHECK(mypaint_mapping_get_inputs_used_n(m) == used && !mypaint_mapping_is_constant(m) == !!used, "%d inputs have points, %d reported, constant=%d", used, mypaint_mapping_get_inputs_used_n(m), mypaint_mapping_is_constant(m));
  static const float V[] = {-2, 0, 0.3f, 1, 2.5f};
  for (float a : V) for (float b : V) for (float c : V) for (float d : V) eval(m, 1.5f, cs, {a, b, c, d});
  mypaint_mapping_free(m);
}
// edit histories
static void edits() {
  const int inputs = 3; MyPaintMapping *m = mypaint_mapping_new(inputs); std::vector<std::vector<std::pair<float, float>>> cs(inputs); std::vector<std::vector<bool>> set(inputs); float base = 0; int nops = mc::thorough() ? 7 : 6;
  for (int k = 0; k < nops; k++) {
    int op = mc::choose(10);
    if (op == 0) { base = 0.5f + k; mypaint_mapping_set_base_value(m, base); mc::logf("base %g", base); }
    else if (op < 7) {   // number of points of input 0 / 1
      int in = op >= 4, n = (op - 1) % 3 == 0 ? 0 : (op - 1) % 3 == 1 ? 2 : 3; mypaint_mapping_set_n(m, in, n); mc::logf("input %d: %d points", in, n); cs[in].resize(n); set[in].resize(n); if (n == 0) set[in].clear(); }
    else {               // re-enter all points of one input with a new shape
      int in = op - 7; int n = (int)cs[in].size(); if (in == 2 && !n) { n = 4; mypaint_mapping_set_n(m, in, n); cs[in].resize(n); set[in].resize(n); }
      if (!n) mc::discard();
      mc::logf("input %d: points of step %d", in, k);
      for (int i = 0; i < n; i++) { float x = i * (k + 1) * 0.25f, y = (i & 1) ? k + 1.f : -0.5f * k; mypaint_mapping_set_point(m, in, i, x, y); cs[in][i] = {x, y}; set[in][i] = true; }
    }
    mc::step(); int used = 0; bool all = true;
    for (int in = 0; in < inputs; in++) {
      int n = (int)cs[in].size(); used += n != 0; MC_CHECK(mypaint_mapping_get_n(m, in) == n, "input %d has %d points, %d reported", in, n, mypaint_mapping_get_n(m, in));
      for (int i = 0; i < n; i++) if (set[in][i]) { float x, y; mypaint_mapping_get_point(m, in, i, &x, &y); MC_CHECK(x == cs[in][i].first && y == cs[in][i].second, "input %d point %d is (%g,%g), entered (%g,%g)", in, i, x, y, cs[in][i].first, cs[in][i].second); } else all = false;
    }
    MC_CHECK(mypaint_mapping_get_inputs_used_n(m) == used && !mypaint_mapping_is_constant(m) == !!used, "%d inputs have points, %d reported, constant=%d", used, mypaint_mapping_get_inputs_used_n(m), mypaint_mapping_is_constant(m));
    MC_CHECK(mypaint_mapping_get_base_value(m) == base, "base value %g, set to %g", mypaint_mapping_get_base_value(m), base);
    // re-entered points may leave abscissae of a shrunk curve decreasing: only evaluate well-formed curves
    for (auto &c : cs) for (size_t i = 1; i < c.size(); i++) if (c[i].first < c[i - 1].first) all = false;
    if (all) { std::vector<Curve> q(cs.begin(), cs.end()); for (float x : {-1.f, 0.f, 0.3f, 1.f, 9.f}) { eval(m, base, q, {x, 0.4f, 0.9f}); eval(m, base, q, {0.2f, x, -0.1f}); eval(m, base, q, {0.2f, 0.6f, x}); } }
  }
  mypaint_mapping_free(m);
}
int main(int argc, char **argv) {
  return mc::main(argc, argv, [] {
    mc::add("curves", 0, 4, "all curves of 2..5 (thorough 6) points with abscissa steps {0,0.3,2}, ordinates {-1,0.5,3}, evaluated at, next to, between and beyond the points", curves);
    mc::add("lengths", 0, 2, "every point count 2..64, 4 patterns (repeated abscissae included), first / middle / last input", lengths);
    mc::add("sums", 0, 2, "4 inputs x 4 curves each, 625 input vectors", sums);
    mc::add("edits", 0, 3, "all histories of 6 (thorough 7) edits out of 10: base value, point counts, re-entered points of 3 inputs", edits);
  });
}
