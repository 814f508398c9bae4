// B05 spacing, B06 sanity, B10 colour/opacity, B11 inputs, B12 positions, B13 shape: the real engine against RefBrush.
#include "refbrush.hpp"
#include <float.h>

struct Sess {
  MyPaintBrush *b; Rec rec; RefBrush ref; Tol tol; double jitter = 0;
  Sess() { b = mypaint_brush_new(); mypaint_brush_from_defaults(b); for (int i = 0; i < NI; i++) mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)S_(OPAQUE_MULTIPLY), (MyPaintBrushInput)i, 0); set_base(b, S_(OPAQUE_MULTIPLY), 1); }
  ~Sess() { mypaint_brush_unref(b); }
  void set(int s, double v) { set_base(b, s, (float)v); mc::logf("%s=%g", sname(s), v); }
  void curve(int s, int i, const Curve &c) { set_curve(b, s, i, c); if (mc::describing()) { std::string t; char q[64]; for (auto &p : c) { snprintf(q, 64, "(%g,%g)", p.first, p.second); t += q; } mc::logf("%s by %s: %s", sname(s), iname(i), t.c_str()); } }
  void begin() { ref.from(b); ref.rec = &rec; }
  std::function<bool(size_t)> did;
  void go(const Ev &e, const char *when = "event") {
    logev(e); size_t from = rec.dabs.size(); stroke(b, rec, e); ref.event(e, did); compare_dabs(ref, rec, from, tol, when, 0, jitter);
    for (size_t i = from; i < rec.dabs.size(); i++) mc::observe(mc::hbytes(&rec.dabs[i], sizeof(BDab)));
    mc::observe(rec.dabs.size());
  }
};
struct Kind { float dx, dy, p, xt, yt; double dt; float zoom, rot, barrel; };
static const Kind KINDS[] = {
  {6.3f, 2.1f, .5f, 0, 0, .02, 1, 0, 0}, {-4.7f, 5.2f, .9f, .4f, -.3f, .05, 1, 0, 0}, {1.2f, -3.4f, .2f, -.5f, -.6f, .01, 2, .7f, .3f}, {0, 0, .7f, .4f, -.3f, .08, 1, 0, 0},
  {-9.1f, -7.7f, 0, 0, 0, .09, 1, 0, 0}, {.4f, .3f, .6f, 0, .2f, .15, 1, 0, 0}, {3.3f, -6.1f, 1, -.6f, .2f, .03, .5f, -2.5f, .8f}, {11.f, 4.f, .5f, 0, 0, 6, 1, 0, 0}, {25, 14, .4f, .1f, .9f, .04, 1, .3f, -.2f},
  {-0.02f, .01f, .45f, 0, 0, 0.0004, 1, 0, 0}, {-31, 3, .35f, -1, 1, 1.5, 3, 3.1f, 1.4f}};
struct Walk { float x = 40.3f, y = 20.7f; Ev next(const Kind &k) { x += k.dx; y += k.dy; return Ev{x, y, k.p, k.xt, k.yt, k.dt, k.zoom, k.rot, k.barrel, 0}; } };
static void start(Sess &s, Walk &w, float p) { s.begin(); Ev e = mkev(w.x, w.y, p, .1); s.go(e, "first event"); }
static void play(Sess &s, int n, int nk, float p0 = .5f) { Walk w; start(s, w, p0); for (int i = 0; i < n; i++) s.go(w.next(KINDS[mc::choose(nk)]), "event"); }

// ---------------------------------------------------------------- B05
static const struct { double basic, actual, sec; } DENS[] = {{0, 2, 0}, {3, 0, 0}, {0, 0, 40}, {1.5, 2.5, 0}, {0, .3, 0}, {2, 1, 25}, {0, 0, 0}, {0.15, 0, 7}, {0, 60, 0}, {6, 0, 80}};
static void spacing_dyn(Sess &s, int d) {
  switch (d) {
    case 0: break;
    case 1: s.curve(S_(DABS_PER_ACTUAL_RADIUS), I_(PRESSURE), {{0, 0}, {1, 3}}); break;
    case 2: s.curve(S_(RADIUS_LOGARITHMIC), I_(PRESSURE), {{0, -1}, {1, 1}}); break;
    case 3: s.set(S_(ELLIPTICAL_DAB_RATIO), 3.5); s.set(S_(ELLIPTICAL_DAB_ANGLE), 30); break;
    case 4: s.curve(S_(DABS_PER_BASIC_RADIUS), I_(TILT_DECLINATION), {{0, 2}, {90, 0}}); s.curve(S_(ELLIPTICAL_DAB_RATIO), I_(PRESSURE), {{0, 1}, {1, 4}}); break;
    case 5: s.curve(S_(DABS_PER_SECOND), I_(PRESSURE), {{0, 60}, {.5, 10}, {1, 30}}); s.curve(S_(ELLIPTICAL_DAB_ANGLE), I_(BARREL_ROTATION), {{-180, -90}, {180, 90}}); s.set(S_(ELLIPTICAL_DAB_RATIO), 2); break;
    case 6: s.tol.pos = .08; s.tol.rel = 8e-3; s.curve(S_(DABS_PER_ACTUAL_RADIUS), I_(PRESSURE), {{0, -3}, {1, 3}}); break;   // negative densities count as no dabs
  }
}
static void b05_spacing() {
  Sess s; int nd = mc::choose_t(10, 8); s.set(S_(DABS_PER_BASIC_RADIUS), DENS[nd].basic); s.set(S_(DABS_PER_ACTUAL_RADIUS), DENS[nd].actual); s.set(S_(DABS_PER_SECOND), DENS[nd].sec);
  static const double R[] = {.8, -.5, 2.2, -2, 4}; double rad = R[mc::choose_t(5, 4)]; s.set(S_(RADIUS_LOGARITHMIC), rad); int dyn = rad < -1 ? 3 * mc::choose(2) : mc::choose(7); if (dyn) s.tol.pos = .02, s.tol.rel = 4e-3, s.tol.ang = .3; spacing_dyn(s, dyn); for (int k : {S_(LOCK_ALPHA), S_(COLORIZE), S_(POSTERIZE)}) s.set(k, 0);
  s.curve(S_(LOCK_ALPHA), I_(PRESSURE), {{0, 0}, {1, 1}}); s.curve(S_(COLORIZE), I_(TILT_DECLINATIONX), {{-60, 0}, {60, 1}}); s.curve(S_(POSTERIZE), I_(TILT_DECLINATION), {{0, 0}, {90, 1}});
  play(s, mc::thorough() ? 4 : 3, mc::thorough() ? 11 : 9);
}
// Lifting the pen and coming back: a pause is travelled without pressure, whatever the little pressure left at its start.
static void b05_resume() {
  Sess s; static const int DN[] = {0, 3, 5, 2}; int nd = DN[mc::choose(4)]; s.set(S_(DABS_PER_BASIC_RADIUS), DENS[nd].basic); s.set(S_(DABS_PER_ACTUAL_RADIUS), DENS[nd].actual); s.set(S_(DABS_PER_SECOND), DENS[nd].sec); s.set(S_(RADIUS_LOGARITHMIC), 1);
  for (int k : {S_(LOCK_ALPHA), S_(POSTERIZE)}) s.set(k, 0); s.curve(S_(LOCK_ALPHA), I_(PRESSURE), {{0, 0}, {1, 1}}); s.curve(S_(POSTERIZE), I_(TILT_DECLINATION), {{0, 0}, {90, 1}});
  static const float P[] = {0, 5e-4f, .5f}; static const double DT[] = {.02, .095, .105, .3}; Walk w; start(s, w, .5f);
  for (int i = 0; i < 3; i++) { w.x += i == 1 ? -5.3f : 9.1f; w.y += i == 2 ? -6.4f : 3.2f; Ev e = mkev(w.x, w.y, mc::pick(P), 0); e.dt = mc::pick(DT); e.xt = i == 1 ? .4f : 0; s.go(e); }
}
// Independent closed form: a straight constant motion after a reset, cut at any subset of cut points.
static void b05_cuts() {
  Sess s; int nd = mc::choose(8); double bd = DENS[nd].basic, ad = DENS[nd].actual, sd = DENS[nd].sec; s.set(S_(DABS_PER_BASIC_RADIUS), bd); s.set(S_(DABS_PER_ACTUAL_RADIUS), ad); s.set(S_(DABS_PER_SECOND), sd);
  double rl = mc::choose(2) ? 1.7 : .4; s.set(S_(RADIUS_LOGARITHMIC), rl); double r = exp(rl), rb = r;
  bool ell = mc::flip(); double ar = 1, an = 0; if (ell) { ar = 2.5; an = 25; s.set(S_(ELLIPTICAL_DAB_RATIO), ar); s.set(S_(ELLIPTICAL_DAB_ANGLE), an); }
  static const struct { double x, y, t; } MV[] = {{37, 11, .09}, {-8, 23.5, .05}, {.3, -.2, .08}, {61, -40, .09}}; auto m = MV[mc::choose(4)];
  static const double CUT[] = {.07, .2, .5, .52, .7, .93}; std::vector<double> at; for (double c : CUT) if (mc::choose(2)) at.push_back(c); at.push_back(1); mc::logf("motion %g,%g in %gs cut into %zu events", m.x, m.y, m.t, at.size());
  s.curve(S_(LOCK_ALPHA), I_(PRESSURE), {{0, 0}, {1, 1}}); s.curve(S_(COLORIZE), I_(TILT_DECLINATIONY), {{-60, 0}, {60, 1}});
  double x0 = 12.5, y0 = -7.25, p0 = .2, p1 = .8; Ev e = mkev((float)x0, (float)y0, (float)p0, .1); logev(e); stroke(s.b, s.rec, e);
  // settle the state that depends on the first simulation step (dab shape), then move
  e.dt = .01; stroke(s.b, s.rec, e); double carry = 0, pt0 = 0; size_t n0 = s.rec.dabs.size(); { double k = sd * .01; carry = k - floor(k); MC_CHECK(n0 == (size_t)floor(k), "resting for 0.01 s gave %zu dabs", n0); }
  double q = 0; for (double f : at) { Ev g = mkev((float)(x0 + f * m.x), (float)(y0 + f * m.y), (float)(p0 + f * (p1 - p0)), (f - q) * m.t); g.yt = (float)(f * .6); q = f; logev(g); stroke(s.b, s.rec, g); } (void)pt0;
  double u = m.x * cos(rrad(an)) + m.y * sin(rrad(an)), w = (m.y * cos(rrad(an)) - m.x * sin(rrad(an))) * ar, dist = ell ? hypot(u, w) : hypot(m.x, m.y);
  double total = dist / rb * bd + dist / r * ad + m.t * sd, want = floor(carry + total + 1e-9); if (fabs(carry + total - floor(carry + total + .5)) < 1e-3 * (1 + total)) mc::discard();
  MC_CHECK(s.rec.dabs.size() - n0 == (size_t)want, "%zu dabs along the motion, the spacing prescribes %g", s.rec.dabs.size() - n0, want);
  for (size_t i = n0; i < s.rec.dabs.size(); i++) {
    double f = (i - n0 + 1 - carry) / total; BDab &d = s.rec.dabs[i]; mc::observe_f(d.x);
    MC_CHECK(fabs(d.x - (x0 + f * m.x)) < 4e-3 && fabs(d.y - (y0 + f * m.y)) < 4e-3, "dab %zu lies at %g,%g, should be at %g,%g", i - n0, d.x, d.y, x0 + f * m.x, y0 + f * m.y);
    MC_CHECK(fabs(d.lock - (p0 + f * (p1 - p0))) < 2e-3, "dab %zu sees pressure %g, should be %g", i - n0, d.lock, p0 + f * (p1 - p0));
    MC_CHECK(fabs(d.colorize - (.5 + f * .3)) < 2e-3, "dab %zu sees tilt %g, should be %g", i - n0, (d.colorize - .5) * 120, f * 36);
  }
}
// After every event the pointer state is where the event was, wherever the last dab fell.
// Very long motions: thousands of dabs between two events, in one piece or in several.
static void b05_far() {
  static const double LEN[] = {150, 700, 2600}; static const int PARTS[] = {1, 2, 7}; double len = LEN[mc::choose(3)]; int parts = PARTS[mc::choose(3)], dir = mc::choose(3), kind = mc::choose(3); double dt = mc::choose(2) ? 4.9 : .05;
  Sess s; s.rec.limit = 400000; double rl = kind == 2 ? -1 : 0, dens = kind == 0 ? 6 : kind == 1 ? 2 : 4, sec = kind == 1 ? 80 : 0, r = exp(rl); s.set(S_(RADIUS_LOGARITHMIC), rl); s.set(S_(DABS_PER_BASIC_RADIUS), kind == 1 ? 1 : 0); s.set(S_(DABS_PER_ACTUAL_RADIUS), kind == 1 ? 1 : dens); s.set(S_(DABS_PER_SECOND), sec);
  double ux = dir == 0 ? 1 : dir == 1 ? 0 : -.6, uy = dir == 0 ? 0 : dir == 1 ? -1 : .8; mc::logf("%g pixels in %g s in %d parts", len, dt, parts);
  stroke(s.b, s.rec, mkev(5, 7, .5f, .1)); stroke(s.b, s.rec, mkev(5, 7, .5f, .01)); size_t n0 = s.rec.dabs.size();
  for (int k = 1; k <= parts; k++) { Ev e = mkev((float)(5 + ux * len * k / parts), (float)(7 + uy * len * k / parts), .5f, dt / parts); logev(e); stroke(s.b, s.rec, e); }
  double want = len / r * dens + dt * sec, got = (double)(s.rec.dabs.size() - n0); MC_CHECK(fabs(got - want) <= 2 + 2e-3 * want, "%g dabs along a motion of %g pixels in %g s, the spacing prescribes about %g", got, len, dt, want);
  double step = len / want, prev = -1; for (size_t i = n0; i < s.rec.dabs.size(); i++) { BDab &d = s.rec.dabs[i]; double t = (d.x - 5) * ux + (d.y - 7) * uy, off = (d.y - 7) * ux - (d.x - 5) * uy; MC_CHECK(fabs(off) < .25, "dab %zu lies %g beside the way", i - n0, off); if (prev >= 0) MC_CHECK(fabs(t - prev - step) < .05 * step + 2e-3, "dabs %zu and %zu are %g apart, should be %g", i - n0 - 1, i - n0, t - prev, step); prev = t; }
  if (got > 0) MC_CHECK(len - prev < 1.1 * step + .3, "the last dab lies %g before the end of the motion, dabs are %g apart", len - prev, step); mc::observe((uint64_t)got);
}
static void b05_arrive() {
  Sess s; int nd = mc::choose(7); s.set(S_(DABS_PER_BASIC_RADIUS), DENS[nd].basic); s.set(S_(DABS_PER_ACTUAL_RADIUS), DENS[nd].actual); s.set(S_(DABS_PER_SECOND), DENS[nd].sec); s.set(S_(RADIUS_LOGARITHMIC), 1);
  Walk w; start(s, w, .5f);
  for (int i = 0; i < 3; i++) {
    Ev e = w.next(KINDS[mc::choose(11)]); s.go(e);
    auto st = [&](int k) { return (double)mypaint_brush_get_state(s.b, (MyPaintBrushState)k); };
    MC_CHECK(fabs(st(ST_(X)) - e.x) < 1e-4 && fabs(st(ST_(Y)) - e.y) < 1e-4, "after the event the pointer is at %g,%g, not %g,%g", st(ST_(X)), st(ST_(Y)), e.x, e.y);
    MC_CHECK(fabs(st(ST_(PRESSURE)) - e.p) < 1e-5, "after the event the pressure is %g, not %g", st(ST_(PRESSURE)), e.p);
    double pd = st(ST_(PARTIAL_DABS)); MC_CHECK(pd >= 0 && pd < 1.0001 && fabs(pd - s.ref.part) < 2e-3, "carried fraction of a dab %g, should be %g", pd, s.ref.part);
  }
}
// ---------------------------------------------------------------- B06
static bool inr(double v, double a, double b) { return v >= a - 1e-4 && v <= b + 1e-4; }   // false for NaN
static void sane(const Rec &r, size_t from, bool limits = true) {
  for (size_t i = from; i < r.dabs.size(); i++) {
    const BDab &d = r.dabs[i]; mc::observe(mc::hbytes(&d, sizeof d));
    MC_CHECK(std::isfinite(d.x) && std::isfinite(d.y), "dab at %g,%g", d.x, d.y);
    MC_CHECK(std::isfinite(d.r) && d.r > 0 && d.r <= 1100, "dab with radius %g", d.r);
    MC_CHECK(inr(d.opaque, 0, 1), "dab with opacity %g", d.opaque); MC_CHECK(std::isfinite(d.hardness) && d.hardness <= 1.0001, "dab with hardness %g", d.hardness); MC_CHECK(inr(d.softness, 0, 1), "dab with softness %g", d.softness);
    MC_CHECK(inr(d.cr, 0, 1) && inr(d.cg, 0, 1) && inr(d.cb, 0, 1), "dab with colour %g,%g,%g", d.cr, d.cg, d.cb);
    MC_CHECK(limits ? inr(d.alpha, 0, 1) : std::isfinite(d.alpha), "dab with target alpha %g", d.alpha); MC_CHECK(std::isfinite(d.angle), "dab with angle %g", d.angle);
    MC_CHECK(std::isfinite(d.aspect) && d.aspect >= 1, "dab with aspect ratio %g", d.aspect);
    if (!limits) MC_CHECK(std::isfinite(d.lock) && std::isfinite(d.colorize) && std::isfinite(d.posterize) && std::isfinite(d.pnum) && std::isfinite(d.paint), "dab with mode strengths %g %g %g %g %g", d.lock, d.colorize, d.posterize, d.pnum, d.paint);
    else MC_CHECK(inr(d.lock, 0, 1) && inr(d.colorize, 0, 1) && inr(d.posterize, 0, 1) && std::isfinite(d.pnum) && inr(d.paint, 0, 1), "dab with mode strengths %g %g %g %g %g", d.lock, d.colorize, d.posterize, d.pnum, d.paint);
  }
  for (auto &q : r.reads) MC_CHECK(std::isfinite(q.x) && std::isfinite(q.y) && q.r > 0 && q.r <= 1000.1, "colour read at %g,%g radius %g", q.x, q.y, q.r);
}
static const float BADX[] = {NAN, INFINITY, -INFINITY, 1e30f, FLT_MAX, -1e9f, 1e8f, 9.9e7f, -9.9e7f, 3e6f, 1e-40f}, BADP[] = {NAN, INFINITY, -INFINITY, -1, 1e30f, FLT_MAX, 1e-40f, 5}, BADT[] = {NAN, INFINITY, -INFINITY, 1e30f, -FLT_MAX, 1e-40f, -5}, BADZ[] = {NAN, INFINITY, -INFINITY, 0, -1, 1e-40f, FLT_MIN, FLT_MAX, 1e20f, 1e-20f, 1e4f}, BADR[] = {NAN, INFINITY, -INFINITY, 1e30f, FLT_MAX, -FLT_MAX, 1e6f};
static const double BADDT[] = {NAN, INFINITY, -INFINITY, -1, 0, 1e-300, 1e-40, 1e-7, 4.9, 5.1, 1e6, DBL_MAX};
template <class T, size_t N> static void maybe_bad(T &v, const T (&a)[N]) { int k = mc::choose_dev((int)N + 1); if (k) v = a[k - 1]; }
static void rich(Sess &s, int v) {   // brushes whose dabs depend on everything an event can influence
  static const struct { int set, in; Curve c; } RC[] = {
    {S_(LOCK_ALPHA), I_(PRESSURE), {{0, 0}, {1, 1}}}, {S_(COLORIZE), I_(SPEED1), {{0, 0}, {4, 1}}}, {S_(OPAQUE), I_(SPEED2), {{0, -.5}, {4, .5}}}, {S_(HARDNESS), I_(STROKE), {{0, -.8}, {1, .2}}}, {S_(ELLIPTICAL_DAB_ANGLE), I_(DIRECTION), {{0, 0}, {180, 180}}},
    {S_(OFFSET_X), I_(TILT_ASCENSION), {{-180, -1}, {180, 1}}}, {S_(OFFSET_Y), I_(TILT_DECLINATION), {{0, 0}, {90, 2}}}, {S_(RADIUS_LOGARITHMIC), I_(VIEWZOOM), {{-3, -1}, {4, 1}}}, {S_(CHANGE_COLOR_H), I_(ATTACK_ANGLE), {{-180, -1}, {180, 1}}},
    {S_(CHANGE_COLOR_V), I_(BARREL_ROTATION), {{-180, -1}, {180, 1}}}, {S_(SMUDGE), I_(GRIDMAP_X), {{0, 0}, {256, 1}}}, {S_(OFFSET_ANGLE), I_(CUSTOM), {{-1, -1}, {1, 1}}}, {S_(CHANGE_COLOR_L), I_(TILT_DECLINATIONX), {{-90, -1}, {90, 1}}}, {S_(CHANGE_COLOR_HSL_S), I_(DIRECTION_ANGLE), {{0, 0}, {360, 1}}}, {S_(OFFSET_ANGLE_ADJ), I_(TILT_DECLINATIONY), {{-90, -10}, {90, 10}}}};
  s.set(S_(RADIUS_LOGARITHMIC), 1.2); s.set(S_(COLOR_S), .7); s.set(S_(COLOR_V), .6); s.set(S_(COLOR_H), .3);
  if (v == 0) { s.set(S_(OFFSET_BY_SPEED), .7); s.set(S_(SLOW_TRACKING), 1); return; }
  if (v == 1) { s.set(S_(DABS_PER_SECOND), 30); s.set(S_(DABS_PER_ACTUAL_RADIUS), .5); s.set(S_(SLOW_TRACKING_PER_DAB), 2); s.set(S_(OFFSET_BY_SPEED), -1); s.set(S_(OFFSET_ANGLE), 1); s.set(S_(OFFSET_ANGLE_ASC), 1); s.set(S_(OFFSET_ANGLE_2_VIEW), 1); }
  if (v == 3) { s.set(S_(TRACKING_NOISE), 1); s.set(S_(OFFSET_BY_RANDOM), 1); s.set(S_(RADIUS_BY_RANDOM), .5); s.set(S_(SMUDGE), .5); s.set(S_(SNAP_TO_PIXEL), 1); s.set(S_(OPAQUE_LINEARIZE), .9); }
  s.set(S_(CUSTOM_INPUT), 0); s.set(S_(CUSTOM_INPUT_SLOWNESS), 2); set_curve(s.b, S_(CUSTOM_INPUT), I_(PRESSURE), {{0, 0}, {1, 1}}); if (v >= 1) for (auto &r : RC) set_curve(s.b, r.set, r.in, r.c);
  mc::logf("curves over every input");
}
static void clampsettings(Sess &) {}
// Insane values at every position of a history (bounded number of insane fields), then a reset: the same as a brush that never saw them.
static void b06_events() {
  Sess s; clampsettings(s); static const int VS[] = {1, 3, 0}; int v = VS[mc::choose(mc::thorough() ? 3 : 2)];
  rich(s, v); if (v == 3) for (int k : {S_(LOCK_ALPHA)}) s.set(k, 0);
  // coarse spacing: the engine issues one dab per so many pixels, however far the pointer jumps
  set_base(s.b, S_(DABS_PER_ACTUAL_RADIUS), v ? 3e-6 : 1e-5); set_base(s.b, S_(DABS_PER_SECOND), v == 1 ? 3 : 0); s.rec.limit = 2000000;
  bool simple = v == 0; Walk w; w.x = 30.5f; w.y = 20.5f; Ev e0 = mkev(w.x, w.y, .5f, .1);
  int n = 3; for (int i = 0; i < n; i++) {
    Ev e = i ? w.next(KINDS[i == 1 ? 8 : 1]) : e0;
    maybe_bad(e.x, BADX); maybe_bad(e.y, BADX); maybe_bad(e.p, BADP); maybe_bad(e.xt, BADT); maybe_bad(e.yt, BADT); maybe_bad(e.dt, BADDT); maybe_bad(e.zoom, BADZ); maybe_bad(e.rot, BADR); maybe_bad(e.barrel, BADR); e.linear = simple;
    logev(e); size_t from = s.rec.dabs.size(); stroke(s.b, s.rec, e); sane(s.rec, from, simple);
  }
  // ordinary motion: one event back at coarse spacing (the pointer may be anywhere), then dabs
  for (int i = 0; i < 3; i++) { Ev e = mkev(30.f + 7 * i, 20.f - 3 * i, .6f, .03); if (i == 0) set_base(s.b, S_(SLOW_TRACKING), 0); else set_base(s.b, S_(DABS_PER_ACTUAL_RADIUS), 1); logev(e); size_t from = s.rec.dabs.size(); stroke(s.b, s.rec, e); sane(s.rec, from, simple); }
  set_base(s.b, S_(DABS_PER_ACTUAL_RADIUS), 2); 
  if (!mc::flip()) { // ordinary events right after
    Ev e = mkev(30, 20, 0, 5.5); logev(e); stroke(s.b, s.rec, e);
  } else { mc::logf("reset"); mypaint_brush_reset(s.b); Ev e = mkev(30, 20, 0, .1); logev(e); stroke(s.b, s.rec, e); }
  if (v == 3) return;
  for (int i = 0; i < NST; i++) { float q = mypaint_brush_get_state(s.b, (MyPaintBrushState)i); MC_CHECK(std::isfinite(q), "state %d is %g after the stroke was restarted", i, q); }
  // a brush that never saw the insane values
  Sess c; { RefBrush cp; cp.from(s.b); for (int i = 0; i < NS; i++) { ::set_base(c.b, i, (float)cp.base[i]); for (int k = 0; k < NI; k++) set_curve(c.b, i, k, cp.curve[i][k]); } }
  stroke(c.b, c.rec, mkev(30, 20, 0, .1)); size_t f1 = s.rec.dabs.size(), f2 = c.rec.dabs.size();
  for (auto &k : {mkev(42, 25, .7f, .05), mkev(45, 15, .4f, .05)}) { stroke(s.b, s.rec, k); stroke(c.b, c.rec, k); }
  MC_CHECK(s.rec.dabs.size() - f1 == c.rec.dabs.size() - f2, "after the restart %zu dabs, a fresh brush issues %zu", s.rec.dabs.size() - f1, c.rec.dabs.size() - f2);
  for (size_t i = 0; i + f1 < s.rec.dabs.size(); i++) for (int k = 0; k < 17; k++) { double a = (&s.rec.dabs[f1 + i].x)[k], b = (&c.rec.dabs[f2 + i].x)[k]; MC_CHECK(fabs(a - b) <= 1e-4 * (1 + fabs(b)), "after the restart dab %zu has %s=%g, a fresh brush's has %g", i, DABF[k], a, b); }
  sane(s.rec, f1, simple);
}
// Without a restart: after an insane event in the middle, ordinary events keep giving sane dabs, and an insane value other than a position leaves the pointer where the events put it.
static void b06_after() {
  Sess s; int v = mc::choose(2); rich(s, v); set_base(s.b, S_(SLOW_TRACKING), 0); set_base(s.b, S_(DABS_PER_ACTUAL_RADIUS), 1e-3); set_base(s.b, S_(DABS_PER_SECOND), 10);
  Walk w; stroke(s.b, s.rec, mkev(w.x, w.y, .5f, .1)); bool moved = false;
  for (int i = 0; i < 4; i++) {
    Ev e = w.next(KINDS[i == 0 ? 0 : i == 1 ? 8 : i == 2 ? 1 : 2]); if (i == 1) { maybe_bad(e.p, BADP); maybe_bad(e.xt, BADT); maybe_bad(e.yt, BADT); maybe_bad(e.dt, BADDT); maybe_bad(e.zoom, BADZ); maybe_bad(e.rot, BADR); maybe_bad(e.barrel, BADR); }
    if (i == 2) { set_base(s.b, S_(DABS_PER_ACTUAL_RADIUS), 1); moved = true; } logev(e); size_t from = s.rec.dabs.size(); stroke(s.b, s.rec, e); sane(s.rec, from, v == 0);
    double X = mypaint_brush_get_state(s.b, (MyPaintBrushState)ST_(X)), Y = mypaint_brush_get_state(s.b, (MyPaintBrushState)ST_(Y)); MC_CHECK(fabs(X - e.x) < 1e-3 && fabs(Y - e.y) < 1e-3, "the pointer is at %g,%g, the event was at %g,%g", X, Y, e.x, e.y);
  } (void)moved;
}
// Settings at their documented limits, alone, in pairs (and triples), with curves driving them, ordinary events.
static void limit_brush(Sess &s, int nset) {
  int last = -1; for (int i = 0; i < nset; i++) { int k = last + 1 + mc::choose(NS - last - 1 - (nset - 1 - i)); last = k; const MyPaintBrushSettingInfo *f = mypaint_brush_setting_info((MyPaintBrushSetting)k); s.set(k, mc::flip() ? f->max : f->min); }
}
static void limit_events(Sess &s, const Kind *ks, int n) { Walk w; stroke(s.b, s.rec, mkev(w.x, w.y, .5f, .1)); for (int i = 0; i < n; i++) { Ev e = w.next(ks[i]); logev(e); size_t from = s.rec.dabs.size(); stroke(s.b, s.rec, e); sane(s.rec, from); } }
static const Kind SMALL[] = {{.5f, .2f, .6f, .3f, .2f, .02, 1, .4f, .2f}, {-.3f, .6f, 1, -.9f, .9f, .03, 2, -.4f, .7f}, {0, 0, .8f, 0, 0, .05, 1, 0, 0}, {6, -3, .3f, .1f, 0, .01, .3f, 3, 0}};
static std::function<void(BRead &)> CANVAS[] = {[](BRead &q) { q.c[0] = 1; q.c[1] = .25f; q.c[2] = 0; q.c[3] = 1; }, [](BRead &q) { q.c[0] = q.c[1] = q.c[2] = 0; q.c[3] = 0; }, [](BRead &q) { q.c[0] = .2f; q.c[1] = .9f; q.c[2] = .4f; q.c[3] = .5f; }};
static void b06_limits() {
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), .5); s.set(S_(SMUDGE), mc::flip() ? .5 : 0); s.set(S_(OPAQUE), .7); s.rec.color = CANVAS[mc::choose(mc::thorough() ? 3 : 1)]; limit_brush(s, mc::thorough() ? 3 : 2); limit_events(s, SMALL, 3);
  // a motion of eight (base) radii: dabs also with large brushes and sparse spacing, so that random settings take many values
  double rad = std::min(std::max(exp(s.ref.base[S_(RADIUS_LOGARITHMIC)]), .2), 1000.); Ev e = mkev(20 + 8 * rad, 10 - 3 * rad, .6f, .3); logev(e); size_t from = s.rec.dabs.size(); stroke(s.b, s.rec, e); sane(s.rec, from);
}
// The random settings against each other, at both limits and in the middle, with every size of brush.
static void b06_random() {
  Sess s; static const double RA[] = {-2, .5, 3, 6}; s.set(S_(RADIUS_LOGARITHMIC), RA[mc::choose(4)]); s.set(S_(OPAQUE), .7); static const int K[] = {S_(RADIUS_BY_RANDOM), S_(OFFSET_BY_RANDOM), S_(TRACKING_NOISE), S_(OPAQUE_LINEARIZE)};
  for (int k : K) { const MyPaintBrushSettingInfo *f = mypaint_brush_setting_info((MyPaintBrushSetting)k); int c = mc::choose(3); s.set(k, c == 0 ? f->min : c == 1 ? (f->min + f->max) / 2 : f->max); }
  if (mc::flip()) { s.set(S_(SMUDGE), .5); s.set(S_(SMUDGE_RADIUS_LOG), 1.6); s.rec.color = CANVAS[0]; } if (mc::flip()) s.set(S_(SNAP_TO_PIXEL), 1); if (mc::flip()) { s.curve(S_(RADIUS_LOGARITHMIC), I_(RANDOM), {{0, -2}, {1, 6}}); s.curve(S_(ELLIPTICAL_DAB_RATIO), I_(RANDOM), {{0, 0}, {1, 10}}); }
  Walk w; stroke(s.b, s.rec, mkev(w.x, w.y, .5f, .1)); double rad = exp(s.ref.base[S_(RADIUS_LOGARITHMIC)]);
  for (int i = 0; i < 3; i++) { Ev e = mkev(20 + (i % 2 ? -1 : 1) * 20 * rad, 10 - 3 * rad * i, .3f + .3f * i, .3); logev(e); size_t from = s.rec.dabs.size(); stroke(s.b, s.rec, e); sane(s.rec, from); }
}
static void b06_curves() {   // each setting driven from limit to limit by each input, others ordinary / rich
  Sess s; int k = mc::choose(NS), i = mc::choose(NI); const MyPaintBrushSettingInfo *f = mypaint_brush_setting_info((MyPaintBrushSetting)k); const MyPaintBrushInputInfo *g = mypaint_brush_input_info((MyPaintBrushInput)i);
  if (mc::flip()) rich(s, 1); else { s.set(S_(RADIUS_LOGARITHMIC), .5); s.set(S_(SMUDGE), .5); s.set(S_(OPAQUE), .7); } s.rec.color = CANVAS[mc::choose(3)];
  bool up = mc::flip(); s.set(k, 0); set_curve(s.b, k, i, {}); Curve c = {{g->soft_min, up ? f->min : f->max}, {g->soft_max, up ? f->max : f->min}}; s.curve(k, i, c);
  Walk w; stroke(s.b, s.rec, mkev(w.x, w.y, .5f, .1));
  static const bool inside[] = {true, true, true}; (void)inside;
  for (int n = 0; n < 3; n++) { Ev e = w.next(SMALL[n]); logev(e); size_t from = s.rec.dabs.size(); stroke(s.b, s.rec, e);
    // the input may leave its soft range (speed, stroke): only what the engine must guarantee for any setting value
    for (size_t d = from; d < s.rec.dabs.size(); d++) { BDab &q = s.rec.dabs[d]; mc::observe_f(q.opaque); MC_CHECK(std::isfinite(q.x) && std::isfinite(q.y) && std::isfinite(q.r) && q.r > 0 && q.r < 1100 && inr(q.opaque, 0, 1) && std::isfinite(q.hardness) && q.hardness <= 1.0001 && inr(q.softness, 0, 1) && inr(q.cr, 0, 1) && inr(q.cg, 0, 1) && inr(q.cb, 0, 1) && std::isfinite(q.angle) && std::isfinite(q.aspect), "dab at %g,%g radius %g opacity %g hardness %g softness %g colour %g,%g,%g angle %g aspect %g", q.x, q.y, q.r, q.opaque, q.hardness, q.softness, q.cr, q.cg, q.cb, q.angle, q.aspect); } }
}
static void b06_steep() {   // curves may leave the limits of the setting: every setting far outside of them, alone and on top of a rich brush
  Sess s; int k = mc::choose(NS); static const float V[] = {30, 300, 1e6f, 1e30f}; float v = mc::pick(V); if (mc::flip()) v = -v;
  if (mc::flip()) rich(s, 1); else { s.set(S_(RADIUS_LOGARITHMIC), .5); s.set(S_(SMUDGE), .5); s.set(S_(OPAQUE), .7); s.set(S_(OFFSET_X), .4); s.set(S_(OFFSET_BY_RANDOM), .2); } s.rec.color = CANVAS[mc::choose(3)];
  if (k == S_(DABS_PER_ACTUAL_RADIUS) || k == S_(DABS_PER_BASIC_RADIUS) || k == S_(DABS_PER_SECOND) || k == S_(ELLIPTICAL_DAB_RATIO)) { if (fabsf(v) > (mc::thorough() ? 300 : 30)) mc::discard(); }   // as many dabs as were asked for
  s.rec.limit = 3000000; set_curve(s.b, k, I_(PRESSURE), {}); s.curve(k, I_(PRESSURE), {{.3f, 0}, {.6f, v}}); bool aa = k == S_(ANTI_ALIASING);
  if (mc::thorough()) { int k2 = mc::choose(NS + 1); if (k2 == k) mc::discard(); if (k2 < NS) { static const float V2[] = {-1e30f, -200, 200, 1e30f}; float v2 = mc::pick(V2); if (aa || k2 == S_(ANTI_ALIASING)) aa = true; if (k2 == S_(DABS_PER_ACTUAL_RADIUS) || k2 == S_(DABS_PER_BASIC_RADIUS) || k2 == S_(DABS_PER_SECOND) || k2 == S_(ELLIPTICAL_DAB_RATIO)) mc::discard(); set_curve(s.b, k2, I_(PRESSURE), {}); s.curve(k2, I_(PRESSURE), {{.3f, 0}, {.6f, v2}}); } }
  Walk w; stroke(s.b, s.rec, mkev(w.x, w.y, .5f, .1));
  for (int n = 0; n < 4; n++) { Ev e = w.next(SMALL[n]); logev(e); size_t from = s.rec.dabs.size(); stroke(s.b, s.rec, e);
    for (size_t d = from; d < s.rec.dabs.size(); d++) { BDab &q = s.rec.dabs[d]; mc::observe_f(q.opaque); mc::observe_f(q.r); mc::observe_f(q.x); mc::observe_f(q.cr); MC_CHECK(std::isfinite(q.x) && std::isfinite(q.y) && std::isfinite(q.r) && q.r > 0 && q.r < 1100 + (aa ? 1e32f : 0) && inr(q.opaque, 0, 1) && std::isfinite(q.hardness) && q.hardness <= 1.0001 && inr(q.softness, 0, 1) && inr(q.cr, 0, 1) && inr(q.cg, 0, 1) && inr(q.cb, 0, 1) && std::isfinite(q.angle) && std::isfinite(q.aspect), "dab at %g,%g radius %g opacity %g hardness %g softness %g colour %g,%g,%g angle %g aspect %g", q.x, q.y, q.r, q.opaque, q.hardness, q.softness, q.cr, q.cg, q.cb, q.angle, q.aspect); } }
  // and back to ordinary pressures on a clean start: nothing of it remains
  mypaint_brush_reset(s.b); s.rec.dabs.clear();
  for (int n = 0; n < 2; n++) { Ev e = mkev(5 + 3 * n, 5, .2f, .02); stroke(s.b, s.rec, e); }
  for (BDab &q : s.rec.dabs) MC_CHECK(std::isfinite(q.x) && std::isfinite(q.y) && std::isfinite(q.r) && std::isfinite(q.cr) && std::isfinite(q.opaque), "after a reset: dab at %g,%g radius %g opacity %g colour %g", q.x, q.y, q.r, q.opaque, q.cr);
}
static void b06_dense() {   // densest documented spacing, smallest brush, any distance from the origin: terminates, in order along the motion
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), mc::flip() ? -2 : 0); s.set(S_(DABS_PER_ACTUAL_RADIUS), 200); s.set(S_(DABS_PER_BASIC_RADIUS), mc::flip() ? 200 : 0); if (mc::flip()) { s.set(S_(ELLIPTICAL_DAB_RATIO), 10); s.set(S_(ELLIPTICAL_DAB_ANGLE), 60); }
  static const float AT[] = {0, 12, 1000, 30000, 1e6f, 4e7f, -30000}; float x = AT[mc::choose(7)], y = AT[mc::choose(7)]; static const float D[] = {.01f, .3f, 1, 4}; float d = D[mc::choose(4)]; int dir = mc::choose(4); float dx = dir == 0 ? d : dir == 1 ? -d : dir == 2 ? 0 : d * .7f, dy = dir == 2 ? d : dir == 3 ? -d * .7f : 0; s.rec.limit = 3000000;
  stroke(s.b, s.rec, mkev(x, y, .5f, .1)); Ev e = mkev(x + dx, y + dy, .5f, .02); logev(e); stroke(s.b, s.rec, e); 
  double len = hypot((double)e.x - x, (double)e.y - y), px = -1;
  for (auto &q : s.rec.dabs) { double t = len > 0 ? ((q.x - x) * ((double)e.x - x) + (q.y - y) * ((double)e.y - y)) / len : 0, ul = std::max(fabs(x), fabs(y)) * 2.4e-7 + 1e-4; MC_CHECK(t >= -.05 * len - 4 * ul && t <= 1.05 * len + 4 * ul && hypot(q.x - x, q.y - y) <= 1.05 * len + 8 * ul, "dab at %g,%g is not on the way from %g,%g to %g,%g", q.x, q.y, x, y, e.x, e.y); px = t; }
  mc::observe(s.rec.dabs.size());
}
// ---------------------------------------------------------------- B10
static void run3(Sess &s, int linear = 0, bool more = false) {
  Walk w; s.begin(); Ev e = mkev(w.x, w.y, .5f, .1); s.go(e, "first event"); static const int K[] = {0, 1, 8};
  for (int i = 0; i < (more ? 3 : 2); i++) { Ev q = w.next(KINDS[K[i]]); q.linear = linear; s.go(q); }
  if (!s.ref.dabs.size()) mc::fail("the stroke issued no dab at all");
}
static void b10_color() {
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), 1); s.tol.col = 4e-3; static const double H[] = {0, .13, .34, .5, .72, .99}, SV[] = {0, .3, .8, 1, -.5, 1.5}, CH[] = {0, .2, -.35, 1.3}, CS[] = {0, .6, -.7, 2}, CV[] = {0, .25, -.4};
  s.set(S_(COLOR_H), mc::pick(H)); s.set(S_(COLOR_S), SV[mc::choose_t(6, 4)]); s.set(S_(COLOR_V), SV[mc::choose_t(6, 4)]);
  int fam = mc::choose(mc::thorough() ? 3 : 2);
  if (fam != 1) { s.set(S_(CHANGE_COLOR_H), CH[mc::choose(fam == 2 ? 2 : 4)]); s.set(S_(CHANGE_COLOR_HSV_S), CS[mc::choose(fam == 2 ? 3 : 4)]); s.set(S_(CHANGE_COLOR_V), CV[mc::choose(fam == 2 ? 2 : 3)]); }
  if (fam != 0) { s.set(S_(CHANGE_COLOR_L), CV[mc::choose(3)]); s.set(S_(CHANGE_COLOR_HSL_S), CS[mc::choose(fam == 2 ? 3 : 4)]); }
  int lin = mc::choose(2); run3(s, lin);
}
static void b10_colordyn() {   // changes driven by pressure, together with a smudged colour
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), 1); s.set(S_(COLOR_H), .6); s.set(S_(COLOR_S), .7); s.set(S_(COLOR_V), .8); static const int CS[] = {S_(CHANGE_COLOR_H), S_(CHANGE_COLOR_L), S_(CHANGE_COLOR_HSL_S), S_(CHANGE_COLOR_V), S_(CHANGE_COLOR_HSV_S)};
  int a = mc::choose(5), b = mc::choose(5); s.curve(CS[a], I_(PRESSURE), mc::flip() ? Curve{{0, -.5}, {1, .5}} : Curve{{0, .3}, {1, 0}}); if (b != a) s.curve(CS[b], I_(PRESSURE), {{0, 0}, {.5, .4}, {1, -.2}});
  if (mc::flip()) { s.set(S_(SMUDGE), .6); s.set(S_(PAINT_MODE), mc::flip()); s.rec.color = CANVAS[mc::choose(3)]; } else s.set(S_(PAINT_MODE), 0);
  s.tol.col = 6e-3; run3(s, mc::choose(2), true);
}
static void b10_opacity() {
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), 1.3); static const double O[] = {1, .35, 2, 0}, M[] = {1, .5, 2, 0}, L[] = {0, .9, .3, 2}; s.set(S_(OPAQUE), mc::pick(O)); s.set(S_(OPAQUE_MULTIPLY), mc::pick(M)); s.set(S_(OPAQUE_LINEARIZE), mc::pick(L));
  int d = mc::choose(4); s.set(S_(DABS_PER_ACTUAL_RADIUS), d == 1 ? .2 : d == 2 ? 5 : 2); s.set(S_(DABS_PER_BASIC_RADIUS), d == 3 ? 4 : 0); int c = mc::choose(6); if (c == 5) s.curve(S_(DABS_PER_BASIC_RADIUS), I_(PRESSURE), {{0, 0}, {1, 3}});
  if (c == 1) s.curve(S_(OPAQUE_MULTIPLY), I_(PRESSURE), {{0, -1}, {1, 0}}); if (c == 2) s.curve(S_(OPAQUE), I_(PRESSURE), {{0, -.5}, {1, .5}}); if (c == 3) s.curve(S_(DABS_PER_ACTUAL_RADIUS), I_(PRESSURE), {{0, 0}, {1, 3}}); if (c == 4) { s.curve(S_(OPAQUE_MULTIPLY), I_(PRESSURE), {{0, -2}, {1, 0}}); s.curve(S_(OPAQUE), I_(PRESSURE), {{0, -2}, {1, 0}}); }
  if (mc::flip()) { s.set(S_(RADIUS_BY_RANDOM), 1); s.set(S_(ANTI_ALIASING), 0); }
  // the radius is not predicted when it is random: compare the rest
  Walk w; s.begin(); Ev e = mkev(w.x, w.y, .5f, .1); s.go(e);
  bool rnd = s.ref.base[S_(RADIUS_BY_RANDOM)] != 0; double lo = 1e9, hi = 0;
  for (int i : {0, 1, 8, 4}) { Ev q = w.next(KINDS[i]); s.go(q); }
  for (auto &q : s.rec.dabs) { lo = std::min<double>(lo, q.r); hi = std::max<double>(hi, q.r); MC_CHECK(q.r >= .2 && fabs(log(q.r) - 1.3) < 3.47, "random radius %g", q.r); }
  if (rnd && s.rec.dabs.size() > 6) MC_CHECK(hi > lo * 1.05, "radius_by_random does not vary the radius");
}
static void b10_modes() {
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), 1); static const double V[] = {0, .4, 1}; static const int M[] = {S_(ERASER), S_(LOCK_ALPHA), S_(COLORIZE), S_(POSTERIZE), S_(PAINT_MODE)};
  for (int m : M) s.set(m, m == S_(ERASER) && mc::flip() ? .008 : mc::pick(V)); s.set(S_(POSTERIZE_NUM), mc::flip() ? .05 : 1.28); if (mc::flip()) { s.curve(M[mc::choose(5)], I_(PRESSURE), {{0, -.3}, {1, .6}}); } run3(s);
}
static const float COLS[][4] = {{1, .2f, .1f, 1}, {.1f, .8f, .3f, .5f}, {0, 0, 0, 0}, {.4f, .4f, .9f, .005f}, {.9f, .9f, .2f, .08f}};
static void b10_smudge() {
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), 1.1); s.set(S_(COLOR_H), .6); s.set(S_(COLOR_S), .7); s.set(S_(COLOR_V), .8); static const double SM[] = {.5, 1, .15, 0, -.2}, LE[] = {.5, 0, .9, 1}, LL[] = {0, 1, 4}, TR[] = {0, .3, -.3}, RL[] = {0, -1.6, 1.6};
  { int m = mc::choose_t(5, 4); s.set(S_(SMUDGE), SM[m]); if (m == 3) s.curve(S_(SMUDGE), I_(PRESSURE), {{0, 0}, {.6f, 0}, {1, 1}}); } s.set(S_(SMUDGE_LENGTH), LE[mc::choose(4)]); s.set(S_(SMUDGE_LENGTH_LOG), LL[mc::choose_t(3, 2)]); s.set(S_(SMUDGE_TRANSPARENCY), TR[mc::choose(3)]); s.set(S_(SMUDGE_RADIUS_LOG), mc::choose_t(3, 1) ? 1.6 : -.4);
  int pm = mc::choose(4); s.set(S_(PAINT_MODE), pm == 1 ? .5 : pm == 2 ? 1 : 0); if (pm == 3) s.curve(S_(PAINT_MODE), I_(PRESSURE), {{0, -1}, {1, 1}}); if (mc::choose(2)) s.set(S_(ERASER), .3);
  s.tol.col = 8e-3; s.tol.rel = 3e-3; size_t n = 0; int first[3]; for (int &f : first) f = mc::choose(mc::thorough() ? 5 : 4);
  s.rec.color = [&](BRead &q) { memcpy(q.c, COLS[first[n < 3 ? n : n % 3]], sizeof q.c); n++; }; s.did = [&](size_t i) { return true; };
  Walk w; s.begin(); s.go(mkev(w.x, w.y, .5f, .1)); for (int i : {0, 1}) s.go(w.next(KINDS[i]));
}
// Long strokes: the canvas is sampled less and less often; a fresh sample is mixed in with the configured weight.
static void b10_sampling() {
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), 1.1); s.set(S_(DABS_PER_ACTUAL_RADIUS), 3); s.set(S_(COLOR_H), .6); s.set(S_(COLOR_S), .7); s.set(S_(COLOR_V), .8); s.set(S_(SMUDGE), mc::flip() ? 1 : .6); static const double LE[] = {0, .13, .3, .6}, LL[] = {2, 5, 8, 13, 20};
  s.set(S_(SMUDGE_LENGTH), mc::pick(LE)); s.set(S_(SMUDGE_LENGTH_LOG), mc::pick(LL)); s.set(S_(PAINT_MODE), mc::flip()); s.tol.col = 8e-3; s.tol.rel = 3e-3; size_t n = 0; int ph = mc::choose(3), st = 1 + mc::choose(2);
  s.rec.color = [&](BRead &q) { memcpy(q.c, COLS[(n++ * st + ph) % 3], sizeof q.c); }; Walk w; s.begin(); s.go(mkev(w.x, w.y, .5f, .1)); for (int i : {0, 8, 1, 10}) s.go(w.next(KINDS[i]));
}
// The sampled area follows the radius, within its limits.
static void b10_area() {
  Sess s; static const double R[] = {-2, -1, .5, 2, 6}, SR[] = {-1.6, -.5, 0, 1, 1.6}; s.set(S_(RADIUS_LOGARITHMIC), mc::pick(R)); s.set(S_(SMUDGE_RADIUS_LOG), mc::pick(SR)); s.set(S_(SMUDGE), .6); s.set(S_(SMUDGE_LENGTH), .3); s.set(S_(DABS_PER_ACTUAL_RADIUS), 0); s.set(S_(DABS_PER_SECOND), 47.3); s.set(S_(PAINT_MODE), mc::flip()); s.set(S_(COLOR_V), .7);
  if (mc::flip()) s.curve(S_(RADIUS_LOGARITHMIC), I_(PRESSURE), {{0, -.8f}, {1, .8f}}); if (mc::flip()) s.curve(S_(SMUDGE_RADIUS_LOG), I_(PRESSURE), {{0, 1.2f}, {1, -1.2f}}); s.tol.col = 8e-3; s.tol.rel = 3e-3; s.rec.color = [&](BRead &q) { memcpy(q.c, COLS[1], sizeof q.c); };
  Walk w; s.begin(); s.go(mkev(w.x, w.y, .5f, .1)); for (int i = 0; i < 2; i++) s.go(w.next(KINDS[mc::choose(5)]));
}
static void b10_bucket() {   // buckets: the selected bucket carries the smudge colour
  Sess s; mypaint_brush_unref(s.b); int nb = mc::choose(2) ? 3 : 1; s.b = mypaint_brush_new_with_buckets(nb); mypaint_brush_from_defaults(s.b); for (int i = 0; i < NI; i++) mypaint_brush_set_mapping_n(s.b, (MyPaintBrushSetting)S_(OPAQUE_MULTIPLY), (MyPaintBrushInput)i, 0);
  s.set(S_(OPAQUE_MULTIPLY), 1); s.set(S_(RADIUS_LOGARITHMIC), 1.1); s.set(S_(COLOR_S), .7); s.set(S_(COLOR_V), .8); s.set(S_(SMUDGE), .5); s.set(S_(SMUDGE_LENGTH), .9); s.set(S_(PAINT_MODE), mc::choose(2)); s.ref.nbuckets = nb;
  static const double BK[] = {0, 1.2, 1.8, 7, 255}; s.set(S_(SMUDGE_BUCKET), mc::pick(BK)); if (mc::flip()) s.curve(S_(SMUDGE_BUCKET), I_(PRESSURE), {{0, -.3}, {.4, .2}, {.5, 1.2}, {1, 2.8}}); s.tol.col = 8e-3; s.tol.rel = 3e-3;
  size_t n = 0; int ph = mc::choose(3); s.rec.color = [&](BRead &q) { memcpy(q.c, COLS[(n++ + ph) % 3], sizeof q.c); };
  Walk w; s.begin(); s.go(mkev(w.x, w.y, .5f, .1)); int N = mc::thorough() ? 3 : 2; for (int i = 0; i < N; i++) s.go(w.next(KINDS[mc::choose(9)]));
}
// ---------------------------------------------------------------- B11
// Five settings reach the surface unchanged; an identity curve on one of them shows an input's value in every dab.
static const int OUT[] = {S_(LOCK_ALPHA), S_(COLORIZE), S_(POSTERIZE), S_(POSTERIZE_NUM), S_(PAINT_MODE)}, OUTF[] = {12, 13, 14, 15, 16};
static const struct { int in; double period, tol, rel; } OBS[] = {
  {I_(PRESSURE), 0, 2e-3, 1e-3}, {I_(SPEED1), 0, 1e-2, 5e-3}, {I_(SPEED2), 0, 1e-2, 5e-3}, {I_(STROKE), 0, 2e-3, 1e-3}, {I_(DIRECTION), 180, .4, 0}, {I_(TILT_DECLINATION), 0, 1e-2, 1e-3}, {I_(TILT_ASCENSION), 360, .05, 0}, {I_(CUSTOM), 0, 2e-3, 1e-3},
  {I_(DIRECTION_ANGLE), 360, .4, 0}, {I_(ATTACK_ANGLE), 360, .4, 0}, {I_(TILT_DECLINATIONX), 0, 1e-2, 1e-3}, {I_(TILT_DECLINATIONY), 0, 1e-2, 1e-3}, {I_(GRIDMAP_X), 256, .05, 1e-3}, {I_(GRIDMAP_Y), 256, .05, 1e-3}, {I_(VIEWZOOM), 0, 1e-3, 1e-3}, {I_(BRUSH_RADIUS), 0, 1e-4, 1e-4}, {I_(BARREL_ROTATION), 360, .05, 0}, {I_(RANDOM), 0, 0, 0}};
enum { NOBS = 18 };
static void b11_config(Sess &s, int c) {
  switch (c) {
    case 0: break;
    case 1: s.set(S_(PRESSURE_GAIN_LOG), .8); s.set(S_(SPEED1_SLOWNESS), 0); s.set(S_(SPEED2_SLOWNESS), .2); s.set(S_(SPEED1_GAMMA), -2); s.set(S_(SPEED2_GAMMA), 7); break;
    case 2: s.set(S_(STROKE_THRESHOLD), .4); s.set(S_(STROKE_DURATION_LOGARITHMIC), .5); s.set(S_(STROKE_HOLDTIME), 1.3); s.set(S_(DIRECTION_FILTER), 0); break;
    case 3: s.set(S_(STROKE_DURATION_LOGARITHMIC), 1); s.set(S_(STROKE_HOLDTIME), 10); s.set(S_(CUSTOM_INPUT), .5); s.set(S_(CUSTOM_INPUT_SLOWNESS), 3); s.set(S_(GRIDMAP_SCALE), -2); s.set(S_(GRIDMAP_SCALE_X), 3); s.set(S_(GRIDMAP_SCALE_Y), .4); break;
    case 4: s.set(S_(STROKE_DURATION_LOGARITHMIC), 2); s.curve(S_(CUSTOM_INPUT), I_(PRESSURE), {{0, -1}, {1, 2}}); s.set(S_(GRIDMAP_SCALE), -1); s.set(S_(DIRECTION_FILTER), 6); s.set(S_(RADIUS_LOGARITHMIC), 1.9); break;
    case 5: s.curve(S_(SPEED1_SLOWNESS), I_(PRESSURE), {{0, 0}, {1, .2}}); s.curve(S_(CUSTOM_INPUT), I_(CUSTOM), {{0, 1}, {1, 0}}); s.curve(S_(CUSTOM_INPUT), I_(TILT_DECLINATION), {{0, 0}, {90, 3}}); s.set(S_(CUSTOM_INPUT_SLOWNESS), .2); s.set(S_(DABS_PER_SECOND), 50); s.set(S_(SLOW_TRACKING_PER_DAB), 3); s.set(S_(GRIDMAP_SCALE), -3); break;
    case 6: s.set(S_(SLOW_TRACKING), 2); s.curve(S_(STROKE_HOLDTIME), I_(PRESSURE), {{0, 0}, {1, 5}}); s.set(S_(STROKE_DURATION_LOGARITHMIC), -1); s.set(S_(STROKE_THRESHOLD), .3); s.curve(S_(DIRECTION_FILTER), I_(PRESSURE), {{0, -2}, {1, 3}}); s.set(S_(PRESSURE_GAIN_LOG), -1.2); break;
  }
}
static void b11_run(bool negative) {
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), .9); for (int o : OUT) s.set(o, 0); int g = mc::choose(4); b11_config(s, mc::choose(7));
  for (int k = 0; k < 5; k++) { int o = g * 5 + k; if (o < NOBS) s.curve(OUT[k], OBS[o].in, {{0, 0}, {1, 1}}); }
  s.begin(); Walk w; if (negative) { w.x = -50.2f; w.y = -3.3f; } int n = mc::thorough() ? 4 : 3; size_t from = 0; double prev = -1; int same = 0;
  for (int i = 0; i <= n; i++) {
    Ev e = i ? w.next(KINDS[mc::choose(i == 1 || mc::thorough() ? 11 : 9)]) : mkev(w.x, w.y, .5f, .1); logev(e); stroke(s.b, s.rec, e); s.ref.event(e);
    if (s.ref.amb) mc::discard(); MC_CHECK(s.ref.dabs.size() == s.rec.dabs.size(), "%zu dabs, expected %zu", s.rec.dabs.size(), s.ref.dabs.size());
    for (; from < s.rec.dabs.size(); from++) for (int k = 0; k < 5; k++) {
      int o = g * 5 + k; if (o >= NOBS) continue; double a = (&s.rec.dabs[from].x)[OUTF[k]], b = s.ref.dabs[from].f[OUTF[k]]; const char *nm = iname(OBS[o].in); mc::observe_f((float)a);
      const MyPaintBrushInputInfo *f = mypaint_brush_input_info((MyPaintBrushInput)OBS[o].in);
      if (OBS[o].in != I_(VIEWZOOM)) MC_CHECK(a >= f->hard_min - 1e-3 && a <= f->hard_max + 1e-3, "input %s has value %g outside its limits %g..%g", nm, a, f->hard_min, f->hard_max);
      if (OBS[o].in == I_(RANDOM)) { MC_CHECK(a >= 0 && a < 1, "random input %g", a); same = a == prev ? same + 1 : 0; prev = a; MC_CHECK(same < 2, "the random input does not change"); continue; }
      double d = fabs(a - b); if (OBS[o].period) { d = rwrap(d, OBS[o].period); d = std::min(d, OBS[o].period - d); }
      MC_CHECK(d <= OBS[o].tol + OBS[o].rel * fabs(b), "dab %zu sees %s=%g, should be %g", from, nm, a, b);
    }
  }
}
static void b11_inputs() { b11_run(false); }
static void b11_negative() { b11_run(true); }
// The stroke input: where it starts, holds and starts over.
static void b11_stroke() {
  Sess s; static const double D[] = {-1, 0, 1.5, 4}, H[] = {0, .3, 2, 8.7, 8.95, 9.5, 9.85, 9.95, 10}, TH[] = {0, .4}; s.set(S_(RADIUS_LOGARITHMIC), .9); s.set(S_(LOCK_ALPHA), 0); s.curve(S_(LOCK_ALPHA), I_(STROKE), {{0, 0}, {1, 1}}); s.set(S_(DABS_PER_SECOND), 8);
  s.set(S_(STROKE_DURATION_LOGARITHMIC), mc::pick(D)); s.set(S_(STROKE_HOLDTIME), mc::pick(H)); s.set(S_(STROKE_THRESHOLD), mc::pick(TH)); static const struct { float dx, p; double dt; } K[] = {{21.7f, .5f, .04}, {-11.3f, .9f, .03}, {4.3f, .38f, .05}, {6.9f, 0, .06}, {0, .45f, .3}, {2.1f, 5e-5f, .05}};
  Walk w; start(s, w, .5f); for (int i = 0; i < (mc::thorough() ? 5 : 4); i++) { auto &k = K[mc::choose(6)]; w.x += k.dx; s.go(mkev(w.x, w.y += .1f, k.p, k.dt)); }
}
// The view: any zoom and any rotation, also after several turns.
static void b11_view() {
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), .9); for (int o : OUT) s.set(o, 0); static const int IN[3][5] = {{I_(VIEWZOOM), I_(SPEED1), I_(SPEED2), I_(STROKE), I_(DIRECTION)}, {I_(DIRECTION_ANGLE), I_(ATTACK_ANGLE), I_(TILT_ASCENSION), I_(BARREL_ROTATION), I_(TILT_DECLINATION)}, {I_(GRIDMAP_X), I_(GRIDMAP_Y), I_(BRUSH_RADIUS), I_(VIEWZOOM), I_(CUSTOM)}};
  int g = mc::choose(3); for (int k = 0; k < 5; k++) s.curve(OUT[k], IN[g][k], {{0, 0}, {1, 1}}); static const float Z[] = {.06f, .4f, 1, 9, 60}, R[] = {0, -.5f, 3.13f, -3.3f, 6.1f, -9.5f, 40}, BA[] = {0, -.3f, .8f, -1.7f, 3.2f}; s.begin(); Walk w; size_t from = 0;
  for (int i = 0; i < 3; i++) {
    Ev e = i ? w.next(KINDS[i]) : mkev(w.x, w.y, .5f, .1); if (i) { e.zoom = mc::pick(Z); e.rot = mc::pick(R); if (g == 1) e.barrel = mc::pick(BA); } logev(e); stroke(s.b, s.rec, e); s.ref.event(e); if (s.ref.amb) mc::discard();
    MC_CHECK(s.ref.dabs.size() == s.rec.dabs.size(), "%zu dabs, expected %zu", s.rec.dabs.size(), s.ref.dabs.size());
    for (; from < s.rec.dabs.size(); from++) for (int k = 0; k < 5; k++) {
      double a = (&s.rec.dabs[from].x)[OUTF[k]], b = s.ref.dabs[from].f[OUTF[k]], d = fabs(a - b), per = 0, tol = 0, rel = 0; for (auto &o : OBS) if (o.in == IN[g][k]) { per = o.period; tol = o.tol; rel = o.rel; } if (per) { d = rwrap(d, per); d = std::min(d, per - d); } mc::observe_f((float)a);
      MC_CHECK(d <= tol + rel * fabs(b), "dab %zu sees %s=%g, should be %g", from, iname(IN[g][k]), a, b);
    }
  }
}
// Settings respond to their own inputs only: a curve on one input leaves every other aspect of the stroke alone.
static void b11_isolated() {
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), .9); s.set(S_(SMUDGE), .3); s.set(S_(PAINT_MODE), 0); s.set(S_(ELLIPTICAL_DAB_RATIO), 2); s.set(S_(OFFSET_ANGLE), .5); s.set(S_(COLOR_S), .6); s.set(S_(COLOR_V), .6);
  int i = mc::choose(NI), o = mc::choose(5); static const int T[] = {S_(LOCK_ALPHA), S_(OPAQUE), S_(CHANGE_COLOR_H), S_(OFFSET_X), S_(POSTERIZE)}; if (i == I_(RANDOM)) mc::discard();
  const MyPaintBrushInputInfo *f = mypaint_brush_input_info((MyPaintBrushInput)i); s.curve(T[o], i, {{f->soft_min, -.4f}, {f->soft_max, .4f}}); s.tol.col = 6e-3; s.tol.rel = 4e-3; s.tol.pos = 8e-3;
  Walk w; start(s, w, .5f); for (int k = 0; k < 2; k++) s.go(w.next(KINDS[mc::choose(11)]));
}
// ---------------------------------------------------------------- B12
static const int OFFS[] = {S_(OFFSET_X), S_(OFFSET_Y), S_(OFFSET_ANGLE), S_(OFFSET_ANGLE_ASC), S_(OFFSET_ANGLE_VIEW), S_(OFFSET_ANGLE_2), S_(OFFSET_ANGLE_2_ASC), S_(OFFSET_ANGLE_2_VIEW), S_(OFFSET_BY_SPEED)};
static void b12_offsets() {
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), .9); int a = mc::choose(10), b = mc::choose(10); if (b < a) mc::discard(); static const double V[] = {1.4, -2.2};
  if (a < 9) s.set(OFFS[a], V[mc::choose(2)]); if (b < 9 && b != a) s.set(OFFS[b], V[mc::choose(2)]); static const double ADJ[] = {0, 50, -130}, MU[] = {0, .8, -1.5};
  s.set(S_(OFFSET_ANGLE_ADJ), ADJ[mc::choose(3)]); s.set(S_(OFFSET_MULTIPLIER), MU[mc::choose(mc::thorough() ? 3 : 2)]); s.set(S_(OFFSET_BY_SPEED_SLOWNESS), 5); s.tol.pos = 8e-3;
  Walk w; start(s, w, .5f); int n = 2; for (int i = 0; i < n; i++) s.go(w.next(KINDS[mc::choose(mc::thorough() ? 11 : i ? 8 : 9)]));
}
static void b12_dynamic() {   // offsets under curves, extreme offsets are limited
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), mc::flip() ? .9 : 5); s.set(S_(DABS_PER_ACTUAL_RADIUS), 2); s.set(S_(DABS_PER_SECOND), 60); int a = mc::choose(9); static const double MX[] = {1.5, 40}; double m = MX[mc::choose(2)];
  s.curve(OFFS[a], I_(PRESSURE), {{0, (float)-m}, {1, (float)m}}); if (mc::flip()) s.set(S_(OFFSET_MULTIPLIER), 3); if (mc::flip()) s.curve(S_(OFFSET_ANGLE_ADJ), I_(TILT_DECLINATIONX), {{-60, -180}, {60, 180}}); s.tol.pos = m > 2 ? .5 : .03;
  Walk w; start(s, w, .5f); for (int i = 0; i < 2; i++) s.go(w.next(KINDS[mc::choose(9)]));
}
static void b12_tracking() {
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), .9); static const double T[] = {0, .5, 3, 10}, D[] = {0, .4, 4, 10}; s.set(S_(SLOW_TRACKING), mc::pick(T)); s.set(S_(SLOW_TRACKING_PER_DAB), mc::pick(D)); if (mc::flip()) s.curve(S_(SLOW_TRACKING_PER_DAB), I_(PRESSURE), {{0, 0}, {1, 3}}); s.set(S_(DABS_PER_SECOND), mc::flip() ? 40 : 0);
  Walk w; start(s, w, .5f); static const int K[] = {0, 1, 2, 10, 4, 5, 6, 3, 7, 8, 9}; for (int i = 0; i < 3; i++) s.go(w.next(KINDS[K[mc::choose(mc::thorough() ? 11 : 8)]])); }
static void b12_snap() {
  Sess s; static const double R[] = {.9, -.5, 2, -1.6}, SN[] = {1, .5, .1}, A[] = {0, 1}; s.set(S_(RADIUS_LOGARITHMIC), mc::pick(R)); { int k = mc::choose(4); s.set(S_(SNAP_TO_PIXEL), k < 3 ? SN[k] : .7); if (k == 3) s.curve(S_(SNAP_TO_PIXEL), I_(PRESSURE), {{0, -.6f}, {1, 1.4f}}); } s.set(S_(ANTI_ALIASING), mc::pick(A)); s.set(S_(HARDNESS), mc::flip() ? 1 : .3); s.set(S_(OFFSET_X), mc::flip() ? .37 : 0); if (mc::flip()) s.curve(S_(RADIUS_LOGARITHMIC), I_(PRESSURE), {{0, -.7}, {1, .7}});
  Walk w; start(s, w, .5f); for (int i = 0; i < 2; i++) s.go(w.next(KINDS[mc::choose(7)]));
  // a fully snapped dab must not reach beyond a half-pixel boundary
  if (s.ref.base[S_(SNAP_TO_PIXEL)] == 1) for (auto &d : s.rec.dabs) { double q = std::max(.5, floor(2 * d.r + .5) / 2); MC_CHECK(d.r < q && d.r > q - 1e-3, "a fully snapped dab has radius %.7g, next to %g", d.r, q); }
}
static void b12_jitter() {   // random offsets: bounded, centred on the undisturbed dab, present
  static const double A[] = {.3, 2, 25}; double amp = mc::pick(A); Sess s, c; for (Sess *q : {&s, &c}) { q->set(S_(RADIUS_LOGARITHMIC), .7); q->set(S_(DABS_PER_ACTUAL_RADIUS), 3); } if (mc::flip()) for (Sess *q : {&s, &c}) q->set(S_(OFFSET_ANGLE), 1); s.set(S_(OFFSET_BY_RANDOM), amp);
  bool neg = mc::flip(); if (neg) s.set(S_(OFFSET_BY_RANDOM), -amp); Walk w; double lim = amp * exp(.7) * 3.4642; Ev e = mkev(w.x, w.y, .5f, .1); stroke(s.b, s.rec, e); stroke(c.b, c.rec, e); double mx = 0, my = 0, sx = 0, sy = 0;
  for (int i = 0; i < 3; i++) { Ev e = w.next(KINDS[mc::choose(9)]); logev(e); stroke(s.b, s.rec, e); stroke(c.b, c.rec, e); }
  MC_CHECK(s.rec.dabs.size() == c.rec.dabs.size(), "random offsets change the number of dabs"); size_t n = s.rec.dabs.size();
  for (size_t i = 0; i < n; i++) { double dx = s.rec.dabs[i].x - c.rec.dabs[i].x, dy = s.rec.dabs[i].y - c.rec.dabs[i].y; mc::observe_f((float)dx); if (neg) lim = 1e-6; MC_CHECK(fabs(dx) <= lim + 1e-3 && fabs(dy) <= lim + 1e-3, "dab %zu is jittered by %g,%g, the limit is %g", i, dx, dy, lim); mx = std::max(mx, fabs(dx)); my = std::max(my, fabs(dy)); sx += dx; sy += dy; for (int k = 2; k < 17; k++) MC_CHECK((&s.rec.dabs[i].x)[k] == (&c.rec.dabs[i].x)[k], "random offsets change %s of dab %zu", DABF[k], i); }
  if (!neg && n >= 12) { MC_CHECK(mx > .1 * amp * exp(.7) && my > .1 * amp * exp(.7), "no jitter: at most %g,%g", mx, my); MC_CHECK(fabs(sx / n) < 3.5 * amp * exp(.7) / sqrt(n) * 2 && fabs(sy / n) < 7 * amp * exp(.7) / sqrt(n), "jitter is not centred: %g,%g", sx / n, sy / n); }
}
static void b12_noise() {   // tracking noise: the pointer stays within its amplitude of the path, and does not get lost
  static const double A[] = {.3, 2, 12}; double amp = mc::pick(A); Sess s; s.set(S_(RADIUS_LOGARITHMIC), .7); s.set(S_(TRACKING_NOISE), amp); double lim = amp * exp(.7) * 3.4642 + 1e-3; Walk w; stroke(s.b, s.rec, mkev(w.x, w.y, .5f, .1)); double x0 = w.x, x1 = w.x, y0 = w.y, y1 = w.y;
  for (int i = 0; i < 4; i++) { static const int K[] = {0, 1, 2, 4, 8}; Ev e = w.next(KINDS[K[mc::choose(5)]]); logev(e); x0 = std::min<double>(x0, e.x); x1 = std::max<double>(x1, e.x); y0 = std::min<double>(y0, e.y); y1 = std::max<double>(y1, e.y); stroke(s.b, s.rec, e); }
  for (auto &q : s.rec.dabs) { mc::observe_f(q.x); MC_CHECK(q.x >= x0 - lim && q.x <= x1 + lim && q.y >= y0 - lim && q.y <= y1 + lim, "dab at %g,%g is more than %g away from the path within %g..%g x %g..%g", q.x, q.y, lim, x0, x1, y0, y1); }
  double X = mypaint_brush_get_state(s.b, (MyPaintBrushState)ST_(X)); MC_CHECK(X >= x0 - lim && X <= x1 + lim, "the pointer is at %g", X);
  // far away, the noise is left behind
  Ev e = mkev(w.x + 500, w.y, .5f, .05); stroke(s.b, s.rec, e); X = mypaint_brush_get_state(s.b, (MyPaintBrushState)ST_(X)); MC_CHECK(fabs(X - e.x) <= lim, "after a long motion the pointer is at %g, the event at %g", X, e.x);
}
// Noisy input: which events move the pointer does not depend on how often events arrive, and no time is lost.
static void b12_noise_rate() {
  static const double A[] = {.4, 2, 9}; double amp = mc::pick(A); Sess s; s.set(S_(RADIUS_LOGARITHMIC), .7); s.set(S_(TRACKING_NOISE), amp); s.set(S_(DABS_PER_ACTUAL_RADIUS), 0); s.set(S_(DABS_PER_SECOND), 37); if (mc::flip()) s.set(S_(SLOW_TRACKING), 1); double noise = amp * exp(.7), skip = 0, lx = 0, ly = 0, held = 0, total = 0; size_t from = 0; bool fresh = true; Walk w;
  static const struct { float dx, dy; double dt; } K[] = {{.3f, .1f, .011}, {1.7f, -.6f, .03}, {-5.1f, 4.3f, .06}, {25, 11, .02}, {-.01f, .02f, .004}, {.9f, .9f, 5.2}};
  for (int i = 0; i < (mc::thorough() ? 7 : 6); i++) {
    if (i == 4 && mc::flip()) { mc::logf("reset"); mypaint_brush_reset(s.b); fresh = true; }
    auto k = i ? K[mc::choose(6)] : K[1]; w.x += k.dx; w.y += k.dy; Ev e = mkev(w.x, w.y, .5f, k.dt); logev(e);
    if (skip > 0 && fabs(skip - hypot(lx - e.x, ly - e.y)) < .002) mc::discard();
    double dt = held + e.dt; if (skip > 0) { skip -= hypot(lx - e.x, ly - e.y); lx = e.x; ly = e.y; }
    bool restart = dt > 5 || fresh, held_back = skip > 0 && !restart; if (fabs(dt - 5) < 1e-6) mc::discard();
    double X0 = mypaint_brush_get_state(s.b, (MyPaintBrushState)ST_(X)), Y0 = mypaint_brush_get_state(s.b, (MyPaintBrushState)ST_(Y)); stroke(s.b, s.rec, e);
    double X1 = mypaint_brush_get_state(s.b, (MyPaintBrushState)ST_(X)), Y1 = mypaint_brush_get_state(s.b, (MyPaintBrushState)ST_(Y)); mc::observe_f((float)X1);
    if (held_back) { MC_CHECK(X0 == X1 && Y0 == Y1, "the pointer moves from %g,%g to %g,%g although the events since the last displacement covered less than half the noise", X0, Y0, X1, Y1); held = dt; continue; }
    MC_CHECK(X0 != X1 && Y0 != Y1, "the pointer stays at %g,%g although the events since the last displacement covered more than half the noise", X0, Y0);
    skip = restart ? 0 : .5 * noise; lx = e.x; ly = e.y; held = 0; if (restart) { total = 0; from = s.rec.dabs.size(); fresh = false; continue; }
    total += dt; double want = total * 37; if (fabs(want - floor(want + .5)) < 1e-3) mc::discard();
    MC_CHECK(s.rec.dabs.size() - from == (size_t)want, "%zu dabs in %g s, %g are due", s.rec.dabs.size() - from, total, floor(want));
  }
}
static void b12_plain() { Sess s; s.set(S_(RADIUS_LOGARITHMIC), mc::flip() ? .9 : 2.5); s.set(S_(DABS_PER_SECOND), mc::flip() ? 35 : 0);
  Walk w; start(s, w, .5f); for (int i = 0; i < 3; i++) { double ax = w.x, ay = w.y; Ev e = w.next(KINDS[mc::choose(11)]); size_t from = s.rec.dabs.size(); s.go(e);
    for (size_t k = from; k < s.rec.dabs.size(); k++) { double px = s.rec.dabs[k].x - ax, py = s.rec.dabs[k].y - ay, lx = e.x - ax, ly = e.y - ay, l2 = lx * lx + ly * ly, t = l2 ? (px * lx + py * ly) / l2 : 0; MC_CHECK(hypot(px - t * lx, py - t * ly) < 5e-3 && t > -1e-3 && t < 1.001, "dab %zu at %g,%g does not lie on the line between the events", k, s.rec.dabs[k].x, s.rec.dabs[k].y); } } }
// ---------------------------------------------------------------- B13
static void b13_edge() {   // hardness, softness, anti-aliasing, radius
  Sess s; static const double R[] = {-2, -.8, .3, 1.5, 4, 6}, H[] = {0, .3, .8, 1}, A[] = {0, .5, 1, 5}, SO[] = {0, .5, 1}; s.set(S_(RADIUS_LOGARITHMIC), R[mc::choose(6)]); s.set(S_(DABS_PER_ACTUAL_RADIUS), .4); s.set(S_(HARDNESS), mc::pick(H)); s.set(S_(ANTI_ALIASING), mc::pick(A)); s.set(S_(SOFTNESS), mc::pick(SO));
  int c = mc::choose(6); if (c == 1) s.curve(S_(RADIUS_LOGARITHMIC), I_(PRESSURE), {{0, -2}, {1, 2}}); if (c == 2) s.curve(S_(HARDNESS), I_(PRESSURE), {{0, -1}, {1, 1}}); if (c == 3) s.curve(S_(ANTI_ALIASING), I_(PRESSURE), {{0, -1}, {1, 3}}); if (c == 4) s.curve(S_(SOFTNESS), I_(PRESSURE), {{0, -1}, {1, 1}}); if (c == 5) { s.curve(S_(HARDNESS), I_(PRESSURE), {{0, 1}, {1, -1}}); s.curve(S_(RADIUS_LOGARITHMIC), I_(TILT_DECLINATION), {{0, -3}, {90, 0}}); }
  Walk w; s.begin(); s.go(mkev(w.x, w.y, .5f, .1)); for (int i : {0, 1, 8, 8}) s.go(w.next(KINDS[i]));
}
static void b13_ellipse() {   // ratio and angle, in the view's coordinates, turned the short way
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), 1.1); static const double RA[] = {1, 1.5, 3, 10}, AN[] = {0, 30, 90, 150, 180}; int c = mc::choose(5), ra = mc::choose(c ? 3 : 4); s.set(S_(ELLIPTICAL_DAB_RATIO), RA[ra]); s.set(S_(ELLIPTICAL_DAB_ANGLE), mc::pick(AN)); s.tol.ang = .2; s.tol.rel = 6e-3; s.tol.pos = .03;   // a strong ellipse that turns while painting amplifies rounding
  if (c == 1) s.curve(S_(ELLIPTICAL_DAB_ANGLE), I_(TILT_ASCENSION), {{-180, -180}, {180, 180}}); if (c == 2) s.curve(S_(ELLIPTICAL_DAB_ANGLE), I_(BARREL_ROTATION), {{-180, 180}, {180, -180}}); if (c == 3) s.curve(S_(ELLIPTICAL_DAB_RATIO), I_(PRESSURE), {{0, -2}, {1, 5}}); if (c == 4) { s.curve(S_(ELLIPTICAL_DAB_RATIO), I_(TILT_DECLINATION), {{0, 2}, {90, 0}}); s.curve(S_(ELLIPTICAL_DAB_ANGLE), I_(PRESSURE), {{0, -40}, {1, 50}}); }
  static const float ROT[] = {0, .7f, -2.8f, 5.5f}; Walk w; start(s, w, .5f); for (int i = 0; i < 2; i++) { Ev e = w.next(KINDS[mc::choose(9)]); e.rot = mc::pick(ROT); s.go(e); }
}
// Random radii: around the configured one, limited, and enlarged dabs are more transparent by the area they gain.
static void b13_random() {
  Sess s, c; static const double R[] = {-2, .5, 2, 6}, A[] = {.1, .6, 1.5}, SM[] = {0, .5}; double rl = mc::pick(R), amp = mc::pick(A), sm = mc::pick(SM); bool dyn = mc::flip(), op = mc::flip(); for (Sess *q : {&s, &c}) { q->set(S_(RADIUS_LOGARITHMIC), rl); q->set(S_(ANTI_ALIASING), 0); q->set(S_(DABS_PER_ACTUAL_RADIUS), 3); q->set(S_(SMUDGE), sm); q->set(S_(PAINT_MODE), 0); q->set(S_(OPAQUE), op ? .6 : 1); if (dyn) q->curve(S_(RADIUS_LOGARITHMIC), I_(PRESSURE), {{0, -1}, {1, 1}}); }
  s.set(S_(RADIUS_BY_RANDOM), amp); Walk w; Ev e = mkev(w.x, w.y, .5f, .1); stroke(s.b, s.rec, e); stroke(c.b, c.rec, e); double len = std::max(1., std::min(exp(rl), 300.)), up = 0, down = 0, free_ = 0;
  for (int i = 0; i < 3; i++) { const Kind &k = KINDS[mc::choose(3) * 4]; Ev q = mkev(w.x += (float)(k.dx * len / 2), w.y += (float)(k.dy * len / 2), k.p, k.dt); logev(q); stroke(s.b, s.rec, q); stroke(c.b, c.rec, q); }
  MC_CHECK(s.rec.dabs.size() == c.rec.dabs.size(), "random radii change the number of dabs"); MC_CHECK(s.rec.reads.size() == c.rec.reads.size(), "random radii change the number of canvas samples");
  for (size_t i = 0; i < s.rec.dabs.size(); i++) {
    BDab &d = s.rec.dabs[i], &g = c.rec.dabs[i]; mc::observe_f(d.r); double lo = std::max(.2, g.r * exp(-3.4642 * amp)), hi = std::min(1000., g.r * exp(3.4642 * amp)); if (dyn && (g.r < .2001 || g.r > 999)) lo = .2, hi = 1000;
    MC_CHECK(d.r >= lo * .999 && d.r <= hi * 1.001, "dab %zu has radius %g, allowed are %g..%g around %g", i, d.r, lo, hi, g.r);
    double k = std::min(1., (double)g.r / d.r * g.r / d.r); MC_CHECK(fabs(d.opaque - g.opaque * k) < 1e-4 + 1e-3 * g.opaque * k, "dab %zu has radius %g instead of %g and opacity %g, should be %g", i, d.r, g.r, d.opaque, g.opaque * k);
    if (lo < g.r * .97 && hi > g.r * 1.03) { free_++; up += d.r > g.r * 1.0001; down += d.r < g.r * .9999; }
    for (int q = 0; q < 17; q++) if (q != 2 && q != 6) MC_CHECK((&d.x)[q] == (&g.x)[q], "random radii change %s of dab %zu", DABF[q], i);
  }
  for (size_t i = 0; i < s.rec.reads.size(); i++) { size_t d = s.rec.reads[i].ndabs; if (d < s.rec.dabs.size()) MC_CHECK(fabs(s.rec.reads[i].r - s.rec.dabs[d].r) < 1e-3 * s.rec.dabs[d].r, "canvas sampled with radius %g before dab %zu of radius %g", s.rec.reads[i].r, d, s.rec.dabs[d].r); }
  if (free_ >= 40) MC_CHECK(up > free_ * .15 && down > free_ * .15, "of %g random radii %g are larger and %g smaller than the configured one", free_, up, down);
}
// Every setting takes its base value plus its response curves, anew for every dab: all pairs of settings driven by two inputs.
static const struct { int set; float a, b; } DYN[] = {   // curve values over pressure 0..1
  {S_(OPAQUE), -.6f, .1f}, {S_(OPAQUE_MULTIPLY), -.5f, 0}, {S_(RADIUS_LOGARITHMIC), -.6f, .6f}, {S_(HARDNESS), -.5f, .1f}, {S_(SOFTNESS), 0, .8f}, {S_(ANTI_ALIASING), 0, 2}, {S_(DABS_PER_BASIC_RADIUS), 0, 1.5f}, {S_(DABS_PER_ACTUAL_RADIUS), 0, 1.5f}, {S_(DABS_PER_SECOND), 0, 40}, {S_(GRIDMAP_SCALE), 0, .4f}, {S_(GRIDMAP_SCALE_X), 0, .5f}, {S_(GRIDMAP_SCALE_Y), 0, .5f},
  {S_(SPEED1_SLOWNESS), 0, .1f}, {S_(SPEED2_SLOWNESS), 0, 1}, {S_(OFFSET_Y), -1, 1}, {S_(OFFSET_X), -1, 1}, {S_(OFFSET_ANGLE), -1, 1}, {S_(OFFSET_ANGLE_ASC), -1, 1}, {S_(OFFSET_ANGLE_VIEW), -1, 1}, {S_(OFFSET_ANGLE_2), 0, 1}, {S_(OFFSET_ANGLE_2_ASC), 0, 1}, {S_(OFFSET_ANGLE_2_VIEW), 0, 1}, {S_(OFFSET_ANGLE_ADJ), -60, 60}, {S_(OFFSET_MULTIPLIER), -.5f, .5f}, {S_(OFFSET_BY_SPEED), 0, .5f}, {S_(OFFSET_BY_SPEED_SLOWNESS), 0, 5},
  {S_(SLOW_TRACKING_PER_DAB), 0, 2}, {S_(CHANGE_COLOR_H), -.2f, .2f}, {S_(CHANGE_COLOR_L), -.2f, .2f}, {S_(CHANGE_COLOR_HSL_S), -.4f, .4f}, {S_(CHANGE_COLOR_V), -.2f, .2f}, {S_(CHANGE_COLOR_HSV_S), -.4f, .4f}, {S_(SMUDGE), -.3f, .4f}, {S_(PAINT_MODE), 0, .6f}, {S_(SMUDGE_TRANSPARENCY), 0, .4f}, {S_(SMUDGE_LENGTH), -.3f, .3f}, {S_(SMUDGE_LENGTH_LOG), 0, 2}, {S_(SMUDGE_BUCKET), 0, 2.9f}, {S_(SMUDGE_RADIUS_LOG), -.5f, .5f}, {S_(ERASER), 0, .5f},
  {S_(STROKE_DURATION_LOGARITHMIC), -1, 0}, {S_(STROKE_HOLDTIME), 0, 1}, {S_(CUSTOM_INPUT), -1, 1}, {S_(CUSTOM_INPUT_SLOWNESS), 0, 1}, {S_(ELLIPTICAL_DAB_RATIO), 0, 1.5f}, {S_(ELLIPTICAL_DAB_ANGLE), -40, 40}, {S_(DIRECTION_FILTER), -1, 1}, {S_(LOCK_ALPHA), 0, 1}, {S_(COLORIZE), 0, 1}, {S_(POSTERIZE), 0, 1}, {S_(POSTERIZE_NUM), 0, .5f}, {S_(SNAP_TO_PIXEL), 0, .6f}};
static void b13_dynamics() {
  enum { N = sizeof DYN / sizeof *DYN }; Sess s; int nb = 3; mypaint_brush_unref(s.b); s.b = mypaint_brush_new_with_buckets(nb); mypaint_brush_from_defaults(s.b); for (int i = 0; i < NI; i++) mypaint_brush_set_mapping_n(s.b, (MyPaintBrushSetting)S_(OPAQUE_MULTIPLY), (MyPaintBrushInput)i, 0); s.ref.nbuckets = nb;
  s.set(S_(OPAQUE_MULTIPLY), 1); s.set(S_(RADIUS_LOGARITHMIC), 1.2); s.set(S_(COLOR_H), .6); s.set(S_(COLOR_S), .6); s.set(S_(COLOR_V), .6); s.set(S_(SMUDGE), .4); s.set(S_(OPAQUE), .9); s.set(S_(ELLIPTICAL_DAB_RATIO), 1.6); s.set(S_(ELLIPTICAL_DAB_ANGLE), 40); s.set(S_(STROKE_DURATION_LOGARITHMIC), 2); s.set(S_(OPAQUE_LINEARIZE), .5);
  for (int k : {S_(LOCK_ALPHA), S_(COLORIZE), S_(POSTERIZE), S_(PAINT_MODE)}) s.set(k, 0);
  int base = mc::choose(2); if (base) { s.set(S_(OFFSET_ANGLE), .6); s.set(S_(OFFSET_ANGLE_2_ASC), .5); s.set(S_(OFFSET_BY_SPEED), .3); s.set(S_(CHANGE_COLOR_H), .1); s.set(S_(CHANGE_COLOR_L), -.1); s.set(S_(SLOW_TRACKING_PER_DAB), 1); s.set(S_(PAINT_MODE), .7); }
  int a = mc::choose(N), b = a + mc::choose(N - a); static const int OI[] = {I_(SPEED1), I_(STROKE), I_(CUSTOM), I_(SPEED2), I_(DIRECTION_ANGLE), I_(GRIDMAP_X), I_(GRIDMAP_Y)}; int oi = mc::choose(7); s.curve(S_(LOCK_ALPHA), OI[oi], oi < 4 ? Curve{{0, 0}, {2, .5}} : Curve{{0, 0}, {360, .5}});   // reveals settings that only shape an input
  auto drive = [&](int k, int in) { if (DYN[k].set == S_(LOCK_ALPHA)) return; const auto &d = DYN[k]; if (in == I_(PRESSURE)) s.curve(d.set, in, {{0, d.a}, {1, d.b}}); else if (in == I_(TILT_DECLINATION)) s.curve(d.set, in, {{30, d.b}, {90, d.a}}); else if (in == I_(SPEED1)) s.curve(d.set, in, {{0, d.a}, {2, d.b}}); else if (in == I_(STROKE)) s.curve(d.set, in, {{0, d.b}, {.5f, d.a}}); else s.curve(d.set, in, {{-120, d.b}, {120, d.a}}); };
  drive(a, I_(PRESSURE)); static const int IN2[] = {I_(TILT_DECLINATION), I_(SPEED1), I_(STROKE), I_(TILT_ASCENSION)}; if (b != a) drive(b, IN2[mc::choose_t(4, 1)]); s.tol.pos = .05; s.tol.rel = 1e-2; s.tol.col = 1.5e-2; s.tol.ang = .5; size_t n = 0; s.rec.color = [&](BRead &q) { memcpy(q.c, COLS[n++ % 3 * 2 % 5], sizeof q.c); };
  Walk w; s.begin(); s.go(mkev(w.x, w.y, .5f, .1)); for (int i : {0, 1, 2, 8}) { Ev e = w.next(KINDS[i]); if (i == 8) e.barrel = -.1f; s.go(e); }
}
// Settings changed in the middle of a stroke hold from the next dab on, also while the pen rests.
static void b13_change() {
  Sess s; s.set(S_(RADIUS_LOGARITHMIC), 1.2); s.set(S_(COLOR_H), .6); s.set(S_(COLOR_S), .6); s.set(S_(COLOR_V), .6); s.set(S_(OPAQUE), .9); s.set(S_(OPAQUE_LINEARIZE), .5); s.set(S_(DABS_PER_SECOND), 70); s.set(S_(CUSTOM_INPUT_SLOWNESS), 0); s.set(S_(SPEED1_SLOWNESS), 0); s.set(S_(SPEED2_SLOWNESS), 0);
  bool held = mc::flip(); static const struct { int k; double v; } CH[] = {{S_(RADIUS_LOGARITHMIC), .6}, {S_(OPAQUE), .4}, {S_(HARDNESS), .2}, {S_(COLOR_H), .1}, {S_(DABS_PER_SECOND), 45}, {S_(DABS_PER_ACTUAL_RADIUS), 1}, {S_(DABS_PER_BASIC_RADIUS), 1}, {S_(OFFSET_X), 1.5}, {S_(LOCK_ALPHA), .5}, {S_(CUSTOM_INPUT), .7}, {S_(PRESSURE_GAIN_LOG), .5}, {S_(SPEED1_GAMMA), -1}, {S_(SLOW_TRACKING), 1}, {S_(SMUDGE), .5}, {S_(PAINT_MODE), 0}, {S_(STROKE_HOLDTIME), 1}, {S_(ELLIPTICAL_DAB_RATIO), 2}, {S_(CHANGE_COLOR_V), -.3}, {S_(STROKE_THRESHOLD), .6}, {S_(OPAQUE_LINEARIZE), 0}};
  enum { NCH = sizeof CH / sizeof *CH }; s.curve(S_(POSTERIZE), I_(CUSTOM), {{0, 0}, {1, 1}}); s.curve(S_(COLORIZE), I_(SPEED1), {{0, 0}, {4, 1}}); s.curve(S_(SOFTNESS), I_(PRESSURE), {{0, 0}, {1, .6f}}); Walk w; s.tol.pos = .02; s.tol.rel = 4e-3; s.tol.col = 6e-3; start(s, w, .5f);
  auto rest = [&](double dt) { Ev e = mkev(w.x, w.y, .5f, dt); s.go(e); }; if (held) { rest(.1); rest(.08); } else s.go(w.next(KINDS[0]));
  for (int i = 0; i < 2; i++) {
    int c = mc::choose(NCH + 4); if (c < NCH) s.set(CH[c].k, CH[c].v); else if (c == NCH) s.curve(S_(RADIUS_LOGARITHMIC), I_(PRESSURE), {{0, -.6f}, {1, .6f}}); else if (c == NCH + 1) s.curve(S_(SOFTNESS), I_(PRESSURE), {}); else if (c == NCH + 2) s.curve(S_(OPAQUE), I_(CUSTOM), {{-1, -.4f}, {1, .1f}}); else { mc::logf("defaults"); mypaint_brush_from_defaults(s.b); s.set(S_(OPAQUE_MULTIPLY), 1); s.curve(S_(OPAQUE_MULTIPLY), I_(PRESSURE), {}); s.set(S_(DABS_PER_SECOND), 50); }
    s.ref.from(s.b); int k = mc::choose(3); if (k == 0) rest(.09); else s.go(w.next(KINDS[k == 1 ? 1 : 8]));
  }
}
int main(int c, char **v) {

  return mc::main(c, v, [] {
    const std::string &p = mc::g().prop; bool T = mc::thorough();
    if (p == "B05") {
      mc::add("reference", 0, 4, "8 (thorough: 10) dab densities x 4 (5) radii x 7 dynamics (radius, density, ellipse by pressure/tilt/rotation) x every sequence of 3 (4) of 9 (11) event kinds after a reset; dabs compared with the reference engine", b05_spacing);
      mc::add("resume", 0, 4, "4 densities x every sequence of 3 events with 3 pressures (none, hardly any, some) and 4 time steps around the pause limit; dabs compared with the reference engine", b05_resume);
      mc::add("cuts", 0, 4, "8 densities x 2 radii x round/elliptical x 4 straight motions x every subset of 6 cut points; closed-form positions, pressure and tilt of every dab", b05_cuts);
      mc::add("far", 0, 3, "motions of 150, 700, 2600 pixels in 1, 2, 7 parts x 3 directions x 3 densities x 2 durations: up to 28000 dabs, number and distances", b05_far);
      mc::add("arrival", 0, 3, "7 densities x every sequence of 3 of 11 event kinds; pointer state and carried fraction after every event", b05_arrive);
    } else if (p == "B06") {
      mc::add("insane-events", T ? 3 : 2, 6, "2 (3) brushes using every input x histories of 3 events in which up to 2 (3) event fields take an insane value (NaN, infinities, extreme and denormal magnitudes) x restart by reset or by a pause; dab invariants, and equality with a fresh brush after the restart", b06_events);
      mc::add("insane-middle", T ? 4 : 2, 6, "2 brushes x up to 2 (4) insane fields (other than position) in one event of a stroke; dab invariants during the rest of the stroke, pointer position", b06_after);
      mc::add("limits", 0, 5, "every pair (thorough: triple) of settings at either documented limit x smudging or not", b06_limits);
      mc::add("random", 0, 4, "4 brush sizes x 3 values each of the random settings x smudging x snapping x radius and ellipse driven by the random input; strokes of 60 radii", b06_random);
      mc::add("limit-curves", 0, 4, "every setting driven from limit to limit by every input, both directions x 2 brushes x 3 canvases", b06_curves);
      mc::add("steep-curves", 0, 3, "every setting (thorough: with every other one) driven to 4 values x sign far beyond its limits by pressure x 2 brushes x 3 canvases", b06_steep);
      mc::add("dense", 0, 5, "densest spacing x 7x7 positions up to 4e7 from the origin x 4 distances x 4 directions", b06_dense);
    } else if (p == "B10") {
      mc::add("color", 0, 4, "6 hues x 4 (6) saturations x 4 (6) values x HSV, HSL (and both) changes x linear flag", b10_color);
      mc::add("color-dynamics", 0, 3, "every pair of colour changes driven by pressure x smudging x canvas x linear flag", b10_colordyn);
      mc::add("opacity", 0, 4, "4 opacities x 4 multipliers x 4 linearisations x 4 densities x 6 dynamics x random radius", b10_opacity);
      mc::add("modes", 0, 4, "eraser, lock alpha, colorize, posterize, pigment at 3 strengths each x dynamics", b10_modes);
      mc::add("smudge", 0, 5, "4 (5) smudge amounts (one appearing with pressure) x 4 lengths x 2 (3) length multipliers x 3 transparency limits x 4 pigment settings x every sequence of 3 canvas answers", b10_smudge);
      mc::add("sampling", 0, 4, "2 smudge amounts x 4 lengths x 5 length multipliers x pigment or not x 6 sequences of canvas answers; strokes of about 100 dabs", b10_sampling);
      mc::add("area", 0, 4, "5 radii x 5 smudge radii x each driven by pressure or not x pigment x every pair of 5 event kinds", b10_area);
      mc::add("bucket", 0, 4, "1 or 3 buckets x 5 bucket settings x dynamics x every pair (triple) of events", b10_bucket);
    } else if (p == "B11") {
      mc::add("inputs", 0, 4, "all 18 inputs observed through identity curves x 7 configurations x every sequence of 3 (4) of 11 event kinds", b11_inputs);
      mc::add("negative", 0, 4, "the same left of and above the origin", b11_negative);
      mc::add("stroke-cycle", 0, 4, "4 stroke durations x 9 hold times x 2 thresholds x every sequence of 4 (5) of 6 event kinds around the thresholds", b11_stroke);
      mc::add("view", 0, 4, "15 inputs x every pair of 5 zooms x 7 rotations (x 5 barrel rotations), up to several turns", b11_view);
      mc::add("isolated", 0, 3, "every input x 5 settings x every pair of 11 event kinds; the whole dab compared", b11_isolated);
    } else if (p == "B12") {
      mc::add("offsets", 0, 4, "every pair of the 9 offset settings x signs x 3 adjustments x 2 (3) multipliers x every pair of 9 (11) event kinds", b12_offsets);
      mc::add("dynamic", 0, 4, "each offset driven by pressure, up to the limit of the offset", b12_dynamic);
      mc::add("tracking", 0, 4, "4 slow tracking x 4 per-dab tracking x dynamics x every sequence of 3 of 8 (11) event kinds", b12_tracking);
      mc::add("snap", 0, 4, "4 radii x 4 snap strengths (one driven by pressure below 0 and above 1) x anti-aliasing x hardness x offsets x every pair of 7 event kinds", b12_snap);
      mc::add("jitter", 0, 3, "3 amplitudes x sign x every sequence of 3 of 9 event kinds; differential against the brush without jitter", b12_jitter);
      mc::add("noise", 0, 3, "3 amplitudes x every sequence of 4 of 5 event kinds; bounds", b12_noise);
      mc::add("noise-rate", 0, 4, "3 amplitudes x slow tracking x every sequence of 5 (6) of 6 event kinds x reset in between; which events move the pointer, and dabs per second", b12_noise_rate);
      mc::add("plain", 0, 3, "every sequence of 3 of 11 event kinds without any offset: dabs on the line", b12_plain);
    } else if (p == "B13") {
      mc::add("edge", 0, 4, "6 radii x 4 hardnesses x 4 anti-aliasing widths x 3 softnesses x 6 dynamics", b13_edge);
      mc::add("ellipse", 0, 4, "4 ratios x 5 angles x 5 dynamics x every pair of 9 event kinds x 4 view rotations", b13_ellipse);
      mc::add("random", 0, 4, "4 radii x 3 amplitudes x smudging x dynamics x opacity x every sequence of 3 of 3 event kinds; differential against the brush without random radii", b13_random);
      mc::add("snapped", 0, 4, "4 radii x 4 snap strengths (one driven by pressure below 0 and above 1) x anti-aliasing x hardness x offsets x every pair of 7 event kinds", b12_snap);
      mc::add("changes", 0, 4, "every pair of 24 changes of settings and curves in the middle of a stroke, pen resting or moving, x 3 event kinds after each; the whole dab compared", b13_change);
      mc::add("dynamics", 0, 4, "every pair of 52 settings driven by pressure and by tilt (thorough: or speed, stroke, ascension) x 2 brushes x 7 observed inputs; the whole dab compared", b13_dynamics);
    }
  });
}
