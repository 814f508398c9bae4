// B04 determinism and reset, B07 stroke splitting, B08 saved state and smudge buckets.
#include "refbrush.hpp"
#include <memory>
#include <array>
#include <limits.h>
static const int BUCKET = 9;
struct Kind { float dx, dy, p, xt, yt; double dt; float zoom, rot, barrel; };
static const Kind KINDS[] = {
  {6.3f, 2.1f, .5f, 0, 0, .02, 1, 0, 0}, {-4.7f, 5.2f, .9f, .4f, -.3f, .05, 1, 0, 0}, {0, 0, .7f, .4f, -.3f, .08, 1, .4f, .2f}, {-9.1f, -7.7f, 0, 0, .2f, .09, 2, 0, 0}, {3.3f, -6.1f, 1, -.6f, .2f, .3, .5f, -2.5f, .8f},
  {25, 14, .4f, .1f, .9f, .04, 1, .3f, -.2f}, {11.f, 4.f, .5f, .2f, .2f, 6, 1, 0, 0}};
struct Walk { float x = 40.3f, y = 20.7f; Ev next(const Kind &k) { x += k.dx; y += k.dy; return Ev{x, y, k.p, k.xt, k.yt, k.dt, k.zoom, k.rot, k.barrel, 0}; } };
// brushes that together use every state value
enum { PLAIN, SMUDGE, BUCKETS, TRACK, CUSTOM, MIRROR, GRID, SHAPE, TIMED, ALL, RANDOM, NOISE, NBRUSH };
static const char *const BNAME[] = {"plain", "smudge", "smudge buckets", "slow tracking, speed", "custom, stroke, speed inputs", "mirrored and directional offsets", "grid map", "elliptical, rotating", "dabs per second", "everything", "random", "tracking noise"};
static void apply(MyPaintBrush *b, int k) {
  mypaint_brush_from_defaults(b);
  for (int s = 0; s < NS; s++) for (int i = 0; i < NI; i++) if (mypaint_brush_get_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i)) mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, 0);
  set_base(b, S_(OPAQUE_MULTIPLY), 1); set_base(b, S_(RADIUS_LOGARITHMIC), 1.1f); set_base(b, S_(COLOR_H), .3f); set_base(b, S_(COLOR_S), .7f); set_base(b, S_(COLOR_V), .6f);
  set_curve(b, S_(OPAQUE), I_(PRESSURE), {{0, -.6f}, {1, 0}});
  bool all = k == ALL;
  if (k == SMUDGE || all) { set_base(b, S_(SMUDGE), .6f); set_base(b, S_(SMUDGE_LENGTH), .7f); set_base(b, S_(SMUDGE_LENGTH_LOG), .4f); set_base(b, S_(PAINT_MODE), 0); }
  if (k == BUCKETS) { set_base(b, S_(SMUDGE), .6f); set_base(b, S_(SMUDGE_LENGTH), .8f); set_curve(b, S_(SMUDGE_BUCKET), I_(PRESSURE), {{0, 0}, {1, 3}}); }
  if (k == TRACK || all) { set_base(b, S_(SLOW_TRACKING), 2); set_base(b, S_(SLOW_TRACKING_PER_DAB), 1.5f); set_base(b, S_(OFFSET_BY_SPEED), .8f); set_base(b, S_(OFFSET_BY_SPEED_SLOWNESS), 2); }
  if (k == CUSTOM || all) { set_base(b, S_(CUSTOM_INPUT_SLOWNESS), 2); set_curve(b, S_(CUSTOM_INPUT), I_(PRESSURE), {{0, 0}, {1, 1}}); set_curve(b, S_(CHANGE_COLOR_V), I_(CUSTOM), {{-1, -1}, {1, 1}}); set_curve(b, S_(CHANGE_COLOR_L), I_(STROKE), {{0, -.3f}, {1, .3f}}); set_base(b, S_(STROKE_DURATION_LOGARITHMIC), 2.5f); set_base(b, S_(STROKE_THRESHOLD), .1f);
    set_curve(b, S_(CHANGE_COLOR_H), I_(SPEED1), {{0, -.2f}, {4, .3f}}); set_curve(b, S_(HARDNESS), I_(SPEED2), {{0, -.4f}, {4, .1f}}); set_base(b, S_(SPEED1_GAMMA), 3); set_base(b, S_(SPEED2_SLOWNESS), .5f); }
  if (k == MIRROR || all) { set_base(b, S_(OFFSET_ANGLE), .4f); set_base(b, S_(OFFSET_ANGLE_2), .7f); set_base(b, S_(OFFSET_ANGLE_2_ASC), .5f); set_base(b, S_(OFFSET_ANGLE_2_VIEW), .3f); set_base(b, S_(OFFSET_ANGLE_ADJ), 20); set_curve(b, S_(SOFTNESS), I_(ATTACK_ANGLE), {{-180, 0}, {180, .6f}}); }
  if (k == GRID || all) { set_curve(b, S_(CHANGE_COLOR_HSV_S), I_(GRIDMAP_X), {{0, -.5f}, {256, .5f}}); set_curve(b, S_(OFFSET_X), I_(GRIDMAP_Y), {{0, 0}, {256, 1}}); set_base(b, S_(GRIDMAP_SCALE), -2); }
  if (k == SHAPE || all) { set_base(b, S_(ELLIPTICAL_DAB_RATIO), 2.5f); set_curve(b, S_(ELLIPTICAL_DAB_ANGLE), I_(DIRECTION), {{0, 0}, {180, 180}}); set_curve(b, S_(RADIUS_LOGARITHMIC), I_(TILT_DECLINATION), {{0, -.4f}, {90, .4f}}); set_curve(b, S_(LOCK_ALPHA), I_(BARREL_ROTATION), {{-180, 0}, {180, 1}}); set_curve(b, S_(COLORIZE), I_(TILT_DECLINATIONX), {{-60, 0}, {60, 1}}); set_curve(b, S_(POSTERIZE), I_(VIEWZOOM), {{-2, 0}, {2, 1}}); }
  if (k == TIMED || all) { set_base(b, S_(DABS_PER_SECOND), 35); set_curve(b, S_(DABS_PER_ACTUAL_RADIUS), I_(PRESSURE), {{0, -1}, {1, 1}}); set_base(b, S_(DABS_PER_BASIC_RADIUS), .5f); }
  if (k == RANDOM) { set_base(b, S_(OFFSET_BY_RANDOM), .8f); set_base(b, S_(RADIUS_BY_RANDOM), .4f); set_curve(b, S_(CHANGE_COLOR_H), I_(RANDOM), {{0, -.5f}, {1, .5f}}); }
  if (k == NOISE) { set_base(b, S_(TRACKING_NOISE), 4); set_base(b, S_(SLOW_TRACKING), 1); set_base(b, S_(OFFSET_BY_RANDOM), .3f); }
}
static void canvas(BRead &q) { long i = lrint(floor(q.x / 7)), j = lrint(floor(q.y / 5)); q.c[0] = (i & 3) / 3.f; q.c[1] = (j & 3) / 3.f; q.c[2] = ((i + j) & 1) * .8f; q.c[3] = ((i ^ j) & 3) / 3.f; }
static MyPaintBrush *make(int nb, int fill) { mca::fill = fill; MyPaintBrush *b = nb ? mypaint_brush_new_with_buckets(nb) : mypaint_brush_new(); mca::fill = 0xA5; return b; }
struct Pair {
  MyPaintBrush *b[2] = {0, 0}; Rec r[2]; int nb = 0; size_t d0[2] = {0, 0}, q0[2] = {0, 0};
  Pair() { for (auto &x : r) { x.color = canvas; x.painted = [](const BDab &d) { return d.opaque > 0; }; x.limit = 20000; } }
  ~Pair() { for (auto x : b) if (x) mypaint_brush_unref(x); }
  void mark() { for (int i = 0; i < 2; i++) d0[i] = r[i].dabs.size(), q0[i] = r[i].reads.size(); }
  void same_state(const char *when) {
    for (int i = 0; i < NST; i++) { float a = mypaint_brush_get_state(b[0], (MyPaintBrushState)i), c = mypaint_brush_get_state(b[1], (MyPaintBrushState)i); MC_CHECK(!memcmp(&a, &c, 4) || a == c, "%s: state %d is %.9g in one brush, %.9g in the other", when, i, a, c); }
    for (int k = 0; k < nb; k++) { float v[2][BUCKET]; for (int i = 0; i < 2; i++) getb(b[i], k, v[i]); for (int j = 0; j < BUCKET; j++) MC_CHECK(v[0][j] == v[1][j], "%s: value %d of smudge bucket %d is %.9g in one brush, %.9g in the other", when, j, k, v[0][j], v[1][j]); }
  }
  static bool getb(MyPaintBrush *q, int k, float *v) { return mypaint_brush_get_smudge_bucket_state(q, k, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8); }
  static bool setb(MyPaintBrush *q, int k, const float *v) { return mypaint_brush_set_smudge_bucket_state(q, k, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); }
  void both(const Ev &e, const char *when, bool rets) {
    logev(e); int ret[2]; for (int i = 0; i < 2; i++) ret[i] = stroke(b[i], r[i], e);
    size_t n = r[0].dabs.size() - d0[0], m = r[1].dabs.size() - d0[1]; MC_CHECK(n == m, "%s: one brush issued %zu dabs, the other %zu", when, n, m);
    for (size_t i = 0; i < n; i++) { const float *x = &r[0].dabs[d0[0] + i].x, *y = &r[1].dabs[d0[1] + i].x; for (int k = 0; k < 17; k++) MC_CHECK(x[k] == y[k] || (x[k] != x[k] && y[k] != y[k]), "%s: dab %zu has %s=%.9g from one brush, %.9g from the other", when, i, DABF[k], x[k], y[k]); mc::observe(mc::hbytes(x, sizeof(BDab))); }
    MC_CHECK(r[0].reads.size() - q0[0] == r[1].reads.size() - q0[1], "%s: one brush sampled the canvas %zu times, the other %zu times", when, r[0].reads.size() - q0[0], r[1].reads.size() - q0[1]);
    if (rets) { MC_CHECK(ret[0] == ret[1], "%s: one brush asks to split the stroke (%d), the other does not (%d)", when, ret[0], ret[1]); double t0 = mypaint_brush_get_total_stroke_painting_time(b[0]), t1 = mypaint_brush_get_total_stroke_painting_time(b[1]); MC_CHECK(t0 == t1, "%s: painting times %g and %g", when, t0, t1); }
    same_state(when);
  }
};
// ---------------------------------------------------------------- B04
static void b04_memory() {   // the contents of fresh memory do not matter
  Pair p; int k = mc::choose(NBRUSH); p.nb = mc::choose(3); if (p.nb == 2) p.nb = 5; mc::logf("brush: %s, %d buckets", BNAME[k], p.nb); static const int FILL[] = {0xFF, 0x3F, 0x42};
  int f = FILL[mc::choose(3)]; for (int i = 0; i < 2; i++) { p.b[i] = make(p.nb, i ? f : 0); mca::fill = i ? f : 0; if (k < NBRUSH) apply(p.b[i], k); mca::fill = 0xA5; }
  p.same_state("new brush"); Walk w; int n = mc::thorough() ? 4 : 3;
  for (int i = 0; i < n; i++) { if (i && mc::choose_dev(2)) { mc::logf("reset"); for (auto x : p.b) mypaint_brush_reset(x); } p.both(w.next(KINDS[mc::choose(7)]), "event", true); }
}
static void b04_fresh_defaults() {   // brushes nobody configured, or configured only by a definition
  Pair p; int how = mc::choose(3); p.nb = mc::choose(2) * 3; mc::logf("brush %s, %d buckets", how == 0 ? "without any setting" : how == 1 ? "from defaults" : "from a definition", p.nb);
  for (int i = 0; i < 2; i++) { p.b[i] = make(p.nb, i ? 0x42 : 0); mca::fill = i ? 0x42 : 0; if (how == 1) mypaint_brush_from_defaults(p.b[i]); if (how == 2) mypaint_brush_from_string(p.b[i], "{\"version\":3,\"settings\":{\"opaque\":{\"base_value\":1,\"inputs\":{\"speed1\":[[0,0],[4,-0.5]]}},\"radius_logarithmic\":{\"base_value\":1,\"inputs\":{}}}}"); mca::fill = 0xA5; }
  p.same_state("new brush"); Walk w; for (int i = 0; i < 4; i++) p.both(w.next(KINDS[mc::choose(6)]), "event", true);
}
static void b04_printing() {   // printing the inputs (a debugging aid) changes nothing
  static bool once = freopen("/dev/null", "w", stdout) != nullptr; (void)once; Pair p; int k = mc::choose(NBRUSH); p.nb = 0; mc::logf("brush: %s, inputs printed", BNAME[k]); for (int i = 0; i < 2; i++) { p.b[i] = make(p.nb, 0xA5); apply(p.b[i], k); }
  int when = mc::choose(3); if (when == 0) mypaint_brush_set_print_inputs(p.b[1], TRUE);
  Walk w; int n = mc::thorough() ? 4 : 3; for (int i = 0; i < n; i++) { if (i == 1 && when == 1) mypaint_brush_set_print_inputs(p.b[1], TRUE); if (i == 2 && when == 2) { mypaint_brush_set_print_inputs(p.b[1], TRUE); mypaint_brush_reset(p.b[0]); mypaint_brush_reset(p.b[1]); } p.both(w.next(KINDS[mc::choose(7)]), "event", true); }
}
static void b04_reset() {
  Pair p; int k = mc::choose(RANDOM); bool other = mc::choose_dev(2); int k0 = other ? mc::choose(NBRUSH) : k; p.nb = k == BUCKETS || k0 == BUCKETS ? 4 : mc::choose(2) * 2; mc::logf("brush: %s, %d buckets", BNAME[k0], p.nb);
  for (int i = 0; i < 2; i++) p.b[i] = make(p.nb, 0xA5); apply(p.b[0], k0); apply(p.b[1], k);
  Walk w; int n = mc::choose(other && !mc::thorough() ? 2 : 3) + 1; static const int PRE[] = {0, 1, 2, 3, 4, 5}; for (int i = 0; i < n; i++) { Ev e = w.next(KINDS[i == 0 ? 5 : PRE[mc::choose(mc::thorough() ? 6 : 5)]]); logev(e); stroke(p.b[0], p.r[0], e); }
  if (other) { mc::logf("settings changed to: %s", BNAME[k]); apply(p.b[0], k); }
  int how = mc::choose(3); bool ns = mc::flip(); if (how != 1) { mc::logf("reset"); mypaint_brush_reset(p.b[0]); } if (ns) { mc::logf("new stroke"); mypaint_brush_new_stroke(p.b[0]); }
  // putting the lifted brush down after a pause is two events: the pause is bridged without pressure first
  bool lifted = how == 1 && mypaint_brush_get_state(p.b[0], (MyPaintBrushState)ST_(PRESSURE)) == 0;
  p.mark(); Walk v; v.x = mc::flip() ? -70 : w.x + 3; v.y = 33; int m = mc::thorough() ? 4 : 3;
  for (int i = 0; i < m; i++) { int c = i ? mc::choose(mc::thorough() ? (i == 1 ? 6 : 4) : i == 1 ? 4 : 2) : how >= 1 ? 6 : 0; Ev e = v.next(KINDS[c]); if (!i && lifted) e.p = 0; p.both(e, "after the restart", ns); if (!i) { MC_CHECK(p.r[0].dabs.size() == p.d0[0], "the first event after a restart painted"); MC_CHECK(mypaint_brush_get_state(p.b[0], (MyPaintBrushState)ST_(X)) == e.x && mypaint_brush_get_state(p.b[0], (MyPaintBrushState)ST_(ACTUAL_Y)) == e.y, "the stroke does not start at the event's own position"); } }
}
// ---------------------------------------------------------------- B08
static void b08_restore() {
  Pair p; int k = mc::choose(RANDOM); p.nb = k == BUCKETS ? 4 : k == SMUDGE || k == ALL ? mc::choose(2) * 3 : 0; mc::logf("brush: %s, %d buckets", BNAME[k], p.nb); for (int i = 0; i < 2; i++) { p.b[i] = make(p.nb, 0xA5); apply(p.b[i], k); }
  Walk w; int n = mc::choose(4) + 1; for (int i = 0; i < n; i++) { Ev e = w.next(KINDS[i == 0 ? 0 : mc::choose(i == 1 ? 6 : 4)]); logev(e); stroke(p.b[0], p.r[0], e); }
  // the receiving brush has a history of its own
  Walk v; v.x = -200; int m = mc::choose(2) ? 3 : 1; for (int i = 0; i < m; i++) stroke(p.b[1], p.r[1], v.next(KINDS[i]));
  mc::logf("state of a brush with %d events copied to one with %d", n, m); for (auto x : p.b) mypaint_brush_new_stroke(x);
  for (int i = 0; i < NST; i++) mypaint_brush_set_state(p.b[1], (MyPaintBrushState)i, mypaint_brush_get_state(p.b[0], (MyPaintBrushState)i));
  for (int i = 0; i < p.nb; i++) { float q[BUCKET]; MC_CHECK(Pair::getb(p.b[0], i, q), "bucket %d of %d cannot be read", i, p.nb); MC_CHECK(Pair::setb(p.b[1], i, q), "bucket %d of %d cannot be written", i, p.nb); }
  p.same_state("restored"); p.mark(); int c = mc::thorough() ? 3 : 2; for (int i = 0; i < c; i++) p.both(w.next(KINDS[mc::choose(7)]), "after restoring the state", true);
}
static void b08_states() {   // each value is stored by itself
  MyPaintBrush *b = make(0, 0xA5); std::shared_ptr<MyPaintBrush> own(b, mypaint_brush_unref); int k = mc::thorough() ? mc::choose(NBRUSH) : mc::choose(2) ? ALL : PLAIN; apply(b, k); Rec r; r.color = canvas; Walk w; int n = mc::choose(3); for (int i = 0; i < n; i++) stroke(b, r, w.next(KINDS[i]));
  float m[NST]; for (int i = 0; i < NST; i++) m[i] = mypaint_brush_get_state(b, (MyPaintBrushState)i);
  static const float V[] = {0, -1, 1e9f, -179.5f, 1e-30f, 0.3f}; for (int i = 0; i < 2; i++) { int s = mc::choose(NST); float v = mc::pick(V); mc::logf("set_state(%d, %g)", s, v); mypaint_brush_set_state(b, (MyPaintBrushState)s, v); m[s] = v; mc::step(); }
  for (int i = 0; i < NST; i++) { float q = mypaint_brush_get_state(b, (MyPaintBrushState)i); mc::observe_f(q); MC_CHECK(!memcmp(&q, &m[i], 4), "state %d reads %g, should be %g", i, q, m[i]); }
}
static void bval(int n, float *v) { for (int i = 0; i < BUCKET; i++) v[i] = n ? .01f * (n * 10 + i) : 0; }
static void b08_buckets() {
  static const int NB[] = {0, 1, 2, 3, 7, 256}; int nb = NB[mc::choose(6)]; MyPaintBrush *b = mypaint_brush_new_with_buckets(nb); std::shared_ptr<MyPaintBrush> own(b, mypaint_brush_unref); mc::logf("%d buckets", nb); MC_CHECK(b, "no brush with %d buckets", nb);
  apply(b, PLAIN); Rec r; r.color = canvas; std::vector<std::array<float, BUCKET>> m(nb); for (auto &x : m) x.fill(0); int lo = -1, hi = -1; bool pending = true; int D = mc::thorough() ? 4 : 3;
  const int IX[] = {0, nb / 2, nb - 1, nb, -1, nb + 1, INT_MAX, INT_MIN, 1};
  for (int d = 1; d <= D; d++) {
    int op = mc::choose(11);
    if (op < 9) {
      int ix = IX[op]; float v[BUCKET]; bval(d, v); bool ok = Pair::setb(b, ix, v), want = ix >= 0 && ix < nb; mc::logf("set bucket %d", ix); mc::step(); MC_CHECK(ok == want, "writing bucket %d of %d %s", ix, nb, ok ? "is accepted" : "is rejected");
      if (want) { std::copy(v, v + BUCKET, m[ix].begin()); lo = lo < 0 ? ix : std::min(lo, ix); hi = std::max(hi, ix); }
    } else if (op == 9) { mc::logf("reset"); mypaint_brush_reset(b); pending = true; }
    else { Ev e = mkev(5.f * d, 3, .5f, .1); logev(e); stroke(b, r, e); if (pending) { for (auto &x : m) x.fill(0); lo = hi = -1; pending = false; } }
    for (int i = 0; i < nb; i++) { float q[BUCKET]; MC_CHECK(Pair::getb(b, i, q), "bucket %d of %d cannot be read", i, nb); for (int j = 0; j < BUCKET; j++) MC_CHECK(q[j] == m[i][j], "value %d of bucket %d is %g, should be %g", j, i, q[j], m[i][j]); }
    for (int ix : {nb, -1, nb + 1, INT_MAX, INT_MIN}) { float q[BUCKET]; for (float &z : q) z = 77; MC_CHECK(!Pair::getb(b, ix, q), "reading bucket %d of %d is accepted", ix, nb); for (float z : q) MC_CHECK(z == 77, "rejected read of bucket %d wrote %g", ix, z); }
    if (nb) { int gl = mypaint_brush_get_min_smudge_bucket_used(b), gh = mypaint_brush_get_max_smudge_bucket_used(b); mc::observe(gl * 1000 + gh);
      MC_CHECK(gl == lo && gh == hi, "used buckets %d..%d, written were %d..%d", gl, gh, lo, hi); }
  }
}
// painting changes only the bucket in use, and the others keep what they hold
static void b08_paint() {
  static const int NB[] = {2, 3, 6, 256}; int nb = NB[mc::choose(4)]; MyPaintBrush *b = mypaint_brush_new_with_buckets(nb); std::shared_ptr<MyPaintBrush> own(b, mypaint_brush_unref); apply(b, PLAIN); set_base(b, S_(SMUDGE), .5f); set_base(b, S_(SMUDGE_LENGTH), .5f); set_base(b, S_(PAINT_MODE), mc::flip());
  Rec r; r.color = canvas; Walk w; stroke(b, r, w.next(KINDS[0])); int lo = -1, hi = -1; const float IX[] = {0, 1, nb / 2.f + .2f, nb - 1.f, 255, .4f, 1.3f}; mc::logf("%d buckets", nb); std::vector<std::array<float, BUCKET>> m(nb); for (auto &x : m) x.fill(0);
  auto expect = [&](int used, const char *when) { for (int i = 0; i < nb; i++) { float q[BUCKET]; Pair::getb(b, i, q); bool diff = memcmp(q, m[i].data(), sizeof q); MC_CHECK(i == used || !diff, "%s: bucket %d changed although bucket %d is in use", when, i, used); std::copy(q, q + BUCKET, m[i].begin()); } };
  for (int d = 1; d <= (mc::thorough() ? 4 : 3); d++) {
    int op = mc::choose(9);
    if (op < 7) { float f = IX[op]; int k = (int)rclamp(floor(f + .5), 0, nb - 1); set_base(b, S_(SMUDGE_BUCKET), f); Ev e = w.next(KINDS[d & 1]); mc::logf("smudge_bucket=%g", f); logev(e); size_t n0 = r.dabs.size(); stroke(b, r, e); MC_CHECK(r.dabs.size() > n0, "no dab"); auto before = m[k]; expect(k, "painting"); MC_CHECK(before != m[k], "painting with bucket %d left it as it was", k); lo = lo < 0 ? k : std::min(lo, k); hi = std::max(hi, k); }
    else if (op == 7) { mc::logf("reset"); mypaint_brush_reset(b); expect(-1, "reset request"); stroke(b, r, w.next(KINDS[0])); for (auto &x : m) x.fill(0); expect(-1, "reset"); lo = hi = -1; }
    else { float v[BUCKET]; bval(d, v); Pair::setb(b, nb - 1, v); std::copy(v, v + BUCKET, m[nb - 1].begin()); expect(-1, "write"); lo = lo < 0 ? nb - 1 : std::min(lo, nb - 1); hi = nb - 1; }
    MC_CHECK(mypaint_brush_get_min_smudge_bucket_used(b) == lo && mypaint_brush_get_max_smudge_bucket_used(b) == hi, "used buckets %d..%d, should be %d..%d", mypaint_brush_get_min_smudge_bucket_used(b), mypaint_brush_get_max_smudge_bucket_used(b), lo, hi);
    mc::observe(lo * 300 + hi);
  }
}
// ---------------------------------------------------------------- B07
static void b07_run(int D, const std::vector<float> &ps, const std::vector<double> &dts, bool still, int how) {
  MyPaintBrush *b = mypaint_brush_new(); std::shared_ptr<MyPaintBrush> own(b, mypaint_brush_unref); apply(b, PLAIN); Rec rec; RefBrush ref;
  if (how == 1) { set_base(b, S_(DABS_PER_ACTUAL_RADIUS), .25f); } if (how == 2) { set_base(b, S_(DABS_PER_ACTUAL_RADIUS), 0); set_base(b, S_(DABS_PER_SECOND), 9); } if (how == 3) { set_curve(b, S_(OPAQUE), I_(STROKE), {{0, 0}, {.4f, 0}, {.5f, -2}, {1, -2}}); set_base(b, S_(STROKE_DURATION_LOGARITHMIC), 1.2f); set_base(b, S_(STROKE_HOLDTIME), .5f); }
  ref.from(b); ref.rec = &rec; std::vector<int> did; rec.painted = [&](const BDab &d) { int p = d.opaque > 0; did.push_back(p); return p; };
  auto painted = [&](size_t i) { return i < did.size() && did[i]; }; float x = 10, y = 10;
  { Ev e = mkev(x, y, 0, .1); logev(e); int r = stroke(b, rec, e); ref.event(e, painted); MC_CHECK(r, "the first event of a brush does not start a new stroke"); }
  for (int i = 0; i < D; i++) {
    int np = ps.size(), nt = dts.size(), op = mc::choose(np * nt * (still ? 2 : 1) + 2);
    if (op < 2) { if (op) { mc::logf("reset"); mypaint_brush_reset(b); ref.reset = true; } else { mc::logf("new stroke"); mypaint_brush_new_stroke(b); ref.total = ref.idle = 0; MC_CHECK(mypaint_brush_get_total_stroke_painting_time(b) == 0, "painting time %g right after a new stroke", mypaint_brush_get_total_stroke_painting_time(b)); } continue; }
    op -= 2; float p = ps[op % np]; double dt = dts[op / np % nt]; if (op / (np * nt) == 0) x += i & 1 ? 5.3f : -6.1f, y += 2.2f; Ev e = mkev(x, y, p, dt); logev(e); size_t n0 = rec.dabs.size(); int r = stroke(b, rec, e); ref.event(e, painted);
    if (ref.amb) { mc::logf("not decided: %s", ref.ambwhy.c_str()); mc::discard(); }
    if (ref.dabs.size() != rec.dabs.size()) mc::discard();   // another property's business
    MC_CHECK(!r == !ref.ret, "the event %s a split of the stroke (painted %g s, idle %g s before and including this event, %zu dabs issued)", r ? "asks for" : "does not ask for", ref.total, ref.idle, rec.dabs.size() - n0);
    double t = mypaint_brush_get_total_stroke_painting_time(b); MC_CHECK(fabs(t - ref.total) < 1e-6 * (1 + ref.total), "reported painting time %g, should be %g", t, ref.total); mc::observe(r); mc::observe_f(t);
  }
}
static void b07_fine() { if (mc::thorough()) b07_run(5, {0, .3f, .8f}, {.05, .1, .3, 1.01, 2.3}, true, mc::choose(2)); else b07_run(4, {0, .3f, .8f}, {.05, .3, 1.01}, true, mc::choose(2)); }
static void b07_long() { b07_run(mc::thorough() ? 7 : 5, {0, .8f}, {.09, .9, 2.6}, false, mc::choose(4)); }
static void b07_pause() { b07_run(mc::thorough() ? 4 : 3, {0, .25f, 1}, {.05, 1.2, 4.95, 5.05, 6}, true, mc::choose(4)); }
static void b07_slow() { b07_run(mc::thorough() ? 7 : 5, {0, .5f}, {.08, .4}, true, mc::choose(3)); }
// Continuous painting in small steps: where exactly splits are asked for.
static void b07_continuous() {
  MyPaintBrush *b = mypaint_brush_new(); std::shared_ptr<MyPaintBrush> own(b, mypaint_brush_unref); apply(b, PLAIN); Rec rec; static const float P[] = {.2f, .5f, 1}; static const double T[] = {.0103, .0407, .0931}; float p = mc::pick(P); double dt = mc::pick(T); int trend = mc::choose(3); int lift = mc::choose(4); bool ns = mc::flip();
  rec.painted = [](const BDab &d) { return 1; }; float x = 0; stroke(b, rec, mkev(x, 0, p, .05)); double paint = 0; int splits = 0; double lifted_at = lift * 1.307; mc::logf("painting at pressure %g with an event every %g s, pressure %s, lifted after %g s", p, dt, trend == 0 ? "constant" : trend == 1 ? "falling" : "rising", lift ? lifted_at : 99.);
  float q = p; int n = 0; for (; n * dt < 14 && (!lift || n * dt < lifted_at); n++) {
    if (trend == 1) q = p * (1 - .0005f * n) > 0.05f ? p * (1 - .0005f * n) : .05f; if (trend == 2) q = std::min(1.f, p * (1 + .0005f * n));
    bool down = trend == 1 && n && p * (1 - .0005f * n) > 0.05f; x += 4; int r = stroke(b, rec, mkev(x, 0, q, dt)); paint += dt; double lim = 4 + 3 * (double)q;
    if (fabs(paint - lim) < 1e-4) mc::discard();
    if (q == .05f && trend == 1) break;
    MC_CHECK(!r == !(paint > lim && !down), "after %g s of continuous painting (limit %g s, pressure %s) the event %s a split", paint, lim, down ? "falling" : "not falling", r ? "asks for" : "does not ask for");
    if (r) { splits++; if (ns) { mypaint_brush_new_stroke(b); paint = 0; } else if (splits > 20) break; }
  }
  if (lift) { rec.painted = [](const BDab &) { return 0; }; double idle = 0; bool any = paint > 0; for (int i = 0; i < 120; i++) { x += 4; int r = stroke(b, rec, mkev(x, 0, 0, dt)); idle += dt; double lim = any ? .9 - paint : 1; if (fabs(idle - lim) < 1e-4) mc::discard(); MC_CHECK(!r == !(idle > lim), "%g s after lifting the brush (painted %g s) the event %s a split", idle, paint, r ? "asks for" : "does not ask for"); if (r) { mypaint_brush_new_stroke(b); any = false; paint = 0; idle = 0; } } }
  mc::observe(splits); mc::observe(n);
}
int main(int argc, char **argv) {
  return mc::main(argc, argv, [] {
    const std::string &p = mc::g().prop; bool T = mc::thorough();
    if (p == "B04") {
      mc::add("memory", T ? 3 : 1, 4, "12 brushes (together using every state value, random included) x 0, 1, 5 smudge buckets x 3 patterns of fresh memory x every sequence of 3 (4) of 7 event kinds with up to 1 (3) resets; bitwise comparison", b04_memory);
      mc::add("printing", 0, 3, "12 brushes x printing of the inputs switched on at 3 moments x every sequence of 3 (4) of 7 event kinds; differential", b04_printing);
      mc::add("unconfigured", 0, 3, "brushes without settings, from defaults, from a partial definition x every sequence of 4 of 6 event kinds", b04_fresh_defaults);
      mc::add("reset", 1, 5, "10 brushes x every history of 1..3 events (optionally painted with another brush's settings) x reset / pause / both x new stroke x two positions x every continuation of 3 (4) events; against a fresh brush, bitwise", b04_reset);
    } else if (p == "B07") {
      mc::add("fine", 0, 3, "every history of 4 (5) of {new stroke, reset, 3 pressures x 3 (5) time steps x moving or resting} x 2 densities", b07_fine);
      mc::add("long", 0, 3, "every history of 5 (7) of {new stroke, reset, 2 pressures x 3 time steps} x 4 brushes (sparse, by time, gappy)", b07_long);
      mc::add("pause", 0, 3, "every history of 3 (4) of {new stroke, reset, 3 pressures x 5 time steps around 5 s x moving or resting} x 4 brushes", b07_pause);
      mc::add("slow", 0, 3, "every history of 5 (7) of {new stroke, reset, 2 pressures x 2 time steps x moving or resting} x 3 brushes", b07_slow);
      mc::add("continuous", 0, 2, "painting up to 12 s in steps of 3 lengths at 3 pressures (constant, falling, rising), lifted at 4 moments, with and without new strokes", b07_continuous);
    } else {
      mc::add("restore", 0, 4, "10 brushes x every prefix of 1..4 events x receiving brush with 2 histories x every continuation of 2 (3) of 7 event kinds; bitwise comparison of dabs, states, buckets, splits", b08_restore);
      mc::add("states", 0, 3, "2 (12) brushes x 3 histories x every pair of (state, one of 6 values)", b08_states);
      mc::add("buckets", 0, 3, "0, 1, 2, 3, 7, 256 buckets x every sequence of 3 (4) of {write one of 9 (valid and invalid) indices, reset, event}; all buckets read back after each", b08_buckets);
      mc::add("paint", 0, 3, "2, 3, 6, 256 buckets x pigment or not x every sequence of 3 (4) of {paint with one of 7 bucket settings, reset, write}", b08_paint);
    }
  });
}
