// S07 parallel rendering and reading, S08 independence of separate brushes and surfaces: all schedules up to a bound.
#include "surf.hpp"
#include "sched.hpp"
extern "C" {
#include "mypaint-brush.h"
#include "mypaint-brush-settings.h"
#include "mypaint-fixed-tiled-surface.h"
}
#include <memory>
#define S_(n) MYPAINT_BRUSH_SETTING_##n
struct Out { uint64_t canvas = 0; std::vector<int> rects; std::vector<float> cols; std::vector<std::vector<std::pair<std::pair<int, int>, std::vector<uint16_t>>>> px; };
static Px background(int x, int y) { int k = (x * 7 + y * 13) & 15; uint16_t a = k < 4 ? 0 : k < 8 ? 32768 : 4096 * (k - 7); return Px{{(uint16_t)(a / 2), (uint16_t)(a / 3), (uint16_t)(a - a / 4), a}}; }
// What is painted: each layout dirties at least four tiles, in a different pattern.
static const char *const LNAME[] = {"one corner of four tiles", "row of five tiles", "2x3 tiles, several dabs per tile", "mirrored dabs", "far apart tiles", "every blend mode around a corner"};
static void layout(TSurf &s, int l, int phase) {
  Dab d = mkdab(64, 64, 4.3f); d.hardness = .6f;
  switch (l) {
    case 0: d.x = 64 + phase; draw(s, d); break;
    case 1: for (int i = 0; i < 5; i++) { d.x = 30 + 64 * i; d.y = 20 + 3 * i + phase; draw(s, d); } break;
    case 2: for (int i = 0; i < 4; i++) { d.x = 64 + 61 * (i & 1); d.y = 64 + 2 * i + phase; d.cg = i * .3f; d.opaque = .5f; draw(s, d); } break;
    case 3: mypaint_surface_end_atomic(s.iface(), nullptr); mypaint_tiled_surface_set_symmetry_state(&s.s, TRUE, 100, 90, 30, MYPAINT_SYMMETRY_TYPE_SNOWFLAKE, 3); s.begin(); d.x = 60 + phase; d.y = 140; draw(s, d); break;
    case 4: for (int i = 0; i < 5; i++) { d.x = (i % 2 ? -700.f : 900.f) * (i + 1) / 3 + phase; d.y = 400.f * i - 300; draw(s, d); } break;
    case 5: for (int i = 0; i < 6; i++) { d.x = 62 + i; d.y = 66 - i + phase; d.opaque = .7f; d.lock = i == 1; d.colorize = i == 2; d.posterize = i == 3; d.paint = i == 4; d.alpha = i == 5 ? 0.f : 1.f; draw(s, d); } break;
  }
}
struct Plan { int lay, lay2, nr, read, capacity; float paint, radius; bool safe; };
static Out perform(const Plan &p, TSurf &s) {
  Out o; auto end = [&] { std::vector<MyPaintRectangle> rs(p.capacity + 1); MyPaintRectangles r = {p.capacity, rs.data()}; s.end(&r); mc::step(); o.rects.push_back(r.num_rectangles); for (int i = 0; i < r.num_rectangles; i++) for (int v : {rs[i].x, rs[i].y, rs[i].width, rs[i].height}) o.rects.push_back(v); };
  auto readp = [&](float x, float y) { float c[4]; mypaint_surface_get_color(s.iface(), x, y, p.radius, c, c + 1, c + 2, c + 3, p.paint); mc::step(); o.cols.insert(o.cols.end(), c, c + 4); };
  s.begin(); layout(s, p.lay, 0); if (p.read & 1) readp(100, 90); end();
  if (p.lay2 >= 0) { s.begin(); layout(s, p.lay2, 2); if (p.read & 2) readp(64, 70); end(); } 
  if (p.read & 4) readp(96, 96);
  return o;
}
static std::map<std::string, std::pair<Out, std::shared_ptr<TSurf>>> refs;
static void compare(const Plan &p, int threads) {
  char key[100]; snprintf(key, 100, "%d %d %d %d %g %g", p.lay, p.lay2, p.read, p.capacity, p.paint, p.radius); mca::rand_hook = [] { return RAND_MAX; };
  if (!refs.count(key)) { sched::reset(); if (refs.size() > 40) refs.clear(); auto s = std::make_shared<TSurf>(); s->init = background; sched::nthreads = 1; s->s.threadsafe_tile_requests = FALSE; Out o = perform(p, *s); s->check_protocol(); refs[key] = {o, s}; }
  Out &ro = refs[key].first; TSurf &rs = *refs[key].second;
  sched::reset(); sched::nthreads = threads; TSurf s; s.init = background; s.s.threadsafe_tile_requests = p.safe; bool bad = false; std::set<void *> seen;
  s.on_request = [&](int tx, int ty, bool, int what) { void *t = s.tile(tx, ty); if (seen.insert(t).second) sched::track(t, (size_t)s.ts * s.ts * 8); if (sched::in_team() && !p.safe) bad = true; sched::point(); };
  Out o = perform(p, s);
  if (mc::describing()) mc::logf("%ld parallel regions with %d threads, %ld switches at %ld points, %ld accesses", sched::regions, threads, sched::switches, sched::points, sched::accesses);
  sched::check(); s.check_protocol(); if (bad) mc::fail("a backend that is not thread-safe is called from several threads");
  compare_surfaces(s, rs, "rendered by threads"); MC_CHECK(o.rects == ro.rects, "the reported rectangles differ from sequential rendering (%zu numbers, %zu)", o.rects.size(), ro.rects.size());
  MC_CHECK(o.cols.size() == ro.cols.size(), "colours"); for (size_t i = 0; i < o.cols.size(); i++) { float a = o.cols[i], b = ro.cols[i]; if (p.paint > 0) MC_CHECK(a >= 0 && a <= 1, "colour read %g", a); else MC_CHECK(fabs(a - b) <= 1e-3, "component %zu of the colour read is %g, sequentially %g", i % 4, a, b); }
  mc::observe(s.hash()); mc::observe(sched::switches); mc::observe(sched::points); for (float c : o.cols) mc::observe_f(c);
}
static void s07_render() { Plan p{}; p.lay = mc::choose(6); p.lay2 = -1; p.capacity = mc::choose(2) ? 1 : 20; p.paint = -1; p.safe = mc::choose(3) != 2; int t = mc::choose(mc::thorough() ? 3 : 2) + 2; mc::logf("%s, %d threads", LNAME[p.lay], t); compare(p, t); }
static void s07_twice() { Plan p{}; p.lay = mc::choose(6); p.lay2 = mc::choose(6); p.capacity = 20; p.paint = -1; p.safe = true; int t = mc::choose(2) + 2; mc::logf("%s, then %s, %d threads", LNAME[p.lay], LNAME[p.lay2], t); compare(p, t); }
static void s07_read() { Plan p{}; p.lay = mc::choose(6); p.lay2 = mc::choose(2) ? 2 : -1; p.capacity = 20; static const float P[] = {-1, 0, 1, .5f}, R[] = {70, 100}; p.paint = P[mc::choose(4)]; p.radius = R[mc::choose(mc::thorough() ? 2 : 1)]; p.read = p.lay2 >= 0 ? 2 : mc::choose(2) ? 1 : 4; p.safe = mc::choose(4) != 3; int t = mc::thorough() ? mc::choose(2) + 2 : 2; mc::logf("%s, read %s with radius %g pigment %g, %d threads", LNAME[p.lay], p.read == 4 ? "afterwards" : "while dabs are pending", p.radius, p.paint, t); compare(p, t); }
static void s07_read3() { Plan p{}; p.lay = mc::flip() ? 0 : 2; p.lay2 = -1; p.capacity = 20; p.paint = -1; p.radius = 66; p.read = 1; p.safe = true; mc::logf("%s, read with 3 threads", LNAME[p.lay]); compare(p, 3); }
// ---------------------------------------------------------------- S08
// Kinds 0..4: a brush on a fixed size surface. 5, 6: dabs of every blend mode on a partly transparent canvas, symmetry, reads.
// 7: a brush with every setting driven by an input on a partly transparent canvas.
static const int KINDS = 8;
struct Session {   // a brush, a surface, and what they show
  int kind; MyPaintBrush *b = nullptr; MyPaintFixedTiledSurface *f = nullptr; std::unique_ptr<TSurf> t; int n = 0; std::vector<float> seen; uint64_t canvas = 0; float x = 20, y = 25;
  Session(int k) : kind(k) {}
  ~Session() { if (b) mypaint_brush_unref(b); if (f) mypaint_surface_unref(surf()); }
  MyPaintSurface *surf() { return t ? t->iface() : mypaint_fixed_tiled_surface_interface(f); }
  void rects(MyPaintRectangles *rs) { for (int q = 0; q < rs->num_rectangles; q++) for (int v : {rs->rectangles[q].x, rs->rectangles[q].y, rs->rectangles[q].width, rs->rectangles[q].height}) seen.push_back(v); }
  void direct(int i) {   // kinds 5, 6
    Dab d = mkdab(24 + 3 * kind, 30, 5 + kind - 5); if (kind == 6) d.cr = .1f, d.cg = .7f, d.cb = .45f; d.opaque = .8f; d.angle = 30 * (kind - 4); d.aspect = 1.5f;
    MyPaintRectangle rc[3]; MyPaintRectangles rs = {3, rc};
    switch (i) {
      case 0: t.reset(new TSurf); t->init = background; if (kind == 6) t->s.threadsafe_tile_requests = TRUE; break;
      case 1: case 2:
        t->begin();
        for (int m = 0; m < 7; m++) {
          Dab e = d; e.x += 4 * m; e.y += i == 2 ? 3 * m : 0; e.paint = i == 1 ? 0 : 1; if (m == 6) e.paint = .5f;
          if (m == 1 || m == 6) e.alpha = .4f; if (m == 2) e.alpha = 0; if (m == 3) e.lock = kind == 5 ? 1 : .6f; if (m == 4) e.colorize = .7f; if (m == 5) e.posterize = .8f, e.pnum = .04f * kind;
          draw(*t, e);
        }
        t->end(&rs); rects(&rs); break;
      case 3: mypaint_tiled_surface_set_symmetry_state(&t->s, TRUE, 40 + kind, 30, 20 * (kind - 5), kind == 5 ? MYPAINT_SYMMETRY_TYPE_VERTICAL : MYPAINT_SYMMETRY_TYPE_SNOWFLAKE, 3); t->begin(); draw(*t, d); d.x += 6; d.paint = 1; draw(*t, d); t->end(&rs); rects(&rs); break;
      case 4: for (float pm : {-1.f, 0.f, 1.f}) { float c[4]; mypaint_surface_get_color(surf(), 35, 32, 7, c, c + 1, c + 2, c + 3, pm); seen.insert(seen.end(), c, c + 4); } break;
      case 5: canvas = t->hash(); mypaint_tiled_surface_destroy(&t->s); t->destroyed = true; break;
    }
  }
  static const int OPS = 6;
  void set(MyPaintBrushSetting s, float v) { mypaint_brush_set_base_value(b, s, v); }
  void map(MyPaintBrushSetting s, MyPaintBrushInput i, float y0, float y1) { mypaint_brush_set_mapping_n(b, s, i, 2); mypaint_brush_set_mapping_point(b, s, i, 0, 0, y0); mypaint_brush_set_mapping_point(b, s, i, 1, 1, y1); }
  void op(int i) {
    mc::step(); n++;
    if (kind == 5 || kind == 6) { direct(i); return; }
    switch (i) {
      case 0: b = kind == 1 ? mypaint_brush_new_with_buckets(3) : mypaint_brush_new(); if (kind == 7) { t.reset(new TSurf); t->init = background; } else f = mypaint_fixed_tiled_surface_new(kind == 2 ? 70 : 64, 64); if (kind == 4) ((MyPaintTiledSurface *)f)->threadsafe_tile_requests = TRUE; break;
      case 1:
        if (kind == 3) mypaint_brush_from_string(b, "{\"version\":3,\"settings\":{\"opaque\":{\"base_value\":0.8,\"inputs\":{\"pressure\":[[0,-0.5],[1,0]]}},\"radius_logarithmic\":{\"base_value\":0.9,\"inputs\":{}},\"smudge\":{\"base_value\":0.4,\"inputs\":{}}}}"); else mypaint_brush_from_defaults(b);
        set(S_(RADIUS_LOGARITHMIC), 1.1f); set(S_(OPAQUE), .8f); set(S_(COLOR_H), .1f * kind); set(S_(COLOR_S), .8f); set(S_(COLOR_V), .3f); set(S_(DABS_PER_ACTUAL_RADIUS), 1);
        if (kind == 1) { set(S_(SMUDGE), .7f); set(S_(PAINT_MODE), 1); map(S_(SMUDGE_BUCKET), MYPAINT_BRUSH_INPUT_PRESSURE, 0, 3); set(S_(SMUDGE_LENGTH), .5f); }
        if (kind == 2) { set(S_(OFFSET_BY_RANDOM), .7f); set(S_(TRACKING_NOISE), .3f); set(S_(RADIUS_BY_RANDOM), .3f); map(S_(CHANGE_COLOR_H), MYPAINT_BRUSH_INPUT_RANDOM, 0, 1); set(S_(PAINT_MODE), .5f); }
        if (kind == 3) { set(S_(SMUDGE), .6f); set(S_(SMUDGE_RADIUS_LOG), 1); set(S_(COLORIZE), .4f); set(S_(POSTERIZE), .3f); set(S_(LOCK_ALPHA), .2f); set(S_(CHANGE_COLOR_HSL_S), .3f); set(S_(CHANGE_COLOR_V), .2f); }
        if (kind == 7) for (int q = 0; q < MYPAINT_BRUSH_SETTINGS_COUNT; q++) { const MyPaintBrushSettingInfo *si = mypaint_brush_setting_info((MyPaintBrushSetting)q); float w = std::min(.2f, (si->max - si->min) / 20); const float cx[] = {-400, 0, 1, 400}, cy[] = {0, 0, w, w}; MyPaintBrushSetting qs = (MyPaintBrushSetting)q; MyPaintBrushInput qi = (MyPaintBrushInput)(q % MYPAINT_BRUSH_INPUTS_COUNT); mypaint_brush_set_mapping_n(b, qs, qi, 4); for (int k = 0; k < 4; k++) mypaint_brush_set_mapping_point(b, qs, qi, k, cx[k], cy[k]); }
        if (kind == 7) { set(S_(PAINT_MODE), .6f); set(S_(SMUDGE), .5f); set(S_(SMUDGE_TRANSPARENCY), .1f); }
        break;
      case 2: case 3: case 4: {
        mypaint_surface_begin_atomic(surf()); if (i == 2) mypaint_brush_stroke_to(b, surf(), x, y, .5f, 0, 0, .1, 1, 0, 0, FALSE);
        x += 7; y += i == 3 ? 5 : -4; int r = mypaint_brush_stroke_to(b, surf(), x, y, .2f * i, .1f * i, .2f, .03, 1, .1f * i, .1f, kind == 3);
        MyPaintRectangle rc[2]; MyPaintRectangles rs = {2, rc}; if (i != 4 || kind != 2) mypaint_surface_end_atomic(surf(), &rs); else rs.num_rectangles = 0; seen.push_back(r); seen.push_back(rs.num_rectangles); for (int q = 0; q < rs.num_rectangles; q++) { seen.push_back(rc[q].x); seen.push_back(rc[q].width); }
        for (int q = 0; q < MYPAINT_BRUSH_STATES_COUNT; q++) seen.push_back(mypaint_brush_get_state(b, (MyPaintBrushState)q)); break; }
      case 5: { float c[4]; mypaint_surface_get_color(surf(), 30, 25, 6, c, c + 1, c + 2, c + 3, -1); seen.insert(seen.end(), c, c + 4); mypaint_surface_get_color(surf(), 40, 25, 6, c, c + 1, c + 2, c + 3, .5f); seen.insert(seen.end(), c, c + 4);
        if (t) { canvas = t->hash(); mypaint_brush_unref(b); b = nullptr; mypaint_tiled_surface_destroy(&t->s); t->destroyed = true; break; }
        MyPaintTileRequest q; mypaint_tile_request_init(&q, 0, 0, 0, TRUE); mypaint_tiled_surface_tile_request_start((MyPaintTiledSurface *)f, &q); canvas = mc::hbytes(q.buffer, 64 * 64 * 8); mypaint_tiled_surface_tile_request_end((MyPaintTiledSurface *)f, &q);
        if (kind == 3) mypaint_brush_reset(b); mypaint_brush_unref(b); b = nullptr; mypaint_surface_unref(surf()); f = nullptr; break; }
    }
  }
};
static std::map<int, std::pair<std::vector<float>, uint64_t>> alone;
static void need_alone(int k) { if (alone.count(k)) return; sched::reset(); Session s(k); for (int i = 0; i < Session::OPS; i++) s.op(i); alone[k] = {s.seen, s.canvas}; }
static void check_session(Session &s, const char *who) {
  auto &a = alone[s.kind]; MC_CHECK(a.first.size() == s.seen.size(), "the %s session observed %zu values, alone %zu", who, s.seen.size(), a.first.size());
  for (size_t i = 0; i < a.first.size(); i++) MC_CHECK(!memcmp(&a.first[i], &s.seen[i], 4), "value %zu observed by the %s session (kind %d) is %.9g, alone it is %.9g", i, who, s.kind, s.seen[i], a.first[i]);
  MC_CHECK(a.second == s.canvas, "the canvas of the %s session (kind %d) differs from the one it paints alone", who, s.kind); mc::observe(s.canvas);
}
static void s08_calls() {
  mca::rand_hook = [] { return RAND_MAX; }; int ka = mc::choose(KINDS), kb = mc::choose(KINDS); if (kb < ka) mc::discard(); mc::logf("sessions %d and %d", ka, kb); need_alone(ka); need_alone(kb); sched::reset(); sched::nthreads = 1; Session a(ka), b(kb); int ia = 0, ib = 0; std::string o; uint64_t h = 0;
  while (ia < Session::OPS || ib < Session::OPS) { bool second = ia == Session::OPS ? true : ib == Session::OPS ? false : mc::choose(2); o += second ? 'B' : 'A'; h = h * 2 + second; if (second) b.op(ib++); else a.op(ia++); }
  mc::logf("calls %s", o.c_str()); mc::observe(h); check_session(a, "first"); check_session(b, "second");
}
static void s08_threads() {
  mca::rand_hook = [] { return RAND_MAX; }; int ka = mc::choose(KINDS), kb = mc::choose(KINDS); if (kb < ka) mc::discard(); mc::logf("sessions %d and %d in two threads", ka, kb); need_alone(ka); need_alone(kb); sched::reset(); sched::nthreads = 2; Session a(ka), b(kb);
  static int depth; mca::point = [](int) { if (sched::in_thread()) sched::point(); }; if (!mc::thorough()) mca::point = nullptr;
  auto body = [](Session &s) { return [&s] { for (int i = 0; i < Session::OPS; i++) { s.op(i); sched::point(); } }; };
  try { sched::run({body(a), body(b)}); } catch (...) { mca::point = nullptr; a.b = b.b = nullptr; a.f = b.f = nullptr; throw; } mca::point = nullptr; (void)depth;
  mc::observe(sched::switches); sched::check(); check_session(a, "first"); check_session(b, "second");
}
int main(int c, char **v) {
  return mc::main(c, v, [] {
    bool T = mc::thorough();
    if (mc::g().prop == "S07") {
      mc::add("render", T ? 4 : 2, 4, "6 layouts of pending dabs (4 to 9 dirty tiles, every blend mode, symmetry) x 2 rectangle capacities x thread-safe or not x 2, 3 (4) threads x all schedules with up to 2 (4) preemptions at tile requests and locks", s07_render);
      mc::add("twice", T ? 2 : 1, 3, "two sections in a row, every pair of layouts x 2, 3 threads x all schedules with up to 1 (2) preemptions", s07_twice);
      mc::add("read", T ? 2 : 1, 5, "6 layouts x reads with radius 70 (100) over 9 to 16 tiles, with and without pending dabs x 4 sampling modes x thread-safe or not x 2 (3) threads x all schedules with up to 1 (2) preemptions", s07_read);
      mc::add("read3", T ? 2 : 0, 6, "2 layouts x read over 9 tiles while dabs are pending x 3 threads x all schedules (switches where a thread waits or ends, and up to 0 (2) preemptions)", s07_read3);
    } else {
      mc::add("calls", 0, 4, "every pair of 8 sessions (brushes: plain, smudge buckets with pigment, random, definition loaded, parallel, every setting by an input; dabs of every blend mode, symmetry and reads on two partly transparent canvases) x all interleavings of their 6 steps each", s08_calls);
      mc::add("threads", T ? 3 : 2, 2, "every pair of these 8 sessions in two threads x all schedules with up to 2 (3) preemptions between steps (thorough: also at every allocation), at locks and atomics; races between any two accesses", s08_threads);
    }
  });
}
