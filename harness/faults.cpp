// S09: tile request protocol and backend failures.  S10: allocation failures.  S11: lifetimes and memory balance.
#include "surf.hpp"
#include <glib-object.h>
extern "C" {
#include "mypaint-fixed-tiled-surface.h"
#include "mypaint-brush.h"
#include "mypaint-mapping.h"
#include "mypaint-brush-settings.h"
#include "glib/mypaint-brush.h"
}

static Px bg(int x, int y) {
  unsigned h = (unsigned)((x * 73856093) ^ (y * 19349663));
  uint16_t a = (uint16_t)(((h >> 3) % 5) * (FIX1 / 4));
  return Px{{(uint16_t)(a * ((h >> 6) % 5) / 4), (uint16_t)(a * ((h >> 9) % 5) / 4), (uint16_t)(a * ((h >> 12) % 5) / 4), a}};
}
typedef std::pair<int, int> TI;
// Tile (tx,ty) after the given dabs, rendered on a fault-free surface that flushes after every dab.
static uint64_t render_tile(TI t, const std::vector<Dab> &ds, std::vector<uint16_t> *out = nullptr) {
  TSurf s; s.init = bg; s.tile(t.first, t.second);
  for (auto &d : ds) { s.begin(); draw(s, d); s.end(); }
  uint16_t *p = s.tile(t.first, t.second);
  if (out) out->assign(p, p + s.ts * s.ts * 4);
  return mc::hbytes(p, s.ts * s.ts * 8);
}
static std::vector<Dab> alpha() {
  std::vector<Dab> v; Dab d = mkdab(60, 60, 8); d.hardness = 0.6f; v.push_back(d);   // 4 tiles
  d = mkdab(30, 30, 6); v.push_back(d);                                              // 1 tile
  d = mkdab(64, 20, 5); d.opaque = 0.5f; d.cb = 0.7f; v.push_back(d);                // 2 tiles
  d = mkdab(70, 70, 9); d.alpha = 0; d.opaque = 0.5f; v.push_back(d);
  d = mkdab(700, 10, 4); v.push_back(d);                                             // outside the initial tile map
  return v;
}
// ---------------------------------------------------------------- S09
static void null_tiles(int nsec, int ndab, bool reads, bool sym) {
  long live0 = mca::live;
  std::vector<Dab> al = alpha(), issued; std::map<TI, size_t> flushed; std::map<TI, std::set<size_t>> dropped;
  std::set<TI> touched; bool clean = true, armed = true, in_call = false;
  {
    TSurf s; s.init = bg;
    s.deny = [&](int tx, int ty, bool ro) {
      MC_CHECK(in_call, "a tile was requested although neither a section was ended nor a colour read");
      bool d = armed && mc::choose_dev(2);
      touched.insert({tx, ty});
      if (!ro) {
        if (d) for (size_t i = flushed[{tx, ty}]; i < issued.size(); i++) dropped[{tx, ty}].insert(i);
        flushed[{tx, ty}] = issued.size();
      }
      if (d) { clean = false; mc::logf("no buffer for tile (%d,%d)%s", tx, ty, ro ? " (read)" : ""); }
      return d;
    };
    if (sym) mypaint_tiled_surface_set_symmetry_state(&s.s, TRUE, 64, 64, 0, MYPAINT_SYMMETRY_TYPE_VERTICAL, 2);
    auto one = [&](Dab d) { d.cr = 0.1f + 0.13f * (issued.size() % 7); logdab("dab", d); draw(s, d); issued.push_back(d); };
    auto end = [&] { mc::logf("end"); in_call = true; MyPaintRectangle r[3]; MyPaintRectangles l{3, r}; s.end(&l); in_call = false; };
    for (int k = 0; k < nsec; k++) {
      s.begin();
      for (int i = 0; i < ndab; i++) {
        one(al[mc::choose(k && !mc::thorough() ? 3 : 5)]);
        if (reads) {
          int q = mc::choose(4);
          if (q) {
            float r = 9, g = 9, b = 9, a = 9; float px = q == 1 ? 60 : q == 2 ? 30 : 64, py = q == 1 ? 60 : q == 2 ? 30 : 20;
            in_call = true; mypaint_surface_get_color(s.iface(), px, py, 4, &r, &g, &b, &a, q == 3 ? 1.f : -1.f); in_call = false; mc::step();
            mc::logf("get_color(%g,%g) -> %g,%g,%g,%g", px, py, r, g, b, a);
            MC_CHECK(r >= 0 && r <= 1 && g >= 0 && g <= 1 && b >= 0 && b <= 1 && a >= 0 && a <= 1, "colour read from an unavailable canvas is %g,%g,%g,%g", r, g, b, a);
          }
        }
      }
      end();
    }
    armed = false;   // the backend works again
    if (!clean) { s.begin(); one(al[0]); end(); s.begin(); one(al[2]); one(al[1]); end(); }
    // protocol: a request that yielded no buffer may be ended or not, every other one exactly once
    s.check_protocol();
    if (!sym) for (auto &t : touched) {
      std::vector<Dab> ds; for (size_t i = 0; i < issued.size(); i++) if (!dropped[t].count(i)) ds.push_back(issued[i]);
      std::vector<uint16_t> want; uint64_t h = render_tile(t, ds, &want);
      MC_CHECK(mc::hbytes(s.tile(t.first, t.second), s.ts * s.ts * 8) == h, "tile (%d,%d) is not what the dabs drawn while it was available produce", t.first, t.second);
    }
    mc::observe(s.hash());
    s.release();
    MC_CHECK(s.destroyed, "the surface was not destroyed when its last reference was dropped");
  }
  MC_CHECK(mca::live == live0, "%ld block(s) allocated by the library are left after a backend failure", mca::live - live0);
}
// Strict pairing for all requests that were granted (open counts per request object).
static void protocol() {
  TSurf s; s.init = bg; std::vector<Dab> al = alpha(); bool in_call = false;
  std::set<TI> reach; bool check_reach = true;
  s.on_request = [&](int tx, int ty, bool ro, int end) {
    MC_CHECK(in_call, "a tile was requested although neither a section was ended nor a colour read");
    if (!ro) MC_CHECK(reach.count({tx, ty}), "tile (%d,%d) was requested for writing although no dab reaches it", tx, ty);
  };
  (void)check_reach;
  int n = mc::thorough() ? 5 : 4; bool open = false;
  for (int i = 0; i < n; i++) {
    int op = mc::choose(9);
    if (op < 5) {
      if (!open) { s.begin(); open = true; }
      Dab d = al[op]; logdab("dab", d); if (draw(s, d)) for (int ty = TSurf::fdiv((int)floor(d.y - d.r - 2), 64); ty <= TSurf::fdiv((int)floor(d.y + d.r + 2), 64); ty++) for (int tx = TSurf::fdiv((int)floor(d.x - d.r - 2), 64); tx <= TSurf::fdiv((int)floor(d.x + d.r + 2), 64); tx++) reach.insert({tx, ty});
    } else if (op < 8) {
      float r, g, b, a; static const float P[][3] = {{64, 64, 10}, {31, 31, 2}, {-10, 300, 70}}; in_call = true; mc::logf("get_color(%g,%g,%g)", P[op - 5][0], P[op - 5][1], P[op - 5][2]);
      mypaint_surface_get_color(s.iface(), P[op - 5][0], P[op - 5][1], P[op - 5][2], &r, &g, &b, &a, op == 6 ? 0.5f : -1.f); in_call = false; mc::step(); s.check_protocol();
      mc::observe_f(r + g + b + a);
    } else { in_call = true; s.end(); in_call = false; open = false; mc::logf("end"); s.check_protocol(); long k = s.n_start; in_call = true; s.end(); in_call = false; MC_CHECK(s.n_start == k, "ending a section with nothing pending requested tiles"); }
  }
  in_call = true; s.end(); in_call = false; s.check_protocol();
  long k = s.n_start; in_call = true; s.end(); in_call = false; MC_CHECK(s.n_start == k, "ending a section with nothing pending requested tiles");
  MC_CHECK(s.n_start == s.n_end, "%ld tile requests started, %ld ended", s.n_start, s.n_end);
  mc::observe(s.hash());
}
// ---------------------------------------------------------------- S10
static std::vector<Dab> sym_images(const Dab &d, int cfg) {
  std::vector<Dab> v{d};
  Dab e = d; if (cfg == 1) { e.x = 2 * 64 - d.x; e.angle = -180 - d.angle; v.push_back(e); }
  if (cfg == 2) { e.y = 2 * 40 - d.y; e.angle = -d.angle; v.push_back(e); }
  return v;
}
static bool g_fail_now; static bool g_from; static long g_hit;
static bool alloc_choice(size_t) {
  if (!g_fail_now) return false;
  if (g_from && g_hit) return true;
  if (mc::choose_dev(2)) { g_hit++; mc::logf("allocation fails%s", g_from ? " (and all following)" : ""); return true; }
  return false;
}
// cfg: 0 no symmetry, 1 vertical about x=64, 2 horizontal about y=40
static void alloc_faults(bool symm, bool faraway) {
  std::vector<Dab> al = alpha(); if (faraway) { al[1] = mkdab(-1400, 30, 5); al[2] = mkdab(30, 1400, 5); al[3] = mkdab(700, 700, 5); }
  long live0 = mca::live; g_hit = 0; g_from = mc::choose(2); g_fail_now = false; mca::should_fail = alloc_choice;
  struct Is { Dab d; bool faulty; };
  std::vector<std::vector<Dab>> imgs; std::vector<char> faulty; std::vector<std::vector<std::vector<Dab>>> alts;   // per dab: possible image lists
  {
    TSurf s; s.init = bg; std::set<int> cfgs{0}; int want = 0; int nd = 0;
    auto setsym = [&](int c) { mc::logf("symmetry %d", c); mypaint_tiled_surface_set_symmetry_state(&s.s, c != 0, 64, 40, 0, c == 2 ? MYPAINT_SYMMETRY_TYPE_HORIZONTAL : MYPAINT_SYMMETRY_TYPE_VERTICAL, 2); want = c; };
    auto begin = [&](bool f) { long h = mca::failed; g_fail_now = f; s.begin(); g_fail_now = false; mc::logf("begin"); if (mca::failed == h) cfgs = {want}; else cfgs.insert(want), cfgs.insert(0); };
    auto dab = [&](Dab d, bool f) {
      d.cr = 0.1f + 0.13f * (nd++ % 7); logdab("dab", d); long h = mca::failed; g_fail_now = f; draw(s, d); g_fail_now = false;
      std::vector<std::vector<Dab>> a; for (int c : cfgs) a.push_back(sym_images(d, c)); alts.push_back(a); faulty.push_back(mca::failed != h);
    };
    auto end = [&](bool f) { g_fail_now = f; MyPaintRectangle r[4]; MyPaintRectangles l{4, r}; s.end(&l); g_fail_now = false; mc::logf("end"); };
    if (symm) setsym(1 + mc::choose(2));
    begin(true);
    for (int i = 0; i < 2; i++) dab(al[mc::choose(5)], true);
    if (mc::choose(2)) { float r, g, b, a; g_fail_now = true; mypaint_surface_get_color(s.iface(), 60, 60, 6, &r, &g, &b, &a, -1); g_fail_now = false; mc::logf("get_color"); }
    end(true);
    // memory is available again
    begin(false); dab(al[0], false); dab(al[4], false); end(false);
    begin(false); dab(al[3], false); end(false);
    std::set<TI> ts; for (auto &k : s.tiles) ts.insert(k.first);
    for (size_t i = 0; i < alts.size(); i++) if (!faulty[i] && alts[i].size() == 1) for (auto &e : alts[i][0]) ts.insert({TSurf::fdiv((int)floor(e.x), 64), TSurf::fdiv((int)floor(e.y), 64)});
    for (auto &t : ts) {
      uint64_t got = mc::hbytes(s.tile(t.first, t.second), s.ts * s.ts * 8);
      // all admissible image subsequences: an image of a dab whose call lost an allocation may be missing
      std::vector<std::vector<Dab>> cand{{}};
      for (size_t i = 0; i < alts.size(); i++) {
        std::vector<std::vector<Dab>> nc;
        for (auto &base : cand) for (auto &im : alts[i]) {
          std::vector<Dab> near; for (auto &e : im) if (e.x + e.r + 2 > t.first * 64 && e.x - e.r - 2 < t.first * 64 + 64 && e.y + e.r + 2 > t.second * 64 && e.y - e.r - 2 < t.second * 64 + 64) near.push_back(e);
          int n = (int)near.size();
          for (int m = faulty[i] ? 0 : (1 << n) - 1; m < (1 << n); m++) { std::vector<Dab> x = base; for (int j = 0; j < n; j++) if (m >> j & 1) x.push_back(near[j]); nc.push_back(x); }
        }
        cand.swap(nc);
      }
      bool ok = false;
      for (auto &c : cand) {
        std::vector<uint16_t> px; if (render_tile(t, c, &px) == got) { ok = true; break; }
        // positions of symmetric images are only determined up to rounding
        if (symm) { uint16_t *q = s.tile(t.first, t.second); ok = true; for (size_t i = 0; i < px.size() && ok; i++) if (abs(px[i] - q[i]) > 40) ok = false; if (ok) break; }
      }
      MC_CHECK(ok, "after failed allocations tile (%d,%d) does not show the dabs for which memory was available (%zu admissible outcomes)", t.first, t.second, cand.size());
    }
    s.check_protocol(); mc::observe(s.hash()); mc::observe(g_hit);
    s.release();
  }
  mca::should_fail = nullptr;
  MC_CHECK(mca::live == live0, "%ld block(s) allocated by the library are left after failed allocations", mca::live - live0);
}
// Symmetry configurations that need more memory than is available.
static void alloc_symmetry() {
  long live0 = mca::live; g_hit = 0; g_from = mc::choose(2); g_fail_now = false; mca::should_fail = alloc_choice;
  static const int L[] = {3, 9, 18, 40};
  {
    TSurf s; auto set = [&](int t, int l) { mc::logf("symmetry type %d axes %d", t, l); mypaint_tiled_surface_set_symmetry_state(&s.s, TRUE, 100, 100, 0, (MyPaintSymmetryType)t, l); };
    int t1 = 3 + mc::choose(2), l1 = L[mc::choose(3)], t2 = 3 + mc::choose(2), l2 = L[mc::choose(4)]; int back = mc::choose(2);
    Dab d = mkdab(130, 100, 4); d.hardness = 0.5f;
    set(t1, l1); s.begin(); draw(s, d); s.end();
    set(t2, l2); g_fail_now = true; s.begin(); d.cr = 0.3f; draw(s, d); s.end(); g_fail_now = false; mc::logf("section with failing allocations");
    if (back) { set(t1, l1); t2 = t1; l2 = l1; }
    // everything available again: the configuration must be in force
    s.begin(); s.end(); Dab e = mkdab(300, 130, 6); e.hardness = 0.5f; logdab("dab", e);
    TSurf r; 
    mypaint_tiled_surface_set_symmetry_state(&r.s, TRUE, 100, 100, 0, (MyPaintSymmetryType)t2, l2); r.begin(); draw(r, e); r.end();
    s.begin(); draw(s, e); s.end();
    for (auto &k : r.tiles) {
      uint16_t *p = k.second, *q = s.tile(k.first.first, k.first.second);
      for (int y = 0; y < s.ts; y++) for (int x = 0; x < s.ts; x++) {
        int X = k.first.first * s.ts + x, Y = k.first.second * s.ts + y; if (!memcmp(p + (y * s.ts + x) * 4, q + (y * s.ts + x) * 4, 8) || hypot(X - 100, Y - 100) < 100) continue;   // away from the earlier dabs
        MC_CHECK(!memcmp(p + (y * s.ts + x) * 4, q + (y * s.ts + x) * 4, 8), "after a failed allocation the symmetry configuration (type %d, %d axes) is not in force although memory is available again: pixel (%d,%d)", t2, l2, X, Y);
      }
    }
    mc::observe(s.hash()); s.release();
  }
  mca::should_fail = nullptr;
  MC_CHECK(mca::live == live0, "%ld block(s) allocated by the library are left after failed allocations", mca::live - live0);
}
// ---------------------------------------------------------------- S11
static void life_surface() {
  long live0 = mca::live;
  {
    TSurf s; std::vector<Dab> al = alpha(); int refs = 1; int n = mc::thorough() ? 5 : 4;
    for (int i = 0; i < n; i++) {
      int op = mc::choose(8);
      switch (op) {
        case 0: mc::logf("begin"); s.begin(); break;
        case 1: case 2: case 3: { Dab d = al[op == 1 ? 0 : op == 2 ? 4 : 1]; logdab("dab", d); draw(s, d); break; }
        case 4: { mc::logf("end"); s.end(); break; }
        case 5: { float r, g, b, a; mc::logf("get_color"); mypaint_surface_get_color(s.iface(), 60, 60, 5, &r, &g, &b, &a, 0); break; }
        case 6: mc::logf("symmetry snowflake 30"); mypaint_tiled_surface_set_symmetry_state(&s.s, TRUE, 10, 10, 0, MYPAINT_SYMMETRY_TYPE_SNOWFLAKE, 30); break;
        case 7: mc::logf("ref"); mypaint_surface_ref(s.iface()); refs++; break;
      }
      mc::step();
    }
    for (int i = refs; i > 0; i--) {
      MC_CHECK(!s.destroyed, "the surface was destroyed while %d reference(s) remained", i);
      if (i == 1) {} mypaint_surface_unref(s.iface());
    }
    MC_CHECK(s.destroyed, "the surface was not destroyed when its last reference was dropped");
  }
  MC_CHECK(mca::live == live0, "%ld block(s) allocated for a surface are left after it was destroyed", mca::live - live0);
  mc::observe(mca::total - 0);
}
// Symmetry configurations that make the surface's tables grow and shrink, sections in between, then destruction.
static void life_symmetry() {
  long live0 = mca::live;
  {
    TSurf s; static const int AX[] = {2, 6, 17, 20, 30, 40, 64}; std::vector<Dab> al = alpha(); int n = mc::thorough() ? 4 : 3;
    for (int i = 0; i < n; i++) {
      int a = AX[mc::choose(7)], snow = mc::choose(2), sec = mc::choose(3);
      mypaint_tiled_surface_set_symmetry_state(&s.s, TRUE, 10, 10, 0, snow ? MYPAINT_SYMMETRY_TYPE_SNOWFLAKE : MYPAINT_SYMMETRY_TYPE_ROTATIONAL, a); mc::step();
      mc::logf("%s symmetry with %d axes%s", snow ? "snowflake" : "rotational", a, sec == 0 ? "" : sec == 1 ? ", section" : ", section left open");
      if (sec) { s.begin(); draw(s, al[0]); if (sec == 1) { MyPaintRectangle rc[9]; MyPaintRectangles r = {9, rc}; s.end(&r); } }
    }
    mypaint_surface_unref(s.iface()); MC_CHECK(s.destroyed, "not destroyed");
  }
  MC_CHECK(mca::live == live0, "%ld block(s) allocated for a surface are left after it was destroyed", mca::live - live0); mc::observe(mca::total);
}
// Destruction with drawing pending on any tile of the tile map, its border tiles and corners included.
static void life_pending() {
  long live0 = mca::live; static const int C[] = {-20, -11, -10, -9, -1, 0, 8, 9, 10, 19}; int n = 1 + mc::choose(2), same = mc::choose(2);
  {
    TSurf s; s.begin();
    for (int i = 0; i < n; i++) { int x = C[mc::choose(10)] * 64 + 32, y = C[mc::choose(10)] * 64 + 32; Dab d = mkdab(x, y, 5); logdab("dab", d); draw(s, d); if (same) draw(s, d); }
    s.release(); MC_CHECK(s.destroyed, "the surface was not destroyed when its last reference was dropped");
  }
  MC_CHECK(mca::live == live0, "%ld block(s) allocated for a surface are left after it was destroyed with drawing pending", mca::live - live0);
  mc::observe(n);
}
static void life_fixed() {
  long live0 = mca::live; static const int W[] = {1, 64, 65, 130};
  int w = W[mc::choose(4)], h = W[mc::choose(4)];
  mca::fail_at = -1; int f = mc::choose_dev(12); long t0 = mca::total; if (f) mca::fail_at = t0 + f - 1;
  bool viable = true;
  mc::logf("new(%d,%d)%s", w, h, f ? " with one failing allocation" : "");
  // only the pixel memory is checked for by the constructor; other allocations of construction are outside the property
  if (f) { mca::fail_at = -1; mca::fail_over = 4000; }
  MyPaintFixedTiledSurface *s = mypaint_fixed_tiled_surface_new(w, h); mca::fail_at = -1; mca::fail_over = 0;
  if (s) {
    MyPaintSurface *i = mypaint_fixed_tiled_surface_interface(s);
    int n = mc::choose(4); int refs = mc::choose(3);
    for (int k = 0; k < refs; k++) mypaint_surface_ref(i);
    if (n) mypaint_surface_begin_atomic(i);
    for (int k = 0; k < n; k++) draw(i, mkdab(50 * k, 20, 6));
    if (n && mc::choose(2)) mypaint_surface_end_atomic(i, NULL);
    for (int k = 0; k < refs; k++) { mypaint_surface_unref(i); MC_CHECK(mypaint_fixed_tiled_surface_get_width(s) == w, "fixed surface lost its width while still referenced"); }
    mypaint_surface_unref(i);
  } else MC_CHECK(f, "a fixed surface of %dx%d could not be created", w, h);
  MC_CHECK(mca::live == live0, "%ld block(s) allocated for a fixed size surface are left after it was destroyed", mca::live - live0);
  mc::observe(w * 1000 + h); (void)viable;
}
static void life_brush() {
  long live0 = mca::live; int nb = mc::choose(3), n = mc::thorough() ? 6 : 4;
  MyPaintBrush *b = nb == 0 ? mypaint_brush_new() : mypaint_brush_new_with_buckets(nb == 1 ? 1 : 17);
  mc::logf("brush new(%d)", nb); int refs = 1; TSurf *s = new TSurf(); float x = 10;
  for (int i = 0; i < n; i++) {
    int op = mc::choose(8); mc::logf("op%d", op); mc::step();
    switch (op) {
      case 0: mypaint_brush_from_defaults(b); break;
      case 1: mypaint_brush_set_mapping_n(b, MYPAINT_BRUSH_SETTING_OPAQUE, MYPAINT_BRUSH_INPUT_PRESSURE, 2); mypaint_brush_set_mapping_point(b, MYPAINT_BRUSH_SETTING_OPAQUE, MYPAINT_BRUSH_INPUT_PRESSURE, 0, 0, 0); mypaint_brush_set_mapping_point(b, MYPAINT_BRUSH_SETTING_OPAQUE, MYPAINT_BRUSH_INPUT_PRESSURE, 1, 1, 1); break;
      case 2: mypaint_brush_set_mapping_n(b, MYPAINT_BRUSH_SETTING_OPAQUE, MYPAINT_BRUSH_INPUT_PRESSURE, 0); break;
      case 3: { const char *j = "{\"version\":3,\"settings\":{\"radius_logarithmic\":{\"base_value\":1.0,\"inputs\":{\"pressure\":[[0,0],[1,0.5]]}}}}"; mypaint_brush_from_string(b, j); break; }
      case 4: mypaint_brush_reset(b); break;
      case 5: s->begin(); mypaint_brush_stroke_to(b, s->iface(), x += 10, 20, 0.7f, 0, 0, 0.1, 1, 0, 0, FALSE); s->end(); break;
      case 6: mypaint_brush_ref(b); refs++; break;
      case 7: s->begin(); mypaint_brush_stroke_to(b, s->iface(), x += 10, 20, 0.7f, 0, 0, 0.1, 1, 0, 0, FALSE); break;   // left pending
    }
  }
  for (int i = 0; i < refs; i++) { (void)mypaint_brush_get_base_value(b, MYPAINT_BRUSH_SETTING_OPAQUE); mypaint_brush_unref(b); }
  s->release(); delete s;
  MC_CHECK(mca::live == live0, "%ld block(s) allocated for a brush and its surface are left after they were destroyed", mca::live - live0);
  mc::observe(refs);
}
// References held through the GLib type system (language bindings): boxed copies and values next to plain references.
static void life_boxed() {
  (void)mypaint_brush_get_type(); (void)mypaint_surface_get_type(); (void)mypaint_fixed_tiled_surface_get_type();
  long live0 = mca::live; int kind = mc::choose(3), n = mc::thorough() ? 5 : 4; static const char *const K[] = {"brush", "surface", "fixed surface"};
  mc::logf("%s", K[kind]);
  MyPaintBrush *b = kind == 0 ? mypaint_brush_new() : nullptr; TSurf *s = kind == 1 ? new TSurf() : nullptr; MyPaintFixedTiledSurface *f = kind == 2 ? mypaint_fixed_tiled_surface_new(70, 20) : nullptr;
  GType ty = kind == 0 ? mypaint_brush_get_type() : kind == 1 ? mypaint_surface_get_type() : mypaint_fixed_tiled_surface_get_type();
  void *obj = kind == 0 ? (void *)b : kind == 1 ? (void *)s->iface() : (void *)f; MyPaintSurface *i = kind == 2 ? mypaint_fixed_tiled_surface_interface(f) : (MyPaintSurface *)obj;
  struct Hold { int how; GValue v; }; std::vector<Hold> h; h.push_back(Hold{0, G_VALUE_INIT});
  auto use = [&] { if (kind == 0) { mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_OPAQUE, 0.5f); MC_CHECK(mypaint_brush_get_base_value(b, MYPAINT_BRUSH_SETTING_OPAQUE) == 0.5f, "the brush lost its value"); } else { mypaint_surface_begin_atomic(i); draw(i, mkdab(10, 10, 4)); mypaint_surface_end_atomic(i, NULL); if (s) MC_CHECK(!s->destroyed, "the surface was destroyed while a reference remained"); } };
  auto drop = [&](size_t k) {
    int how = h[k].how; mc::logf("release %s", how == 0 ? "plain" : how == 1 ? "boxed copy" : "value");
    if (how == 2) g_value_unset(&h[k].v); else if (how == 1) g_boxed_free(ty, obj); else if (kind == 0) mypaint_brush_unref(b); else mypaint_surface_unref(i);
    h.erase(h.begin() + k);
  };
  for (int k = 0; k < n && !h.empty(); k++) {
    int op = mc::choose(5); mc::step();
    if (op == 0) { mc::logf("ref"); if (kind == 0) mypaint_brush_ref(b); else mypaint_surface_ref(i); h.push_back(Hold{0, G_VALUE_INIT}); }
    if (op == 1) { mc::logf("boxed copy"); void *q = g_boxed_copy(ty, obj); MC_CHECK(q == obj, "the boxed copy of %s is %s", K[kind], q ? "another object" : "NULL"); h.push_back(Hold{1, G_VALUE_INIT}); }
    if (op == 2) { mc::logf("value"); Hold v{2, G_VALUE_INIT}; g_value_init(&v.v, ty); g_value_set_boxed(&v.v, obj); MC_CHECK(g_value_get_boxed(&v.v) == obj, "a value that %s was stored in holds %s", K[kind], g_value_get_boxed(&v.v) ? "another object" : "NULL"); h.push_back(v); }
    if (op == 3) drop(0);
    if (op == 4) drop(h.size() - 1);
    if (!h.empty()) use();
  }
  while (!h.empty()) { drop(0); if (!h.empty()) use(); }
  if (s) { MC_CHECK(s->destroyed, "the surface was not destroyed when its last reference was dropped"); delete s; }
  MC_CHECK(mca::live == live0, "%ld block(s) allocated for a %s are left after its last reference was dropped", mca::live - live0, K[kind]);
  mc::observe(kind);
}
// Many holders of one object: counts beyond one byte and beyond two.
static void life_many() {
  (void)mypaint_brush_get_type(); (void)mypaint_surface_get_type(); (void)mypaint_fixed_tiled_surface_get_type();
  static const int N[] = {127, 128, 255, 256, 300, 32768, 65535, 65536, 70000}; long live0 = mca::live; int kind = mc::choose(3), n = N[mc::choose(9)], boxed = mc::choose(2); static const char *const K[] = {"brush", "surface", "fixed surface"};
  mc::logf("%s with %d more references (%s)", K[kind], n, boxed ? "boxed copies" : "plain");
  MyPaintBrush *b = kind == 0 ? mypaint_brush_new() : nullptr; TSurf *s = kind == 1 ? new TSurf() : nullptr; MyPaintFixedTiledSurface *f = kind == 2 ? mypaint_fixed_tiled_surface_new(70, 20) : nullptr;
  GType ty = kind == 0 ? mypaint_brush_get_type() : kind == 1 ? mypaint_surface_get_type() : mypaint_fixed_tiled_surface_get_type();
  void *obj = kind == 0 ? (void *)b : kind == 1 ? (void *)s->iface() : (void *)f; MyPaintSurface *i = kind == 2 ? mypaint_fixed_tiled_surface_interface(f) : (MyPaintSurface *)obj;
  auto use = [&] { if (kind == 0) { mypaint_brush_set_base_value(b, MYPAINT_BRUSH_SETTING_OPAQUE, 0.5f); MC_CHECK(mypaint_brush_get_base_value(b, MYPAINT_BRUSH_SETTING_OPAQUE) == 0.5f, "the brush lost its value"); } else { MC_CHECK(!s || !s->destroyed, "the surface was destroyed although it is still referenced"); mypaint_surface_begin_atomic(i); draw(i, mkdab(10, 10, 4)); mypaint_surface_end_atomic(i, NULL); } };
  for (int k = 0; k < n; k++) { if (boxed) { void *q = g_boxed_copy(ty, obj); MC_CHECK(q == obj, "the boxed copy is another object"); } else if (kind == 0) mypaint_brush_ref(b); else mypaint_surface_ref(i); }
  use();
  for (int k = 0; k < n; k++) { if (boxed) g_boxed_free(ty, obj); else if (kind == 0) mypaint_brush_unref(b); else mypaint_surface_unref(i); if (s && s->destroyed) mc::fail("the surface was destroyed after %d of %d releases", k + 1, n + 1); if (k % 8192 == 0 || k == n - 1) use(); }
  if (kind == 0) mypaint_brush_unref(b); else mypaint_surface_unref(i);
  if (s) { MC_CHECK(s->destroyed, "the surface was not destroyed when its last reference was dropped"); delete s; }
  MC_CHECK(mca::live == live0, "%ld block(s) allocated for a %s are left after its last reference was dropped", mca::live - live0, K[kind]);
  mc::observe(n + kind);
}
static void life_mapping() {
  long live0 = mca::live; static const int N[] = {0, 1, 2, 18};
  int k = 1 + mc::choose(3); MyPaintMapping *m = mypaint_mapping_new(N[k]); int n = mc::choose(4);
  for (int i = 0; i < n; i++) { int in = mc::choose(N[k] < 2 ? 1 : 2), c = mc::choose(3); mypaint_mapping_set_n(m, in, c ? 2 : 0); if (c) { mypaint_mapping_set_point(m, in, 0, 0, 0); mypaint_mapping_set_point(m, in, 1, 1, c); } mc::step(); }
  mypaint_mapping_free(m);
  MC_CHECK(mca::live == live0, "%ld block(s) allocated for a mapping are left after it was freed", mca::live - live0);
  mc::observe(k * 10 + n);
}
int main(int argc, char **argv) {
  if (!freopen("/dev/null", "w", stdout)) return 3;
  return mc::main(argc, argv, [] {
    if (mc::g().prop == "S09") {
      int d = mc::thorough() ? 3 : 2;
      mc::add("protocol", 0, 2, "all sequences of 4 (thorough 5) operations: 5 dabs, 3 reads, end; pairing, read-only, reach of requests", protocol);
      mc::add("missing-tiles", d, 3, "2 sections of 2 dabs out of 5, with up to 2 (thorough 3) of the tile requests failing, then recovery", [] { null_tiles(2, 2, false, false); });
      mc::add("missing-reads", d, 3, "1 section of 2 dabs with reads, with up to 2 (thorough 3) of the requests failing, then recovery", [] { null_tiles(1, 2, true, false); });
      mc::add("missing-symmetric", 2, 3, "the same with symmetry on (memory and protocol only)", [] { null_tiles(1, 2, false, true); });
    } else if (mc::g().prop == "S10") {
      int d = mc::thorough() ? 2 : 1;
      mc::add("dabs", d, 2, "2 dabs of 5 (+read) with every single (thorough: pair of) allocation failing, or all from it on, then recovery", [] { alloc_faults(false, false); });
      mc::add("growth", d, 2, "the same with dabs that make the tile map grow repeatedly", [] { alloc_faults(false, true); });
      mc::add("symmetric", 1, 2, "the same under symmetry", [] { alloc_faults(true, false); });
      mc::add("symmetry-memory", mc::thorough() ? 2 : 1, 2, "symmetry configurations whose memory cannot be had", alloc_symmetry);
    } else {
      mc::add("surface", 0, 2, "all sequences of 4 (thorough 5) operations incl. references, symmetry and pending work, then destruction", life_surface);
      mc::add("symmetry", 0, 2, "all sequences of 3 (thorough 4) symmetry configurations of 2 kinds x 7 axis counts, each without / with / with an unfinished section, then destruction", life_symmetry);
      mc::add("pending", 0, 2, "1 or 2 tiles out of 10 x 10 (corners of the tile map included) with one or two pending dabs, then destruction", life_pending);
      mc::add("fixed", 1, 2, "sizes x pending dabs x references x failing pixel memory", life_fixed);
      mc::add("brush", 0, 2, "all sequences of 4 (thorough 6) operations on a brush and a surface, then destruction", life_brush);
      mc::add("boxed", 0, 2, "3 kinds of objects, all sequences of 4 (thorough 5) of plain references, boxed copies, values and releases", life_boxed);
      mc::add("many-holders", 0, 2, "3 kinds of objects x 127..70000 more references (plain or boxed)", life_many);
      mc::add("mapping", 0, 1, "mappings with 1, 2, 18 inputs, up to 3 edits", life_mapping);
    }
  });
}
