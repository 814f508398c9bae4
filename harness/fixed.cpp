// S12: fixed size surface against an unbounded canvas.
#include "surf.hpp"
extern "C" {
#include "mypaint-fixed-tiled-surface.h"
}
struct Fixed {
  MyPaintFixedTiledSurface *f; MyPaintSurface *i; MyPaintTiledSurface *t; int w, h;
  Fixed(int W, int H) : w(W), h(H) { f = mypaint_fixed_tiled_surface_new(W, H); MC_CHECK(f, "a fixed surface of %dx%d could not be created", W, H); i = mypaint_fixed_tiled_surface_interface(f); t = (MyPaintTiledSurface *)i; }
  ~Fixed() { mypaint_surface_unref(i); }
  template <class F> void each(F fn) {
    int ts = t->tile_size;
    for (int ty = 0; ty * ts < h; ty++) for (int tx = 0; tx * ts < w; tx++) {
      MyPaintTileRequest r; mypaint_tile_request_init(&r, 0, tx, ty, TRUE); mypaint_tiled_surface_tile_request_start(t, &r);
      MC_CHECK(r.buffer, "no memory behind tile (%d,%d) of a %dx%d surface", tx, ty, w, h);
      for (int y = 0; y < ts && ty * ts + y < h; y++) for (int x = 0; x < ts && tx * ts + x < w; x++) { Px p; memcpy(p.c, r.buffer + (y * ts + x) * 4, 8); fn(tx * ts + x, ty * ts + y, p); }
      mypaint_tiled_surface_tile_request_end(t, &r);
    }
  }
};
static int W, H;
static Px white(int x, int y) { if (x >= 0 && y >= 0 && x < W && y < H) return Px{{FIX1, FIX1, FIX1, FIX1}}; return Px{{0, 0, 0, 0}}; }
static std::vector<Dab> dabs(int w, int h) {
  std::vector<Dab> v; auto add = [&](float x, float y, float r, float a = 1, float paint = 0) { Dab d = mkdab(x, y, r); d.hardness = 0.7f; d.alpha = a; d.opaque = 0.8f; d.paint = paint; d.cg = 0.1f + 0.07f * (v.size() % 13); v.push_back(d); };
  add(w / 2.f, h / 2.f, 5); add(0, 0, 9, 0); add(w, h / 2.f, 12); add(w / 2.f, h, 7, 1, 1); add(w, h, 6);
  add(w / 2.f, -4, 8); add(-4, h / 2.f, 8); add(w + 64.f, 20, 20); add(20, h + 64.f, 20); add(-30, -30, 10);
  add(-64 * 3.f, 32, 20); add(32, -64 * 2.f, 20); add(5000, -3000, 30); add(w / 2.f, h / 2.f, 150, 1);
  return v;
}
static void compare(Fixed &f, TSurf &s, const char *when) {
  f.each([&](int x, int y, Px p) { Px q = s.px(x, y); if (p != q) mc::fail("%s: pixel (%d,%d) of the %dx%d surface is %u,%u,%u,%u, on an unbounded canvas it is %u,%u,%u,%u", when, x, y, f.w, f.h, p.c[0], p.c[1], p.c[2], p.c[3], q.c[0], q.c[1], q.c[2], q.c[3]); });
}
static const int SZ[] = {1, 40, 64, 65, 128, 130};
static void hist(int n, bool reads) {
  int ns = mc::thorough() ? 6 : reads ? 2 : 4, s0 = mc::thorough() ? 0 : reads ? 2 : 1; W = SZ[s0 + mc::choose(ns)]; H = SZ[s0 + mc::choose(ns)];
  mc::logf("surface %dx%d", W, H);
  Fixed f(W, H); TSurf s; s.init = white;
  MC_CHECK(mypaint_fixed_tiled_surface_get_width(f.f) == W && mypaint_fixed_tiled_surface_get_height(f.f) == H, "a %dx%d surface reports %dx%d", W, H, mypaint_fixed_tiled_surface_get_width(f.f), mypaint_fixed_tiled_surface_get_height(f.f));
  std::vector<Dab> al = dabs(W, H);
  mypaint_surface_begin_atomic(f.i); s.begin();
  for (int k = 0; k < n; k++) {
    Dab d = al[mc::choose((int)al.size())]; d.cr = 0.2f + 0.2f * k; logdab("dab", d);
    int a = draw(f.i, d), b = draw(s, d); MC_CHECK(!a == !b, "painting was reported %d, on an unbounded canvas %d", a, b);
    if (reads) {
      int q = mc::choose(8);
      if (q > 3 || (q && mc::thorough() && mc::choose(2))) { mypaint_surface_end_atomic(f.i, NULL); s.end(); mypaint_surface_begin_atomic(f.i); s.begin(); mc::logf("end"); }   // what lies outside has been painted, too
      if (q) {
        // 1 inside, 2 across the border, 3.. in areas outside where nothing is ever painted
        const float far = 64 * 20 + 32; float x = q == 1 || q == 6 || q == 7 ? W / 2.f : q == 2 ? 0 : q == 5 ? W + far : -far, y = q == 1 || q == 5 ? H / 2.f : q == 2 ? 0 : q == 6 ? H + far : -far, r = q > 2 ? 60 : 2; mc::logf("read(%g,%g,%g)", x, y, r);
        float c[4], e[4]; mypaint_surface_get_color(f.i, x, y, r, c, c + 1, c + 2, c + 3, -1); mypaint_surface_get_color(s.iface(), x, y, r, e, e + 1, e + 2, e + 3, -1);
        for (int j = 0; j < 4; j++) MC_CHECK(c[j] >= 0 && c[j] <= 1, "read value %g", c[j]);
        if (q == 1 && W > 8 && H > 8) for (int j = 0; j < 4; j++) MC_CHECK(fabsf(c[j] - e[j]) < 1e-5, "reading inside gives %g, on an unbounded canvas %g", c[j], e[j]);
        if (q > 2) MC_CHECK(c[3] == 0, "reading outside, where nothing was painted, gives coverage %g", c[3]);
      }
    }
    if (k + 1 < n && !reads && mc::choose(2)) { mypaint_surface_end_atomic(f.i, NULL); s.end(); mypaint_surface_begin_atomic(f.i); s.begin(); mc::logf("end"); }
  }
  mypaint_surface_end_atomic(f.i, NULL); s.end(); s.begin(); s.end();
  compare(f, s, "after painting"); mc::observe(s.hash());
}
static void sizes() {   // initial contents, reported size and bounds of many sizes
  int w = 1 + mc::choose(200), hk = mc::choose(9); static const int HS[] = {1, 2, 63, 64, 65, 127, 128, 129, 300}; int h = HS[hk]; if (mc::choose(2)) std::swap(w, h);
  W = w; H = h; Fixed f(w, h); mc::logf("surface %dx%d", w, h);
  if (w < 4) { char path[300]; snprintf(path, 300, "%s/unsupported.png", getenv("MC_WORK") ? getenv("MC_WORK") : "/nonexistent"); mypaint_surface_save_png(f.i, path, 0, 0, w, h); unlink(path); }
  MC_CHECK(mypaint_fixed_tiled_surface_get_width(f.f) == w && mypaint_fixed_tiled_surface_get_height(f.f) == h, "a %dx%d surface reports %dx%d", w, h, mypaint_fixed_tiled_surface_get_width(f.f), mypaint_fixed_tiled_surface_get_height(f.f));
  long n = 0; f.each([&](int x, int y, Px p) { n++; if (p != white(x, y)) mc::fail("pixel (%d,%d) of a new %dx%d surface is %u,%u,%u,%u", x, y, w, h, p.c[0], p.c[1], p.c[2], p.c[3]); });
  TSurf s; s.init = white; s.begin(); mypaint_surface_begin_atomic(f.i); const float P[][2] = {{0, 0}, {(float)w, (float)h}, {(float)w, 0}, {0, (float)h}, {w - 0.5f, h - 0.5f}};
  for (auto &p : P) { Dab d = mkdab(p[0], p[1], 4); draw(f.i, d); draw(s, d); }
  mypaint_surface_end_atomic(f.i, NULL); s.end(); compare(f, s, "after painting the corners"); mc::observe(s.hash()); mc::observe(n);
}
// Several surfaces at once: no storage is shared between them.
static void pair() {
  W = 64; H = 64; Fixed a(64, 64), b(64, 64); TSurf s, t; s.init = t.init = white; std::vector<Dab> al = dabs(64, 64);
  Fixed *F[2] = {&a, &b}; TSurf *T[2] = {&s, &t};
  for (int i = 0; i < 2; i++) { mypaint_surface_begin_atomic(F[i]->i); T[i]->begin(); }
  for (int k = 0; k < 3; k++) { int i = mc::choose(2); Dab d = al[mc::thorough() ? mc::choose(14) : 2 * mc::choose(7)]; mc::logf("on surface %d", i); logdab("dab", d); draw(F[i]->i, d); draw(*T[i], d); if (mc::choose(2)) { mypaint_surface_end_atomic(F[i]->i, NULL); T[i]->end(); mc::logf("end"); } }
  for (int i = 0; i < 2; i++) { mypaint_surface_end_atomic(F[i]->i, NULL); T[i]->end(); compare(*F[i], *T[i], "two surfaces"); }
  mc::observe(s.hash() ^ t.hash());
}
// Long surfaces: tile numbers beyond one byte, pixel numbers beyond two.
static void large() {
  static const int L[] = {4097, 8200, 16448, 33000}, N[] = {1, 70, 200}; int w = L[mc::choose(mc::thorough() ? 4 : 3)], h = N[mc::choose(mc::thorough() ? 3 : 2)], at = mc::choose(6); if (mc::choose(2)) std::swap(w, h);
  W = w; H = h; Fixed f(w, h); mc::logf("surface %dx%d", w, h); TSurf s; s.init = white; s.begin(); mypaint_surface_begin_atomic(f.i);
  MC_CHECK(mypaint_fixed_tiled_surface_get_width(f.f) == w && mypaint_fixed_tiled_surface_get_height(f.f) == h, "a %dx%d surface reports %dx%d", w, h, mypaint_fixed_tiled_surface_get_width(f.f), mypaint_fixed_tiled_surface_get_height(f.f));
  const float P[6] = {0.01f, .26f, .51f, .7f, .9f, .999f};
  for (int k = 0; k < 2; k++) { Dab d = mkdab(w * P[(at + 3 * k) % 6], h * P[(at + 3 * k) % 6], 6 + 3 * k); d.cr = .2f + .3f * k; d.hardness = .9f; logdab("dab", d); draw(f.i, d); draw(s, d); }
  mypaint_surface_end_atomic(f.i, NULL); s.end(); compare(f, s, "a long surface"); mc::observe(s.hash());
}
int main(int argc, char **argv) {
  return mc::main(argc, argv, [] {
    mc::add("sizes", 0, 2, "widths 1..200 x 9 heights, both orientations: size, contents, painting at the corners", sizes);
    mc::add("histories", 0, 3, "4 (thorough 6) widths x heights, 2 (thorough 3) dabs out of 14 inside / across / outside, flush or not between", [] { hist(mc::thorough() ? 3 : 2, false); });
    mc::add("reads", 0, 3, "the same with reads inside, across and outside", [] { hist(2, true); });
    mc::add("large", 0, 2, "lengths up to 16448 (thorough 33000) x widths 1, 70 (200), both orientations x 6 pairs of dabs", large);
    mc::add("pair", 0, 2, "3 dabs on two surfaces in any interleaving", pair);
  });
}
