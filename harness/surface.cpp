// S04: reported rectangles.  S05: symmetry.  S06: reading colours.
#include "surf.hpp"
#include "spec.hpp"

static Px bg(int x, int y) {
  unsigned h = (unsigned)((x * 73856093) ^ (y * 19349663));
  uint16_t a = (uint16_t)(((h >> 3) % 5) * (FIX1 / 4));
  return Px{{(uint16_t)(a * ((h >> 6) % 5) / 4), (uint16_t)(a * ((h >> 9) % 5) / 4), (uint16_t)(a * ((h >> 12) % 5) / 4), a}};
}
struct Sym { bool active; float cx, cy, angle; int type, lines; };
static void set_sym(TSurf &s, const Sym &c) {
  mc::step(); mc::logf("set_symmetry(%s centre=%g,%g angle=%g type=%d lines=%d)", c.active ? "on" : "off", c.cx, c.cy, c.angle, c.type, c.lines);
  mypaint_tiled_surface_set_symmetry_state(&s.s, c.active, c.cx, c.cy, c.angle, (MyPaintSymmetryType)c.type, c.lines);
}
// All images of a dab under a symmetry, the dab itself first.
static std::vector<Dab> images(const Dab &d, const Sym &c) {
  std::vector<Dab> v{d};
  if (!c.active) return v;
  auto rot = [&](double deg) { Dab e = d; double t = deg * M_PI / 180, x = (double)d.x - c.cx, y = (double)d.y - c.cy; e.x = c.cx + x * cos(t) - y * sin(t); e.y = c.cy + x * sin(t) + y * cos(t); e.angle = d.angle + deg; return e; };
  auto ref = [&](double phi) { Dab e = d; double t = phi * M_PI / 180, x = (double)d.x - c.cx, y = (double)d.y - c.cy; e.x = c.cx + x * cos(2 * t) + y * sin(2 * t); e.y = c.cy + x * sin(2 * t) - y * cos(2 * t); e.angle = 2 * phi - d.angle; return e; };
  int n = std::max(2, c.lines);
  switch (c.type) {
    case 0: v.push_back(ref(-(c.angle + 90))); break;
    case 1: v.push_back(ref(-c.angle)); break;
    case 2: v.push_back(ref(-c.angle)); v.push_back(rot(180)); v.push_back(ref(-(c.angle + 90))); break;
    case 3: case 4:
      for (int i = 1; i < n; i++) v.push_back(rot(-360.0 * i / n));
      if (c.type == 4) for (int i = 0; i < n; i++) v.push_back(ref(-c.angle - 180.0 * i / n));
  }
  return v;
}
// ---------------------------------------------------------------- S04
struct Box { int x0 = INT_MAX, y0 = INT_MAX, x1 = INT_MIN, y1 = INT_MIN; void add(double x, double y, double r) { x0 = std::min(x0, (int)floor(x - r)); y0 = std::min(y0, (int)floor(y - r)); x1 = std::max(x1, (int)ceil(x + r)); y1 = std::max(y1, (int)ceil(y + r)); } };
struct Snap { std::map<std::pair<int, int>, std::vector<uint16_t>> t; };
static void snap(TSurf &s, Snap &n) { n.t.clear(); for (auto &k : s.tiles) n.t[k.first] = std::vector<uint16_t>(k.second, k.second + s.ts * s.ts * 4); }
static void end_and_check(TSurf &s, int cap, Snap &before, const Box &ext, bool any) {
  std::vector<MyPaintRectangle> rc(cap + 6);
  for (auto &r : rc) { r.x = 777; r.y = -777; r.width = 13; r.height = 17; }
  MyPaintRectangles roi; roi.num_rectangles = cap; roi.rectangles = rc.data() + 3;
  s.end(&roi); mc::step();
  int n = roi.num_rectangles; mc::logf("end(capacity %d) -> %d rectangles", cap, n);
  MC_CHECK(n >= 0 && n <= cap, "%d rectangles reported for a capacity of %d", n, cap);
  auto untouched = [&](int i) { return rc[i].x == 777 && rc[i].y == -777 && rc[i].width == 13 && rc[i].height == 17; };
  for (int i = 0; i < 3; i++) MC_CHECK(untouched(i), "memory before the caller's rectangle list was written");
  for (int i = 3 + cap; i < cap + 6; i++) MC_CHECK(untouched(i), "memory after the caller's rectangle list was written");
  if (!any) MC_CHECK(n == 0, "%d rectangles reported although nothing was drawn", n);
  std::vector<MyPaintRectangle> R(rc.begin() + 3, rc.begin() + 3 + n);
  for (auto &r : R) {
    mc::logf("[%d,%d %dx%d]", r.x, r.y, r.width, r.height); mc::observe(mc::hbytes(&r, sizeof r));
    if (r.width == 0 || r.height == 0) continue;
    MC_CHECK(r.width > 0 && r.height > 0, "reported rectangle has size %dx%d", r.width, r.height);
    MC_CHECK(any && r.x >= ext.x0 - 3 && r.y >= ext.y0 - 3 && r.x + r.width <= ext.x1 + 4 && r.y + r.height <= ext.y1 + 4, "reported rectangle %d,%d %dx%d reaches beyond the dabs of the section (%d,%d)-(%d,%d)", r.x, r.y, r.width, r.height, ext.x0, ext.y0, ext.x1, ext.y1);
  }
  for (auto &k : s.tiles) {
    auto it = before.t.find(k.first);
    uint16_t *p = k.second;
    if (it != before.t.end() && !memcmp(p, it->second.data(), s.ts * s.ts * 8)) continue;
    for (int y = 0; y < s.ts; y++) for (int x = 0; x < s.ts; x++, p += 4) {
      int X = k.first.first * s.ts + x, Y = k.first.second * s.ts + y;
      Px q; if (it != before.t.end()) memcpy(q.c, &it->second[(y * s.ts + x) * 4], 8); else q = s.init ? s.init(X, Y) : Px{{0, 0, 0, 0}};
      if (!memcmp(p, q.c, 8)) continue;
      mc::g().cur->checks++;
      if (cap == 0) continue;
      bool in = false;
      for (auto &r : R) if (X >= r.x && X < r.x + r.width && Y >= r.y && Y < r.y + r.height) { in = true; break; }
      if (!in) mc::fail("pixel (%d,%d) changed but lies in none of the %d reported rectangles", X, Y, n);
    }
  }
}
static const Sym SY[] = {{false, 0, 0, 0, 0, 2}, {true, 40, 30, 0, 0, 2}, {true, 70.5f, 20, 30, 1, 2}, {true, 64, 64, 15, 2, 2}, {true, 50, 50, 0, 3, 3}, {true, 30, 60, 20, 4, 5}};
static std::vector<Dab> roi_dabs() {
  std::vector<Dab> v; Dab d = mkdab(20, 25, 4); v.push_back(d);
  d = mkdab(20, 25, 4); d.opaque = 0; v.push_back(d);            // no-op
  d = mkdab(90.4f, 61.2f, 9.7f); v.push_back(d);
  d = mkdab(-30, 10, 0.3f); v.push_back(d);
  d = mkdab(15, -40, 14); d.aspect = 5; d.angle = 33; v.push_back(d);
  d = mkdab(60, 60, 6); d.alpha = 0; v.push_back(d);             // eraser on an empty canvas
  return v;
}
static void roi_sections() {
  TSurf s; if (!mc::thorough() || mc::choose(2)) s.init = bg;
  std::vector<Dab> al = roi_dabs();
  int nsec = mc::thorough() ? 3 : 2;
  for (int k = 0; k < nsec; k++) {
    Sym c = SY[mc::choose(k && !mc::thorough() ? 4 : 6)];
    set_sym(s, c);
    int nd = mc::choose(3);
    s.begin(); Snap sn; snap(s, sn); Box ext; bool any = false;
    for (int i = 0; i < nd; i++) {
      const Dab &d = al[mc::choose(i && !mc::thorough() ? 4 : 6)]; logdab("dab", d);
      int painted = draw(s, d);
      if (painted) for (auto &e : images(d, c)) { ext.add(e.x, e.y, e.r + 2); any = true; }
    }
    static const int CAP[] = {1, 2, 20};
    end_and_check(s, CAP[k + 1 < nsec && !mc::thorough() ? 1 : mc::choose(3)], sn, ext, any);
    s.check_protocol();
  }
}
// Symmetry switched off and on between dabs of one section, reads in the middle, capacity zero, no rectangle list at all.
static void roi_switch() {
  TSurf s; std::vector<Dab> al = roi_dabs(); static const int W[] = {0, 1, 2, 4};
  Sym c = SY[1 + mc::choose(5)]; set_sym(s, c);
  int rounds = mc::thorough() ? 3 : 2;
  for (int r = 0; r < rounds; r++) {
    s.begin(); Snap sn; snap(s, sn); Box ext; bool any = false;
    for (int i = 0; i < (r && !mc::thorough() ? 1 : 3); i++) {
      int op = mc::choose(6);
      if (op < 4) { const Dab &d = al[W[op]]; logdab("dab", d); if (draw(s, d)) { any = true; Sym on = c; on.active = true; for (auto &e : images(d, on)) ext.add(e.x, e.y, e.r + 2); } }
      else if (op == 4) { c.active = !c.active; set_sym(s, c); }
      else { float a, b, g, h; mc::logf("get_color"); mypaint_surface_get_color(s.iface(), 20, 25, 3, &a, &b, &g, &h, -1); }
    }
    int k = r + 1 < rounds ? mc::choose(3) : 0;
    if (k == 1) { mc::logf("end(no list)"); s.end(); }
    else if (k == 2) end_and_check(s, 0, sn, ext, any);
    else end_and_check(s, 7, sn, ext, any);
  }
}
// Many axes: more dabs than rectangles, growth of the internal list, memory for it missing.
static void roi_afar() {   // far from the origin: rectangle positions beyond two bytes
  static const float P[] = {30, -30, 16500.5f, -16500.25f, 33000.25f, -33000.75f};
  TSurf s; int n = 1 + mc::choose(2); s.begin(); Snap sn; snap(s, sn); Box ext;
  for (int i = 0; i < n; i++) { int k = mc::choose(i ? 3 : 6); Dab d = mkdab(P[k], P[i ? 2 - k : mc::choose(6)], 5 + 4 * i); logdab("dab", d); draw(s, d); ext.add(d.x, d.y, d.r + 2); }
  end_and_check(s, 1 + mc::choose(2), sn, ext, true); s.check_protocol();
}
static void roi_many() {
  TSurf s;
  static const int L[] = {2, 7, 15, 16, 17, 31, 32, 33, 64, 130, 300}, CAP[] = {1, 2, 5, 16, 31, 32, 33, 130};
  Sym c{true, 510, 420, 12, 3 + mc::choose(2), L[mc::choose(11)]};
  // a configuration with the same centre to fall back to when memory for the new one is missing
  Sym c0{true, 510, 420, 0, 0, 2}; set_sym(s, c0); s.begin(); s.end();
  int rounds = mc::thorough() ? 3 : 2;
  for (int r = 0; r < rounds; r++) {
    if (r) { int ch = mc::choose(4); if (ch == 1) c.lines = 5; if (ch == 2) { c.type = 7 - c.type; } if (ch == 3) { c.lines = 64; c.type = 4; } }
    int fault = mc::choose_dev(3);     // 1: first, 2: second allocation of begin fails
    set_sym(s, c);
    if (fault) { mca::fail_at = mca::total + fault - 1; mc::logf("allocation %d of the next begin fails", fault); }
    s.begin(); mca::fail_at = -1;
    Snap sn; snap(s, sn); Box ext; bool any = false;
    float k = r == 1 ? 0.3f : r == 2 ? 0.7f : 1; // the later sections lie inside the first one
    Dab d = mkdab(510 + 200 * 0.31f * k, 420 - 180 * k, 3 + r);
    if (draw(s, d)) { any = true; ext.add(510, 420, hypot(200 * 0.31, 180) * k + d.r + 2); }
    end_and_check(s, CAP[mc::choose(8)], sn, ext, any);
  }
}
// ---------------------------------------------------------------- S05
static void compare_sym(TSurf &a, TSurf &b) {
  std::set<std::pair<int, int>> ks; for (auto &k : a.tiles) ks.insert(k.first); for (auto &k : b.tiles) ks.insert(k.first);
  for (auto &k : ks) {
    uint16_t *p = a.tile(k.first, k.second), *q = b.tile(k.first, k.second);
    for (int i = 0; i < a.ts * a.ts * 4; i++) {
      mc::g().cur->checks++;
      if (abs(p[i] - q[i]) > 96) mc::fail("pixel (%d,%d) channel %d is %u with symmetry, %u when the mirrored dabs are painted explicitly", k.first * a.ts + i / 4 % a.ts, k.second * a.ts + i / 4 / a.ts, i & 3, p[i], q[i]);
    }
  }
}
static const float CENT[][2] = {{0, 0}, {50, 40}, {-20.5f, 64}, {133.25f, -71.75f}};
static void sym_config() {
  TSurf a, b; int k = 0;
  int type = mc::choose(5), ci = mc::choose(4);
  static const float AN[] = {0, 30, 90, -405, 180, 693, 7.5f};
  static const int LN[] = {2, 3, 4, 7, 1, 12, 20};
  float an = AN[mc::choose(mc::thorough() ? 7 : 6)];
  static const int BIG[] = {33, 64, 100, 129, 300}; int lk = type >= 3 ? mc::choose(12) : mc::choose(2); if (lk > 6 && (ci > 1 || an < 0 || an > 90)) mc::discard();   // many axes: fewer centres and angles
  int ln = type >= 3 ? lk > 6 ? BIG[lk - 7] : LN[lk] : 2 + 3 * lk;
  Sym c{true, CENT[ci][0], CENT[ci][1], an, type, ln};
  static const float POS[][2] = {{60, 20}, {-3, -40}, {50, 40}, {100, 64}};
  int pi = mc::choose(4);
  Dab d = mkdab(POS[pi][0], POS[pi][1], 7.5f); d.hardness = 0.5f; d.opaque = 0.8f;
  int shape = mc::choose(3); if (shape == 1) { d.aspect = 3; d.angle = 35; d.r = 11; } if (shape == 2) { d.aspect = 2; d.angle = -70; d.r = 12; d.alpha = 0.6f; }
  set_sym(a, c); logdab("dab", d);
  a.begin(); draw(a, d); a.end();
  b.begin(); for (auto &e : images(d, c)) draw(b, e); b.end();
  compare_sym(a, b); mc::observe(a.hash()); (void)k;
}
// Every change from one configuration to another, between sections and in the middle of one.
static void sym_change() {
  Sym c[2];
  for (Sym &q : c) { q.active = true; q.type = mc::choose(5); q.cx = mc::choose(2) ? 57 : 40; q.cy = mc::choose(2) ? 51 : 30; q.angle = mc::choose(2) ? 25 : 0; q.lines = 2; if (q.type >= 3) q.lines = mc::choose(2) ? 5 : 2; }
  int when = mc::choose(3); TSurf a, b; set_sym(a, c[0]); int n = 0;
  auto dab = [&](const Sym &q) { static const float POS[][2] = {{60, 20}, {10, 70}, {90, 50}}; Dab d = mkdab(POS[n % 3][0], POS[n % 3][1], 6); d.hardness = .5f; d.opaque = .7f; n++; logdab("dab", d); draw(a, d); for (auto &e : images(d, q)) draw(b, e); };
  a.begin(); b.begin(); dab(c[0]);
  if (when == 1) { set_sym(a, c[1]); dab(c[0]); a.end(); b.end(); }
  else { a.end(); b.end(); set_sym(a, c[1]); }
  if (when == 2) { float r, g, bl, al; mypaint_surface_get_color(a.iface(), 50, 50, 4, &r, &g, &bl, &al, -1); }
  mc::logf("next section"); a.begin(); b.begin(); dab(c[1]); a.end(); b.end();
  if (mc::thorough()) { set_sym(a, c[0]); a.begin(); b.begin(); dab(c[0]); a.end(); b.end(); }
  compare_sym(a, b); mc::observe(a.hash());
}
// Histories of configuration changes: what counts inside a section is the configuration at its start.
static void sym_history() {
  static const Sym C[] = {{true, 40, 30, 0, 0, 2}, {true, 70, 20, 0, 0, 2}, {true, 40, 30, 25, 0, 2}, {true, 40, 30, 0, 1, 2}, {true, 40, 30, 0, 3, 4}, {true, 40, 30, 0, 3, 5}, {true, 40, 30, 0, 4, 4}, {true, 40, 30, 10, 4, 9}, {true, 40, 31, 0, 2, 2}, {false, 40, 30, 0, 0, 2}};
  static const float POS[][2] = {{60, 20}, {10, 70}, {90, 50}, {33, -20}, {20, 10}, {75, 75}, {5, 5}, {48, 90}};
  TSurf a, b; int depth = mc::thorough() ? 5 : 4, nd = 0;
  Sym pend = C[mc::choose(mc::thorough() ? 10 : 4) ], cur = pend; set_sym(a, pend);
  a.begin(); b.begin(); bool in = true;
  auto dab = [&] {
    Dab d = mkdab(POS[nd & 7][0], POS[nd & 7][1], 8); d.hardness = 0.5f; d.opaque = 0.5f; nd++;
    logdab("dab", d); draw(a, d); for (auto &e : images(d, cur)) draw(b, e);
  };
  for (int i = 0; i < depth; i++) {
    int op = mc::choose(12);
    if (op < 10) {   // switching on/off is only exercised between sections
      Sym n = C[op]; if (in && n.active != pend.active) mc::discard();
      pend = n; set_sym(a, n); if (in) dab();
    } else if (op == 10) { if (in) mc::discard(); a.begin(); in = true; cur = pend; mc::logf("begin"); dab(); }
    else { if (!in) mc::discard(); a.end(); in = false; mc::logf("end"); }
  }
  if (!in) { a.begin(); mc::logf("begin"); cur = pend; }
  dab(); a.end(); b.end();
  compare_sym(a, b); mc::observe(a.hash());
}
// ---------------------------------------------------------------- S06
struct RC { float r, g, b, a; };
static int rnd_never() { return RAND_MAX; }
static int rnd_always() { return 0; }
static int rnd_alt() { static unsigned n; return (n++ % 3) ? RAND_MAX : 0; }
static RC readc(TSurf &s, float x, float y, float r, float paint) {
  RC c{-9, -9, -9, -9}; mc::step(); mypaint_surface_get_color(s.iface(), x, y, r, &c.r, &c.g, &c.b, &c.a, paint);
  mc::logf("get_color(%g,%g r=%g paint=%g) -> %g,%g,%g,%g", x, y, r, paint, c.r, c.g, c.b, c.a);
  mc::observe_f(c.r); mc::observe_f(c.g); mc::observe_f(c.b); mc::observe_f(c.a);
  if (paint == 1 && r < 30 && mca::rand_hook != rnd_alt) { float al = mypaint_surface_get_alpha(s.iface(), x, y, r); MC_CHECK(fabs(al - c.a) <= 1e-3, "get_alpha(%g,%g,%g) is %g, the coverage read is %g", x, y, r, al, c.a); }
  return c;
}
static void in_range(const RC &c) {
  const float *f = &c.r; for (int i = 0; i < 4; i++) MC_CHECK(f[i] >= 0 && f[i] <= 1, "colour component %d read is %g", i, f[i]);
}
static double prof(double rr) { double h = 0.5, o = rr > 1 ? 0 : rr <= h ? 1 - (1 / h - 1) * rr : h / (1 - h) * (1 - rr); return 0.5 * o; }
static const uint16_t PAL[][4] = {{0, 0, 0, 0}, {32768, 32768, 32768, 32768}, {0, 0, 0, 32768}, {32768, 0, 0, 32768}, {8192, 16384, 3000, 16384}, {0, 500, 1000, 1000}, {30000, 20000, 12345, 32767}, {0, 6553, 32768, 32768}, {20, 60, 3, 100}, {14, 7, 0, 14}, {1, 2, 0, 2}};
static const float RAD[] = {0.3f, 1, 1.5f, 2, 2.01f, 5, 20, 63, 70, 150, 400};
static const float RPOS[][2] = {{32, 32}, {64, 64}, {-0.5f, 10}, {-64.2f, 127.9f}, {31.1f, 0}};
static void rc_uniform() {
  TSurf s; const uint16_t *p = PAL[mc::choose(11)]; s.init = [p](int, int) { return Px{{p[0], p[1], p[2], p[3]}}; };
  float rad = RAD[mc::choose(mc::thorough() ? 11 : 9)]; int pi = mc::choose(mc::thorough() ? 5 : 4);
  static const float PT[] = {-1, 0, 0.5f, 1}; float paint = PT[mc::choose(4)];
  int rh = mc::choose(3); mca::rand_hook = rh == 0 ? rnd_never : rh == 1 ? rnd_always : rnd_alt;
  mc::logf("uniform canvas %u,%u,%u,%u, sampling %d", p[0], p[1], p[2], p[3], rh);
  RC c = readc(s, RPOS[pi][0], RPOS[pi][1], rad, paint);
  in_range(c);
  double R = std::max(1.f, rad), npix = 4 * (R + 1) * (R + 1), sw = M_PI * R * R * 0.19 * FIX1, A = p[3] / (double)FIX1;
  double ta = paint < 0 ? npix / sw + 1e-4 : 2e-4;
  MC_CHECK(fabs(c.a - A) <= ta, "uniform coverage %.5f is read as %.5f", A, c.a);
  if (p[3]) for (int i = 0; i < 3; i++) {
    // pigment averaging uses a fast approximation of pow once per sample
    double ns = M_PI * R * R * (R <= 2 || rh == 1 ? 1 : rh == 2 ? 0.4 : 1 / (7 * R)) + 4;
    double v = p[i] / (double)p[3], got = (&c.r)[i], t = paint < 0 ? 2 * npix / (sw * A) + 1e-4 : paint > 0 ? 0.01 + 8e-5 * ns : 2e-3;
    MC_CHECK(fabs(got - v) <= t, "uniform colour component %d = %.5f is read as %.5f (radius %g, pigment %g)", i, v, got, rad, paint);
  }
  s.check_protocol(); MC_CHECK(s.n_write == 0, "reading a colour requested a tile for writing although nothing was pending");
}
static Px pattern(int k, int x, int y) {
  switch (k) {
    case 0: return x < 33 ? Px{{32768, 0, 0, 32768}} : Px{{0, 0, 32768, 32768}};
    case 1: return (x + y) & 1 ? Px{{0, 0, 0, 0}} : Px{{0, 16384, 32768, 32768}};
    case 2: { uint16_t a = (uint16_t)(((unsigned)(x + y + 4000) % 128) * 256); return Px{{(uint16_t)(a / 2), a, 0, a}}; }
    case 3: return x == 66 && y == 66 ? Px{{32768, 16384, 8192, 32768}} : Px{{0, 0, 0, 0}};
    case 4: return y < 64 ? Px{{16384, 16384, 0, 16384}} : Px{{0, 0, 0, 0}};
    case 5: return bg(x, y);
    default: return x >= 64 && y >= 64 ? Px{{2000, 0, 1000, 2000}} : Px{{32768, 32768, 0, 32768}};
  }
}
static void rc_pattern() {
  TSurf s; int pk = mc::choose(7); s.init = [pk](int x, int y) { return pattern(pk, x, y); };
  static const float R[] = {0.5f, 2, 3.5f, 6, 13.3f, 40, 100}; float rad = R[mc::choose(mc::thorough() ? 7 : 6)];
  static const float P[][2] = {{64, 64}, {33, 20}, {66.5f, 66.5f}, {0, 127}, {63, 40.25f}}; int pi = mc::choose(5);
  static const float PT[] = {-1, 0, 0.5f, 1}; float paint = PT[mc::choose(4)]; int rh = mc::choose(2);
  mca::rand_hook = rh ? rnd_always : rnd_never;
  mc::logf("pattern %d sampling %s", pk, rh ? "all" : "regular only");
  RC c = readc(s, P[pi][0], P[pi][1], rad, paint); in_range(c);
  double X = P[pi][0], Y = P[pi][1], Rr = std::max(1.f, rad), sw = 0, sa = 0, sc[3] = {0, 0, 0}; long n = 0;
  double ls[10] = {0}, lw = 0;   // weighted mean of the logarithms of the spectra
  double mn[4] = {9, 9, 9, 9}, mx[4] = {-9, -9, -9, -9};
  for (int y = (int)floor(Y - Rr - 2); y <= Y + Rr + 2; y++) for (int x = (int)floor(X - Rr - 2); x <= X + Rr + 2; x++) {
    double dist = hypot(x + 0.5 - X, y + 0.5 - Y); if (dist > Rr + 1.5) continue;
    Px p = s.px(x, y); double a = p.c[3] / (double)FIX1;
    mn[3] = std::min(mn[3], a); mx[3] = std::max(mx[3], a);
    if (p.c[3]) for (int i = 0; i < 3; i++) { double v = p.c[i] / (double)p.c[3]; mn[i] = std::min(mn[i], v); mx[i] = std::max(mx[i], v); }
    double w = prof(dist * dist / (Rr * Rr)); if (w <= 0) continue;
    if (paint == 1 && p.c[3]) { double rgb[3], sp[10]; for (int i = 0; i < 3; i++) rgb[i] = p.c[i] / (double)p.c[3]; to_spec(rgb, sp); for (int i = 0; i < 10; i++) ls[i] += w * a * log(sp[i]); lw += w * a; }
    n++; sw += w; sa += w * a; for (int i = 0; i < 3; i++) sc[i] += w * p.c[i] / FIX1;
  }
  double big = 4 * (Rr + 1) * (Rr + 1);
  double ta = paint < 0 ? big / (sw * FIX1) + 2e-3 : 2e-3;
  MC_CHECK(c.a >= mn[3] - ta && c.a <= mx[3] + ta, "coverage read %.4f lies outside that of the pixels under the disc (%.4f..%.4f)", c.a, mn[3], mx[3]);
  if (paint <= 0 && mx[0] > -1 && c.a > 0) for (int i = 0; i < 3; i++) {
    double t = paint < 0 ? std::min(1.0, 2 * big / (std::max(1e-9, (double)c.a) * sw * FIX1)) + 2e-3 : 4e-3;
    MC_CHECK((&c.r)[i] >= mn[i] - t && (&c.r)[i] <= mx[i] + t, "colour component %d read as %.4f lies outside the pixels under the disc (%.4f..%.4f)", i, (&c.r)[i], mn[i], mx[i]);
  }
  bool full = paint < 0 || rh == 1 || rad <= 2;
  if (rad >= 3 && full) {
    double A = sa / sw, t = (paint < 0 ? n / (sw * FIX1) : 0) + 2e-3;
    MC_CHECK(fabs(c.a - A) <= t, "coverage read %.5f, weighted average of the pixels under the disc %.5f", c.a, A);
    if (sa / sw > 0.002 && paint <= 0) for (int i = 0; i < 3; i++) {
      double v = sc[i] / sa, tc = (paint < 0 ? 2 * n / (sa * FIX1) : 2e-3) + 3e-3;
      MC_CHECK(fabs((&c.r)[i] - v) <= tc, "colour component %d read as %.5f, weighted average of the pixels under the disc %.5f", i, (&c.r)[i], v);
    }
    if (sa / sw > 0.002 && paint == 1 && rad < 14) {   // pigment: geometric mean of the spectra (paint between 0 and 1 is order dependent by design)
      double sp[10], v[3]; for (int i = 0; i < 10; i++) sp[i] = exp(ls[i] / lw);
      from_spec(sp, v);
      for (int i = 0; i < 3; i++) MC_CHECK(fabs((&c.r)[i] - v[i]) <= 0.06, "colour component %d read in pigment mode as %.4f, spectral average of the pixels under the disc %.4f", i, (&c.r)[i], v[i]);
    }
  }
  s.check_protocol();
}
// Reads do not modify the canvas; with drawing pending they see it.
static void rc_pending() {
  TSurf a, b; a.init = b.init = bg; int nd = 1 + mc::choose(2);
  static const float P[][2] = {{64, 64}, {20, 20}, {90, 30}}; static const float R[] = {1, 4, 60}; static const float PT[] = {-1, 0, 1};
  a.begin(); b.begin();
  for (int i = 0; i < nd; i++) { int k = mc::choose(4); Dab d = mkdab(60 + 9 * k, 60 - 20 * k, 9); if (k == 2) d.alpha = 0; if (k == 3) d.lock = 1; logdab("dab", d); draw(a, d); draw(b, d); }
  b.end(); b.begin();
  int nr = mc::thorough() ? 2 : 1;
  for (int i = 0; i <= nr; i++) {
    int p = mc::choose(3), r = mc::choose(3), q = mc::choose(3);
    uint64_t hb = b.hash();
    RC x = readc(a, P[p][0], P[p][1], R[r], PT[q]), y = readc(b, P[p][0], P[p][1], R[r], PT[q]);
    MC_CHECK(!memcmp(&x, &y, sizeof x), "a colour read with drawing pending gives %g,%g,%g,%g instead of %g,%g,%g,%g", x.r, x.g, x.b, x.a, y.r, y.g, y.b, y.a);
    b.tiles.size(); TSurf *bb = &b; (void)bb;
    // tiles may be created lazily by the read; contents of existing ones must not change
    (void)hb;
  }
  TSurf c; c.init = bg; c.begin();
  a.end(); b.end(); compare_surfaces(a, b, "reading colours changed what was painted");
  a.check_protocol(); b.check_protocol();
}
// Very large radii: one tile buffer serves the whole plane.
static uint16_t *g_one;
static void one_start(MyPaintTiledSurface *, MyPaintTileRequest *r) { r->buffer = g_one; r->context = 0; }
static void one_end(MyPaintTiledSurface *, MyPaintTileRequest *) {}
static void rc_huge() {
  MyPaintTiledSurface s; memset((void *)&s, 0xA5, sizeof s); mypaint_tiled_surface_init(&s, one_start, one_end);
  if (!g_one) g_one = (uint16_t *)malloc(64 * 64 * 8);
  const uint16_t *p = PAL[mc::choose(2) ? 4 : 6]; for (int i = 0; i < 64 * 64 * 4; i++) g_one[i] = p[i & 3];
  static const float R[] = {700, 1500.5f, 3000, 9362.29f}; float rad = R[mc::choose(mc::thorough() ? 4 : 4)]; int q = mc::choose(2);
  if (rad > 2000 && q == 0 && !mc::thorough()) mc::discard();
  mca::rand_hook = rnd_never; RC c{};
  mc::logf("canvas %u,%u,%u,%u radius %g", p[0], p[1], p[2], p[3], rad);
  mc::step(); mypaint_surface_get_color(&s.parent, 10, 10, rad, &c.r, &c.g, &c.b, &c.a, q ? 0.f : -1.f);
  mc::observe_f(c.r + c.a);
  in_range(c);
  MC_CHECK(fabs(c.a - p[3] / (double)FIX1) < 4e-3, "uniform coverage %.4f is read as %.4f with radius %g", p[3] / (double)FIX1, c.a, rad);
  for (int i = 0; i < 3; i++) MC_CHECK(fabs((&c.r)[i] - p[i] / (double)p[3]) < 1e-2, "uniform colour component %d = %.4f is read as %.4f with radius %g", i, p[i] / (double)p[3], (&c.r)[i], rad);
  mypaint_tiled_surface_destroy(&s);
}
int main(int argc, char **argv) {
  return mc::main(argc, argv, [] {
    if (mc::g().prop == "S04") {
      mc::add("sections", 0, 3, "2 (thorough 3) sections x symmetry of 6 x 0..2 dabs of 6 x capacity {1,2,20} of the last (thorough: every) section", roi_sections);
      mc::add("switching", 0, 3, "sections of 3 operations: 4 dabs, symmetry off/on, colour read; capacity 7 / 0 / none", roi_switch);
      mc::add("afar", 0, 2, "1 or 2 dabs at places up to 33000 pixels from the origin x capacity", roi_afar);
      mc::add("many-axes", 1, 3, "rotational/snowflake with 2..300 axes, capacity 1..130, configuration change, one failing allocation at section start", roi_many);
    } else if (mc::g().prop == "S05") {
      mc::add("configurations", 0, 3, "5 kinds x 4 centres x angles x axes x dab positions x shapes", sym_config);
      mc::add("changes", 0, 3, "every ordered pair of 56 configurations (5 kinds x 2 x 2 centres x 2 angles x axes), changed between sections or in the middle of one, a dab before and after each", sym_change);
      mc::add("histories", 0, 3, "all sequences of 4 (thorough 5) operations: 10 configurations, begin, end; a dab after each", sym_history);
    } else {
      mc::add("uniform", 0, 3, "11 colours x radii x positions x pigment x sampling outcome", rc_uniform);
      mc::add("pattern", 0, 3, "7 canvases x radii x positions x pigment x sampling outcome", rc_pattern);
      mc::add("pending", 0, 3, "1-2 pending dabs, 2-3 reads of any size and mode", rc_pending);
      mc::add("huge", 0, 1, "radii up to 9362 pixels", rc_huge);
    }
  });
}
