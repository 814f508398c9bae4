// S02: per-pixel compositing of every blend mode.   S03: dab footprint and profile.
#include "surf.hpp"
#include "spec.hpp"

// ---------- S02 ----------
struct Rgb { double v[3]; double a; };   // straight units: 0..1, premultiplied
static double lum(const double *c) { return 0.2126 * c[0] + 0.7152 * c[1] + 0.0722 * c[2]; }

static void ref_normal(Rgb &p, const double *col, double ca, double o) { for (int k = 0; k < 3; k++) p.v[k] = o * ca * col[k] + (1 - o) * p.v[k]; p.a = o * ca + (1 - o) * p.a; }
static void ref_lock(Rgb &p, const double *col, double o) { for (int k = 0; k < 3; k++) p.v[k] = o * p.a * col[k] + (1 - o) * p.v[k]; }
static void ref_normal_paint(Rgb &p, const double *col, double o) {
  if (p.a <= 0) { ref_normal(p, col, 1, o); return; }
  double na = o + (1 - o) * p.a, bot[3], res[3];
  for (int k = 0; k < 3; k++) bot[k] = p.v[k] / p.a;
  wgm(col, bot, na > 0 ? o / na : 0, res);
  for (int k = 0; k < 3; k++) p.v[k] = res[k] * na;
  p.a = na;
}
static void ref_eraser_paint(Rgb &p, const double *col, double ca, double o) {
  double b = p.a * 8.0 - 3.0, sf = 0.5 + b / (1 + fabs(b) * 1.65); sf = sf < 0 ? 0 : sf > 1 ? 1 : sf;
  double na = o * ca + (1 - o) * p.a, out[3];
  for (int k = 0; k < 3; k++) out[k] = o * ca * col[k] + (1 - o) * p.v[k];
  if (sf > 0 && p.a > 0) {
    double bot[3], res[3]; for (int k = 0; k < 3; k++) bot[k] = p.v[k] / p.a;
    double den = o + (1 - o) * p.a;
    wgm(col, bot, den > 0 ? o / den * ca : 0, res);
    for (int k = 0; k < 3; k++) out[k] = (1 - sf) * out[k] + sf * res[k] * na;
  }
  for (int k = 0; k < 3; k++) p.v[k] = out[k];
  p.a = na;
}
static void ref_lock_paint(Rgb &p, const double *col, double o) {
  if (p.a <= 0) return;
  double bot[3], res[3]; for (int k = 0; k < 3; k++) bot[k] = p.v[k] / p.a;
  wgm(col, bot, o, res);
  for (int k = 0; k < 3; k++) p.v[k] = res[k] * p.a;
}
static void ref_color(Rgb &p, const double *col, double o) {
  double bot[3] = {0, 0, 0}; if (p.a > 0) for (int k = 0; k < 3; k++) bot[k] = p.v[k] / p.a;
  double d = lum(bot) - lum(col), c[3]; for (int k = 0; k < 3; k++) c[k] = col[k] + d;
  double L = lum(c), mn = std::min({c[0], c[1], c[2]}), mx = std::max({c[0], c[1], c[2]});
  if (mn < 0) for (int k = 0; k < 3; k++) c[k] = L - mn > 1e-12 ? L + (c[k] - L) * L / (L - mn) : 0;
  if (mx > 1) for (int k = 0; k < 3; k++) c[k] = mx - L > 1e-12 ? L + (c[k] - L) * (1 - L) / (mx - L) : 1;
  for (int k = 0; k < 3; k++) p.v[k] = o * c[k] * p.a + (1 - o) * p.v[k];
}
static void ref_poster(Rgb &p, double o, int n) {
  for (int k = 0; k < 3; k++) { double q = floor(p.v[k] * n + 0.5) / n; if (q > p.a) q = p.a; p.v[k] = o * q + (1 - o) * p.v[k]; }
}
static double cl01(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
// The documented composition of one pixel by one dab; `m` is the dab intensity at the pixel.
static Rgb ref_pixel(Rgb p, const Dab &d, double m, Rgb *before_poster = nullptr) {
  double col[3] = {cl01(d.cr), cl01(d.cg), cl01(d.cb)}, ca = cl01(d.alpha), op = cl01(d.opaque), lk = cl01(d.lock), cz = cl01(d.colorize), po = cl01(d.posterize), pt = cl01(d.paint);
  double normal = (1 - lk) * (1 - cz) * (1 - po);
  if (op == 0) return p;
  auto Q = [](double o) { return o; };
  auto PM = [](double o) { return std::max(o, 150.0 / FIX1); };   // pigment modes enforce a documented minimum opacity
  if (pt < 1) {
    if (normal > 0) ref_normal(p, col, ca, m * Q(normal * op * (1 - pt)));
    if (lk > 0 && ca != 0) ref_lock(p, col, m * Q(lk * op * (1 - cz) * (1 - po) * (1 - pt)));
  }
  if (pt > 0) {
    if (normal > 0) { if (ca == 1) ref_normal_paint(p, col, m * PM(normal * op * pt)); else ref_eraser_paint(p, col, ca, m * (normal * op * pt)); }
    if (lk > 0 && ca != 0) ref_lock_paint(p, col, m * PM(lk * op * (1 - cz) * (1 - po) * pt));
  }
  if (cz > 0) ref_color(p, col, m * cz * op);
  if (before_poster) *before_poster = p;
  if (po > 0) { double n = floor(d.pnum * 100.0f + 0.5); n = n < 1 ? 1 : n > 128 ? 128 : n; ref_poster(p, m * po * op, (int)n); }
  return p;
}

static const int AV[] = {0, 1, 2, 3, 100, 255, 4096, 9000, 16384, 16385, 24576, 29000, 32000, 32766, 32767, 32768};
// 4096 destination pixels: 16 alphas x (channel fractions of alpha) for three channels, all valid.
static Px dst(int idx, int variant) {
  int a = AV[idx & 15], f = idx >> 4;               // 256 fraction combinations
  static const int N[] = {0, 1, 4, 5, 8, 12, 15, 16}, B[] = {0, 3, 4, 7};
  auto ch = [&](int i) { int v = (int)((long)a * N[i & 7] / 16); if (variant & 1) v = v > 0 ? v - 1 : 0; return (uint16_t)v; };
  return Px{{ch(f & 7), ch((f >> 3) & 7), ch(variant >> 1 ? ((f >> 6) & 3) * 2 + 1 : B[(f >> 6) & 3]), (uint16_t)a}};
}
static const int CV[] = {0, 32768, 16384, 1, 32767, 9830};
static const int OV[] = {32768, 16384, 1, 2, 149, 150, 151, 8000, 32767};


static int tolerance(const Dab &d, const Rgb &in) {
  double t = 4;                                        // integer truncation of up to four blend stages
  if (d.paint > 0) t = 4 + 60;                          // fast approximations of pow
  if (d.colorize > 0) {   // integer luminance (truncated three times), amplified by the out-of-gamut clipping of saturated colours
    double c[3] = {cl01(d.cr), cl01(d.cg), cl01(d.cb)}, L = lum(c), mn = std::min({c[0], c[1], c[2]}), mx = std::max({c[0], c[1], c[2]});
    double amp = 1; if (mx - L > 1e-3) amp = std::max(amp, (mx - mn) / (mx - L)); if (L - mn > 1e-3) amp = std::max(amp, (mx - mn) / (L - mn));
    t += 8 + 4 * std::min(amp, 60.0);
  }
  return (int)t;
}
static bool near_poster(const Rgb &in, const Dab &d, double tol) {   // rounding boundary of the posterize step
  if (d.posterize <= 0) return false;
  double n = floor(d.pnum * 100.0f + 0.5); n = n < 1 ? 1 : n > 128 ? 128 : n;
  for (int k = 0; k < 3; k++) { double q = in.v[k] * n + 0.5; if (fabs(q - floor(q + 0.5)) < n * (tol + 1) / FIX1) return true; }
  return false;
}

static void run_blend(Dab d, int variant, double softness) {
  TSurf s;
  d.x = 32; d.y = 32; d.r = 220; d.hardness = 1; d.softness = softness; d.aspect = 1;
  s.init = [&](int x, int y) { if (x < 0 || y < 0 || x > 63 || y > 63) return Px{{0, 0, 0, 0}}; return dst(y * 64 + x, variant); };
  logdab("dab", d); mc::logf("destination grid variant %d", variant);
  uint16_t *t = s.tile(0, 0);
  std::vector<uint16_t> before(t, t + 64 * 64 * 4);
  s.begin(); draw(s, d); s.end();
  double m = 1 - cl01(softness);
  double worst = 0;
  for (int i = 0; i < 4096; i++) {
    const uint16_t *b = &before[i * 4], *p = t + i * 4;
    mc::g().cur->checks++;
    if (p[3] > FIX1 || p[0] > p[3] || p[1] > p[3] || p[2] > p[3])
      mc::fail("pixel %u,%u,%u,%u became %u,%u,%u,%u: not premultiplied colour in 0..2^15", b[0], b[1], b[2], b[3], p[0], p[1], p[2], p[3]);
    Rgb in; for (int k = 0; k < 3; k++) in.v[k] = b[k] / (double)FIX1; in.a = b[3] / (double)FIX1;
    bool pureposter = d.posterize > 0;
    Rgb mid = in; Rgb e = ref_pixel(in, d, m, &mid);
    int tol = tolerance(d, in);
    if ((d.lock >= 1 || d.colorize >= 1 || d.posterize >= 1) && p[3] != b[3])
      mc::fail("alpha of pixel %u,%u,%u,%u changed to %u under an alpha-preserving mode", b[0], b[1], b[2], b[3], p[3]);
    if (fabs(p[3] - e.a * FIX1) > (d.paint > 0 && d.paint < 1 ? 6 : 4)) mc::fail("pixel %u,%u,%u,%u: alpha became %u, compositing prescribes %.1f", b[0], b[1], b[2], b[3], p[3], e.a * FIX1);
    if (pureposter && near_poster(mid, d, tol)) continue;   // the posterize rounding is ambiguous
    for (int k = 0; k < 3; k++) {
      double dv = fabs(p[k] - e.v[k] * FIX1);
      if (dv > worst) worst = dv;
      if (dv > tol) mc::fail("pixel %u,%u,%u,%u: channel %d became %u, compositing prescribes %.1f (tolerance %d)", b[0], b[1], b[2], b[3], k, p[k], e.v[k] * FIX1, tol);
    }
  }
  mc::logf("largest deviation from the reference %.2f/32768", worst);
  mc::observe(s.hash());
}
static Dab color_choice(bool small) {
  Dab d = mkdab(0, 0, 1);
  int n = mc::thorough() ? 6 : small ? 3 : 4;
  d.cr = CV[mc::choose(n)] / 32768.f; d.cg = CV[mc::choose(n)] / 32768.f; d.cb = CV[mc::choose(n)] / 32768.f;
  return d;
}
static void sp_pure() {
  Dab d = color_choice(false);
  d.opaque = OV[mc::choose(mc::thorough() ? 9 : 9)] / 32768.f;
  int mode = mc::choose(7);
  if (mode == 1) d.alpha = 0; if (mode == 2) d.alpha = 0.5f; if (mode == 3) d.lock = 1; if (mode == 4) d.colorize = 1;
  if (mode == 5) { static const float N[] = {0.01f, 0.04f, 1.28f, 0.07f, 1.27f, 5}; d.posterize = 1; d.pnum = N[mc::choose(6)]; }
  if (mode == 6) d.alpha = 0.985f;
  run_blend(d, mc::choose(mc::thorough() ? 4 : 1), 0);
}
static void sp_pigment() {
  Dab d = color_choice(true);
  d.opaque = OV[mc::choose(mc::thorough() ? 9 : 5)] / 32768.f;
  int mode = mc::choose(5);
  if (mode == 1) d.alpha = 0; if (mode == 2) d.alpha = 0.5f; if (mode == 3) d.lock = 1; if (mode == 4) d.alpha = 0.985f;
  d.paint = mc::choose(2) ? 0.5f : 1.f;
  run_blend(d, mc::choose(mc::thorough() ? 2 : 1), 0);
}
static void sp_mixed() {
  static const float F[] = {0, 0.5f, 1};
  Dab d = mkdab(0, 0, 1);
  int c = mc::choose(3); if (c == 1) { d.cr = 0; d.cg = 1; d.cb = 0.5f; } if (c == 2) { d.cr = d.cg = d.cb = 0; }
  d.lock = F[mc::choose(3)]; d.colorize = F[mc::choose(3)]; d.posterize = F[mc::choose(3)]; d.paint = F[mc::choose(3)];
  static const float A[] = {1, 0.25f, 0}; d.alpha = A[mc::choose(3)];
  d.opaque = mc::choose(2) ? 0.6f : 1.f;
  d.pnum = 0.05f;
  run_blend(d, 0, mc::choose(2) ? 0.25f : 0.f);
}
static void sp_clamp() {   // out-of-range parameters behave as their nearest legal value
  static const float V[] = {-1e9f, -0.5f, 1.5f, 1e9f};
  int which = mc::choose(12); float v = V[mc::choose(4)];
  TSurf a, b; Dab d = mkdab(20, 20, 8), e; d.opaque = 0.7f; d.hardness = 0.6f; d.lock = 0.3f; d.colorize = 0.2f; d.alpha = 0.8f; d.softness = 0.1f;
  if (which == 8) d.pnum = 5;
  if (which == 11 && v > 0) mc::discard();   // aspect ratios above one are legal
  float *f[] = {&d.cr, &d.cg, &d.cb, &d.opaque, &d.lock, &d.colorize, &d.posterize, &d.alpha, &d.hardness, &d.paint, &d.softness, &d.aspect};
  *f[which] = v; e = d; float *g[] = {&e.cr, &e.cg, &e.cb, &e.opaque, &e.lock, &e.colorize, &e.posterize, &e.alpha, &e.hardness, &e.paint, &e.softness, &e.aspect};
  *g[which] = which == 11 ? 1 : v < 0 ? 0 : 1;
  auto in = [](int x, int y) { return dst((y & 63) * 64 + (x & 63), 0); };
  a.init = b.init = in; logdab("out of range", d);
  a.begin(); b.begin(); int ra = draw(a, d), rb = draw(b, e); a.end(); b.end();
  MC_CHECK(!!ra == !!rb, "out-of-range parameter changes what draw_dab reports (%d vs %d)", ra, rb);
  compare_surfaces(a, b, "out-of-range dab parameter is not clamped");
  mc::observe(a.hash());
}
static void sp_seq() {  // premultiplied validity is preserved by every sequence of dabs
  TSurf s; s.init = [](int x, int y) { return dst((y & 63) * 64 + (x & 63), 1); };
  int n = mc::thorough() ? 4 : 3;
  s.begin();
  for (int i = 0; i < n; i++) {
    Dab d = mkdab(32, 32, 30); int k = mc::choose(8); d.hardness = 0.7f;
    if (k == 1) d.alpha = 0; if (k == 2) { d.lock = 1; d.cr = d.cg = d.cb = 1; } if (k == 3) { d.colorize = 1; d.cr = d.cg = d.cb = 0; } if (k == 4) { d.posterize = 1; d.pnum = 0.02f; } if (k == 5) { d.paint = 1; d.alpha = 0.5f; }
    if (k == 6) { d.paint = 1; d.cr = d.cg = 1; d.opaque = 0.01f; } if (k == 7) { d.paint = 0.5f; d.lock = 0.5f; d.colorize = 0.5f; d.posterize = 0.5f; d.cr = 1; d.cg = 1; d.cb = 1; }
    logdab("dab", d); draw(s, d);
    if (k & 1) { s.end(); s.begin(); }
  }
  s.end();
  uint16_t *t = s.tile(0, 0);
  for (int i = 0; i < 4096; i++, t += 4) { mc::g().cur->checks++; if (t[3] > FIX1 || t[0] > t[3] || t[1] > t[3] || t[2] > t[3]) mc::fail("pixel %d became %u,%u,%u,%u: not valid premultiplied colour", i, t[0], t[1], t[2], t[3]); }
  mc::observe(s.hash());
}

// ---------- S03 ----------
static double ref_opacity(double rr, double h, double soft) {
  if (rr > 1) return 0;
  double o = rr <= h ? 1 - (1 / h - 1) * rr : h / (1 - h) * (1 - rr);
  return o * (1 - soft);
}
// squared normalised distance of the pixel centre, elliptical dab
static double ref_rr(int px, int py, const Dab &d, double dx = 0, double dy = 0) {
  double xx = px + 0.5 + dx - d.x, yy = py + 0.5 + dy - d.y, t = d.angle * M_PI / 180, cs = cos(t), sn = sin(t);
  double as = d.aspect < 1 ? 1 : d.aspect;
  double yr = (yy * cs - xx * sn) * as, xr = yy * sn + xx * cs;
  return (yr * yr + xr * xr) / ((double)d.r * d.r);
}
static double rr_at(double X, double Y, const Dab &d) { return ref_rr(0, 0, d, X - 0.5, Y - 0.5); }
static void check_footprint(TSurf &s, const Dab &d) {
  // nothing outside the dab may change
  for (auto &k : s.tiles) for (int y = 0; y < s.ts; y++) for (int x = 0; x < s.ts; x++) {
    const uint16_t *p = k.second + (y * s.ts + x) * 4;
    if (!p[3]) continue;
    int X = k.first.first * s.ts + x, Y = k.first.second * s.ts + y;
    double dist = hypot(X + 0.5 - d.x, Y + 0.5 - d.y);
    if (dist > d.r + 1.5) mc::fail("pixel (%d,%d) at distance %.3f from the centre of a dab of radius %g was painted", X, Y, dist, d.r);
  }
}
static void profile(Dab d) {
  TSurf s; d.cr = d.cg = d.cb = 1; d.alpha = 1; d.opaque = 1;
  logdab("dab", d);
  s.begin(); int r = draw(s, d); MyPaintRectangle rc[4]; MyPaintRectangles roi{4, rc}; memset(rc, 0, sizeof rc); s.end(&roi);
  MC_CHECK(r, "a visible dab is reported as not painting anything");
  check_footprint(s, d);
  double h = d.hardness, m = d.softness;
  int x0 = (int)floor(d.x - d.r - 2), x1 = (int)ceil(d.x + d.r + 2), y0 = (int)floor(d.y - d.r - 2), y1 = (int)ceil(d.y + d.r + 2);
  for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) {
    int got = s.px(x, y).c[3];
    double rr = ref_rr(x, y, d), e = ref_opacity(rr, h, m) * FIX1;
    // float evaluation error of rr: relative 1e-6 times the profile's slope
    double slope = std::max(1 / h - 1, h < 1 ? h / (1 - h) : 0.0);
    double tol = 3 + slope * (rr * 3e-5 + 2e-5) * FIX1 * std::max<double>(1.0, (fabs(d.x) + fabs(d.y)) / 2000.0);
    mc::g().cur->checks++;
    if (fabs(rr - 1) < 1e-4 || fabs(rr - h) < 1e-4) { if (got > ref_opacity(rr * 0.9995 < h ? rr * 0.9995 : rr - 2e-4, h, m) * FIX1 + tol + 40) mc::fail("pixel (%d,%d) on the fringe has opacity %d, profile prescribes about %.1f", x, y, got, e); continue; }
    if (fabs(got - e) > tol) mc::fail("pixel (%d,%d): dab opacity %d/32768, profile prescribes %.1f (rr=%.5f, tolerance %.1f)", x, y, got, e, rr, tol);
    if (s.px(x, y).c[0] != got) mc::fail("pixel (%d,%d): white dab painted colour %d with alpha %d", x, y, s.px(x, y).c[0], got);
  }
  mc::observe(s.hash());
}
static const float RADII[] = {3, 4.5f, 7, 12.25f, 31, 64, 100, 151.5f};
static const float HARD[] = {1, 0.8f, 0.5f, 0.1f, 0.01f};
static void sp_profile() {
  Dab d = mkdab(0, 0, 0);
  d.r = RADII[mc::choose(mc::thorough() ? 8 : 6)]; d.hardness = HARD[mc::choose(5)];
  static const float A[] = {1, 1.5f, 4, 10}; static const float G[] = {0, 30, 90, -45, 137, 400};
  int a = mc::choose(4); d.aspect = A[a]; if (a) d.angle = G[mc::choose(6)];
  static const float PX[] = {32, 63.5f, 64, 0.25f, -20.75f, 127.9f}; d.x = PX[mc::choose(mc::thorough() ? 6 : 4)]; d.y = PX[mc::choose(3)] - 10;
  static const float S[] = {0, 0.3f, 0.9f}; d.softness = S[mc::choose(mc::thorough() ? 3 : 2)];
  profile(d);
}
static void sp_afar() {   // the same shape far from the origin
  Dab d = mkdab(0, 0, 0); static const float R[] = {6, 30}, P[] = {-20.5f, 4100.25f, -4100.25f, 16500.5f, -16500.5f, 33000.25f, -33000.25f};
  d.r = R[mc::choose(2)]; d.hardness = mc::choose(2) ? 0.5f : 1; d.x = P[mc::choose(7)]; d.y = P[mc::choose(7)]; if (mc::choose(2)) { d.aspect = 2.5f; d.angle = 25; }
  profile(d);
}
static void sp_seam() {   // every integer offset relative to the tile grid
  Dab d = mkdab(0, 0, 5.5f); d.hardness = 0.6f;
  int ox = mc::choose(64), k = mc::choose(mc::thorough() ? 8 : 2), var = mc::choose(2); int oy = (ox * 7 + k * 19) & 63;
  d.x = ox + 0.3f - 64 * (k & 1); d.y = oy + 0.8f; if (var) { d.aspect = 2.5f; d.angle = 25; d.r = 9; }
  profile(d);
}
// Small (antialiased) dabs: the documented rule.  Nearest: the point of the pixel closest to the dab's axis; farthest: one
// unit-area radius further away from that axis; the visibility of the nearest point is divided by one plus the occlusion.
// `alt` receives the value on the other side of the "inner part needs no anti-aliasing" switch when that is ambiguous.
static double ref_small_rr(double xp, double yp, const Dab &d, double *alt) {
  double t = d.angle * M_PI / 180, cs = cos(t), sn = sin(t), as = d.aspect < 1 ? 1 : d.aspect, r2 = (double)d.r * d.r;
  double cx = xp + 0.5 - d.x, cy = yp + 0.5 - d.y;            // pixel centre, dab at the origin
  auto q = [&](double x, double y) { double along = x * cs + y * sn, across = (y * cs - x * sn) * as; return along * along + across * across; };
  double nx = 0, ny = 0, near = 0;
  bool inside = cx > -0.5 && cx < 0.5 && cy > -0.5 && cy < 0.5;
  if (!inside) {
    double along = cx * cs + cy * sn;
    nx = std::min(std::max(along * cs, cx - 0.5), cx + 0.5); ny = std::min(std::max(along * sn, cy - 0.5), cy + 0.5);
    near = q(nx, ny) / r2;
  }
  *alt = near;
  if (near > 1) return near;
  double side = cy * cs - cx * sn >= 0 ? 1 : -1, u = sqrt(1 / M_PI);
  double fr = q(nx - side * sn * u, ny + side * cs * u), far = fr / r2, start = d.r > 1 ? ((double)d.r - 1) * (d.r - 1) / as : 0;
  double plain = (near + far) / 2, aa = 1 - (1 - near) / (1 + far - near), v = fr < start ? plain : aa;
  *alt = fabs(fr - start) < 1e-4 ? (fr < start ? aa : plain) : v;
  return v;
}
static void sp_small() {
  static const float R[] = {0.1f, 0.2f, 0.5f, 0.75f, 1, 1.3f, 2, 2.6f, 2.99f, 0.15f};
  Dab d = mkdab(0, 0, 0); d.cr = d.cg = d.cb = 1; d.r = R[mc::choose(10)]; d.hardness = HARD[mc::choose(mc::thorough() ? 5 : 4)];
  static const float FX[] = {0, 0.25f, 0.5f, 0.75f};
  float fx = FX[mc::choose(4)], fy = FX[mc::choose(4)];
  int ell = mc::choose(mc::thorough() ? 8 : 5);
  if (ell) { static const float A[] = {0, 2, 6, 1, 3, 10, 1.3f, 4}, G[] = {0, 0, 30, 60, -50, 90, 200, 135}; d.aspect = A[ell]; d.angle = G[ell]; }
  int ox = mc::choose(6);
  if (ox == 3 && mc::thorough()) d.softness = 0.3f;
  static const int OX[] = {32, 63, 64, 0, -1, 193}; static const int OY[] = {32, 64, 0, 63, -65, 20};
  TSurf a, b;
  Dab base = d; base.x = 32 + fx; base.y = 32 + fy; d.x = OX[ox] + fx; d.y = OY[ox] + fy;
  logdab("dab", d);
  a.begin(); int ra = draw(a, base); a.end(); b.begin(); int rb = draw(b, d); b.end();
  MC_CHECK(ra && rb, "a visible dab of radius %g is reported as not painting anything", d.r);
  check_footprint(b, d);
  double h = d.hardness, slope = std::max(1 / h - 1, h < 1 ? h / (1 - h) : 0.0);
  for (int y = -6; y <= 6; y++) for (int x = -6; x <= 6; x++) {
    int p = a.px(32 + x, 32 + y).c[3], q = b.px(OX[ox] + x, OY[ox] + y).c[3];
    mc::g().cur->checks++;
    if (abs(p - q) > 24 + 2000 * (fabs(d.x) > 100 ? 1e-2 : 0)) mc::fail("dab shape depends on its position relative to the tile grid: pixel offset (%d,%d) is %d at the tile centre, %d here", x, y, p, q);
    double alt, rr = ref_small_rr(32 + x, 32 + y, base, &alt), e = ref_opacity(rr, h, d.softness) * FIX1, e2 = ref_opacity(alt, h, d.softness) * FIX1, tol = 4 + slope * (rr * 3e-5 + 3e-5) * FIX1;
    if (h == 1 && fabs(rr - 1) < 1e-4) continue;   // the very edge of a hard dab
    if (fabs(p - e) > tol && fabs(p - e2) > tol) mc::fail("pixel offset (%d,%d) of a dab of radius %g, hardness %g, aspect %g, angle %g has opacity %d, the anti-aliasing rule gives %.1f (rr=%.5f)", x, y, d.r, h, d.aspect, d.angle, p, e, rr);
  }
  // a dab turned by 180 degrees about its centre is the same dab
  Dab c = base; c.x = 32 + 1 - fx; c.y = 32 + 1 - fy; TSurf e; e.begin(); draw(e, c); e.end();
  for (int y = -5; y <= 5; y++) for (int x = -5; x <= 5; x++) {
    int p = a.px(32 + x, 32 + y).c[3], q = e.px(32 - x, 32 - y).c[3];
    if (abs(p - q) > 8 + slope * 1e-4 * FIX1) mc::fail("dab is not symmetric under a half turn: %d vs %d at (%d,%d)", p, q, x, y);
  }
  mc::observe(a.hash());
}
static void sp_noop() {   // dabs that cannot paint leave the canvas alone and say so
  TSurf s; s.init = [](int x, int y) { return dst((y & 63) * 64 + (x & 63), 0); };
  Dab d = mkdab(40, 40, 10); int k = mc::choose(8);
  if (k == 0) d.opaque = 0; if (k == 1) d.hardness = 0; if (k == 2) d.softness = 1; if (k == 3) d.r = 0.09f; if (k == 4) d.r = 0; if (k == 5) d.r = -3; if (k == 6) d.opaque = -1; if (k == 7) d.softness = 2;
  if (mc::choose(2)) d.paint = 1; if (mc::choose(2)) d.lock = 0.5f;
  logdab("dab", d);
  TSurf t; t.init = s.init; s.tile(0, 0); t.tile(0, 0);
  s.begin(); int r = draw(s, d); MyPaintRectangle rc[2] = {}; MyPaintRectangles roi{2, rc}; s.end(&roi);
  MC_CHECK(!r, "a dab that cannot paint reports that it painted");
  MC_CHECK(roi.num_rectangles == 0, "a dab that cannot paint reports %d changed rectangles", roi.num_rectangles);
  compare_surfaces(s, t, "a dab that cannot paint changed the canvas");
  mc::observe(k);
}

int main(int argc, char **argv) {
  return mc::main(argc, argv, [] {
    if (mc::g().prop == "S02") {
      mc::add("pure", 0, 2, "every blend mode alone x colour grid x opacity grid x 4096 destination pixels", sp_pure);
      mc::add("pigment", 0, 2, "pigment variants x colour grid x opacity grid x 4096 destination pixels", sp_pigment);
      mc::add("mixed", 0, 2, "all combinations of partial lock/colorize/posterize/paint/eraser strengths x 4096 destination pixels", sp_mixed);
      mc::add("clamp", 0, 1, "out-of-range dab parameters", sp_clamp);
      mc::add("sequences", 0, 2, "all mode sequences: pixel validity is inductive", sp_seq);
    } else {
      mc::add("profile", 0, 2, "radius x hardness x softness x aspect x angle x position, every pixel vs the analytic profile", sp_profile);
      mc::add("afar", 0, 2, "2 radii x 2 hardnesses x round or elliptical at 49 places up to 33000 pixels from the origin", sp_afar);
      mc::add("seam", 0, 2, "every integer offset against the tile grid", sp_seam);
      mc::add("small", 0, 2, "anti-aliased dabs (radius < 3): translation invariance, symmetry, footprint, coverage", sp_small);
      mc::add("noop", 0, 1, "dabs that cannot paint", sp_noop);
    }
  });
}
