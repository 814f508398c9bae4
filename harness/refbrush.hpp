// Reference model of the brush engine in double precision, written from the documentation of the settings and inputs.
// It predicts the dabs of every event (and consumes the recorded answers of colour reads).  Decisions that rounding
// could tip (number of dabs, wrap-around of a value that feeds a curve) set `amb`: the execution is then discarded.
#pragma once
#include "brush.hpp"
#include "spec.hpp"
struct RDab { double f[17]; double rawr; };
static inline double rdeg(double r) { return r * 180 / M_PI; }
static inline double rrad(double d) { return d * M_PI / 180; }
static inline double rwrap(double a, double n) { return a - n * floor(a / n); }
static inline double rclamp(double v, double a, double b) { return v < a ? a : v > b ? b : v; }
static inline double angdiff(double a, double b) { return rwrap(b - a + 180, 360) - 180; }
static inline double decay(double T, double t) { return T <= 0.001 ? 0 : exp(-t / T); }
static void r_hsv2rgb(double h, double s, double v, double *o) {
  h -= floor(h); s = rclamp(s, 0, 1); v = rclamp(v, 0, 1);
  for (int i = 0; i < 3; i++) { double k = fmod((i == 0 ? 5 : i == 1 ? 3 : 1) + h * 6, 6); o[i] = v - v * s * std::max(0., std::min(std::min(k, 4 - k), 1.)); }
}
static double r_hue(const double *c, double mx, double d) { double h = c[0] == mx ? (c[1] - c[2]) / d : c[1] == mx ? 2 + (c[2] - c[0]) / d : 4 + (c[0] - c[1]) / d; return rwrap(h / 6, 1); }
static void r_rgb2hsv(const double *in, double *h, double *s, double *v) {
  double c[3]; for (int i = 0; i < 3; i++) c[i] = rclamp(in[i], 0, 1);
  double mx = std::max({c[0], c[1], c[2]}), mn = std::min({c[0], c[1], c[2]}), d = mx - mn; *v = mx;
  if (d > 0.0001) { *s = d / mx; *h = r_hue(c, mx, d); } else { *s = 0; *h = 0; }
}
static void r_rgb2hsl(const double *in, double *h, double *s, double *l) {
  double c[3]; for (int i = 0; i < 3; i++) c[i] = rclamp(in[i], 0, 1);
  double mx = std::max({c[0], c[1], c[2]}), mn = std::min({c[0], c[1], c[2]}), d = mx - mn; *l = (mx + mn) / 2;
  if (d > 1e-7) { *s = *l <= 0.5 ? d / (mx + mn) : d / (2 - mx - mn); *h = r_hue(c, mx, d); } else { *s = 0; *h = 0; }
}
static void r_hsl2rgb(double h, double s, double l, double *o) {
  h -= floor(h); s = rclamp(s, 0, 1); l = rclamp(l, 0, 1); double a = s * std::min(l, 1 - l);
  for (int i = 0; i < 3; i++) { double k = fmod((i == 0 ? 0 : i == 1 ? 8 : 4) + h * 12, 12); o[i] = l - a * std::max(-1., std::min({k - 3, 9 - k, 1.})); }
}
struct RefBrush {
  double base[NS]; Curve curve[NS][NI];
  int nbuckets = 0; double bucket[256][9];
  bool amb = false; std::string ambwhy;
  void ambig(const char *w) { if (!amb) ambwhy = w; amb = true; }
  // history
  bool reset = true, stroke_on; double X, Y, P, AX, AY, part, R, vx, vy, sp[2], stroke, custom, asp, ang, ddx, ddy, adx, ady, decl, asc, dcx, dcy, flip, dens[3], barrel, zoom, rot, gmx, gmy, skip = 0;
  double v[NS], in[NI], smudge1[9];
  double derr = 0;   // accumulated rounding error of the single-precision engine, in dabs
  double random = 0.5;            // not predicted: brushes using it are compared by bounds
  double total = 0, idle = 0; bool last_final_dp;   // stroke split
  std::vector<RDab> dabs; size_t reads_used = 0; Rec *rec = nullptr; std::vector<std::string> errs;
  int ret = 0; size_t ansidx = 0;
  RefBrush() { for (double &b : base) b = 0; }
  void from(MyPaintBrush *b) { for (int s = 0; s < NS; s++) { base[s] = ::base(b, s); for (int i = 0; i < NI; i++) curve[s][i] = get_curve(b, s, i); } }
  bool constant(int s) { for (auto &c : curve[s]) if (!c.empty()) return false; return true; }
  double turn(double a, double b) { double d = angdiff(a, b); if (fabs(d) > 179.99) ambig("half turn"); return d; }   // either way round is as short
  double eval(int s) {
    double r = base[s];
    for (int i = 0; i < NI; i++) { const Curve &c = curve[s][i]; size_t n = c.size(); if (n < 2) continue; size_t k = 0; while (k + 2 < n && in[i] > c[k + 1].first) k++; double x0 = c[k].first, y0 = c[k].second, x1 = c[k + 1].first, y1 = c[k + 1].second; r += x0 == x1 ? y0 : y0 + (y1 - y0) * (in[i] - x0) / (x1 - x0); }
    return r;
  }
  double bradius() { return exp(base[S_(RADIUS_LOGARITHMIC)]); }
  void clear() {
    derr = 0;
    X = Y = P = AX = AY = part = R = vx = vy = sp[0] = sp[1] = custom = asp = ang = ddx = ddy = adx = ady = decl = asc = dcx = dcy = barrel = zoom = rot = gmx = gmy = 0; stroke = 1; stroke_on = false; flip = -1;
    dens[0] = base[S_(DABS_PER_BASIC_RADIUS)]; dens[1] = base[S_(DABS_PER_ACTUAL_RADIUS)]; dens[2] = base[S_(DABS_PER_SECOND)];
    for (int s = 0; s < NS; s++) v[s] = base[s];
    memset(bucket, 0, sizeof bucket); memset(smudge1, 0, sizeof smudge1);
  }
  double count(double x, double y, double dt) {
    double br = rclamp(bradius(), 0.2, 1000); if (R == 0) R = br;
    double dx = x - X, dy = y - Y, dist;
    if (asp > 1) { double c = cos(rrad(ang)), s = sin(rrad(ang)), u = dx * c + dy * s, w = (dy * c - dx * s) * asp; dist = hypot(u, w); } else dist = hypot(dx, dy);
    double n = dist / br * dens[0] + dist / R * dens[1], far = std::max(std::max(fabs(x), fabs(y)), std::max(fabs(X), fabs(Y)));
    if (n > 0 && n < .1 * (dist / br * fabs(dens[0]) + dist / R * fabs(dens[1]))) ambig("density around zero");
    n = std::min(n, hypot(dx, dy) / (far * 1.1920929e-7 + 1e-38)) + dt * dens[2];   // dabs cannot be closer than the coordinates can tell apart
    return n < 0 ? 0 : n;
  }
  // one simulation step covering `dd` of a dab
  void advance(double dd, double sx, double sy, double spp, double sdecl, double sasc, double sdt, double vz, double vr, double sdcx, double sdcy, double sbar) {
    if (sdt <= 0) { if (sdt < -1e-9) ambig("negative step time"); else if (sdt < 0) ambig("step time around zero"); sdt = 0.001; }
    X += sx; Y += sy; P += spp; decl += sdecl; asc += sasc; dcx += sdcx; dcy += sdcy; barrel += sbar; zoom = vz; rot = rwrap(rdeg(vr) + 180, 360) - 180;
    if (P < 0) P = 0;
    { double size = exp(v[S_(GRIDMAP_SCALE)]) * 256; auto g = [&](double c, double sc) { double m = rwrap(fabs(c * sc), size) / size * 256; return c < 0 ? 256 - m : m; }; gmx = g(AX, v[S_(GRIDMAP_SCALE_X)]); gmy = g(AY, v[S_(GRIDMAP_SCALE_Y)]); }
    double th = base[S_(STROKE_THRESHOLD)];
    if (!stroke_on) { if (fabs(P - th - 0.0001) < 1e-6) ambig("stroke threshold"); if (P > th + 0.0001) { stroke_on = true; stroke = 0; } }
    else { if (fabs(P - 0.9 * th - 0.0001) < 1e-6) ambig("stroke threshold"); if (P <= 0.9 * th + 0.0001) stroke_on = false; }
    double br = bradius(), ux = sx / sdt * zoom, uy = sy / sdt * zoom, speed = hypot(ux, uy);
    in[I_(PRESSURE)] = P * exp(base[S_(PRESSURE_GAIN_LOG)]);
    for (int k = 0; k < 2; k++) { double ga = exp(base[k ? S_(SPEED2_GAMMA) : S_(SPEED1_GAMMA)]), m = 0.015 * (45 + ga); in[k ? I_(SPEED2) : I_(SPEED1)] = 0.5 + m * log((ga + sp[k]) / (45 + ga)); }
    in[I_(RANDOM)] = random; in[I_(STROKE)] = std::min(stroke, 1.);
    in[I_(DIRECTION)] = rwrap(rdeg(atan2(ddy, ddx)) + rot + 180, 180);
    double dir = rdeg(atan2(ady, adx)); in[I_(DIRECTION_ANGLE)] = rwrap(dir + rot, 360);
    in[I_(TILT_DECLINATION)] = decl; in[I_(TILT_ASCENSION)] = rwrap(asc + rot + 180, 360) - 180; in[I_(VIEWZOOM)] = log(zoom);
    in[I_(ATTACK_ANGLE)] = angdiff(asc, dir + 90); in[I_(BRUSH_RADIUS)] = base[S_(RADIUS_LOGARITHMIC)]; in[I_(GRIDMAP_X)] = gmx; in[I_(GRIDMAP_Y)] = gmy;
    in[I_(TILT_DECLINATIONX)] = dcx; in[I_(TILT_DECLINATIONY)] = dcy; in[I_(CUSTOM)] = custom; in[I_(BARREL_ROTATION)] = rwrap(barrel + 180, 360) - 180;
    for (int s = 0; s < NS; s++) v[s] = eval(s);
    dens[0] = v[S_(DABS_PER_BASIC_RADIUS)]; dens[1] = v[S_(DABS_PER_ACTUAL_RADIUS)]; dens[2] = v[S_(DABS_PER_SECOND)];
    double f = 1 - decay(v[S_(SLOW_TRACKING_PER_DAB)], dd); AX += (X - AX) * f; AY += (Y - AY) * f;
    sp[0] += (speed - sp[0]) * (1 - decay(v[S_(SPEED1_SLOWNESS)], sdt)); sp[1] += (speed - sp[1]) * (1 - decay(v[S_(SPEED2_SLOWNESS)], sdt));
    f = 1 - decay(std::max(0.002, exp(v[S_(OFFSET_BY_SPEED_SLOWNESS)] * 0.01) - 1), sdt); vx += (ux - vx) * f; vy += (uy - vy) * f;
    double zx = sx * zoom, zy = sy * zoom; f = 1 - decay(exp(v[S_(DIRECTION_FILTER)] * 0.5) - 1, hypot(zx, zy)); adx += (zx - adx) * f; ady += (zy - ady) * f;
    double dot = ddx * zx + ddy * zy; if (fabs(dot) < 1e-5 && dot != 0) ambig("turn of 90 degrees");
    if (dot < 0) { zx = -zx; zy = -zy; } ddx += (zx - ddx) * f; ddy += (zy - ddy) * f;
    custom += (v[S_(CUSTOM_INPUT)] - custom) * (1 - decay(v[S_(CUSTOM_INPUT_SLOWNESS)], 0.1));
    double st = std::max(0., stroke + hypot(sx, sy) / br * exp(-v[S_(STROKE_DURATION_LOGARITHMIC)])), wr = 1 + std::max(0., v[S_(STROKE_HOLDTIME)]);
    if (double k = std::max(1., rint(st / wr)); fabs(st - k * wr) < 5e-4 * k && (sx != 0 || sy != 0)) ambig("stroke wrap");
    stroke = st >= wr ? (wr > 10.9 ? 1 : fmod(st, wr)) : st;
    R = rclamp(exp(v[S_(RADIUS_LOGARITHMIC)]), 0.2, 1000); asp = v[S_(ELLIPTICAL_DAB_RATIO)]; ang = rwrap(v[S_(ELLIPTICAL_DAB_ANGLE)] - rot + 180, 180) - 180;
  }
  void offsets(double &ox, double &oy) {
    double adj = v[S_(OFFSET_ANGLE_ADJ)], dir = rdeg(atan2(ady, adx)) - 90; ox = v[S_(OFFSET_X)]; oy = v[S_(OFFSET_Y)];
    auto add = [&](double deg, double len) { ox += cos(rrad(deg)) * len; oy += sin(rrad(deg)) * len; };
    add(dir + adj, v[S_(OFFSET_ANGLE)]); add(asc - rot + adj, v[S_(OFFSET_ANGLE_ASC)]); add(-(rot + adj), v[S_(OFFSET_ANGLE_VIEW)]);
    add(dir + adj * flip, flip * std::max(0., v[S_(OFFSET_ANGLE_2)])); add(asc - rot + adj * flip, flip * std::max(0., v[S_(OFFSET_ANGLE_2_ASC)])); add(-(rot + adj), flip * std::max(0., v[S_(OFFSET_ANGLE_2_VIEW)]));
    double m = bradius() * exp(v[S_(OFFSET_MULTIPLIER)]); ox = rclamp(ox * m, -3240, 3240); oy = rclamp(oy * m, -3240, 3240);
  }
  void mix(const double *a, const double *b, double fac, double pm, double *o) {   // colours straight, weights by coverage in pigment mode
    double fa = a[3] == 0 ? 0 : fac * a[3] / (a[3] + b[3] * (1 - fac)), p[3] = {0, 0, 0}; if (pm > 0) wgm(a, b, fa, p);
    double al = rclamp(fac * a[3] + (1 - fac) * b[3], 0, 1), q[4]; for (int i = 0; i < 3; i++) q[i] = pm >= 1 ? p[i] : p[i] * pm + (1 - pm) * (a[i] * fac + b[i] * (1 - fac)); q[3] = al; memcpy(o, q, sizeof q);
  }
  // returns false when the dab is suppressed
  bool dab(bool linear, RDab &d, double rand_radius) {
    double op = rclamp(std::max(0., v[S_(OPAQUE)]) * v[S_(OPAQUE_MULTIPLY)], 0, 1), lin = base[S_(OPAQUE_LINEARIZE)];
    if (lin) { double n = std::max(1., 2 * (dens[0] + dens[1])); n = 1 + lin * (n - 1); op = 1 - pow(1 - op, 1 / n); }
    double x = AX, y = AY, ox, oy; offsets(ox, oy); x += ox; y += oy;
    x += vx * v[S_(OFFSET_BY_SPEED)] * 0.1 / zoom; y += vy * v[S_(OFFSET_BY_SPEED)] * 0.1 / zoom;
    double r = R; d.rawr = r;
    double pm = v[S_(PAINT_MODE)]; bool legacy = pm <= 0 && constant(S_(PAINT_MODE)); double spm = rclamp(pm, 0, 1), c[3]; r_hsv2rgb(base[S_(COLOR_H)], base[S_(COLOR_S)], base[S_(COLOR_V)], c);
    double *B = smudge1; if (nbuckets) { double k = v[S_(SMUDGE_BUCKET)]; if (fabs(k - floor(k) - 0.5) < 1e-4) ambig("bucket rounding"); B = bucket[(int)rclamp(floor(k + 0.5), 0, nbuckets - 1)]; }
    double len = v[S_(SMUDGE_LENGTH)];
    if (len < 1 && (v[S_(SMUDGE)] != 0 || !constant(S_(SMUDGE)))) {
      double uf = std::max(0.01, len), rec_ = B[8] * uf, lim = std::min(1., pow(0.5 * uf, v[S_(SMUDGE_LENGTH_LOG)]) + 1e-16); B[8] = rec_;
      if (rec_ != 0 && fabs(rec_ - lim) < 1e-4 * lim && !(lim == 1 && rec_ < 1)) ambig("smudge sampling interval");
      if (rec_ < lim) {
        if (rec_ == 0) uf = 0; B[8] = 1;
        double sr = rclamp(r * exp(v[S_(SMUDGE_RADIUS_LOG)]), 0.2, 1000);
        if (reads_used >= rec->reads.size()) { errs.push_back("the canvas was not sampled although a sample is due"); return false; }
        BRead &q = rec->reads[reads_used++]; char b[256];
        if (q.ndabs != ansidx) { snprintf(b, 256, "canvas sampled before dab %zu, due before dab %zu", q.ndabs, ansidx); errs.push_back(b); }
        if (fabs(q.x - x) > .55 || fabs(q.y - y) > .55) { snprintf(b, 256, "canvas sampled at (%g,%g), the dab is at (%g,%g)", q.x, q.y, x, y); errs.push_back(b); }
        if (fabs(q.r - sr) > 2e-3 * sr) { snprintf(b, 256, "canvas sampled with radius %g, should be %g", q.r, sr); errs.push_back(b); }
        if (legacy ? q.paint >= 0 : fabs(q.paint - spm) > 1e-4) { snprintf(b, 256, "canvas sampled with pigment strength %g, should be %g", q.paint, legacy ? -1 : spm); errs.push_back(b); }
        double tl = v[S_(SMUDGE_TRANSPARENCY)]; if (tl && fabs(fabs(tl) - q.c[3]) < 1e-5) ambig("smudge transparency");
        if ((tl > 0 && q.c[3] < tl) || (tl < 0 && q.c[3] > -tl)) return false;
        for (int i = 0; i < 4; i++) B[4 + i] = q.c[i];
      }
      double *s = B + 4;
      if (legacy) { for (int i = 0; i < 3; i++) B[i] = uf * B[i] + (1 - uf) * s[3] * s[i]; B[3] = rclamp(uf * B[3] + (1 - uf) * s[3], 0, 1); }
      else { if (fabs(s[3] - 0.01) < 1e-6) ambig("sample alpha"); if (s[3] > 0.01) mix(B, s, uf, spm, B); else B[3] = (B[3] + s[3]) / 2; }
    }
    double ea = 1, sm = v[S_(SMUDGE)];
    if (sm > 0) {
      sm = std::min(1., sm); ea = rclamp((1 - sm) + sm * B[3], 0, 1);
      if (ea > 0) { if (ea < 1e-5) ambig("erasing only"); if (legacy) for (int i = 0; i < 3; i++) c[i] = (sm * B[i] + (1 - sm) * c[i]) / ea; else { double bc[4] = {c[0], c[1], c[2], 1}, o[4]; mix(B, bc, sm, spm, o); for (int i = 0; i < 3; i++) c[i] = o[i]; } }
      else { c[0] = 1; c[1] = c[2] = 0; }
    }
    ea *= 1 - v[S_(ERASER)];
    bool hsv = v[S_(CHANGE_COLOR_H)] || v[S_(CHANGE_COLOR_HSV_S)] || v[S_(CHANGE_COLOR_V)], hsl = v[S_(CHANGE_COLOR_L)] || v[S_(CHANGE_COLOR_HSL_S)];
    if (linear && (hsv || hsl)) for (double &q : c) q = pow(q, 1 / 2.2);
    if (hsv) { double h, s, w; r_rgb2hsv(c, &h, &s, &w); h += v[S_(CHANGE_COLOR_H)]; s += s * w * v[S_(CHANGE_COLOR_HSV_S)]; w += v[S_(CHANGE_COLOR_V)]; r_hsv2rgb(h, s, w, c); }
    if (hsl) { double h, s, l; r_rgb2hsl(c, &h, &s, &l); l += v[S_(CHANGE_COLOR_L)]; s += s * std::min(fabs(1 - l), fabs(l)) * 2 * v[S_(CHANGE_COLOR_HSL_S)]; r_hsl2rgb(h, s, l, c); }
    if (linear && (hsv || hsl)) for (double &q : c) q = pow(q, 2.2);
    double hard = rclamp(v[S_(HARDNESS)], 0, 1), soft = rclamp(v[S_(SOFTNESS)], 0, 1), aa = v[S_(ANTI_ALIASING)];
    if (rand_radius > 0) { r = rand_radius; double k = (R / r) * (R / r); if (k <= 1) op *= k; }
    if (r * (1 - hard) < aa) { double opt = r * (1 + hard) / 2; hard = (opt - aa / 2) / (opt + aa / 2); r = aa / (1 - hard); }   // keep the optical radius, widen the fadeout
    double sn = std::min(1., v[S_(SNAP_TO_PIXEL)]);
    if (sn > 0) { if (fabs(x - floor(x + 0.5)) < 2e-3 || fabs(y - floor(y + 0.5)) < 2e-3) ambig("snapping"); x += (floor(x) + 0.5 - x) * sn; y += (floor(y) + 0.5 - y) * sn; if (fabs(2 * r - floor(2 * r) - 0.5) < 1e-3) ambig("snapped radius"); double q = std::max(0.5, floor(2 * r + 0.5) / 2); if (sn > 0.9999) q -= 0.0001; r += (q - r) * sn; }
    double o[17] = {x, y, r, c[0], c[1], c[2], op, hard, soft, ea, asp, ang, v[S_(LOCK_ALPHA)], v[S_(COLORIZE)], v[S_(POSTERIZE)], v[S_(POSTERIZE_NUM)], pm};
    memcpy(d.f, o, sizeof o); return true;
  }
  // One event; `painted(i)`: did the i-th dab issued by the real engine paint?  Appends predicted dabs.
  void event(Ev e, std::function<bool(size_t)> painted = nullptr) { rec_event(e, painted, false); }
  void rec_event(Ev e, std::function<bool(size_t)> &painted, bool bridging) {
    double xt = e.xt, yt = e.yt, x = e.x, y = e.y, p = e.p, dt = e.dt, vz = e.zoom, vr = e.rot, ba = e.barrel, ta = 0, td = 90, tx = 0, ty = 0;
    if (xt != 0 || yt != 0) { xt = std::isfinite(xt) ? rclamp(xt, -1, 1) : 0; yt = std::isfinite(yt) ? rclamp(yt, -1, 1) : 0; ta = rdeg(atan2(-xt, yt)); td = 90 - 60 * hypot(xt, yt); tx = 60 * xt; ty = 60 * yt; }
    if (!std::isfinite(p) || p < 0) p = 0; if (!std::isfinite(vz) || vz <= 0) vz = 1; if (!std::isfinite(vr)) vr = 0; if (!std::isfinite(ba)) ba = 0;
    if (!(fabs(x) < 1e8 && fabs(y) < 1e8)) { x = y = p = vr = ba = 0; vz = 1; }
    if (!(dt > 0)) dt = 0.0001;
    int split = 0;
    if (dt > 0.1 && p > 0 && P == 0 && !reset) { Ev q = e; q.x = x; q.y = y; q.p = 0; q.zoom = vz; q.rot = vr; q.barrel = ba; q.dt = dt - 0.0001; rec_event(q, painted, true); split = ret; dt = 0.0001; }
    if (!(dt > 5 || reset)) { double f = 1 - decay(base[S_(SLOW_TRACKING)], 100 * dt); x = X + (x - X) * f; y = Y + (y - Y) * f; }
    if (dt > 5 || reset) { reset = false; clear(); X = AX = x; Y = AY = y; P = p; ret = 1; return; }
    enum { UNK, YES, NO } pt = UNK; double left = dt, moved = part, todo = count(x, y, dt), dp = 0, all = todo;
    for (int guard = 0;; guard++) {
      { double ulp = std::max(std::max(fabs(x), fabs(y)), 1.) * 1.2e-7, len = hypot(x - X, y - Y); if (len > 0) derr += ulp * todo / len; derr += 2e-7; }
      if (fabs(moved + todo - 1) < 1e-4 * (1 + todo) + derr) ambig("number of dabs");
      if (moved + todo < 1) break;
      if (guard > 100000) { ambig("too many dabs"); break; }
      if (derr > 2e-3 * all) ambig("rounding of the carried fraction matters");
      double dd = moved > 0 ? 1 - moved : 1, fr = dd / todo; moved = 0;
      double st = fr * left; dp = fr * (p - P);
      advance(dd, fr * (x - X), fr * (y - Y), dp, fr * (td - decl), fr * turn(asc, ta), st, vz, vr, fr * (tx - dcx), fr * (ty - dcy), fr * turn(barrel, ba * 360));
      flip = -flip; RDab d; double rr = 0;
      if (v[S_(RADIUS_BY_RANDOM)] != 0 && base[S_(ANTI_ALIASING)] == 0 && ansidx < rec->dabs.size()) rr = rec->dabs[ansidx].r;
      if (dab(e.linear, d, rr)) { dabs.push_back(d); bool did = painted ? painted(ansidx) : true; ansidx++; if (did) pt = YES; else if (pt == UNK) pt = NO; } else if (pt == UNK) pt = NO;
      left -= st; todo = count(x, y, left);
    }
    dp = p - P; advance(todo, x - X, y - Y, dp, td - decl, turn(asc, ta), left, vz, vr, tx - dcx, ty - dcy, turn(barrel, ba * 360));
    part = moved + todo;
    // splitting
    ret = 0;
    if (pt == UNK) pt = idle > 0 || total == 0 ? NO : YES;
    if (pt == YES) { total += dt; idle = 0; if (total > 4 + 3 * p) { if (fabs(dp) < 1e-7 && dp != 0) ambig("pressure trend"); if (dp >= 0) ret = 1; } if (fabs(total - 4 - 3 * p) < 1e-5) ambig("split time"); }
    else { idle += dt; if (total == 0) { ret = idle > 1; if (fabs(idle - 1) < 1e-5) ambig("split time"); } else { ret = total + idle > 0.9 + 5 * p; if (fabs(total + idle - 0.9 - 5 * p) < 1e-5) ambig("split time"); } }
    ret |= split;
  }
};
struct Tol { double pos = 3e-3, rel = 2e-3, col = 3e-3, ang = 0.05; };
static inline void compare_dabs(RefBrush &r, Rec &rec, size_t from, const Tol &t, const char *when, int posmode = 0, double jitter = 0) {
  if (r.amb) { mc::logf("not decided: %s", r.ambwhy.c_str()); mc::discard(); }
  for (auto &e : r.errs) mc::fail("%s: %s", when, e.c_str());
  if (r.dabs.size() != rec.dabs.size()) mc::fail("%s: %zu dabs in total, expected %zu", when, rec.dabs.size(), r.dabs.size());
  if (r.reads_used != rec.reads.size()) mc::fail("%s: the canvas was sampled %zu times, expected %zu", when, rec.reads.size(), r.reads_used);
  for (size_t i = from; i < r.dabs.size(); i++) {
    const RDab &d = r.dabs[i]; const float *g = &rec.dabs[i].x;
    for (int k = 0; k < 17; k++) {
      double a = g[k], b = d.f[k], tol; if (k == 10) { if (std::isfinite(a)) a = std::max(1., a); b = std::max(1., b); }   // a ratio below one means round
      switch (k) { case 0: case 1: tol = t.pos + 1e-6 * fabs(b) + jitter; break; case 2: tol = t.rel * fabs(b) + 1e-4; break; case 3: case 4: case 5: tol = t.col; break; case 11: tol = t.ang; break; case 10: tol = t.rel * fabs(b); break; default: tol = t.rel + 1e-3 * fabs(b); }
      double diff = fabs(a - b); if (k == 11) { diff = rwrap(a - b, 180); diff = std::min(diff, 180 - diff); if (d.f[10] <= 1.0001) continue; }
      if (k >= 3 && k <= 5 && d.f[6] <= 0) continue;   // the colour of an invisible dab does not matter
      if (!(diff <= tol)) mc::fail("%s: dab %zu has %s=%.7g, expected %.7g (dab at %g,%g, expected %g,%g)", when, i, DABF[k], a, b, g[0], g[1], d.f[0], d.f[1]);
      mc::g().cur->checks++;
    }
  }
}
