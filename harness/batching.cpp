// S01: the canvas depends only on the sequence of dabs, not on how they were batched, flushed or interleaved with reads.
#include "surf.hpp"

static Px bg(int x, int y) {   // a non-trivial, valid (c <= a <= 2^15) canvas
  unsigned h = (unsigned)((x * 73856093) ^ (y * 19349663));
  uint16_t a = (uint16_t)(((h >> 3) % 5) * (FIX1 / 4));
  return Px{{(uint16_t)(a * ((h >> 6) % 5) / 4), (uint16_t)(a * ((h >> 9) % 5) / 4), (uint16_t)(a * ((h >> 12) % 5) / 4), a}};
}

static std::vector<Dab> alphabet(bool far_) {
  std::vector<Dab> v; Dab d;
  d = mkdab(60, 5, 6); v.push_back(d);                                                                  // straddles x tile border
  d = mkdab(62.5f, 3.25f, 7.5f); d.cr = 0.1f; d.cb = 0.9f; d.opaque = 0.5f; v.push_back(d);
  d = mkdab(63, 1, 9); d.alpha = 0; d.opaque = 0.7f; v.push_back(d);                                    // eraser, straddles 4 tiles
  d = mkdab(58, -2, 5); d.lock = 1; d.cg = 0.9f; v.push_back(d);                                        // alpha locked
  d = mkdab(66, 2, 8); d.colorize = 1; d.cb = 0.6f; v.push_back(d);
  d = mkdab(61, 0, 7); d.posterize = 0.8f; v.push_back(d);
  d = mkdab(64, 4, 6); d.paint = 1; d.cg = 0.7f; d.opaque = 0.6f; v.push_back(d);                       // pigment
  d = mkdab(61, 2, 5); d.opaque = 0; v.push_back(d);                                                    // no-op
  d = mkdab(59, 4, 2.2f); d.aspect = 3; d.angle = 40; d.alpha = 0.4f; v.push_back(d);
  if (far_) {
    d = mkdab(-700, 6, 5); v.push_back(d);      // beyond the initial tile map: growth
    d = mkdab(660, -650, 5); v.push_back(d);
    d = mkdab(30, 1290, 5); v.push_back(d);     // second growth
    d = mkdab(-2600, -20, 5); v.push_back(d);   // third growth
  }
  return v;
}
enum { SEP_NONE, SEP_FLUSH, SEP_READ, SEP_READ_LEGACY, SEP_END_ONLY, NSEP };

static void seq(int depth, bool far_, int nsep) {
  TSurf a, b;
  a.init = b.init = bg;
  std::vector<Dab> al = alphabet(far_);
  if (!mc::thorough() && !far_) al.resize(9);
  std::vector<int> di, si;
  for (int i = 0; i < depth; i++) { di.push_back(mc::choose((int)al.size())); if (i + 1 < depth) si.push_back(mc::choose(nsep)); }
  a.begin(); b.begin();
  std::vector<float> ca, cb;
  for (int i = 0; i < depth; i++) {
    Dab d = al[di[i]]; d.cr = 0.15f + 0.2f * i;   // every dab of the sequence is distinguishable
    logdab("dab", d);
    int ra = draw(a, d), rb = draw(b, d);
    MC_CHECK(!!ra == !!rb, "draw_dab reports %d when batched but %d when flushed after every dab", ra, rb);
    b.end(); b.begin();
    if (i + 1 < depth) {
      int s = si[i];
      mc::step();
      if (s == SEP_FLUSH) { mc::logf("end;begin"); a.end(); a.begin(); }
      else if (s == SEP_END_ONLY) { mc::logf("end"); a.end(); }
      else if (s == SEP_READ || s == SEP_READ_LEGACY) {
        float r, g, bl, al_, r2, g2, b2, a2; float p = s == SEP_READ ? 1.0f : -1.0f;
        mc::logf("get_color(62,3,r=4,paint=%g)", p);
        mypaint_surface_get_color(a.iface(), 62, 3, 4, &r, &g, &bl, &al_, p);
        mypaint_surface_get_color(b.iface(), 62, 3, 4, &r2, &g2, &b2, &a2, p);
        MC_CHECK(r == r2 && g == g2 && bl == b2 && al_ == a2, "colour read with pending dabs gives %g,%g,%g,%g, with everything rendered %g,%g,%g,%g", r, g, bl, al_, r2, g2, b2, a2);
        mc::observe_f(r + 2 * g + 3 * bl + 4 * al_);
      }
    }
  }
  a.end(); b.end();
  compare_surfaces(a, b, "batched rendering differs from rendering each dab at once");
  a.check_protocol(); b.check_protocol();
  mc::observe(a.hash());
}

// Whole initial tile map dirty, then one tile flushed by a read and dirtied again.
static void full_map() {
  TSurf a, b;
  int k = mc::choose(3), again = mc::choose(2), nread = mc::choose(3);
  Dab big = mkdab(k == 0 ? 0.f : k == 1 ? -0.5f : 0.3f, 0, k == 1 ? 630.f : 638.f); big.hardness = 0.9f;
  logdab("big", big);
  a.begin(); b.begin();
  draw(a, big); draw(b, big); b.end(); b.begin();
  float r, g, bl, al;
  for (int i = 0; i < nread; i++) mypaint_surface_get_color(a.iface(), 32 + 64 * i, 32, 3, &r, &g, &bl, &al, -1);
  Dab d2 = again ? big : mkdab(32, 32, 20); d2.cr = 0.2f;
  draw(a, d2); draw(b, d2); b.end();
  logdab("then", d2);
  a.end();
  compare_surfaces(a, b, "batched rendering differs (all tiles of the map dirty)");
  a.check_protocol();
  mc::observe(a.hash());
}
// Many operations on few tiles: queue lengths and long alternations of pushes and flushes.
static void longrun() {
  TSurf a, b; a.init = b.init = bg;
  int n = mc::choose(3) * 20 + 5, period = 1 + mc::choose(7), kind = mc::choose(3);
  mc::logf("n=%d flush/read every %d kind=%d", n, period, kind);
  a.begin(); b.begin();
  for (int i = 0; i < n; i++) {
    Dab d = mkdab(10 + (i * 37) % 140, 10 + (i * 53) % 140, 4 + i % 9); d.cr = (i % 7) / 7.f; d.opaque = 0.3f + (i % 5) * 0.1f; if (i % 6 == 5) d.alpha = 0; if (i % 8 == 7) d.lock = 1;
    draw(a, d); draw(b, d); b.end(); b.begin();
    if (i % period == period - 1) {
      if (kind == 0) { a.end(); a.begin(); }
      else if (kind == 1) { float r, g, bl, al; mypaint_surface_get_color(a.iface(), 20 + i % 90, 30, 5, &r, &g, &bl, &al, 0); }
      else a.end();
    }
  }
  a.end(); b.end();
  compare_surfaces(a, b, "batched rendering differs (long sequence)");
  mc::observe(a.hash());
}
// Tiles that a read empties and a dab dirties again, over and over, until there are more notes of dirty tiles than tiles;
// then dabs on tiles not touched before (the map may have grown in between).
static void redirty() {
  static const int FILL[] = {0, 1, 200, 397, 399}, AGAIN[] = {1, 3, 199, 200, 201, 202, 398, 399, 400, 401, 402, 403, 798, 801, 1199, 1203};
  int fill = FILL[mc::choose(5)], again = AGAIN[mc::choose(16)], on = mc::choose(3), grow = mc::choose(3), lone = mc::choose(2);
  mc::logf("%d tiles dirty, then %d times a read and a dab on %s, %s, then dabs on %s tiles not touched before", fill, again,
           on == 0 ? "one tile" : on == 1 ? "three tiles in turn" : "every tile in turn", grow == 0 ? "no growth" : grow == 1 ? "the map grows before" : "the map grows after", lone ? "1" : "5");
  TSurf a, b; a.init = b.init = bg;
  a.begin(); b.begin();
  auto both = [&](int t, int k) {   // a dab in the middle of the t-th tile of the initial map (20 x 20 tiles from -10,-10)
    int tx = t % 20 - 10, ty = t / 20 - 10;
    Dab d = mkdab(tx * 64 + 32 + k % 5, ty * 64 + 32 - k % 3, 2.5f); d.cr = (k % 7) / 7.f; d.opaque = 0.4f; if (k % 6 == 5) d.alpha = 0;
    draw(a, d); draw(b, d);
  };
  for (int i = 0; i < fill; i++) both(i, i);
  Dab far_ = mkdab(700, 30, 4);
  if (grow == 1) { draw(a, far_); draw(b, far_); }
  int m = on == 0 ? 1 : on == 1 ? 3 : std::max(1, fill);
  for (int i = 0; i < again; i++) {
    int t = i % m;
    float r, g, bl, al; mypaint_surface_get_color(a.iface(), (t % 20 - 10) * 64 + 32, (t / 20 - 10) * 64 + 32, 3, &r, &g, &bl, &al, 0);
    both(t, i + 3);
    if (i % 50 == 49) { b.end(); b.begin(); }
  }
  if (grow == 2) { draw(a, far_); draw(b, far_); }
  for (int i = 0; i < (lone ? 1 : 5); i++) { both(fill + i < 400 ? fill + i : 0, i + 1); b.end(); b.begin(); }
  a.end(); b.end();
  compare_surfaces(a, b, "batched rendering differs (tiles read and dirtied again and again)");
  a.check_protocol();
  mc::observe(a.hash());
}
// Very many operations pending on the same tiles when the section ends (fast scribbles; symmetry multiplies dabs).
static void burst() {
  static const int N[] = {60, 130, 260, 300, 520, 1030, 2100, 4200, 9000, 33000, 66000};
  int n = N[mc::choose(mc::thorough() ? 11 : 9)], where = mc::choose(4), read = mc::choose(2);
  mc::logf("%d dabs pending at once, placement %d, drained by %s", n, where, read ? "get_color then end_atomic" : "end_atomic");
  TSurf a, b; a.init = b.init = bg;
  a.begin(); b.begin();
  for (int i = 0; i < n; i++) {
    float x = 0, y = 0;
    if (where == 0) x = 20 + (i * 7) % 23, y = 20 + (i * 11) % 19;               // inside one tile
    else if (where == 1) x = 60 + (i * 5) % 9, y = 60 + (i * 3) % 9;             // over the corner of four
    else if (where == 2) x = (i % 3) * 640 + 20 + i % 5, y = (i % 2) * 128 + 30; // six tiles in turn
    else x = 30 + (i % 40) * 64, y = 30;                                         // many tiles in a row, map growing
    Dab d = mkdab(x, y, 1.5f + (i % 4)); d.cr = (i % 7) / 7.f; d.cg = (i % 11) / 11.f; d.opaque = 0.2f + (i % 5) * 0.1f; if (i % 6 == 5) d.alpha = 0;
    draw(a, d); draw(b, d); b.end(); b.begin();
  }
  if (read) { float r, g, bl, al; mypaint_surface_get_color(a.iface(), 62, 62, 30, &r, &g, &bl, &al, 0); }
  a.end();
  compare_surfaces(a, b, "batched rendering differs (burst)");
  mc::observe(a.hash());
}
// Growth of the tile map in every direction while operations are pending in every tile around the origin.
static void growth() {
  TSurf a, b;
  static const int P[] = {-2570, -1290, -641, -5, 5, 633, 645, 1281, 2570};
  int x = mc::choose(9), y = mc::choose(9), pre = mc::choose(4), post = mc::choose(2);
  a.begin(); b.begin();
  auto both = [&](Dab d) { logdab("dab", d); draw(a, d); draw(b, d); b.end(); b.begin(); };
  static const float C[4][2] = {{0, 0}, {-635, -635}, {632, -600}, {-300, 632}};
  both(mkdab(C[pre][0], C[pre][1], 5));
  both(mkdab(0, 0, 3));
  Dab f = mkdab(P[x], P[y], 5); f.cr = 0.3f; both(f);
  Dab g = mkdab(C[pre][0] + 2, C[pre][1], 5); g.cr = 0.1f; g.opaque = 0.5f; both(g);
  if (post) { Dab h = mkdab(P[y], P[x], 4); both(h); }
  a.end(); b.end();
  compare_surfaces(a, b, "batched rendering differs (tile map growth)");
  mc::observe(a.hash());
}
// Tiles far away (tile numbers beyond one byte, pixel numbers beyond two) and more pending tiles than the initial map has.
static void afar() {
  static const float P[] = {20, -20, 12900, -12900, 16500, -16500, 33000, -33000};
  static const float R[] = {0, 700, 1100};
  TSurf a, b;
  int x = mc::choose(8), y = mc::choose(8), w = mc::choose(3), same = mc::choose(2);
  a.begin(); b.begin();
  auto both = [&](Dab d) { logdab("dab", d); draw(a, d); draw(b, d); b.end(); b.begin(); };
  Dab first = mkdab(3, 5, R[w]); first.hardness = 1; first.opaque = 0.5f;
  if (w) both(first);
  Dab f = mkdab(P[x], P[y], 6); f.cr = 0.3f; f.hardness = 1; both(f);
  if (same) { Dab g = mkdab(P[x] + 4, P[y], 5); g.cr = 0.9f; g.hardness = 1; g.opaque = 0.7f; both(g); }
  else { Dab g = mkdab(P[y], P[x], 5); g.cr = 0.9f; g.hardness = 1; both(g); }
  a.end(); b.end();
  compare_surfaces(a, b, "batched rendering differs (far away)");
  Px p = a.px((int)P[x] - 1, (int)P[y] - 1);
  MC_CHECK(p.c[3] == FIX1, "an opaque dab at (%g,%g) leaves alpha %u in its middle", P[x], P[y], p.c[3]);
  if (w) { p = a.px(3 + (int)R[w] - 40, 5); MC_CHECK(p.c[3] != 0, "a dab with radius %g is not painted at its right side", R[w]); p = a.px(3, 5 + (int)R[w] - 40); MC_CHECK(p.c[3] != 0, "a dab with radius %g is not painted at its lower side", R[w]); }
  a.check_protocol();
  mc::observe(a.hash());
}
int main(int argc, char **argv) {
  return mc::main(argc, argv, [] {
    mc::add("pairs", 0, 2, "every sequence of 2 dabs from 13 (all blend modes, no-op, tile-straddling, far tiles) x 5 separators", [] { seq(2, true, NSEP); });
    mc::add("triples", 0, 2, "every sequence of 3 dabs from 9 kinds, each gap none/flush/read(2 modes)/end-only", [] { seq(3, false, mc::thorough() ? (int)NSEP : 4); });
    mc::add("growth", 0, 2, "tile map growth in 81 directions with 4 pending configurations", growth);
    mc::add("full-map", 0, 2, "all 400 initial tiles dirty, 0..2 flushed by reads, dirtied again", full_map);
    mc::add("redirty", 0, 2, "0..399 tiles dirty, 1..1203 times a read and a dab on 1, 3 or all of them, map growing or not, then dabs on new tiles", redirty);
    mc::add("burst", 0, 2, "60..9000 (thorough: 66000) dabs pending at once on 1, 4, 6 or 40 tiles", burst);
    mc::add("afar", 0, 2, "2 dabs at 64 places up to 33000 pixels away, with 0, 484 or more tiles already pending", afar);
    mc::add("long", 0, 2, "5..45 dabs, flush / read / end every 1..7", longrun);
    if (mc::thorough()) mc::add("quads", 0, 2, "every sequence of 4 dabs from 13, gaps none/flush/read", [] { seq(4, true, 3); });
  });
}
