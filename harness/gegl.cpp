// S13: the GEGL surface against the reference tile backend.
#include "surf.hpp"
#ifdef MC_SCHED
#include "sched.hpp"
#endif
#include <gegl.h>
extern "C" {
#include "mypaint-gegl-surface.h"
#include "glib/mypaint-gegl-glib.h"
}
static const Babl *F15() { static const Babl *f; if (!f) { gegl_init(0, 0); f = babl_format_new(babl_model("R'aG'aB'aA"), babl_type("u15"), babl_component("R'a"), babl_component("G'a"), babl_component("B'a"), babl_component("A"), NULL); } return f; }
static const int TS = 64;
// ---------------------------------------------------------------- buffers an application may install
enum { FRESH, NATIVE, NATIVE_ODD, NATIVE_EMPTY, BIGTILES, FLOAT, SHIFTED, U8, DUP, SUB, LINEAR, WIDE, TALL, SHIFT_X, SHIFT_Y, FLAT, SLIM, NKIND };
static const char *const KN[] = {"the initial buffer", "native buffer", "native buffer, unaligned extent", "native buffer, empty", "native format, 128 pixel tiles", "float buffer", "shifted native buffer", "8 bit buffer", "copy sharing tiles", "sub-buffer", "linear buffer", "native format, tiles of 128 x 32 pixels", "native format, tiles of 32 x 128 pixels", "native buffer, shifted to the side", "native buffer, shifted down", "native format, tiles of 64 x 32 pixels", "native format, tiles of 32 x 64 pixels"};
static bool lossy(int k) { return k == U8 || k == FLOAT; }
static int tol(int k) { return k == U8 ? 220 : k == FLOAT ? 6 : 0; }
static GeglBuffer *native(int x, int y, int w, int h, int sx = 0, int sy = 0, int tw = TS, int th = TS) { return (GeglBuffer *)g_object_new(GEGL_TYPE_BUFFER, "x", x, "y", y, "width", w, "height", h, "shift-x", sx, "shift-y", sy, "format", F15(), "tile-width", tw, "tile-height", th, NULL); }
static void fill(GeglBuffer *b, int X, int Y, int W, int H, int salt) {
  std::vector<uint16_t> p((size_t)W * H * 4);
  for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { int k = ((x + X) * 7 + (y + Y) * 13 + salt) & 31; uint16_t a = k < 4 ? 0 : k < 20 ? 32768 : 1000 * k; uint16_t *q = &p[((size_t)y * W + x) * 4]; q[0] = a / 2; q[1] = a - a / 3; q[2] = (uint16_t)(a / 32 * (k & 31)); q[3] = a; }
  GeglRectangle r = {X, Y, W, H}; gegl_buffer_set(b, &r, 0, F15(), p.data(), GEGL_AUTO_ROWSTRIDE);
}
struct Buf {   // a buffer, what it must contain, and what must stay as it is
  int kind = 0; GeglBuffer *b = nullptr; gpointer weak = nullptr; GeglBuffer *parent = nullptr; uint64_t parent_sum = 0; TSurf *ref = nullptr; bool ours = false, gone = false;
};
static std::vector<std::pair<int, int>> area() { std::vector<std::pair<int, int>> v; for (int y = -2; y <= 3; y++) for (int x = -2; x <= 4; x++) v.push_back({x, y}); v.push_back({10, 7}); v.push_back({11, 7}); v.push_back({10, 8}); return v; }
static void get(GeglBuffer *b, int tx, int ty, uint16_t *p) { GeglRectangle r = {tx * TS, ty * TS, TS, TS}; gegl_buffer_get(b, &r, 1, F15(), p, GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE); }
static void load(Buf &u) { for (auto &k : area()) get(u.b, k.first, k.second, u.ref->tile(k.first, k.second)); }
static uint64_t sum(GeglBuffer *b) {   // the stored pixels in the buffer's own format
  const Babl *f = gegl_buffer_get_format(b); int n = babl_format_get_bytes_per_pixel(f); std::vector<char> p((size_t)448 * 384 * n); GeglRectangle r = {-128, -128, 448, 384}; gegl_buffer_get(b, &r, 1, f, p.data(), GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE); return mc::hbytes(p.data(), p.size());
}
static void make(Buf &u, int kind, int salt) {
  u.kind = kind; u.ours = true;
  switch (kind) {
    case NATIVE: u.b = native(0, 0, 200, 150); fill(u.b, 20, 20, 170, 110, salt); break;
    case NATIVE_ODD: u.b = native(-10, 7, 200, 150); fill(u.b, -10, 7, 200, 150, salt); break;
    case NATIVE_EMPTY: u.b = native(0, 0, 0, 0); break;
    case BIGTILES: u.b = gegl_buffer_new(GEGL_RECTANGLE(0, 0, 200, 150), F15()); fill(u.b, 20, 20, 170, 110, salt); break;
    case FLOAT: u.b = gegl_buffer_new(GEGL_RECTANGLE(0, 0, 200, 150), babl_format("R'aG'aB'aA float")); fill(u.b, 20, 20, 170, 110, salt); { std::vector<float> f(40 * 40 * 4); for (int i = 0; i < 1600; i++) { float a = 1 - i % 7 / 9.f; f[i * 4] = a / 3; f[i * 4 + 1] = a / 7; f[i * 4 + 2] = a * .77f; f[i * 4 + 3] = a; } gegl_buffer_set(u.b, GEGL_RECTANGLE(40, 40, 40, 40), 0, babl_format("R'aG'aB'aA float"), f.data(), GEGL_AUTO_ROWSTRIDE); } break;
    case U8: u.b = gegl_buffer_new(GEGL_RECTANGLE(0, 0, 200, 150), babl_format("R'G'B'A u8")); fill(u.b, 20, 20, 170, 110, salt); break;
    case SHIFTED: u.b = native(0, 0, 200, 150, 10, 5); fill(u.b, 20, 20, 170, 110, salt); break;
    case DUP: u.parent = native(0, 0, 200, 150); fill(u.parent, 20, 20, 170, 110, salt); u.b = gegl_buffer_dup(u.parent); u.parent_sum = sum(u.parent); break;
    case SUB: u.parent = native(0, 0, 256, 192); fill(u.parent, 0, 0, 256, 192, salt); u.b = gegl_buffer_create_sub_buffer(u.parent, GEGL_RECTANGLE(10, 10, 190, 130)); break;
    case WIDE: u.b = native(0, 0, 200, 150, 0, 0, 128, 32); fill(u.b, 20, 20, 170, 110, salt); break;
    case TALL: u.b = native(0, 0, 200, 150, 0, 0, 32, 128); fill(u.b, 20, 20, 170, 110, salt); break;
    case SHIFT_X: u.b = native(0, 0, 200, 150, 10, 0); fill(u.b, 20, 20, 170, 110, salt); break;
    case SHIFT_Y: u.b = native(0, 0, 200, 150, 64, -5); fill(u.b, 20, 20, 170, 110, salt); break;
    case FLAT: u.b = native(0, 0, 200, 150, 0, 0, 64, 32); fill(u.b, 20, 20, 170, 110, salt); break;
    case SLIM: u.b = native(0, 0, 200, 150, 0, 0, 32, 64); fill(u.b, 20, 20, 170, 110, salt); break;
    case LINEAR: u.b = gegl_buffer_linear_new(GEGL_RECTANGLE(0, 0, 200, 150), F15()); fill(u.b, 20, 20, 170, 110, salt); break;
  }
}
static bool inside(int x, int y) { return x >= 10 && x < 200 && y >= 10 && y < 140; }   // painting outside a sub-buffer makes more of its parent visible
struct World {
  MyPaintGeglTiledSurface *t; MyPaintSurface *s; std::vector<Buf *> bufs; Buf *cur = nullptr;
  World() { F15(); t = mypaint_gegl_tiled_surface_new(); s = mypaint_gegl_tiled_surface_interface(t); adopt(); }
  void watch(Buf *u) { u->weak = u->b; g_object_add_weak_pointer(G_OBJECT(u->b), &u->weak); u->ref = new TSurf; load(*u); bufs.push_back(u); }
  void adopt() { Buf *u = new Buf; u->kind = FRESH; u->b = mypaint_gegl_tiled_surface_get_buffer(t); if (!u->b || !GEGL_IS_BUFFER(u->b)) mc::fail("the surface has no buffer"); watch(u); cur = u; }
  void drop(Buf *u) { if (u->ours) { u->ours = false; if (u->weak) g_object_unref(u->b); else mc::fail("a buffer the application still refers to was released"); } }
  void replace(GeglBuffer *b, Buf *next) {
    Buf *old = cur; mypaint_gegl_tiled_surface_set_buffer(t, b); mc::step();
    if (b) cur = next; else adopt();
    if (old != cur && !old->ours && old->weak) mc::fail("the replaced buffer (%s) is still referred to although nobody needs it", KN[old->kind]);
    if (old != cur && old->ours && !old->weak) mc::fail("the replaced buffer (%s) is gone although the application refers to it", KN[old->kind]);
    MC_CHECK(mypaint_gegl_tiled_surface_get_buffer(t) == cur->b, "get_buffer returns another buffer");
  }
  ~World() { for (Buf *u : bufs) { if (u->weak) g_object_remove_weak_pointer(G_OBJECT(u->b), &u->weak); delete u->ref; if (u->parent) g_object_unref(u->parent); delete u; } }
  void compare(Buf &u, const char *what) {
    if (!u.weak) return; static uint16_t p[64 * 64 * 4]; int d = tol(u.kind); std::vector<std::pair<int, int>> ks = area(); for (auto &k : u.ref->tiles) if (std::find(ks.begin(), ks.end(), k.first) == ks.end()) ks.push_back(k.first);
    for (auto &k : ks) {
      get(u.b, k.first, k.second, p); uint16_t *q = u.ref->tile(k.first, k.second); if (!memcmp(p, q, sizeof p)) { mc::g().cur->checks++; mc::observe(mc::hbytes(p, sizeof p)); continue; }
      for (int i = 0; i < TS * TS * 4; i++) if (u.kind == SUB && !inside(k.first * TS + i / 4 % TS, k.second * TS + i / 4 / TS)) { i |= 3; continue; } else if (abs((int)p[i] - q[i]) > d) { int o = i & ~3; mc::fail("%s: pixel (%d,%d) of the %s is %u,%u,%u,%u, an in-memory surface has %u,%u,%u,%u", what, k.first * TS + i / 4 % TS, k.second * TS + i / 4 / TS, KN[u.kind], p[o], p[o + 1], p[o + 2], p[o + 3], q[o], q[o + 1], q[o + 2], q[o + 3]); }
      if (d) memcpy(q, p, sizeof p); mc::observe(mc::hbytes(p, sizeof p));
    }
    if (u.kind == DUP) MC_CHECK(sum(u.parent) == u.parent_sum, "painting changed the buffer that the installed one was copied from");
  }
  void both(const std::function<void(MyPaintSurface *)> &f) { f(s); f(cur->ref->iface()); }
  void section(const std::vector<Dab> &ds, int readat) {
    MyPaintSurface *r = cur->ref->iface(); mypaint_surface_begin_atomic(s); mypaint_surface_begin_atomic(r);
    for (auto &d : ds) { int a = draw(s, d), b = draw(r, d); MC_CHECK(!a == !b, "draw_dab answers %d, on an in-memory surface %d", a, b); }
    if (readat) read(64, 64, 12);
    MyPaintRectangle ra[8], rb[8]; MyPaintRectangles A = {8, ra}, B = {8, rb}; mypaint_surface_end_atomic(s, &A); mypaint_surface_end_atomic(r, &B); mc::step();
    MC_CHECK(A.num_rectangles == B.num_rectangles && !memcmp(ra, rb, sizeof(MyPaintRectangle) * A.num_rectangles), "the reported rectangles differ from those of an in-memory surface");
  }
  void read(float x, float y, float rad) {
    for (float paint : {-1.f, 1.f}) {
      float a[4], b[4]; mypaint_surface_get_color(s, x, y, rad, a, a + 1, a + 2, a + 3, paint); mypaint_surface_get_color(cur->ref->iface(), x, y, rad, b, b + 1, b + 2, b + 3, paint); mc::step();
      float e = lossy(cur->kind) ? (cur->kind == U8 ? .03f : .005f) : 1e-4f; for (int i = 0; i < 4; i++) MC_CHECK(fabs(a[i] - b[i]) <= e, "component %d of the colour read at (%g,%g) is %g, an in-memory surface says %g", i, x, y, a[i], b[i]); for (float v : a) mc::observe_f(v);
    }
  }
};
static std::vector<Dab> dabs(int l, int n) {
  std::vector<Dab> v; Dab d = mkdab(0, 0, 7); d.cr = .2f * (n % 5); d.hardness = .7f;
  switch (l) {
    case 0: d.x = 30; d.y = 31; v.push_back(d); break;
    case 1: for (int i = 0; i < 5; i++) { d.x = 61 + 2 * i; d.y = 65 - i; d.r = 9; d.opaque = .8f; d.lock = i == 1; d.alpha = i == 2 ? 0.f : 1.f; d.paint = i == 3; d.posterize = i == 4; v.push_back(d); } break;
    case 2: d.x = -40; d.y = -30; v.push_back(d); d.x = -64; d.y = 64; d.opaque = .5f; v.push_back(d); break;
    case 3: d.x = 700; d.y = 511; v.push_back(d); break;
    case 4: d.x = 199; d.y = 140; d.r = 12; v.push_back(d); d.x = 190; d.alpha = 0; d.opaque = .6f; v.push_back(d); break;
  }
  return v;
}
static const int NOP = 13;
static const char *const ON[] = {"dab inside", "dabs of several modes on a tile corner", "dabs at negative coordinates", "dab far away", "dabs at the border of the extent", "read", "dabs, read in the same section", "replace by a fresh buffer", "replace by another buffer, owned by the surface alone", "install the same buffer again", "install the first buffer again", "application draws into the buffer", "application enlarges the buffer"};
static void op(World &w, int o, int n, Buf *first) {
  mc::logf("%s", ON[o]);
  switch (o) {
    case 0: case 1: case 2: case 3: case 4: w.section(dabs(o, n), 0); break;
    case 5: { uint64_t h = sum(w.cur->b); w.read(64, 64, 20); w.read(190, 140, 9); w.read(-40, -30, 5); w.read(20.5f, 20.5f, .3f); MC_CHECK(sum(w.cur->b) == h, "reading colours changed the buffer (%s)", KN[w.cur->kind]); break; }
    case 6: w.section(dabs(1, n), 1); break;
    case 7: w.replace(NULL, nullptr); break;
    case 8: { Buf *u = new Buf; make(*u, n % 2 ? NATIVE_ODD : NATIVE, 5 * n); w.watch(u); w.replace(u->b, u); w.drop(u); if (!u->weak) mc::fail("the surface does not hold the buffer it was given"); break; }
    case 9: w.replace(w.cur->b, w.cur); break;
    case 10: if (first->kind == FRESH || first == w.cur) mc::discard(); w.replace(first->b, first); break;
    case 11: { fill(w.cur->b, 100, 90, 60, 50, 17 * n); load(*w.cur); break; }
    case 12: { const GeglRectangle *e = gegl_buffer_get_extent(w.cur->b); GeglRectangle big = {-64, -64, 400, 300}; gegl_rectangle_bounding_box(&big, &big, e); gegl_buffer_set_extent(w.cur->b, &big); load(*w.cur); fill(w.cur->b, 230, 150, 60, 50, 17 * n); load(*w.cur); break; }
  }
}
static void quiet(int (*f)()) { mca::rand_hook = f; }
static void histories() {
  quiet([] { return RAND_MAX; }); long live = mca::live; { World w; Buf *first = w.cur; int k = mc::choose(NKIND), depth = mc::thorough() ? 4 : 3; mc::logf("%s", KN[k]);
    if (k) { first = new Buf; make(*first, k, 3); w.watch(first); w.replace(first->b, first); }
    if (k == SUB || k >= WIDE) depth--;
    for (int i = 0; i < depth; i++) { int o = mc::choose(NOP); if (k == SUB && (o >= 2 && o != 5 && o != 6)) mc::discard(); if (w.cur->kind == DUP && (o == 2 || o == 3 || o == 4 || o == 12)) mc::discard(); op(w, o, i, first); if (lossy(w.cur->kind)) w.compare(*w.cur, "after the operation"); }
    for (Buf *u : w.bufs) w.compare(*u, "at the end");
    if (w.cur->ours && mc::flip()) { mc::logf("application forgets the buffer"); w.drop(w.cur); if (!w.cur->weak) mc::fail("the surface does not hold its buffer"); w.compare(*w.cur, "owned by the surface"); }
    // a boxed copy is one more reference
    void *held = g_boxed_copy(mypaint_gegl_tiled_surface_get_type(), w.t); MC_CHECK(held == w.t, "the boxed copy of the surface is %s", held ? "another object" : "NULL");
    mypaint_surface_unref(w.s); if (!w.cur->weak) mc::fail("the surface released its buffer although a boxed copy refers to it");
    g_boxed_free(mypaint_gegl_tiled_surface_get_type(), held);
    for (Buf *u : w.bufs) { if (u->ours) { if (!u->weak) mc::fail("the buffer was released with the surface although the application refers to it"); w.compare(*u, "after destruction of the surface"); w.drop(u); } if (u->weak) mc::fail("%s: the buffer is never released", KN[u->kind]); } }
  MC_CHECK(mca::live == live, "%ld blocks of memory not released", mca::live - live);
}
#ifdef MC_SCHED
// GEGL itself is not instrumented: these wrappers say which of its calls write or read the description of a buffer.
extern "C" {
void __tsan_write8(void *); void __tsan_read8(void *);
gboolean mc_gegl_buffer_set_extent(GeglBuffer *b, const GeglRectangle *r) { sched::point(); __tsan_write8(b); gboolean x = gegl_buffer_set_extent(b, r); sched::point(); return x; }
const GeglRectangle *mc_gegl_buffer_get_extent(GeglBuffer *b) { __tsan_read8(b); return gegl_buffer_get_extent(b); }
GeglBufferIterator *mc_gegl_buffer_iterator_new(GeglBuffer *b, const GeglRectangle *r, gint l, const Babl *f, GeglAccessMode m, GeglAbyssPolicy a, gint n) { sched::point(); __tsan_read8(b); return gegl_buffer_iterator_new(b, r, l, f, m, a, n); }
void mc_gegl_buffer_get(GeglBuffer *b, const GeglRectangle *r, gdouble s, const Babl *f, gpointer d, gint st, GeglAbyssPolicy a) { sched::point(); __tsan_read8(b); gegl_buffer_get(b, r, s, f, d, st, a); }
void mc_gegl_buffer_set(GeglBuffer *b, const GeglRectangle *r, gint m, const Babl *f, gconstpointer d, gint st) { sched::point(); __tsan_read8(b); gegl_buffer_set(b, r, m, f, d, st); }
}
static void threads() {
  quiet([] { return RAND_MAX; }); static const int K[] = {FRESH, NATIVE, NATIVE_ODD, BIGTILES, SHIFTED}; int k = K[mc::choose(5)], l = mc::choose(3), readp = mc::choose(3), t = mc::thorough() ? mc::choose(2) + 2 : 2; mc::logf("%s, layout %d, %s, %d threads", KN[k], l, readp == 2 ? "read while dabs are pending" : readp ? "read after" : "no read", t);
  sched::reset(); sched::nthreads = t; World w; if (k) { Buf *u = new Buf; make(*u, k, 3); w.watch(u); w.replace(u->b, u); } sched::track(w.cur->b, 8);
  std::vector<Dab> v; Dab d = mkdab(64, 64, 8); d.hardness = .6f; if (l == 0) v.push_back(d); if (l == 1) for (int i = 0; i < 5; i++) { d.x = -60 + 64 * i; v.push_back(d); } if (l == 2) for (int i = 0; i < 4; i++) { d.x = i % 2 ? -64.f * i : 64 * i; d.y = 30 * i; v.push_back(d); }
  cur_threads:
  MyPaintSurface *r = w.cur->ref->iface(); mypaint_surface_begin_atomic(w.s); mypaint_surface_begin_atomic(r); for (auto &x : v) { draw(w.s, x); sched::nthreads = 1; draw(r, x); sched::nthreads = t; }
  auto read = [&] { float a[4], b[4]; mypaint_surface_get_color(w.s, 64, 64, 70, a, a + 1, a + 2, a + 3, -1); sched::nthreads = 1; mypaint_surface_get_color(r, 64, 64, 70, b, b + 1, b + 2, b + 3, -1); sched::nthreads = t; mc::step(); for (int i = 0; i < 4; i++) MC_CHECK(fabs(a[i] - b[i]) < 1e-3, "component %d of the colour read is %g, sequentially %g", i, a[i], b[i]); };
  if (readp == 2) read(); mypaint_surface_end_atomic(w.s, nullptr); sched::nthreads = 1; mypaint_surface_end_atomic(r, nullptr); sched::nthreads = t; if (readp == 1) read();
  mc::observe(sched::switches); sched::check(); w.compare(*w.cur, "rendered by threads"); mypaint_surface_unref(w.s);
}
#endif
int main(int c, char **v) {
  return mc::main(c, v, [] {
    bool T = mc::thorough();
#ifdef MC_SCHED
    mc::add("threads", T ? 2 : 1, 4, "5 kinds of buffers x 3 layouts over 4 to 9 tiles that enlarge the buffer x reads x 2 (3) threads x all schedules with up to 1 (2) preemptions at the calls into GEGL and locks", threads);
#else
    mc::add("histories", 0, 3, "17 kinds of installed buffers (aligned, unaligned, empty, other tile sizes and formats, shifted, copy-on-write, sub-buffer) x all sequences of 3 (4) out of 13 operations (dabs inside, outside, at negative coordinates, reads, replacement, drawing by the application) x release orders", histories);
#endif
  });
}
