// Tile backend used by the surface harnesses (a MyPaintTiledSurface subclass through the public vfuncs), with protocol
// monitoring: every request is logged, start/end pairing and read-only promises are checked on every tile request.
#pragma once
#include <glib.h>
extern "C" {
#include "mypaint-tiled-surface.h"
#include "mypaint-surface.h"
#include "mypaint-rectangle.h"
#include "mypaint-symmetry.h"
}
#ifndef MYPAINT_TILE_SIZE
#define MYPAINT_TILE_SIZE 64
#endif
#include "mc.hpp"
#include "alloc.hpp"

static const int FIX1 = 1 << 15;

struct Px { uint16_t c[4]; bool operator==(const Px &o) const { return !memcmp(c, o.c, 8); } bool operator!=(const Px &o) const { return !(*this == o); } };

struct TSurf {
  MyPaintTiledSurface s;   // must be first
  int ts;
  std::map<std::pair<int, int>, uint16_t *> tiles;
  std::map<std::pair<int, int>, int> open;           // outstanding requests per tile
  std::map<std::pair<int, int>, int> null_open;      // requests that yielded no buffer (may be ended or not)
  std::map<void *, uint64_t> ro_sum;                  // checksum of read-only handouts
  std::function<Px(int, int)> init;                   // initial pixel content (absolute coordinates)
  std::function<bool(int, int, bool)> deny;           // return a NULL buffer for this request?
  std::function<void(int, int, bool, int)> on_request; // (tx, ty, readonly, 0 start / 1 end)
  long n_start = 0, n_end = 0, n_null = 0, n_write = 0;
  bool destroyed = false;
  std::vector<std::string> errs;
  void err(const char *f, int a, int b) { char x[200]; snprintf(x, 200, f, a, b); if (errs.size() < 8) errs.push_back(x); }
  uint16_t *tile(int tx, int ty) {
    auto k = std::make_pair(tx, ty);
    auto it = tiles.find(k);
    if (it != tiles.end()) return it->second;
    uint16_t *p = (uint16_t *)malloc((size_t)ts * ts * 8);
    if (init) for (int y = 0; y < ts; y++) for (int x = 0; x < ts; x++) { Px q = init(tx * ts + x, ty * ts + y); memcpy(p + (y * ts + x) * 4, q.c, 8); }
    else memset(p, 0, (size_t)ts * ts * 8);
    tiles[k] = p;
    return p;
  }
  static int fdiv(int a, int b) { int q = a / b; if (a % b && (a < 0) != (b < 0)) q--; return q; }
  Px px(int x, int y) {
    int tx = fdiv(x, ts), ty = fdiv(y, ts);
    auto it = tiles.find({tx, ty});
    if (it == tiles.end()) { if (init) return init(x, y); return Px{{0, 0, 0, 0}}; }
    Px r; memcpy(r.c, it->second + ((y - ty * ts) * ts + (x - tx * ts)) * 4, 8); return r;
  }
  void set(int x, int y, Px v) { int tx = fdiv(x, ts), ty = fdiv(y, ts); memcpy(tile(tx, ty) + ((y - ty * ts) * ts + (x - tx * ts)) * 4, v.c, 8); }
  MyPaintSurface *iface() { return &s.parent; }
  void begin() { mypaint_surface_begin_atomic(iface()); }
  void end(MyPaintRectangles *r = nullptr) { mypaint_surface_end_atomic(iface(), r); }
  static void cb_start(MyPaintTiledSurface *b, MyPaintTileRequest *r) {
    TSurf *t = (TSurf *)b;
    t->n_start++;
    if (t->on_request) t->on_request(r->tx, r->ty, r->readonly, 0);
    if (t->deny && t->deny(r->tx, r->ty, r->readonly)) { r->buffer = NULL; r->context = NULL; t->n_null++; t->null_open[{r->tx, r->ty}]++; return; }
    if (!r->readonly) t->n_write++;
    int &o = t->open[{r->tx, r->ty}];
    if (o) t->err("tile (%d,%d) requested again while a request for it is outstanding", r->tx, r->ty);
    o++;
    r->buffer = t->tile(r->tx, r->ty);
    r->context = r->buffer;
    if (r->readonly) t->ro_sum[r->buffer] = mc::hbytes(r->buffer, (size_t)t->ts * t->ts * 8);
  }
  static void cb_end(MyPaintTiledSurface *b, MyPaintTileRequest *r) {
    TSurf *t = (TSurf *)b;
    t->n_end++;
    if (t->on_request) t->on_request(r->tx, r->ty, r->readonly, 1);
    if (r->buffer == NULL) { if (--t->null_open[{r->tx, r->ty}] < 0) t->err("tile (%d,%d): end of a request that was not started", r->tx, r->ty); return; }
    int &o = t->open[{r->tx, r->ty}];
    if (o <= 0) { t->err("tile (%d,%d): end of a request that was not started", r->tx, r->ty); return; }
    o--;
    if (r->buffer != r->context) t->err("tile (%d,%d): end with a different buffer", r->tx, r->ty);
    auto it = t->ro_sum.find(r->buffer);
    if (r->readonly && it != t->ro_sum.end()) {
      if (it->second != mc::hbytes(r->buffer, (size_t)t->ts * t->ts * 8)) t->err("tile (%d,%d) handed out read-only was modified", r->tx, r->ty);
      t->ro_sum.erase(it);
    }
  }
  static void cb_destroy(MyPaintSurface *b) { TSurf *t = (TSurf *)b; mypaint_tiled_surface_destroy(&t->s); t->destroyed = true; }
  TSurf() {
    memset((void *)&s, 0xA5, sizeof s);   // as malloc'ed memory: nothing may be relied on
    mypaint_tiled_surface_init(&s, cb_start, cb_end);
    s.parent.destroy = cb_destroy;
    s.parent.save_png = NULL;
    ts = s.tile_size;
  }
  void release() { if (!destroyed) mypaint_surface_unref(iface()); }
  ~TSurf() { if (!destroyed) mypaint_tiled_surface_destroy(&s); for (auto &k : tiles) free(k.second); }
  TSurf(const TSurf &) = delete;
  void check_protocol() {
    if (!errs.empty()) mc::fail("tile request protocol: %s", errs[0].c_str());
    for (auto &k : open) if (k.second) mc::fail("tile request protocol: %d request(s) for tile (%d,%d) never ended", k.second, k.first.first, k.first.second);
  }
  uint64_t hash() { uint64_t h = 5; for (auto &k : tiles) { h = mc::hmix(h, k.first.first * 7919 + k.first.second); h = mc::hbytes(k.second, (size_t)ts * ts * 8, h); } return h; }
};

struct Dab {
  float x, y, r, cr, cg, cb, opaque, hardness, softness, alpha, aspect, angle, lock, colorize, posterize, pnum, paint;
};
static inline Dab mkdab(float x, float y, float r) { return Dab{x, y, r, 0.8f, 0.25f, 0.1f, 1.0f, 0.8f, 0.0f, 1.0f, 1.0f, 0.0f, 0, 0, 0, 0.05f, 0}; }
static inline int draw(MyPaintSurface *s, const Dab &d) {
  mc::step();
  return mypaint_surface_draw_dab(s, d.x, d.y, d.r, d.cr, d.cg, d.cb, d.opaque, d.hardness, d.softness, d.alpha, d.aspect, d.angle, d.lock, d.colorize, d.posterize, d.pnum, d.paint);
}
static inline int draw(TSurf &s, const Dab &d) { return draw(s.iface(), d); }
static inline void logdab(const char *n, const Dab &d) {
  mc::logf("%s(x=%g y=%g r=%g rgb=%g,%g,%g opaque=%g hard=%g soft=%g a=%g aspect=%g angle=%g lock=%g colorize=%g posterize=%g/%g paint=%g)", n, d.x, d.y, d.r, d.cr, d.cg, d.cb,
           d.opaque, d.hardness, d.softness, d.alpha, d.aspect, d.angle, d.lock, d.colorize, d.posterize, d.pnum, d.paint);
}
static inline void compare_surfaces(TSurf &a, TSurf &b, const char *what) {
  std::set<std::pair<int, int>> ks;
  for (auto &k : a.tiles) ks.insert(k.first);
  for (auto &k : b.tiles) ks.insert(k.first);
  for (auto &k : ks) {
    auto ia = a.tiles.find(k), ib = b.tiles.find(k);
    if (ia != a.tiles.end() && ib != b.tiles.end() && !memcmp(ia->second, ib->second, (size_t)a.ts * a.ts * 8)) { mc::g().cur->checks++; continue; }
    for (int y = 0; y < a.ts; y++) for (int x = 0; x < a.ts; x++) {
      int X = k.first * a.ts + x, Y = k.second * a.ts + y;
      Px p = a.px(X, Y), q = b.px(X, Y);
      if (p != q) mc::fail("%s: pixel (%d,%d) in tile (%d,%d) is %u,%u,%u,%u, expected %u,%u,%u,%u", what, X, Y, k.first, k.second, p.c[0], p.c[1], p.c[2], p.c[3], q.c[0], q.c[1], q.c[2], q.c[3]);
    }
  }
}
