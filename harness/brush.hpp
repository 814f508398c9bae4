// Shared by the brush harnesses: a recording surface (public MyPaintSurface vfuncs only) and small helpers.
#pragma once
#include <glib.h>
extern "C" {
#include "mypaint-brush.h"
#include "mypaint-brush-settings.h"
#include "mypaint-surface.h"
}
#include "mc_names.h"
#include "mc.hpp"
#include "alloc.hpp"
#include <deque>
enum { NS = MYPAINT_BRUSH_SETTINGS_COUNT, NI = MYPAINT_BRUSH_INPUTS_COUNT, NST = MYPAINT_BRUSH_STATES_COUNT };
#define S_(n) MYPAINT_BRUSH_SETTING_##n
#define I_(n) MYPAINT_BRUSH_INPUT_##n
#define ST_(n) MYPAINT_BRUSH_STATE_##n
struct BDab { float x, y, r, cr, cg, cb, opaque, hardness, softness, alpha, aspect, angle, lock, colorize, posterize, pnum, paint; };
struct BRead { float x, y, r, paint; float c[4]; size_t ndabs; };
static const char *const DABF[] = {"x", "y", "radius", "r", "g", "b", "opaque", "hardness", "softness", "alpha_eraser", "aspect", "angle", "lock_alpha", "colorize", "posterize", "posterize_num", "paint"};
struct Rec {
  MyPaintSurface s;   // must be first
  std::vector<BDab> dabs; std::vector<BRead> reads;
  std::function<int(const BDab &)> painted;          // return value of draw_dab
  std::function<void(BRead &)> color;                // answer of get_color
  size_t limit = 200000;
  static int cb_draw(MyPaintSurface *q, float x, float y, float r, float cr, float cg, float cb, float op, float h, float so, float al, float as, float an, float lo, float co, float po, float pn, float pa) {
    Rec *t = (Rec *)q; t->dabs.push_back(BDab{x, y, r, cr, cg, cb, op, h, so, al, as, an, lo, co, po, pn, pa}); mc::step();
    if (t->dabs.size() > t->limit) mc::fail("more than %zu dabs were issued", t->limit);
    return t->painted ? t->painted(t->dabs.back()) : 1;
  }
  static void cb_color(MyPaintSurface *q, float x, float y, float r, float *cr, float *cg, float *cb, float *ca, float pa) {
    Rec *t = (Rec *)q; BRead b{x, y, r, pa, {0.3f, 0.5f, 0.7f, 1}, t->dabs.size()};
    if (t->color) t->color(b);
    t->reads.push_back(b); *cr = b.c[0]; *cg = b.c[1]; *cb = b.c[2]; *ca = b.c[3]; mc::step();
  }
  Rec() { memset((void *)&s, 0, sizeof s); mypaint_surface_init(&s); s.draw_dab = cb_draw; s.get_color = cb_color; }
  Rec(const Rec &) = delete;
};
struct Ev { float x, y, p, xt, yt; double dt; float zoom, rot, barrel; int linear; };
static inline Ev mkev(float x, float y, float p, double dt) { return Ev{x, y, p, 0, 0, dt, 1, 0, 0, 0}; }
static inline int stroke(MyPaintBrush *b, Rec &r, const Ev &e) { mc::step(); return mypaint_brush_stroke_to(b, &r.s, e.x, e.y, e.p, e.xt, e.yt, e.dt, e.zoom, e.rot, e.barrel, e.linear); }
static inline void logev(const Ev &e) { mc::logf("stroke_to(x=%g y=%g p=%g tilt=%g,%g dt=%g zoom=%g rot=%g barrel=%g linear=%d)", e.x, e.y, e.p, e.xt, e.yt, e.dt, e.zoom, e.rot, e.barrel, e.linear); }
typedef std::vector<std::pair<float, float>> Curve;
static inline void set_curve(MyPaintBrush *b, int s, int i, const Curve &c) {
  mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, (int)c.size());
  for (size_t k = 0; k < c.size(); k++) mypaint_brush_set_mapping_point(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, (int)k, c[k].first, c[k].second);
}
static inline Curve get_curve(MyPaintBrush *b, int s, int i) {
  Curve c; int n = mypaint_brush_get_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i);
  for (int k = 0; k < n; k++) { float x, y; mypaint_brush_get_mapping_point(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, k, &x, &y); c.push_back({x, y}); }
  return c;
}
static inline float base(MyPaintBrush *b, int s) { return mypaint_brush_get_base_value(b, (MyPaintBrushSetting)s); }
static inline void set_base(MyPaintBrush *b, int s, float v) { mypaint_brush_set_base_value(b, (MyPaintBrushSetting)s, v); }
static inline const char *sname(int s) { return mypaint_brush_setting_info((MyPaintBrushSetting)s)->cname; }
static inline const char *iname(int i) { return mypaint_brush_input_info((MyPaintBrushInput)i)->cname; }
