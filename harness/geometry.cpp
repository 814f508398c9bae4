// S14: rectangles and affine transformations of the public headers.
#include <glib-object.h>
extern "C" {
#include "mypaint-config.h"
#include "mypaint-rectangle.h"
#include "mypaint-matrix.h"
#include "glib/mypaint-brush.h"
}
#include "mc.hpp"
#include "alloc.hpp"
extern "C" void mc_free(void *);
struct Box { long x0, y0, x1, y1; bool empty; void add(long x, long y) { if (empty) { x0 = x1 = x; y0 = y1 = y; empty = false; return; } x0 = std::min(x0, x); x1 = std::max(x1, x); y0 = std::min(y0, y); y1 = std::max(y1, y); } };
static void same(const MyPaintRectangle &r, const Box &b, const char *what) {
  if (b.empty) { MC_CHECK(r.width == 0, "%s: width %d of a rectangle that holds nothing", what, r.width); return; }
  MC_CHECK(r.x == b.x0 && r.y == b.y0 && r.width == b.x1 - b.x0 + 1 && r.height == b.y1 - b.y0 + 1, "%s: rectangle is %d,%d %dx%d, the bounding box is %ld,%ld %ldx%ld", what, r.x, r.y, r.width, r.height, b.x0, b.y0, b.x1 - b.x0 + 1, b.y1 - b.y0 + 1);
}
static const MyPaintRectangle START[] = {{0, 0, 0, 0}, {7, -9, 0, 0}, {0, 0, 1, 1}, {-3, 4, 5, 2}, {-1000000, -2000000, 3000000, 2500000}, {0, 0, 64, 64}};
static Box box(const MyPaintRectangle &r) { return Box{r.x, r.y, (long)r.x + r.width - 1, (long)r.y + r.height - 1, r.width == 0}; }
static void points() {
  static const int X[] = {-70000, -3, -1, 0, 1, 2, 4, 63, 64, 1000000}, Y[] = {-2000001, -1, 0, 4, 5, 6, 64};
  MyPaintRectangle r = START[mc::choose(6)]; Box b = box(r); int n = mc::thorough() ? 4 : 3;
  mc::logf("start %d,%d %dx%d", r.x, r.y, r.width, r.height);
  for (int i = 0; i < n; i++) {
    int x = X[mc::choose(10)], y = Y[mc::choose(7)]; mc::logf("point %d,%d", x, y); mc::step();
    mypaint_rectangle_expand_to_include_point(&r, x, y); b.add(x, y); same(r, b, "after adding a point");
  }
  mc::observe((uint64_t)r.x * 31 + r.y * 17 + r.width * 7 + r.height);
}
static void rects() {
  static const MyPaintRectangle R[] = {{0, 0, 1, 1}, {-1, -1, 1, 1}, {-5, 3, 4, 9}, {-5, -5, 11, 11}, {1, 1, 2, 2}, {63, 0, 2, 1}, {0, 63, 1, 2}, {-70000, 5, 70001, 1}, {5, -70000, 1, 140001}, {1000000, 1000000, 1, 1}};
  MyPaintRectangle r = START[mc::choose(6)]; Box b = box(r); int n = mc::thorough() ? 4 : 3;
  mc::logf("start %d,%d %dx%d", r.x, r.y, r.width, r.height);
  for (int i = 0; i < n; i++) {
    MyPaintRectangle o = R[mc::choose(10)], o0 = o; mc::logf("rectangle %d,%d %dx%d", o.x, o.y, o.width, o.height); mc::step();
    mypaint_rectangle_expand_to_include_rect(&r, &o); b.add(o.x, o.y); b.add(o.x + o.width - 1, o.y + o.height - 1); same(r, b, "after adding a rectangle");
    MC_CHECK(!memcmp(&o, &o0, sizeof o), "adding a rectangle changed it");
  }
  long live = mca::live; int k = mc::choose(3);
  MyPaintRectangle *c = nullptr;
  if (k == 1) c = (MyPaintRectangle *)g_boxed_copy(mypaint_rectangle_get_type(), &r); else
  { if (k == 2) mca::fail_at = mca::total; c = mypaint_rectangle_copy(&r); mca::fail_at = -1; }
  if (k == 2 && !c) { mc::observe(r.width); return; }   // no memory for the copy
  MyPaintRectangle before = r;
  MC_CHECK(c && c != &r && !memcmp(c, &r, sizeof r), "the copy of %d,%d %dx%d differs", r.x, r.y, r.width, r.height);
  mypaint_rectangle_expand_to_include_point(c, -5000000, 5000000);
  MC_CHECK(!memcmp(&before, &r, sizeof r), "changing a copy changes the original");
  if (k == 1) g_boxed_free(mypaint_rectangle_get_type(), c); else
  mc_free(c);
  MC_CHECK(mca::live <= live, "%ld block(s) left after a copy was freed", mca::live - live);
  mc::observe((uint64_t)r.x * 31 + r.y * 17 + r.width * 7 + r.height);
}
static void transforms() {
  static const double A[] = {0, M_PI / 2, M_PI, -M_PI / 3, 0.3, 5.0, 2 * M_PI, -7.5};
  static const double T[][2] = {{0, 0}, {3, 0}, {0, -7}, {-120.5, 64.25}, {4000, 1e4}};
  int n = mc::thorough() ? 4 : 3; MyPaintTransform t = mypaint_transform_unit(); double m[2][3] = {{1, 0, 0}, {0, 1, 0}}; double big = 1;
  for (int i = 0; i < n; i++) {
    int op = mc::choose(5); double f[2][3] = {{1, 0, 0}, {0, 1, 0}}; MyPaintTransform old = t;
    if (op == 0) { mc::logf("-"); continue; }
    if (op == 1) { int k = mc::choose(5); f[0][2] = T[k][0]; f[1][2] = T[k][1]; t = mypaint_transform_translate(old, T[k][0], T[k][1]); mc::logf("translate %g,%g", T[k][0], T[k][1]); big += fabs(T[k][0]) + fabs(T[k][1]); }
    else {
      double a = (float)A[mc::choose(8)];
      if (op == 2) { f[0][0] = cos(a); f[0][1] = sin(a); f[1][0] = -sin(a); f[1][1] = cos(a); t = mypaint_transform_rotate_cw(old, a); mc::logf("rotate_cw %g", a); }
      if (op == 3) { f[0][0] = cos(a); f[0][1] = -sin(a); f[1][0] = sin(a); f[1][1] = cos(a); t = mypaint_transform_rotate_ccw(old, a); mc::logf("rotate_ccw %g", a); }
      if (op == 4) { f[0][0] = cos(2 * a); f[0][1] = f[1][0] = sin(2 * a); f[1][1] = -cos(2 * a); t = mypaint_transform_reflect(old, a); mc::logf("reflect %g", a); }
    }
    double q[2][3];
    for (int r = 0; r < 2; r++) for (int c = 0; c < 3; c++) q[r][c] = f[r][0] * m[0][c] + f[r][1] * m[1][c] + (c == 2 ? f[r][2] : 0);
    memcpy(m, q, sizeof m); mc::step();
  }
  static const float P[][2] = {{0, 0}, {1, 0}, {0, 1}, {-33.5, 7.25}, {1000, -2500}};
  for (auto &p : P) {
    float x = NAN, y = NAN; MyPaintTransform t0 = t; mypaint_transform_point(&t, p[0], p[1], &x, &y);
    double ex = m[0][0] * p[0] + m[0][1] * p[1] + m[0][2], ey = m[1][0] * p[0] + m[1][1] * p[1] + m[1][2], tol = 3e-6 * (big + fabs(p[0]) + fabs(p[1]));
    MC_CHECK(fabs(x - ex) <= tol && fabs(y - ey) <= tol, "point %g,%g is mapped to %g,%g, the steps applied one after the other give %g,%g", p[0], p[1], x, y, ex, ey);
    MC_CHECK(!memcmp(&t0, &t, sizeof t), "mapping a point changed the transformation");
    float ax = p[0], ay = p[1]; mypaint_transform_point(&t, ax, ay, &ax, &ay);   // results may replace the arguments
    MC_CHECK(ax == x && ay == y, "mapping a point in place gives %g,%g instead of %g,%g", ax, ay, x, y);
    mc::observe_f(x + 3 * y);
  }
}
int main(int argc, char **argv) {
  return mc::main(argc, argv, [] {
    mc::add("points", 0, 2, "6 rectangles (2 empty), every sequence of 3 (thorough 4) points of 70", points);
    mc::add("rectangles", 0, 2, "6 rectangles (2 empty), every sequence of 3 (thorough 4) rectangles of 10, then a copy (plain, boxed, without memory)", rects);
    mc::add("transforms", 0, 2, "every sequence of up to 3 (thorough 4) of 29 translations, rotations and reflections, 5 points", transforms);
  });
}
