// B01 loading, B02 setters/getters/definitions, B09 catalogue.
#include "brush.hpp"
#include <json.h>
#include <float.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

// ---------------------------------------------------------------- B09
struct NameE { int id; const char *name; };
#define X(e, n) {e, n},
static const NameE SN[] = {MC_SETTINGS(X)}, IN[] = {MC_INPUTS(X)}, STN[] = {MC_STATES(X)};
#undef X
static json_object *defs() { static json_object *o = nullptr; if (!o) { std::string f = std::string(getenv("MC_SRC")) + "/brushsettings.json"; o = json_object_from_file(f.c_str()); if (!o) { fprintf(stderr, "cannot read %s\n", f.c_str()); abort(); } } return o; }
static json_object *get(json_object *o, const char *k) { json_object *r = nullptr; json_object_object_get_ex(o, k, &r); return r; }
static const char *str(json_object *o, const char *k) { json_object *r = get(o, k); return r ? json_object_get_string(r) : ""; }
static float num(json_object *o, const char *k, float inf) { json_object *r = get(o, k); return r ? (float)json_object_get_double(r) : inf; }
static void cat_settings() {
  json_object *a = get(defs(), "settings"); int n = (int)json_object_array_length(a);
  MC_CHECK(n == NS && NS == (int)(sizeof SN / sizeof *SN), "%d settings defined, the catalogue has %d", n, (int)NS);
  int i = mc::choose(NS); json_object *d = json_object_array_get_idx(a, i); const MyPaintBrushSettingInfo *f = mypaint_brush_setting_info((MyPaintBrushSetting)i); mc::logf("setting %d", i); mc::observe(i);
  MC_CHECK(SN[i].id == i, "setting %s should have index %d, the enumerator is %d", SN[i].name, i, SN[i].id);
  MC_CHECK(f && f->cname && f->name && f->tooltip && *f->name && *f->tooltip, "setting %d lacks texts", i);
  MC_CHECK(!strcmp(f->cname, str(d, "internal_name")), "setting %d is called %s, defined as %s", i, f->cname, str(d, "internal_name"));
  MC_CHECK(!strcmp(f->name, str(d, "displayed_name")) && !strcmp(f->tooltip, str(d, "tooltip")), "setting %s: texts differ from the definition", f->cname);
  MC_CHECK(f->min == num(d, "minimum", -FLT_MAX) && f->def == num(d, "default", 0) && f->max == num(d, "maximum", FLT_MAX), "setting %s: limits %g/%g/%g differ from the definition", f->cname, f->min, f->def, f->max);
  MC_CHECK(f->min <= f->def && f->def <= f->max && f->min < f->max, "setting %s: limits %g/%g/%g are not ordered", f->cname, f->min, f->def, f->max);
  MC_CHECK(!f->constant == !json_object_get_boolean(get(d, "constant")), "setting %s: constant=%d", f->cname, f->constant);
  MC_CHECK(mypaint_brush_setting_from_cname(f->cname) == i, "the name %s maps to %d, not %d", f->cname, mypaint_brush_setting_from_cname(f->cname), i);
  MC_CHECK(!strcmp(mypaint_brush_setting_info_get_name(f), f->name) && !strcmp(mypaint_brush_setting_info_get_tooltip(f), f->tooltip), "setting %s: text accessors", f->cname);
  for (int j = 0; j < NS; j++) if (j != i) MC_CHECK(strcmp(mypaint_brush_setting_info((MyPaintBrushSetting)j)->cname, f->cname), "settings %d and %d share the name %s", i, j, f->cname);
}
static void cat_inputs() {
  json_object *a = get(defs(), "inputs"); int n = (int)json_object_array_length(a);
  MC_CHECK(n == NI && NI == (int)(sizeof IN / sizeof *IN), "%d inputs defined, the catalogue has %d", n, (int)NI);
  int i = mc::choose(NI); json_object *d = json_object_array_get_idx(a, i); const MyPaintBrushInputInfo *f = mypaint_brush_input_info((MyPaintBrushInput)i); mc::logf("input %d", i); mc::observe(i);
  MC_CHECK(IN[i].id == i, "input %s should have index %d, the enumerator is %d", IN[i].name, i, IN[i].id);
  MC_CHECK(f && f->cname && f->name && f->tooltip && *f->name && *f->tooltip, "input %d lacks texts", i);
  MC_CHECK(!strcmp(f->cname, str(d, "id")), "input %d is called %s, defined as %s", i, f->cname, str(d, "id"));
  MC_CHECK(!strcmp(f->name, str(d, "displayed_name")) && !strcmp(f->tooltip, str(d, "tooltip")), "input %s: texts differ from the definition", f->cname);
  MC_CHECK(f->hard_min == num(d, "hard_minimum", -FLT_MAX) && f->soft_min == num(d, "soft_minimum", -FLT_MAX) && f->normal == num(d, "normal", 0) && f->soft_max == num(d, "soft_maximum", FLT_MAX) && f->hard_max == num(d, "hard_maximum", FLT_MAX), "input %s: limits %g/%g/%g/%g/%g differ from the definition", f->cname, f->hard_min, f->soft_min, f->normal, f->soft_max, f->hard_max);
  MC_CHECK(f->hard_min <= f->soft_min && f->soft_min <= f->normal && f->normal <= f->soft_max && f->soft_max <= f->hard_max && f->soft_min < f->soft_max, "input %s: limits are not ordered", f->cname);
  MC_CHECK(mypaint_brush_input_from_cname(f->cname) == i, "the name %s maps to %d, not %d", f->cname, mypaint_brush_input_from_cname(f->cname), i);
  MC_CHECK(!strcmp(mypaint_brush_input_info_get_name(f), f->name) && !strcmp(mypaint_brush_input_info_get_tooltip(f), f->tooltip), "input %s: text accessors", f->cname);
  for (int j = 0; j < NI; j++) if (j != i) MC_CHECK(strcmp(mypaint_brush_input_info((MyPaintBrushInput)j)->cname, f->cname), "inputs %d and %d share the name %s", i, j, f->cname);
}
static void cat_states() {
  json_object *a = get(defs(), "states"); int n = (int)json_object_array_length(a);
  MC_CHECK(n == NST && NST == (int)(sizeof STN / sizeof *STN), "%d states defined, the catalogue has %d", n, (int)NST);
  int i = mc::choose(NST); mc::logf("state %d", i); mc::observe(i);
  MC_CHECK(STN[i].id == i && !strcmp(STN[i].name, json_object_get_string(json_object_array_get_idx(a, i))), "state %s should have index %d, the enumerator is %d", STN[i].name, i, STN[i].id);
}
// Every name at edit distance one (and the empty name) that is not itself a name is rejected.
static void cat_names() {
  int kind = mc::choose(2), i = mc::choose(kind ? NI : NS); std::string n = kind ? iname(i) : sname(i); int op = mc::choose(4);
  static const char AL[] = "abcdefghijklmnopqrstuvwxyz0123456789_A -"; std::string m = n;
  if (op == 0) m = ""; else {
    int p = mc::choose((int)n.size() + (op == 2)); 
    if (op == 1) m.erase(p, 1); else { char c = AL[mc::choose(sizeof AL - 1)]; if (op == 2) m.insert(p, 1, c); else m[p] = c; }
  }
  mc::logf("%s name \"%s\"", kind ? "input" : "setting", m.c_str());
  std::set<std::string> all; for (int j = 0; j < (kind ? NI : NS); j++) all.insert(kind ? iname(j) : sname(j));
  int id = kind ? (int)mypaint_brush_input_from_cname(m.c_str()) : (int)mypaint_brush_setting_from_cname(m.c_str());
  if (all.count(m)) MC_CHECK(id >= 0 && m == (kind ? iname(id) : sname(id)), "the name %s maps to %d", m.c_str(), id);
  else MC_CHECK(id < 0 || id >= (kind ? NI : NS), "the unknown name \"%s\" maps to %d", m.c_str(), id);
  mc::observe(mc::hbytes(m.data(), m.size()));
}

// ---------------------------------------------------------------- B02
struct Model {
  float base[NS]; Curve c[NS][NI];
  Model() { for (float &b : base) b = 0; }
  void check(MyPaintBrush *b, const char *when) {
    for (int s = 0; s < NS; s++) {
      float v = ::base(b, s); MC_CHECK(v == base[s], "%s: base value of %s is %.9g, should be %.9g", when, sname(s), v, base[s]); int used = 0;
      for (int i = 0; i < NI; i++) {
        int n = mypaint_brush_get_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i); used += !c[s][i].empty();
        MC_CHECK(n == (int)c[s][i].size(), "%s: the curve of %s over %s has %d points, should have %zu", when, sname(s), iname(i), n, c[s][i].size());
        for (int k = 0; k < n; k++) { float x, y; mypaint_brush_get_mapping_point(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, k, &x, &y); MC_CHECK(x == c[s][i][k].first && y == c[s][i][k].second, "%s: point %d of %s over %s is (%.9g,%.9g), should be (%.9g,%.9g)", when, k, sname(s), iname(i), x, y, c[s][i][k].first, c[s][i][k].second); }
      }
      MC_CHECK(mypaint_brush_get_inputs_used_n(b, (MyPaintBrushSetting)s) == used && !mypaint_brush_is_constant(b, (MyPaintBrushSetting)s) == !!used, "%s: %s has curves over %d inputs; reported %d, constant=%d", when, sname(s), used, mypaint_brush_get_inputs_used_n(b, (MyPaintBrushSetting)s), mypaint_brush_is_constant(b, (MyPaintBrushSetting)s));
    }
  }
  void defaults() { for (int s = 0; s < NS; s++) { base[s] = mypaint_brush_setting_info((MyPaintBrushSetting)s)->def; for (auto &q : c[s]) q.clear(); } c[S_(OPAQUE_MULTIPLY)][I_(PRESSURE)] = {{0, 0}, {1, 1}}; }
};
static Curve mkcurve(int n, int seed) { Curve c; for (int k = 0; k < n; k++) c.push_back({-1.5f + 0.1f * k * (1 + seed % 3), 0.37f * ((k * 7 + seed) % 11) - 1}); return c; }
static std::string fnum(float f) { char b[64]; snprintf(b, 64, "%.9g", f); return b; }
static std::string def_setting(const char *name, float base, const std::vector<std::pair<int, Curve>> &cs) {
  std::string o = std::string("\"") + name + "\": {\"base_value\": " + fnum(base) + ", \"inputs\": {";
  for (size_t i = 0; i < cs.size(); i++) { o += std::string(i ? ", " : "") + "\"" + iname(cs[i].first) + "\": ["; for (size_t k = 0; k < cs[i].second.size(); k++) o += (k ? ", [" : "[") + fnum(cs[i].second[k].first) + ", " + fnum(cs[i].second[k].second) + "]"; o += "]"; }
  return o + "}}";
}
static std::string wrap(const std::string &settings) { return "{\"comment\": \"x\", \"group\": \"\", \"parent_brush_name\": \"\", \"settings\": {" + settings + "}, \"version\": 3}"; }
static void one_setting() {   // every setting x every input x several curve lengths, by setter or by definition
  MyPaintBrush *b = mypaint_brush_new(); Model m; m.check(b, "new brush");
  int s = mc::choose(NS), i = mc::choose(NI), nk = mc::choose(3), how = mc::choose(3); static const int N[] = {2, 3, 64}; int n = N[nk];
  if (how == 2) { mypaint_brush_from_defaults(b); m.defaults(); m.check(b, "defaults"); }
  float v = -3.5f + 0.37f * s + i; Curve c = mkcurve(n, s + i); mc::logf("%s over %s, %d points, %s", sname(s), iname(i), n, how == 1 ? "definition" : "setters");
  if (how == 1) { std::string d = wrap(def_setting(sname(s), v, {{i, c}})); MC_CHECK(mypaint_brush_from_string(b, d.c_str()), "a valid definition was rejected: %s", d.c_str()); }
  else { set_base(b, s, v); set_curve(b, s, i, c); }
  m.base[s] = v; m.c[s][i] = c; m.check(b, "after setting one"); mc::step();
  int j = (i + 5) % NI; set_curve(b, s, j, mkcurve(2, 3)); m.c[s][j] = mkcurve(2, 3); m.check(b, "second input");
  set_curve(b, s, i, {}); m.c[s][i].clear(); m.check(b, "curve removed");
  mypaint_brush_unref(b); mc::observe(s * 10000 + i * 100 + n * 10 + how);
}
static void orders() {
  MyPaintBrush *b = mypaint_brush_new(); Model m; int nops = mc::thorough() ? 5 : 4;
  static const int SS[] = {S_(OPAQUE), S_(OPAQUE_MULTIPLY), S_(RADIUS_LOGARITHMIC), NS - 1}; static const int II[] = {I_(PRESSURE), I_(RANDOM), NI - 1, I_(CUSTOM)};
  for (int k = 0; k < nops; k++) {
    int op = mc::choose(11); mc::step();
    if (op == 0) { mypaint_brush_from_defaults(b); m.defaults(); mc::logf("defaults"); }
    else if (op < 4) {   // definitions: one setting without curves / several with curves / a curve emptied
      std::string d;
      if (op == 1) { d = def_setting(sname(SS[0]), 0.25f + k, {}); m.base[SS[0]] = 0.25f + k; }
      else if (op == 2) { d = def_setting(sname(SS[1]), 1.5f, {{II[0], mkcurve(3, k)}, {II[1], mkcurve(2, k)}}) + ", " + def_setting(sname(SS[3]), 0.5f, {{II[2], mkcurve(64, k)}}); m.base[SS[1]] = 1.5f; m.c[SS[1]][II[0]] = mkcurve(3, k); m.c[SS[1]][II[1]] = mkcurve(2, k); m.base[SS[3]] = 0.5f; m.c[SS[3]][II[2]] = mkcurve(64, k); }
      else { d = def_setting(sname(SS[1]), -1, {{II[0], {}}}); m.base[SS[1]] = -1; m.c[SS[1]][II[0]].clear(); }
      std::string w = wrap(d); MC_CHECK(mypaint_brush_from_string(b, w.c_str()), "a valid definition was rejected: %s", w.c_str()); mc::logf("load %s", w.substr(0, 120).c_str());
    } else if (op < 7) { int s = SS[op - 4]; set_base(b, s, 2.f + k); m.base[s] = 2.f + k; mc::logf("base %s", sname(s)); }
    else if (op < 10) { int s = SS[op - 7 + 1], i = II[op - 7]; Curve c = mkcurve(op == 9 ? 5 : 2, k); set_curve(b, s, i, c); m.c[s][i] = c; mc::logf("curve %s/%s", sname(s), iname(i)); }
    else { int s = SS[1], i = II[0]; set_curve(b, s, i, {}); m.c[s][i].clear(); mc::logf("remove curve %s/%s", sname(s), iname(i)); }
    m.check(b, "after an operation");
  }
  mypaint_brush_unref(b);
  uint64_t h = 1; for (int s = 0; s < NS; s++) { h = mc::hbytes(&m.base[s], 4, h); for (auto &c : m.c[s]) h = mc::hmix(h, c.size()); } mc::observe(h);
}
// A whole definition with every setting and varying curves; loading twice, into a used brush, after painting.
static void whole() {
  int k = mc::choose(8), pre = mc::choose(4); MyPaintBrush *b = mypaint_brush_new(); Model m; mc::logf("definition %d, brush prepared by %d", k, pre);
  if (pre == 1) { mypaint_brush_from_defaults(b); m.defaults(); }
  std::string d; for (int q = 0; q < NS; q++) { int s = k & 1 ? NS - 1 - q : q; float v = 0.01f * (k + 1) * s - 0.2f; std::vector<std::pair<int, Curve>> cs; for (int i = 0; i < NI; i++) if ((s * 7 + i * 3 + k) % 9 == 0) { Curve c = mkcurve(2 + (s + i + k) % 6, s + i); cs.push_back({i, c}); } d += (q ? ", " : "") + def_setting(sname(s), v, cs); m.base[s] = v; for (auto &c : cs) m.c[s][c.first] = c.second; }
  std::string w = wrap(d);
  MC_CHECK(mypaint_brush_from_string(b, w.c_str()), "a valid definition was rejected"); m.check(b, "whole definition");
  if (pre == 2) { MC_CHECK(mypaint_brush_from_string(b, w.c_str()), "a valid definition was rejected the second time"); m.check(b, "loaded twice"); }
  if (pre == 3) { Rec r; auto plain = [&](int q, float v) { set_base(b, q, v); m.base[q] = v; for (int i = 0; i < NI; i++) { set_curve(b, q, i, {}); m.c[q][i].clear(); } };   // bounded work
    plain(S_(DABS_PER_BASIC_RADIUS), 1); plain(S_(DABS_PER_ACTUAL_RADIUS), 2); plain(S_(DABS_PER_SECOND), 20); plain(S_(RADIUS_LOGARITHMIC), 1); plain(S_(ELLIPTICAL_DAB_RATIO), 2); for (int e = 0; e < 4; e++) stroke(b, r, mkev(e * 3, e, 0.5f, 0.05)); mypaint_brush_reset(b); m.check(b, "after painting"); stroke(b, r, mkev(5, 5, 1, 0.1)); mypaint_brush_new_stroke(b); m.check(b, "after reset"); }
  mypaint_brush_unref(b); mc::observe(k * 10 + pre);
}

// Every way to write a number, curves with repeated abscissae, on every setting.
static void forms() {
  static const struct { const char *t; float v; } F[] = {{"0", 0}, {"-0.0", 0}, {"5", 5}, {"-7", -7}, {"0.1", 0.1f}, {"1e3", 1000}, {"1E-2", 0.01f}, {"-2.5e+1", -25}, {"16777217", 16777217.f}, {"2147483647", 2147483647.f}, {"2147483648", 2147483648.f}, {"-2147483649", -2147483649.f}, {"3000000000", 3e9f}, {"4294967296", 4294967296.f}, {"123456789012", 123456789012.f}, {"1e-30", 1e-30f}, {"1e30", 1e30f}, {"0.333333333333333333", 1.f / 3}};
  const int n = sizeof F / sizeof *F; int s = mc::choose(NS), k = mc::choose(n), place = mc::choose(3), ck = mc::choose(4); MyPaintBrush *b = mypaint_brush_new(); Model m; int in = (s + k) % NI;
  std::string v = place == 0 ? F[k].t : "0.25"; m.base[s] = place == 0 ? F[k].v : 0.25f; float g = F[k].v; std::string gt = F[k].t; std::string pts; Curve &c = m.c[s][in];
  auto pt = [&](const std::string &x, const std::string &y, float fx, float fy) { pts += (pts.empty() ? "[" : ", [") + x + ", " + y + "]"; c.push_back({fx, fy}); };
  if (place == 1) {   // as abscissa: in order, or repeated
    if (ck & 1) pt(gt, "0.5", g, .5f);
    pt(gt, "0", g, 0); pt(gt, "1", g, 1); if (ck & 2) pt(gt, "-1", g, -1);
  } else { pt("0", place == 2 ? gt : "0", 0, place == 2 ? g : 0); if (ck & 1) pt("0", "0.75", 0, .75f); pt("0.5", "1", .5f, 1); if (ck & 2) { pt("0.5", "-1", .5f, -1); pt("0.5", "2", .5f, 2); } pt("1", place == 2 ? gt : "0.5", 1, place == 2 ? g : .5f); }
  std::string d = wrap(std::string("\"") + sname(s) + "\": {\"base_value\": " + v + ", \"inputs\": {\"" + iname(in) + "\": [" + pts + "]}}"); mc::logf("load %s", d.c_str());
  MC_CHECK(mypaint_brush_from_string(b, d.c_str()), "a valid definition was rejected: %s", d.c_str()); m.check(b, "after loading"); mc::step();
  mypaint_brush_unref(b); mc::observe(mc::hbytes(d.data(), d.size()));
}

// ---------------------------------------------------------------- B01
// JSON texts are built from a small tree of our own so that the harness knows which parts are intact.
struct J { int t; std::string v; std::vector<std::pair<std::string, J>> o; std::vector<J> a; };   // t: 0 literal, 1 object, 2 array
static J lit(const std::string &s) { return J{0, s, {}, {}}; }
static J arr(std::vector<J> v) { return J{2, "", {}, v}; }
static std::string text(const J &j) {
  if (j.t == 0) return j.v; std::string o = j.t == 1 ? "{" : "["; bool first = true;
  if (j.t == 1) for (auto &k : j.o) { o += (first ? "\"" : ",\"") + k.first + "\":" + text(k.second); first = false; }
  else for (auto &k : j.a) { o += (first ? "" : ",") + text(k); first = false; }
  return o + (j.t == 1 ? "}" : "]");
}
static void nodes(J &j, std::vector<std::vector<int>> &out, std::vector<int> path) { out.push_back(path); size_t n = j.t == 1 ? j.o.size() : j.a.size(); for (size_t i = 0; i < n; i++) { auto p = path; p.push_back((int)i); nodes(j.t == 1 ? j.o[i].second : j.a[i], out, p); } }
static J &at(J &j, const std::vector<int> &p, size_t n) { J *q = &j; for (size_t i = 0; i < n; i++) q = q->t == 1 ? &q->o[p[i]].second : &q->a[p[i]]; return *q; }
static J jset(const std::string &b, std::vector<std::pair<std::string, Curve>> cs) { J in{1, "", {}, {}}; for (auto &c : cs) { std::vector<J> ps; for (auto &p : c.second) ps.push_back(arr({lit(fnum(p.first)), lit(fnum(p.second))})); in.o.push_back({c.first, arr(ps)}); } return J{1, "", {{"base_value", lit(b)}, {"inputs", in}}, {}}; }
static J base_def(int k) {
  J st{1, "", {}, {}};
  st.o.push_back({"opaque", jset("0.5", {{"pressure", {{0, 0}, {1, 0.5f}}}})});
  if (k) { st.o.push_back({"radius_logarithmic", jset("1.25", {{"speed1", {{0, 0}, {1, -0.5f}, {4, -1}}}, {"random", {{0, 0}, {1, 0.2f}}}})}); st.o.push_back({"dabs_per_basic_radius", jset("2.0", {})}); }
  return J{1, "", {{"comment", lit("\"c\"")}, {"version", lit("3")}, {"settings", st}}, {}};
}
static std::string big_points(int n, int kind) { std::string s = "["; for (int i = 0; i < n; i++) { char b[64]; snprintf(b, 64, "%s[%g,%g]", i ? "," : "", kind == 1 ? -i * 0.1 : i * 0.1, 0.01 * i); s += b; } return s + "]"; }
static std::vector<std::string> repl() {
  static std::vector<std::string> v;
  if (v.empty()) {
    v = {"null", "true", "0", "-1", "3", "2", "1e39", "-1e308", "1e400", "NaN", "Infinity", "-Infinity", "4294967299", "\"str\"", "\"3\"", "\"\"", "[]", "{}", "[0]", "[[0,0]]", "[[0,0],[1,1]]", "[1,2]", "[[0,0],[1]]", "[[0,0],1]", "[[0,0],null]", "[[0,0],[null,null]]", "[[0,0],[\"a\",{}]]", "[[1,0],[0,0]]", "[[0,0],[0,0]]", "[[0,0],[1e39,0]]", "[[NaN,0],[1,1]]", "[[-1e39,-1e39],[1e39,1e39]]",
         "{\"base_value\":1}", "{\"inputs\":{}}", "{\"base_value\":1,\"inputs\":[]}", "{\"base_value\":1,\"inputs\":{\"pressure\":[[0,0]]}}", "[[0,0,0],[1,1,1,1]]", "{\"a\":{\"b\":{\"c\":[[[[1]]]]}}}"};
    for (int n : {1, 63, 64, 65, 66, 100, 1000}) v.push_back(big_points(n, 0));
    for (int n : {2, 64, 65}) v.push_back(big_points(n, 1));
    v.push_back(std::string(40, '[') + std::string(40, ']'));
  }
  return v;
}
static const std::string &replp(int i) { static std::vector<std::string> v = repl(); return v[i]; }
static const char *const KEYS[] = {"nonsense", "", "version", "settings", "opaque", "pressure", "base_value", "inputs", "hardness"};
// which: what is known about the outcome
enum { ANY, MUST_FAIL, MUST_WORK };
static Rec *g_rec; 
static void paint(MyPaintBrush *b) {
  for (int s = 0; s < NS; s++) { const MyPaintBrushSettingInfo *f = mypaint_brush_setting_info((MyPaintBrushSetting)s); float v = base(b, s); if (v < f->min || v > f->max) set_base(b, s, f->def); }
  for (int s = 0; s < NS; s++) for (int i = 0; i < NI; i++) for (auto &p : get_curve(b, s, i)) if (fabsf(p.first) > 1e4 || fabsf(p.second) > 2) set_curve(b, s, i, {});
  if (base(b, S_(RADIUS_LOGARITHMIC)) < 1) set_base(b, S_(RADIUS_LOGARITHMIC), 1);
  for (int s : {S_(DABS_PER_BASIC_RADIUS), S_(DABS_PER_ACTUAL_RADIUS), S_(DABS_PER_SECOND)}) if (base(b, s) > 10) set_base(b, s, 10);
  Rec r; r.limit = 100000; for (int e = 0; e < 4; e++) stroke(b, r, mkev(3 * e, 2 * e, 0.7f, 0.02));
  for (auto &d : r.dabs) for (int k = 0; k < 17; k++) MC_CHECK(std::isfinite((&d.x)[k]), "after loading, painting gives a dab with %s=%g", DABF[k], (&d.x)[k]);
  mc::observe(r.dabs.size());
}
static void wellformed(MyPaintBrush *b) {
  for (int s = 0; s < NS; s++) { MC_CHECK(std::isfinite(base(b, s)), "base value of %s is %g", sname(s), base(b, s));
    for (int i = 0; i < NI; i++) { Curve c = get_curve(b, s, i); MC_CHECK(c.size() != 1 && c.size() <= 64, "the curve of %s over %s has %zu points", sname(s), iname(i), c.size());
      for (size_t k = 0; k < c.size(); k++) { MC_CHECK(std::isfinite(c[k].first) && std::isfinite(c[k].second), "point %zu of %s over %s is (%g,%g)", k, sname(s), iname(i), c[k].first, c[k].second); MC_CHECK(!k || c[k].first >= c[k - 1].first, "the curve of %s over %s is not ordered", sname(s), iname(i)); } } }
}
static void load_once(const std::string &t, int expect, const std::vector<std::string> &intact, bool prep) {
  MyPaintBrush *b = mypaint_brush_new();
  if (prep) mypaint_brush_from_defaults(b);
  bool ok = mypaint_brush_from_string(b, t.c_str()); mc::step(); mc::observe(ok); mc::observe(mc::hbytes(t.data(), t.size()));
  MC_CHECK(expect != MUST_FAIL || !ok, "loading succeeded, but nothing usable is in the text");
  MC_CHECK(expect != MUST_WORK || ok, "loading failed, although a complete setting of a supported version is in the text");
  wellformed(b);
  if (expect == MUST_WORK) for (auto &s : intact) {
    if (s == "opaque") MC_CHECK(base(b, S_(OPAQUE)) == 0.5f && get_curve(b, S_(OPAQUE), I_(PRESSURE)) == (Curve{{0, 0}, {1, 0.5f}}), "the intact setting opaque was not applied");
    if (s == "radius_logarithmic") MC_CHECK(base(b, S_(RADIUS_LOGARITHMIC)) == 1.25f && get_curve(b, S_(RADIUS_LOGARITHMIC), I_(SPEED1)) == (Curve{{0, 0}, {1, -0.5f}, {4, -1}}) && get_curve(b, S_(RADIUS_LOGARITHMIC), I_(RANDOM)) == (Curve{{0, 0}, {1, 0.2f}}), "the intact setting radius_logarithmic was not applied");
    if (s == "dabs_per_basic_radius") MC_CHECK(base(b, S_(DABS_PER_BASIC_RADIUS)) == 2.0f && mypaint_brush_is_constant(b, S_(DABS_PER_BASIC_RADIUS)), "the intact setting dabs_per_basic_radius was not applied");
  }
  // a second, valid definition must load on top, whatever happened before
  std::string v = wrap(def_setting("hardness", 0.625f, {{I_(STROKE), {{0, 0}, {1, 0.25f}}}}));
  MC_CHECK(mypaint_brush_from_string(b, v.c_str()) && base(b, S_(HARDNESS)) == 0.625f && get_curve(b, S_(HARDNESS), I_(STROKE)) == (Curve{{0, 0}, {1, 0.25f}}), "a valid definition cannot be loaded afterwards");
  paint(b);
  mypaint_brush_unref(b);
}
static void load(const std::string &t, int expect, const std::vector<std::string> &intact) {
  mc::logf("text %s", t.size() > 700 ? (t.substr(0, 700) + "...").c_str() : t.c_str());
  bool prep = false; static bool warm = false;
  if (!warm) { warm = true; load_once("{\"version\":3,\"settings\":{\"nope\":1}}", ANY, {}, false); load_once(wrap(def_setting("opaque", 1, {})), ANY, {}, false); load_once("{\"version\":3,\"settings\":{\"opaque\":{\"base_value\":1,\"inputs\":{\"x\":[[1,2]]}}}}", ANY, {}, false); }
  std::string copy(t); long live = mca::live; mc::G &g = mc::g(); uint64_t out = g.outcome; std::string saved = g.text; g.text.reserve(8192);
  // the first run may grow buffers of the C library; a leak shows in the second
  load_once(copy, expect, intact, prep);
  if (__sanitizer_get_current_allocated_bytes) {
    size_t a = __sanitizer_get_current_allocated_bytes(); load_once(copy, expect, intact, prep); size_t z = __sanitizer_get_current_allocated_bytes();
    if (z != a) { load_once(copy, expect, intact, prep); size_t y = __sanitizer_get_current_allocated_bytes(); MC_CHECK(y == z, "loading this text leaks %ld bytes", (long)(y - z)); }
  }
  MC_CHECK(mca::live == live, "loading this text leaks %ld library allocations", mca::live - live);
}
// expected outcome when the node at `p` of definition k was damaged
static int expect_after(const J &d, const std::vector<int> &p, int k, std::vector<std::string> &intact) {
  static const char *const SN3[] = {"opaque", "radius_logarithmic", "dabs_per_basic_radius"};
  if (p.empty()) return ANY;
  if (p[0] == 0) { for (int i = 0; i < (k ? 3 : 1); i++) intact.push_back(SN3[i]); return MUST_WORK; }     // comment
  if (p[0] == 1) return ANY;                                   // version: judged by the caller
  if (p.size() == 1) return ANY;
  for (int i = 0; i < (k ? 3 : 1); i++) if (i != p[1]) intact.push_back(SN3[i]);
  return intact.empty() ? ANY : MUST_WORK;
}
static void mutations() {
  int k = mc::choose(2); J d = base_def(k); std::vector<std::vector<int>> ns; nodes(d, ns, {}); auto p = ns[mc::choose((int)ns.size())]; int op = mc::choose(6);
  std::vector<std::string> intact; int ex = expect_after(d, p, k, intact);
  if (op == 0) {
    int r = mc::choose((int)repl().size()); J &n = at(d, p, p.size()); n = lit(replp(r)); const std::string &t = replp(r);
    if (p.empty() && (t == "null" || t[0] == '[' || t[0] == '"' || t == "{}" || t == "true" || t == "0")) ex = MUST_FAIL;
    if (p.size() == 1 && p[0] == 1 && (t == "2" || t == "0" || t == "-1" || t == "null" || t == "4294967299" || t[0] == '[' || t[0] == '{' || t == "\"str\"" || t == "\"\"" || t == "true")) ex = MUST_FAIL;
    if (p.size() == 1 && p[0] == 1 && t == "3") { ex = MUST_WORK; intact.clear(); intact.push_back("opaque"); }
    if (p.size() == 1 && p[0] == 2) { ex = ANY; if (t == "null" || t[0] == '[' || t[0] == '"' || t == "true" || t == "0" || t == "{}") ex = MUST_FAIL; }
    if (!k && p.size() == 2 && p[0] == 2 && (t == "null" || t[0] == '[' || t[0] == '"' || t == "true" || t == "0" || t == "{}" || t == "{\"base_value\":1}" || t == "{\"inputs\":{}}")) ex = MUST_FAIL;
    // syntax the JSON reader may or may not know: only the general guarantees
    if (ex == MUST_WORK && (t == "NaN" || t.find("Inf") != std::string::npos || t.find("NaN") != std::string::npos || t == "1e400" || t[1] == '[' && t[2] == '[' && t[3] == '[')) ex = ANY;
  } else if (op == 5) {   // one element more / the same key twice
    J &n = at(d, p, p.size()); if (n.t == 0) mc::discard(); size_t m = n.t == 1 ? n.o.size() : n.a.size(); if (!m) mc::discard(); int j = mc::choose((int)m); if (n.t == 1) n.o.push_back(n.o[j]); else n.a.push_back(n.a[j]);
    if (p.empty() || (p.size() == 1 && p[0] == 2)) { ex = MUST_WORK; intact.clear(); }
  } else {
    if (p.empty()) mc::discard(); J &par = at(d, p, p.size() - 1); int i = p.back();
    if (op == 1) { if (par.t == 1) par.o.erase(par.o.begin() + i); else par.a.erase(par.a.begin() + i); if (p.size() == 1 && p[0]) ex = MUST_FAIL; }
    else if (op == 2) { if (par.t != 1) mc::discard(); int q = mc::choose(9); par.o[i].first = KEYS[q]; if (p.size() == 1) ex = ANY; if (p.size() == 1 && p[0] && (q < 2 || q > 3)) ex = MUST_FAIL; if (!k && p.size() == 2 && p[0] == 2 && (q < 4 || (q > 4 && q < 8))) ex = MUST_FAIL; if (k && p.size() == 2 && q == 4) ex = ANY; }
    else if (op == 3) { if (par.t == 1) std::rotate(par.o.begin(), par.o.begin() + i, par.o.end()); else { std::rotate(par.a.begin(), par.a.begin() + i, par.a.end()); } if (p.size() <= 2) { ex = MUST_WORK; intact = {"opaque"}; } }
    else { if (par.t == 1) par.o[i].second = J{1, "", {{"x", par.o[i].second}}, {}}; else par.a[i] = arr({par.a[i]}); if (p.size() == 1 && p[0]) ex = ANY; }
  }
  load(text(d), ex, intact);
}
static void pairs() {   // two independent damages
  J d = base_def(1); std::vector<std::vector<int>> ns; nodes(d, ns, {}); static const int R[] = {0, 6, 9, 14, 16, 17, 19, 24, 27, 40}; int nr = mc::thorough() ? 10 : 6;
  for (int k = 0; k < 2; k++) { ns.clear(); nodes(d, ns, {}); auto p = ns[mc::choose((int)ns.size())]; if (p.empty()) mc::discard(); int r = mc::choose(nr + 1); if (r == nr) { J &par = at(d, p, p.size() - 1); if (par.t == 1) par.o.erase(par.o.begin() + p.back()); else par.a.erase(par.a.begin() + p.back()); } else at(d, p, p.size()) = lit(replp(R[r])); }
  load(text(d), ANY, {});
}
static void bytes() {   // truncation after, deletion, replacement and doubling of every byte
  int k = mc::choose(2); std::string t = text(base_def(k)); int op = mc::choose(4), i = mc::choose((int)t.size()); int ex = ANY; static const char C[] = "{}[]\",:0-e\\\x01\xff x"; 
  if (op == 0) { t.resize(i); ex = MUST_FAIL; } else if (op == 1) t.erase(i, 1); else if (op == 2) t[i] = C[mc::choose(sizeof C - 1)]; else t.insert(i, 1, t[i]);
  load(t, ex, {});
}
static void odd() {
  static const std::string T[] = {"", " ", "{", "}", "[", "null", "true", "3", "\"x\"", "{}", "[]", "\xef\xbb\xbf{}", "not json", "# version 2\nopaque 1.0\n", "{\"version\":3}", "{\"version\":3,\"settings\":{}}", "{\"settings\":{}}", std::string(100000, '['), std::string(100000, '{'), std::string(5000, ' '), "{\"version\":3,\"settings\":" + std::string(20, '[') + std::string(20, ']') + "}", "{\"version\":3.0,\"settings\":{\"opaque\":null}}", "{\"version\":3,\"settings\":null}", "{\"version\":null,\"settings\":{}}", "\0"};
  int n = sizeof T / sizeof *T, i = mc::choose(n); bool null = i == n - 1;
  if (null) { MyPaintBrush *b = mypaint_brush_new(); MC_CHECK(!mypaint_brush_from_string(b, NULL), "loading no text at all succeeded"); wellformed(b); paint(b); mypaint_brush_unref(b); mc::observe(1); return; }
  load(T[i], MUST_FAIL, {});
}
int main(int argc, char **argv) {
  return mc::main(argc, argv, [] {
    std::string p = mc::g().prop;
    if (p == "B09") {
      mc::add("settings", 0, 1, "every setting", cat_settings); mc::add("inputs", 0, 1, "every input", cat_inputs); mc::add("states", 0, 1, "every state", cat_states);
      mc::add("names", 0, 3, "every name with one character removed, inserted or replaced (alphabet of 40)", cat_names);
    } else if (p == "B02") {
      mc::add("each", 0, 2, "every setting x every input x 2, 3, 64 points x setters on a new / a default brush, definition", one_setting);
      mc::add("orders", 0, 3, "all sequences of 4 (thorough 5) operations out of 11: defaults, 3 definitions, base values, curves set and removed", orders);
      mc::add("whole", 0, 2, "8 definitions of all settings x 4 prior uses of the brush", whole);
      mc::add("forms", 0, 3, "every setting x 18 spellings of numbers as base value, abscissa or ordinate x curves with repeated abscissae", forms);
    } else {
      mc::add("mutations", 0, 3, "two definitions x every node x {replaced by 50 texts, removed, renamed to 9 keys, rotated, wrapped, duplicated}", mutations);
      mc::add("pairs", 0, 3, "every pair of damages out of 7 (thorough 11) at any two nodes", pairs);
      mc::add("bytes", 0, 3, "two definitions cut at every byte; every byte removed, doubled, replaced by 16 characters", bytes);
      mc::add("odd", 0, 1, "25 texts that are no brush definition", odd);
    }
  });
}
