// The ArcWelder console program: its real main() is run with symbolic command lines; the conversion itself is a
// stand-in which records the arguments it is given and reports success or failure.
// case 0..: option o (9 numeric ones) * 32 + template; 1000: switches; 1001..: texts, paths, errors, outcomes
#include "vf.h"
#include <cstdlib>
#include <stdlib.h>
#include <math.h>
#include <cstring>
#include <cstdio>
#include <cfloat>
#include <cerrno>
#include <unistd.h>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <map>
#include <list>
#include "arc_welder.h"
struct Want { bool known = true, valid = true, quiet = false; double r = 0.05, t = 0.05, m = 9999, s = 0, v = 0.05; long a = 0, c = 0, x = 3, e = 5; bool g = false, z = false, y = false, d = false; std::string src = "in.gcode", dst = "in.gcode"; int level = 3; bool ok = true; };
static Want W; static int ran = 0;
[[noreturn]] static void finish(long st) {
  vf_reach("run judged");
  if (W.known) {
    vf_assert(ran == (W.valid && !W.quiet), "the conversion runs exactly if all values are valid");
    if (W.quiet) vf_assert(st == 0, "help and version are no errors");
    else vf_assert((st == 0) == vf_and(W.valid, W.ok), "the exit status tells whether the conversion succeeded");
  } else vf_assert(ran <= 1, "the conversion runs once");
  vf_end(); for (;;) {}
}
static bool same(double a, double b) { return vf_and(a <= b, b <= a); }
struct vf_arc_welder {
  arc_welder_args A; vf_arc_welder(arc_welder_args a) : A(a) {} virtual ~vf_arc_welder() {}
  arc_welder_results process() { ran++; arc_welder_results R;
    bool in = A.resolution_mm > 0; in = vf_and(in, vf_and(A.path_tolerance_percent > 0, A.path_tolerance_percent < 1)); in = vf_and(in, A.max_radius_mm > 0); in = vf_and(in, vf_and(A.mm_per_arc_segment >= 0, A.min_arc_segments >= 0));
    in = vf_and(in, vf_and(A.default_xyz_precision >= 3, A.default_xyz_precision <= 6)); in = vf_and(in, vf_and(A.default_e_precision >= 3, A.default_e_precision <= 6)); in = vf_and(in, A.extrusion_rate_variance_percent >= 0);
    in = vf_and(in, vf_or(A.max_gcode_length == 0, A.max_gcode_length > 30)); in = vf_and(in, (A.mm_per_arc_segment > 0) == (A.min_arc_segments > 0)); vf_assert(in, "values out of range are refused");
    if (W.known) { vf_assert(W.valid, "invalid values are refused");
      vf_assert(same(A.resolution_mm, W.r), "resolution"); vf_assert(same(A.path_tolerance_percent, W.t), "path tolerance"); vf_assert(same(A.max_radius_mm, W.m), "maximum radius"); vf_assert(same(A.mm_per_arc_segment, W.s), "segment length"); vf_assert(same(A.extrusion_rate_variance_percent, W.v), "flow variance");
      vf_assert(A.min_arc_segments == W.a, "minimum segments"); vf_assert(A.max_gcode_length == W.c, "length limit"); vf_assert(A.default_xyz_precision == W.x, "xyz precision"); vf_assert(A.default_e_precision == W.e, "e precision");
      vf_assert(A.g90_g91_influences_extruder == W.g, "g90 switch"); vf_assert(A.allow_3d_arcs == W.z, "3d switch"); vf_assert(A.allow_travel_arcs == W.y, "travel switch"); vf_assert(A.allow_dynamic_precision == W.d, "dynamic precision switch");
      vf_assert(A.source_path == W.src, "source path"); vf_assert(A.target_path == W.dst, "target path"); vf_assert(A.buffer_size >= 5 && A.buffer_size <= 1000 && A.notification_period_seconds > 0, "buffer and notification period");
      bool lv = A.log != 0; for (int l = 0; l < 7 && lv; l++) if (A.log->is_log_level_enabled(0, (log_levels)l) != (l >= W.level)) lv = false; vf_assert(lv, "log level"); }
    if (A.callback) { arc_welder_progress p; bool go = A.callback(p, A.log, 0); vf_assert(go, "progress display never cancels"); }
    R.success = W.ok; R.message = "x"; return R; }
};
[[noreturn]] static void vf_exit(int s) { finish(s); }
#define exit vf_exit
#include <tclap/CmdLine.h>
#define arc_welder vf_arc_welder
#define main console_main
#include "ArcWelderConsole.cpp"
#undef main
#undef arc_welder
#undef exit

static const char *NUMS[] = {"r", "t", "m", "s", "a", "v", "c", "x", "e"};
static const char *LONGS[] = {"resolution-mm", "path-tolerance-percent", "max-radius-mm", "mm-per-arc-segment", "min-arc-segments", "extrusion-rate-variance-percent", "max-gcode-length", "default-xyz-precision", "default-e-precision"};
static bool isInt(int o) { return o == 4 || o >= 6; }
// text templates: d any digit, ? any printable character but a space
static const char *TPL[] = {"d.dd", "-d.d", "dd", "-d", "?", "d?d", "?d", "d?", ".dd", "ddd", "0.000d", "ded", "2dd", "d.", "ddd0", "42949672dd", "-42949672dd", "+d.d", "9999d", "d,d", "0xd", "3d9", "d", "de-3", "65dd9", "-0", "0.0d", "dddd", "255d", "-25d", "0", "."};
static std::string text(const char *t) { std::string r; for (; *t; t++) { if (*t == 'd') r.push_back((char)('0' + (int)vf_int(0, 9, "digit"))); else if (*t == '?') r.push_back((char)vf_byte(33, 126, "char")); else r.push_back(*t); } return r; }
static bool dig(char c) { return vf_and(c >= '0', c <= '9'); }
// own reading of a decimal number; false if the text is none
static bool number(const std::string &s, bool integer, double &v, long &n) {
  size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; i++; }
  long m = 0; int dg = 0, fr = 0; while (i < s.size() && dig(s[i])) { m = m * 10 + (s[i] - '0'); dg++; i++; }
  if (!integer && i < s.size() && s[i] == '.') { i++; while (i < s.size() && dig(s[i])) { m = m * 10 + (s[i] - '0'); dg++; fr++; i++; } }
  if (!dg) return false; long ex = 0;
  if (!integer && i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; bool en = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { en = s[i] == '-'; i++; } int k = 0; while (i < s.size() && dig(s[i])) { ex = ex * 10 + (s[i] - '0'); k++; i++; } if (!k) return false; if (en) ex = -ex; }
  if (i != s.size()) return false;
  if (neg) m = -m; n = m; if (integer) return true;
  ex = vf_concretise(ex) - fr; v = (double)m; double p = 1; for (long k = ex < 0 ? -ex : ex; k > 0; k--) p *= 10; v = ex < 0 ? v / p : v * p; if (m == 0 && neg) v = 0; return true; }
static std::vector<std::string> av;
static void opt(int o, const std::string &t, bool lng) { av.push_back((lng ? std::string("--") + LONGS[o] : std::string("-") + NUMS[o]) + "=" + t); }
static void setWant(int o, const std::string &t) {
  double v = 0; long n = 0; bool num = number(t, isInt(o), v, n); if (!num) { W.valid = false; return; }
  switch (o) {
  case 0: if (!(v > 0)) W.valid = false; W.r = v; break; case 1: if (!(v > 0) || !(v < 1)) W.valid = false; W.t = v; break; case 2: if (!(v > 0)) W.valid = false; W.m = v; break;
  case 3: if (!(v >= 0)) W.valid = false; W.s = v; break; case 5: if (!(v >= 0)) W.valid = false; W.v = v; break;
  case 4: if (n < 0 || n > 2147483647) W.valid = false; W.a = n; break; case 6: if (n < 0 || n > 2147483647 || (n > 0 && n < 31)) W.valid = false; W.c = n; break;
  case 7: if (n < 3 || n > 6) W.valid = false; W.x = n; break; case 8: if (n < 3 || n > 6) W.valid = false; W.e = n; break; } }
static void both() { if (W.valid && (W.s > 0) != (W.a > 0)) W.valid = false; }
static std::string swapped(const std::string &s, bool &ok) { std::string r = s; int p = vf_choose((int)s.size() + 1, "place"); if (p < (int)s.size()) { char c = (char)vf_byte(33, 126, "char"); r[p] = c; ok = c == s[p]; } else ok = true; return r; }
extern "C" void vf_main() {
  long k = vf_case(); { std::ofstream f("in.gcode"); f << "G1 X1\n"; f.close(); } av.push_back("ArcWelder"); bool args = true;
  if (k < 9 * 32) { int o = (int)(k / 32), q = (int)(k % 32); std::string t = text(TPL[q]);
    if (o == 3) { opt(4, "12", q & 1); W.a = 12; } if (o == 4) { opt(3, "0.5", q & 1); W.s = 0.5; }
    opt(o, t, (q + o) & 1); setWant(o, t); both(); }
  else if (k == 1000) { const char *sh[] = {"-g", "-z", "-y", "-d"}, *lg[] = {"--g90-influences-extruder", "--allow-3d-arcs", "--allow-travel-arcs", "--allow-dynamic-precision"}; bool *w[] = {&W.g, &W.z, &W.y, &W.d}; for (int i = 0; i < 4; i++) { int c = vf_choose(3, "switch"); if (c) { av.push_back(c == 1 ? sh[i] : lg[i]); *w[i] = true; } } }
  else if (k == 1001) { int o = vf_choose(9, "option"); bool ok = true; std::string n = swapped(LONGS[o], ok); std::string t = o == 1 || o == 5 ? "0.5" : o < 4 ? "2.5" : o == 6 ? "40" : "4"; if (n[0] == '=') W.known = false; av.push_back("out.gcode"); W.dst = "out.gcode"; av.push_back("--" + n + "=" + t); if (ok) { setWant(o, t); both(); } else W.valid = false; }
  else if (k == 1002) { const char *p[] = {"NONE", "SIMPLE", "FULL"}; bool ok = true; std::string n = swapped(p[vf_choose(3, "progress")], ok); av.push_back((vf_choose(2, "form") ? "-p=" : "--progress-type=") + n); if (!ok) W.valid = false; }
  else if (k == 1003) { const char *p[] = {"NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"}; bool ok = true; int l = vf_choose(7, "level"); std::string n = swapped(p[l], ok); av.push_back((vf_choose(2, "form") ? "-l=" : "--log-level=") + n); if (!ok) W.valid = false; else W.level = l; }
  else if (k == 1004) { // paths: source only, source and target, missing source, three paths, none, in any order with options
    int c = vf_choose(6, "paths"); args = false; bool before = vf_choose(2, "before"); if (before) { av.push_back("-r=0.1"); W.r = 0.1; }
    if (c == 0) av.push_back("in.gcode"); else if (c == 1) { av.push_back("in.gcode"); av.push_back("out.gcode"); W.dst = "out.gcode"; } else if (c == 2) { av.push_back("none.gcode"); av.push_back("out.gcode"); W.valid = false; } else if (c == 3) { av.push_back("in.gcode"); av.push_back("out.gcode"); av.push_back("x.gcode"); W.valid = false; } else if (c == 4) W.valid = false;
    else { std::string t = "o"; t.push_back((char)vf_byte(33, 126, "char")); t += "t"; av.push_back("in.gcode"); av.push_back(t); W.dst = t; }
    if (!before) { av.push_back("-y"); W.y = true; } }
  else if (k == 1005) { int o = vf_choose(9, "option"); std::string t = o == 1 || o == 5 ? "0.5" : o == 6 ? "40" : "4"; int c = vf_choose(4, "error"); std::string n = NUMS[o]; W.valid = false; // twice, no value, empty value, unknown option
    if (o == 3) opt(4, "4", true); if (o == 4) opt(3, "4", true);
    if (c == 0) { opt(o, t, false); opt(o, t, true); } else if (c == 1) av.push_back("-" + n); else if (c == 2) av.push_back("-" + n + "="); else { const char *u[] = {"-q=1", "--unknown", "-w", "--resolution=1", "-b", "--max-radius", "-o=1", "-n", "-"}; av.push_back("out.gcode"); av.push_back(u[o]); if (o == 8) W.known = false; } }
  else if (k == 1006) { W.ok = vf_choose(2, "outcome") != 0; if (vf_choose(2, "travel")) { av.push_back("-y"); W.y = true; } int p = vf_choose(3, "progress"); const char *n[] = {"NONE", "SIMPLE", "FULL"}; av.push_back(std::string("--progress-type=") + n[p]); }
  else if (k == 1007) { const char *u[] = {"--version", "--help", "-h"}; av.push_back(u[vf_choose(3, "help")]); W.quiet = true; }
  else if (k == 1008) { std::string s = text("d.d"), a = text("dd"); opt(3, s, vf_choose(2, "form")); opt(4, a, true); setWant(3, s); setWant(4, a); both(); }
  else if (k == 1009) { std::string x = text("d"), e = text("d"), c = text("dd"); opt(7, x, true); opt(8, e, false); opt(6, c, true); setWant(7, x); setWant(8, e); setWant(6, c); }
  else if (k == 1010) { for (int o = 0; o < 9; o++) { std::string t = o == 1 || o == 5 ? text("0.d1") : o < 4 ? text("d.5") : o == 4 ? "17" : o == 6 ? text("3d") : o == 7 ? "6" : "3"; opt(o, t, o & 1); setWant(o, t); } av.push_back("-z"); W.z = true; av.push_back("-g"); W.g = true; both(); }
  if (args && !(k == 1004)) { if (vf_case() & 1) av.insert(av.begin() + 1, "in.gcode"); else av.push_back("in.gcode"); }
  std::vector<char *> cv; for (size_t i = 0; i < av.size(); i++) cv.push_back(&av[i][0]); cv.push_back(0);
  for (size_t i = 1; i + 1 < cv.size() && vf_symbolic() == 0 && getenv("VF_SHOW"); i++) fprintf(stderr, "ARG %s\n", cv[i]);
  int st = console_main((int)av.size(), cv.data()); finish(st);
}
