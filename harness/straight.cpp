// The ArcStraightener console program: its real main() is run with symbolic command lines.
// case 0..: option o (10 numeric ones) * 32 + template; 1000..: texts, paths, errors, outcomes - the conversion is a
// stand-in which records the arguments it is given and reports success or failure; 2000..: the real conversion under I/O faults
#include "gen.h"
#include <cstdlib>
#include <stdlib.h>
#include <math.h>
#include <cstring>
#include <cstdio>
#include <cfloat>
#include <cerrno>
#include <unistd.h>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <map>
#include <list>
#include "arc_interpolation.h"
#include "marlin_1.h"
#include "marlin_2.h"
#include "repetier.h"
#include "prusa.h"
#include "smoothieware.h"
#include "ArcWelderInverseProcessor.h"
#include "logger.h"
enum { oM, oD, oI, oN, oB, oS, oE, oR, oA, oC, NO };
static const char *NUMS[] = {"m", "d", "i", "n", "b", "s", "e", "r", "a", "c"};
static const char *LONGS[] = {"mm-per-arc-segment", "max-arc-segment-mm", "arc-segments-per-r", "min-mm-per-arc-segment", "min-arc-segment-mm", "arc-segments-per-sec", "mm-max-arc-error", "min-arc-segments", "min-circle-segments", "n-arc-correction"};
static const double NA = -1e99;
// simulated firmware: name, version, G90 influence and the defaults of the settings it has
struct Fw { firmware_types t; const char *name, *v; bool infl; double d[NO]; bool latest; };
static const Fw FW[] = {
  {MARLIN_1, "MARLIN_1", "1.1.9.1", false, {1, NA, NA, NA, NA, NA, NA, NA, NA, 25}, true}, {MARLIN_2, "MARLIN_2", "2.0.9.1", true, {1, NA, 0, NA, NA, 0, NA, 24, NA, 25}, true}, {MARLIN_2, "MARLIN_2", "2.0.9.2", true, {NA, 1, NA, NA, (double)0.1f, 0, NA, NA, 72, 25}, false},
  {REPETIER, "REPETIER", "1.0.4", false, {1, NA, NA, NA, NA, NA, NA, NA, NA, 25}, true}, {REPETIER, "REPETIER", "1.0.5", false, {1, NA, NA, NA, NA, NA, NA, NA, NA, 25}, false}, {PRUSA, "PRUSA", "3.10.0", false, {1, NA, NA, NA, NA, NA, NA, NA, NA, 25}, true}, {PRUSA, "PRUSA", "3.11.0", false, {1, NA, NA, 0, NA, NA, NA, 24, NA, 25}, false},
  {SMOOTHIEWARE, "SMOOTHIEWARE", "2021-06-19", true, {0, NA, NA, NA, NA, NA, 0.01, NA, NA, 5}, true}};
struct Want { bool known = true, valid = true, quiet = false, ok = true, infl = false; int fw = 1; double o[NO]; bool set[NO]; std::string src = "in.gcode", dst = "out.gcode"; };
static Want W; static int ran = 0; static bool real = false, inplace = false, haveSrc = true; static std::string wrote; static const char *SRC = "G1 X1\n";
static void realEnd(int st);
[[noreturn]] static void finish(long st) {
  if (real) { realEnd((int)st); vf_end(); for (;;) {} }
  vf_reach("run judged");
  if (W.known) {
    vf_assert(ran == (W.valid && !W.quiet), "the conversion runs exactly if all values are valid");
    if (W.quiet) vf_assert(st == 0, "help and version are no errors");
    else vf_assert((st == 0) == vf_and(W.valid, W.ok), "the exit status tells whether the conversion succeeded");
    if (haveSrc) { vf_assert(vfs_exists("in.gcode"), "the source is still there"); std::string now = h_read("in.gcode"); bool done = ran && W.ok;
      if (inplace && done) { vf_assert(now == "DONE\n", "in place, the result replaces the source"); vf_assert(wrote != "in.gcode" && !vfs_exists(wrote.c_str()), "the temporary file is gone"); }
      else vf_assert(now == SRC, "the source is left alone unless it was converted in place"); }
  } else vf_assert(ran <= 1, "the conversion runs once");
  vf_end(); for (;;) {}
}
static bool same(double a, double b) { return vf_and(a <= b, b <= a); }
static double field(const firmware_arguments &a, int o) { switch (o) { case oM: return a.mm_per_arc_segment; case oD: return a.max_arc_segment_mm; case oI: return a.arc_segments_per_r; case oN: return a.min_mm_per_arc_segment; case oB: return a.min_arc_segment_mm; case oS: return a.arc_segments_per_sec; case oE: return a.mm_max_arc_error; case oR: return a.min_arc_segments; case oA: return a.min_circle_segments; default: return a.n_arc_correction; } }
struct vf_arc_interpolation {
  arc_interpolation_args A; vf_arc_interpolation(arc_interpolation_args a) : A(a) {} virtual ~vf_arc_interpolation() {}
  bool process() { if (real) { arc_interpolation p(A); return p.process(); }
    ran++; wrote = A.target_path; const Fw &f = FW[W.fw];
    if (W.known) { vf_assert(W.valid, "invalid values are refused"); vf_assert(A.firmware_args.firmware_type == f.t, "firmware type");
      { std::string v = A.firmware_args.version; vf_assert(v == f.v || (f.latest && v == "LATEST_RELEASE"), "firmware version"); }
      vf_assert(A.firmware_args.g90_g91_influences_extruder == (W.infl ? !f.infl : f.infl), "g90 behaviour");
      for (int o = 0; o < NO; o++) { std::string l = LONGS[o]; if (f.d[o] != NA) vf_assert(same(field(A.firmware_args, o), W.set[o] ? W.o[o] : f.d[o]), l.c_str()); }
      vf_assert(A.source_path == W.src, "source path"); vf_assert(inplace ? A.target_path.size() > 0 && A.target_path != W.src : A.target_path == W.dst, "target path"); }
    std::ofstream f2(A.target_path.c_str()); f2 << (W.ok ? "DONE\n" : "PART"); f2.close(); return W.ok; }
  std::string get_firmware_arguments_description(std::string = "", std::string = "", std::string = "", std::string = "") const { return "x"; }
};
[[noreturn]] static void vf_exit(int s) { finish(s); }
#define exit vf_exit
#include <tclap/CmdLine.h>
#define arc_interpolation vf_arc_interpolation
#define main straight_main
#include "ArcWelderInverseProcessor.cpp"
#undef main
#undef arc_interpolation
#undef exit

static bool isInt(int o) { return o >= oR; }
// text templates: d any digit, ? any printable character but a space
static const char *TPL[] = {"d.dd", "-d.d", "dd", "-d", "?", "d?d", "?d", "d?", ".dd", "ddd", "0.000d", "ded", "d.", "2147483dd7", "-21474836dd", "+d.d", "d,d", "0xd", "d", "1e-d", "-0", "d2dd", "0", ".", "42949672dd", "d-d", "1.5e+d", "", "-", "6dd04", "00d", "1.dd5"};
static std::string text(const char *t) { std::string r; for (; *t; t++) { if (*t == 'd') r.push_back((char)('0' + (int)vf_int(0, 9, "digit"))); else if (*t == '?') r.push_back((char)vf_byte(33, 126, "char")); else r.push_back(*t); } return r; }
static bool dig(char c) { return vf_and(c >= '0', c <= '9'); }
// own reading of a decimal number; false if the text is none
static bool number(const std::string &s, bool integer, double &v, long &n) {
  size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; i++; }
  long m = 0; int dg = 0, fr = 0; while (i < s.size() && dig(s[i])) { m = m * 10 + (s[i] - '0'); dg++; i++; }
  if (!integer && i < s.size() && s[i] == '.') { i++; while (i < s.size() && dig(s[i])) { m = m * 10 + (s[i] - '0'); dg++; fr++; i++; } }
  if (!dg) return false; long ex = 0;
  if (!integer && i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; bool en = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { en = s[i] == '-'; i++; } int k = 0; while (i < s.size() && dig(s[i])) { ex = ex * 10 + (s[i] - '0'); k++; i++; } if (!k) return false; if (en) ex = -ex; }
  if (i != s.size()) return false;
  if (neg) m = -m; n = m; if (integer) return vf_and(n >= -2147483648L, n <= 2147483647L);
  ex = vf_concretise(ex) - fr; v = (double)m; double p = 1; for (long k = ex < 0 ? -ex : ex; k > 0; k--) p *= 10; v = ex < 0 ? v / p : v * p; if (m == 0 && neg) v = 0; return true; }
static std::vector<std::string> av;
static void opt(int o, const std::string &t, bool lng) {
  av.push_back((lng ? std::string("--") + LONGS[o] : std::string("-") + NUMS[o]) + "=" + t); double v = 0; long n = 0; if (!number(t, isInt(o), v, n)) { W.valid = false; return; }
  W.set[o] = true; W.o[o] = isInt(o) ? (double)n : v; if (FW[W.fw].d[o] == NA) W.valid = false; }
// the firmware is given by its name and version, or is the default
static void choose(int k) { W.fw = k; bool n = k & 1; if (k != 1) { av.push_back((n ? std::string("--firmware-type=") : std::string("-f=")) + FW[k].name); if (!FW[k].latest || k == 3) av.push_back((n ? std::string("--firmware-version=") : std::string("-v=")) + FW[k].v); } }
static std::string swapped(const std::string &s, bool &ok) { std::string r = s; int p = vf_choose((int)s.size() + 1, "place"); if (p < (int)s.size()) { char c = (char)vf_byte(33, 126, "char"); r[p] = c; ok = c == s[p]; } else ok = true; return r; }
// ---------------------------------------------------------------- I/O faults, with the real conversion
static int fkind; static long flimit; static std::string srcp, dstp, refout, original; static char wfile[256]; static bool guard; static int nwr;
static std::string rd(const char *p) { bool g = guard; guard = true; std::string r = h_read(p); guard = g; return r; }
static void crash_ok() {   // whatever happens next, the user's data is still on disk
  guard = true; bool src = vfs_exists(srcp.c_str()) && rd(srcp.c_str()) == original; bool fin = vfs_exists(srcp.c_str()) && !vfs_dirty(srcp.c_str()) && rd(srcp.c_str()) == refout; bool tmp = wfile[0] && vfs_exists(wfile) && !vfs_dirty(wfile) && rd(wfile) == refout; guard = false;
  vf_assert(src || fin || tmp, "the source or the complete result is on disk at every moment");
}
static int hook(const char *op, const char *path) {
  if (guard) return 0; std::string o = op; if (o == "write" || o == "read") { if (nwr++ < 2) crash_ok(); } else { nwr = 0; crash_ok(); }
  bool s = srcp == path;
  if (o == "openw") { guard = true; if (strlen(path) < sizeof wfile) strcpy(wfile, path); guard = false; }
  if (fkind == 2 && o == "openw") return 1; if (fkind == 3 && o == "write") return vfs_wtotal > flimit; if (fkind == 4 && o == "remove" && s) return 1; if (fkind == 5 && o == "rename") return 1; if (fkind == 6 && o == "read" && s) return 1;
  return 0;
}
static void realEnd(int st) {
  crash_ok(); guard = true; vfs_fault_hook = 0; bool fault = fkind == 2 || fkind == 3 || fkind == 6 || (inplace && (fkind == 4 || fkind == 5));
  vf_assert((st == 0) == !fault, "the exit status is zero exactly when the run completed");
  std::string now = vfs_exists(srcp.c_str()) ? h_read(srcp.c_str()) : "";
  if (!inplace) { vf_assert(now == original, "the source is never modified when another target is given"); if (st == 0) vf_assert(h_read(dstp.c_str()) == refout, "the target holds the complete result"); }
  else { if (st == 0) vf_assert(now == refout, "after an in-place run the source path holds the result"); else vf_assert(now == original || (wfile[0] && vfs_exists(wfile) && h_read(wfile) == refout), "a failed in-place run loses nothing");
    if (wfile[0]) { std::string w = wfile; vf_assert(w != srcp, "an in-place run writes to another file first"); if (st == 0) vf_assert(!vfs_exists(wfile), "no temporary file is left behind"); } }
  vf_reach("run judged"); vf_obs_i("st", st); vf_obs_i("now", (long)now.size());
}
static void faults(int scen) {
  real = true; fkind = scen; inplace = vf_choose(2, "inplace"); int dir = vf_choose(2, "dir"); vfs_mkdir("d"); std::string D = dir ? "d/" : ""; srcp = D + "s.gcode"; dstp = inplace ? srcp : D + "t.gcode"; guard = true;
  original = "G21\nG90\nM83\nG1 X10 Y10 Z0.2 F1800 ; start\nG3 X12 Y12 I0 J2 E0.1\n;G2 in a comment\nG1 X14 Y12 E0.2\n"; h_write("r.gcode", original);
  { arc_interpolation_args a; a.firmware_args.firmware_type = MARLIN_1; marlin_1 m(a.firmware_args); a.firmware_args = m.get_default_arguments_for_current_version(); a.source_path = "r.gcode"; a.target_path = "ref.gcode"; arc_interpolation p(a); p.process(); }
  refout = h_read("ref.gcode"); h_write(srcp.c_str(), original); vf_assert(refout.size() > 100 && refout != original, "reference run produced output");
  flimit = fkind == 3 ? vf_int(0, (long)refout.size() - 1, "disk") : 0; nwr = 0; wfile[0] = 0; vfs_wtotal = 0;
  av.push_back("-f=MARLIN_1"); av.push_back(srcp); if (!inplace || vf_choose(2, "named")) av.push_back(dstp); vfs_fault_hook = hook; guard = false;
}
extern "C" void vf_main() {
  long k = vf_case(); for (int o = 0; o < NO; o++) { W.set[o] = false; W.o[o] = 0; } av.push_back("ArcStraightener"); bool args = true; int front = (int)(k & 1);
  if (k < NO * 32) { int o = (int)(k / 32), q = (int)(k % 32); int f = (o * 5 + q) % 8; if (q != 9 && q != 18) for (int i = 0; i < 8 && FW[f].d[o] == NA; i++) f = (f + 1) % 8; choose(f); opt(o, text(TPL[q]), (q + o) & 1); }
  else if (k < 400) { int f = (int)(k - NO * 32) / NO, o = (int)(k - NO * 32) % NO; choose(f); opt(o, isInt(o) ? text("dd") : text("d.d"), f & 1); }     // all firmware versions x options
  else if (k == 1000) { bool ok = true; int f = vf_choose(8, "firmware"); W.fw = f; while (!FW[W.fw].latest) W.fw--; std::string n = swapped(FW[f].name, ok); av.push_back((vf_choose(2, "form") ? "-f=" : "--firmware-type=") + n); if (!ok) { W.valid = false; for (int i = 0; i < 8; i++) if (FW[i].latest && n == FW[i].name) { W.fw = i; W.valid = true; } } }
  else if (k == 1001) { int t = vf_choose(8, "type"), v = vf_choose(9, "version"); if (!FW[t].latest) vf_end(); bool ok = true; std::string s = v < 8 ? FW[v].v : "LATEST_RELEASE"; std::string n = v == t || v == 8 || v == 2 ? swapped(s, ok) : s; av.push_back(std::string("-f=") + FW[t].name); av.push_back((v & 1 ? "-v=" : "--firmware-version=") + n);
    W.valid = false; W.fw = t; for (int i = 0; i < 8; i++) if (FW[i].t == FW[t].t && n == FW[i].v) { W.valid = true; W.fw = i; } if (n == "LATEST_RELEASE") W.valid = true; }
  else if (k == 1002) { choose(vf_choose(8, "firmware")); const char *p[] = {"TRUE", "FALSE", "DEFAULT"}; int c = vf_choose(3, "value"); bool ok = true; std::string n = W.fw < 3 ? swapped(p[c], ok) : p[c]; av.push_back("-g=" + n); if (!ok) W.valid = false; if (c < 2) W.infl = FW[W.fw].infl != (c == 0); }
  else if (k == 1003) { const char *p[] = {"NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"}; bool ok = true; std::string n = swapped(p[vf_choose(7, "level")], ok); av.push_back((vf_choose(2, "form") ? "-l=" : "--log-level=") + n); if (!ok) W.valid = false; }
  else if (k == 1004) { // paths: source only, source and target, missing source, three paths, none, in any order with options
    int c = vf_choose(7, "paths"); args = false; bool before = vf_choose(2, "before"); if (before) opt(oM, "0.5", false);
    if (c == 0) { av.push_back("in.gcode"); inplace = true; } else if (c == 1) { av.push_back("in.gcode"); av.push_back("out.gcode"); } else if (c == 2) { haveSrc = false; av.push_back("none.gcode"); av.push_back("out.gcode"); W.valid = false; } else if (c == 3) { av.push_back("in.gcode"); av.push_back("out.gcode"); av.push_back("x.gcode"); W.valid = false; } else if (c == 4) W.valid = false;
    else if (c == 5) { av.push_back("in.gcode"); av.push_back("in.gcode"); inplace = true; } else { std::string t = "o"; t.push_back((char)vf_byte(33, 126, "char")); vf_assume(t[1] != '/'); t += "t"; av.push_back("in.gcode"); av.push_back(t); W.dst = t; }
    if (!before) opt(oC, "7", true); }
  else if (k == 1005) { // twice, no value, empty value, unknown option
    int o = vf_choose(NO, "option"); for (int i = 0; i < 8; i++) if (FW[i].d[o] != NA) { choose(i); break; } int c = vf_choose(4, "error"); std::string n = NUMS[o];
    if (c == 0) { opt(o, "4", false); opt(o, "4", true); } else if (c == 1) av.push_back("-" + n); else if (c == 2) av.push_back("-" + n + "="); else { const char *u[] = {"-q=1", "--unknown", "-w", "--mm-per-arc-segmen=1", "-o=1", "--max-radius", "-z", "-x=3", "-t", "-y"}; av.push_back("out.gcode"); av.push_back(u[o]); front = 1; } W.valid = false; }
  else if (k == 1006) { W.ok = vf_choose(2, "outcome") != 0; inplace = vf_choose(2, "inplace"); choose(vf_choose(8, "firmware")); }
  else if (k == 1007) { const char *u[] = {"--version", "--help", "-h", "-p", "--print-firmware-defaults"}; int c = vf_choose(5, "help"); if (c < 3) { args = true; av.push_back(u[c]); } else { args = false; haveSrc = false; choose(vf_choose(8, "firmware")); av.push_back(u[c]); } W.quiet = true; }
  else if (k == 1008) { choose(vf_choose(8, "firmware")); int n = 0; for (int o = 0; o < NO; o++) if (FW[W.fw].d[o] != NA) { opt(o, isInt(o) ? n < 2 ? text("1d") : "17" : n < 3 ? text("0.d") : "2.5", o & 1); n++; } if (vf_choose(2, "g")) { av.push_back(FW[W.fw].infl ? "-g=FALSE" : "-g=TRUE"); W.infl = true; } }
  else if (k == 1009) { int o = vf_choose(NO, "option"); for (int i = 0; i < 8; i++) if (FW[i].d[o] != NA) { choose(i); break; } bool ok = true; std::string n = swapped(LONGS[o], ok); if (n[0] == '=') W.known = false; if (ok) { av.push_back("out.gcode"); opt(o, "4", true); } else { av.push_back("out.gcode"); av.push_back("--" + n + "=4"); W.valid = false; } front = 1; }
  else { faults((int)(k - 2000)); args = false; }
  if (!real && haveSrc) { std::ofstream f("in.gcode"); f << SRC; f.close(); }
  if (args) { bool hasDst = false; for (size_t i = 0; i < av.size(); i++) if (av[i] == "out.gcode") hasDst = true; if (front) av.insert(av.begin() + 1, "in.gcode"); else av.push_back("in.gcode"); if (!hasDst && !inplace) av.insert(front ? av.begin() + 2 : av.end(), "out.gcode"); }
  std::vector<char *> cv; for (size_t i = 0; i < av.size(); i++) cv.push_back(&av[i][0]); cv.push_back(0);
  for (size_t i = 1; i + 1 < cv.size() && vf_symbolic() == 0 && getenv("VF_SHOW"); i++) fprintf(stderr, "ARG %s\n", cv[i]);
  int st = straight_main((int)av.size(), cv.data()); finish(st);
}
