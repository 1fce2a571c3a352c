// Arc expansion (ArcStraightener): run the real arc_interpolation over a generated source and compare the
// machine executing the output with the machine executing the source. case = mask * 10000 + scenario * 100 + firmware.
#include "gen.h"
#include "arc_interpolation.h"
#include "marlin_1.h"
#include "marlin_2.h"
#include "repetier.h"
#include "prusa.h"
#include "smoothieware.h"
enum { I_COPY = 1, I_END = 2, I_PATH = 4, I_SEG = 8, I_ALL = 15 };
static unsigned IM[] = {I_ALL, I_COPY, I_END, I_PATH, I_SEG};
struct Fw { firmware_types t; const char *v; bool z, ceil, cubic; };
static const Fw FW[] = {{MARLIN_1, "1.1.9.1", 1, 0, 0}, {MARLIN_2, "2.0.9.1", 1, 0, 1}, {MARLIN_2, "2.0.9.2", 1, 0, 1}, {REPETIER, "1.0.4", 0, 0, 0}, {REPETIER, "1.0.5", 0, 1, 1}, {PRUSA, "3.10.0", 1, 0, 0}, {PRUSA, "3.11.0", 1, 1, 1}, {SMOOTHIEWARE, "2021-06-19", 1, 0, 0}};
static firmware_arguments defaults(int k) {
  firmware_arguments a; a.firmware_type = FW[k].t; a.version = FW[k].v;
  if (FW[k].t == MARLIN_1) { marlin_1 m(a); a = m.get_default_arguments_for_current_version(); } else if (FW[k].t == MARLIN_2) { marlin_2 m(a); a = m.get_default_arguments_for_current_version(); }
  else if (FW[k].t == REPETIER) { repetier m(a); a = m.get_default_arguments_for_current_version(); } else if (FW[k].t == PRUSA) { prusa m(a); a = m.get_default_arguments_for_current_version(); } else { smoothieware m(a); a = m.get_default_arguments_for_current_version(); }
  a.firmware_type = FW[k].t; a.version = FW[k].v; return a;
}
static double sq(double x) { return x * x; }
struct Src {   // generated source; geometry concrete, written in the current modes
  std::string s; bool rel = false, erel = false; double x = 0, y = 0, z = 0, e = 0;
  void raw(const std::string &l) { s += l; s += '\n'; }
  void at(double nx, double ny) { x = nx; y = ny; }
  void to(double nx, double ny) { raw("G1 X" + h_fmt(rel ? nx - x : nx, 3) + " Y" + h_fmt(rel ? ny - y : ny, 3) + " F3000"); x = nx; y = ny; }
  // arc of radius r from angle a0 (deg), sweep deg > 0 ccw; extra words appended
  void arc(double r, double a0, double sw, const std::string &extra, const char *ret = ";arc done") {
    const double D = 3.14159265358979323846 / 180; double i = -r * cos(a0 * D), j = -r * sin(a0 * D), cx = x + i, cy = y + j, nx = cx + r * cos((a0 + sw) * D), ny = cy + r * sin((a0 + sw) * D); if (sw == 360 || sw == -360) { nx = x; ny = y; }
    std::string X = h_fmt(rel ? nx - x : nx, 3), Y = h_fmt(rel ? ny - y : ny, 3); nx = (rel ? x : 0) + atof(X.c_str()); ny = (rel ? y : 0) + atof(Y.c_str());
    raw(std::string(sw > 0 ? "G3" : "G2") + " X" + X + " Y" + Y + " I" + h_fmt(i, 5) + " J" + h_fmt(j, 5) + extra); x = nx; y = ny; if (ret) raw(ret);
  }
};
static double hyp(double a, double b) { return sqrt(a * a + b * b); }
static void judge(const firmware_arguments &fa, int k, const std::string &src, unsigned mask, double emax = 3) {
  arc_interpolation_args a; a.firmware_args = fa; a.source_path = "s.gcode"; a.target_path = "t.gcode"; h_write("s.gcode", src);
  { arc_interpolation p(a); p.process(); }
  std::vector<std::string> S = h_lines(src), O = h_lines(h_read("t.gcode")); const Fw &fw = FW[k];
  if (!vf_symbolic() && getenv("VF_SHOW")) { for (auto &l : S) printf("S %s\n", l.c_str()); for (auto &l : O) printf("O %s\n", l.c_str()); }
  size_t o = h_header_end(O); if (mask & I_COPY) { bool ok = O.size() > 0 && o > 0; for (size_t i = 0; i < o && i < O.size(); i++) ok = ok && (O[i].empty() || O[i][0] == ';'); vf_assert(ok, "the output begins with a comment header"); }
  HMach ms, mo; ms.infl = mo.infl = fa.g90_g91_influences_extruder; double tx = 0, te = 0, tz = 0;
  for (size_t i = 0; i < S.size();) {
    HCmd c = h_parse(S[i]);
    if (!c.arc()) {
      if (mask & I_COPY) vf_assert(o < O.size() && O[o] == S[i], "other lines are copied unchanged and in order"); else if (!(o < O.size() && O[o] == S[i])) vf_end();
      if (c.let != 'T') { ms.run(c); mo.run(h_parse(O[o])); } /* one shared filament axis */ if (c.n('X').has && c.n('Y').has && !ms.rel) tx = 0; if (c.n('E').has && !ms.erel) te = 0; if (c.n('Z').has && !ms.rel) tz = 0; o++; i++; continue;
    }
    size_t g = i; std::vector<HCmd> arcs; HMach s0 = ms; while (g < S.size()) { HCmd q = h_parse(S[g]); if (!q.arc()) break; arcs.push_back(q); ms.run(q); g++; }
    size_t b = o; while (o < O.size() && !(g < S.size() && O[o] == S[g])) o++; size_t n = o - b; HMach o0 = mo; std::vector<HMach> P; bool g1 = true;
    for (size_t q = b; q < o; q++) { HCmd l = h_parse(O[q]); g1 = g1 && l.is('G', 1); mo.run(l); P.push_back(mo); }
    if (mask & I_COPY) { vf_assert(g1, "an arc is replaced by G1 moves only"); vf_assert(g == S.size() || o < O.size(), "the line after the arc is copied"); }
    // Marlin 1 and Prusa firmware (and so their simulation) drop a full circle when rounding leaves a tiny angle
    if (n == 0 && arcs.size() == 1 && (k == 0 || k == 5 || k == 6) && c.n('I').v * c.n('J').v != 0 && vf_must(vf_and(vf_near(ms.x, s0.x, 1e-9), vf_near(ms.y, s0.y, 1e-9)))) { mo.e = ms.e; mo.z = ms.z; mo.f = ms.f; i = g; continue; }
    double rnd = 0.0005; bool full = c.n('X').has || c.n('Y').has;
    // end state
    double nx = ms.rel ? (double)n * rnd : rnd, ne = ms.erel ? (double)n * 0.000005 : 0.000005; tx = (ms.rel ? tx : 0) + nx + 1e-4; te = (ms.erel ? te : 0) + ne + 3e-5; tz = (ms.rel ? tz : 0) + nx + 2e-5;
    if (mask & I_END) {
      vf_reach("arc end judged");
      vf_assert(vf_and(vf_near(mo.x, ms.x, tx), vf_near(mo.y, ms.y, tx)), "the expanded arc ends where the arc ends");
      vf_assert(vf_near(mo.e, ms.e, te), "the expanded arc uses the arc's filament");
      if (fw.z) vf_assert(vf_near(mo.z, ms.z, tz), "the expanded arc ends at the arc's height");
      vf_assert(vf_near(mo.f, ms.f, 0.5001), "the feedrate after the arc is the arc's");
      if (arcs.size() == 1) for (size_t q = 0; q < n; q++) { double pe = q ? P[q - 1].e : o0.e, pz = q ? P[q - 1].z : o0.z, de = ms.e - s0.e, dz = ms.z - s0.z;
        vf_assert(vf_and(vf_or(de < 0, P[q].e > pe - te), vf_or(de > 0, P[q].e < pe + te)), "filament never runs against the arc's direction"); if (fw.z) vf_assert(vf_and(vf_or(dz < 0, P[q].z > pz - tz), vf_or(dz > 0, P[q].z < pz + tz)), "height never runs against the arc's direction");
        vf_assert(vf_and(vf_or(de < 0, P[q].e < ms.e + 2 * te), vf_or(de > 0, P[q].e > ms.e - 2 * te)), "filament never passes the arc's end"); if (fw.z) vf_assert(vf_and(vf_or(dz < 0, P[q].z < ms.z + 2 * tz), vf_or(dz > 0, P[q].z > ms.z - 2 * tz)), "height never passes the arc's end"); }
      for (size_t q = 0; q < n; q++) vf_assert(vf_near(P[q].f, ms.f, 0.5001) || arcs.size() > 1, "every move of the arc runs at the arc's feedrate");
    }
    if (arcs.size() == 1 && full && n > 0) {
      double I = c.n('I').v, J = c.n('J').v, cx = s0.x + I, cy = s0.y + J, r = hyp(I, J), dir = c.code == 3 ? 1 : -1;
      double ex = ms.x - cx, ey = ms.y - cy, tot = dir * atan2(-I * ey + J * ex, -I * ex - J * ey); if (tot <= 1e-6) tot += 2 * 3.14159265358979323846; double dE = ms.e - s0.e, dZ = ms.z - s0.z;
      double th = tot / (n > 1 ? (double)n - 1 : 1), nc = fa.n_arc_correction > 1 ? (double)fa.n_arc_correction + 1 : 1; if (nc > (double)n) nc = (double)n; if (fa.n_arc_correction < 2) nc = fa.n_arc_correction + 1.0;
      double at = fw.cubic ? nc * pow(th, 5) / 8 : nc * pow(th, 3) / 5, rt = fw.cubic ? nc * pow(th, 4) / 20 * r : nc * pow(th, 4) / 7 * r; double ptol = tx + rt, atol = at + tx * 2 / r;
      if (mask & I_PATH) {
        vf_reach("arc path judged"); double acc = 0, px = -I, py = -J;
        for (size_t q = 0; q < n; q++) {
          double vx = P[q].x - cx, vy = P[q].y - cy; if (q + 1 < n) vf_assert(vf_near(hyp(vx, vy), r, ptol + 1e-3), "every vertex lies on the arc's circle");
          double d = dir * atan2(px * vy - py * vx, px * vx + py * vy); if (n == 1) d = tot; vf_assert(d > 0, "the vertices advance in the arc's direction"); acc += d; px = vx; py = vy; double f = acc / tot, tf = atol / tot;
          vf_assert(vf_near(P[q].e - o0.e, f * dE, tf * emax + te + 1e-5), "filament is spread evenly over the arc");
          if (fw.z) vf_assert(vf_near(P[q].z - o0.z, f * dZ, tf * 3 + tz + 1e-4), "height is spread evenly over the arc"); else vf_assert(vf_near(P[q].z, s0.z, tz), "the arc stays at its height");
        }
        vf_assert(vf_near(acc, tot, atol), "the whole angle is travelled exactly once");
      }
      if (mask & I_SEG) {
        vf_reach("segments judged"); double L = hyp(r * tot, dZ), mm = fa.mm_per_arc_segment, mx = mm, mn = 1, flr = fw.ceil ? 1 : 2;
        if (k == 2) { L = r * tot; mx = fa.max_arc_segment_mm; if (fa.arc_segments_per_sec > 0) { double s = ms.f / 60 / fa.arc_segments_per_sec; mx = vf_min(vf_max(s, fa.min_arc_segment_mm), fa.max_arc_segment_mm); } double w = L / (fa.min_circle_segments * tot / (2 * 3.14159265358979323846)); mx = vf_max(fa.min_arc_segment_mm, vf_min(mx, w + 0)); flr = 2; }
        else if (k == 1) { if (fa.arc_segments_per_r > 0) mx = vf_min(vf_max(mm * r, mm), fa.arc_segments_per_r); else if (fa.arc_segments_per_sec > 0) mx = vf_max(ms.f / 60 / fa.arc_segments_per_sec, mm); if (fa.min_arc_segments > 1) mn = fa.min_arc_segments * tot / (2 * 3.14159265358979323846); }
        else if (k == 6) { double w = fa.min_arc_segments > 0 ? 2 * 3.14159265358979323846 * r / fa.min_arc_segments : mm; if (fa.arc_segments_per_sec > 0) w = vf_min(w, ms.f / 60 / fa.arc_segments_per_sec); mx = vf_min(vf_max(w, fa.min_mm_per_arc_segment), mm); }
        else if (k == 7) { double er = fa.mm_max_arc_error, w = 2 * r > er && er > 0 ? 2 * sqrt(er * (2 * r - er)) : 0; mx = vf_max(mm, w); if (mx < 0.0001) mx = 0.5; }
        else if (k == 3 || k == 4) { if (k == 3) L = r * tot; }
        vf_assert((double)n * (flr * mx) + 1e-3 * mx >= (flr == 1 ? L : vf_min(L, (double)n * flr * mx + (n == 1 ? 0 : 0))), "segments are not longer than configured");
        vf_assert(flr == 1 || vf_or((double)(n + 1) * mx * 1.001 >= L, false), "segments are not fewer than configured");
        vf_assert((double)n + 1e-3 >= mn, "at least the configured number of segments per circle");
        vf_assert((double)(n > 1 ? n - 1 : 0) * mx <= L * 1.001 || (k == 1 && (double)n <= mn + 1.001), "no more segments than configured");
        if (k == 2 && n > 1) vf_assert((double)(n - 1) * fa.min_arc_segment_mm <= L * 1.001, "segments are not shorter than configured");
      }
    }
    vf_obs_i("n", (long)n); i = g;
  }
  vf_reach("file expanded");
  if (mask & I_COPY) vf_assert(o == O.size(), "nothing follows the last source line");
  for (auto &l : O) vf_obs_i("len?", l.find('\x01') == std::string::npos && l.find("Date") == std::string::npos ? (long)l.size() : -1);
}
extern "C" void vf_main(void) {
  long cs = vf_case(); unsigned mask = IM[cs / 10000]; int scen = (int)(cs % 10000 / 100), k = (int)(cs % 100); if (k >= 8) vf_end(); firmware_arguments fa = defaults(k); Src g; double emax = 3;
  static const double R[] = {5, 0.8, 40, 3.217}, A0[] = {0, 90, 200, 315}, SW[] = {90, -90, 30, -200, 360, -360, 181, -3, 350, -359};
  auto modes = [&](int m) { g.rel = m & 1; g.erel = m & 2; g.raw("G90"); g.raw("M82"); g.raw("G1 X100 Y100 Z0.2 F1800"); g.x = g.y = 100; g.raw("G92 E0"); if (g.rel) g.raw("G91"); g.raw(g.erel ? "M83" : "M82"); };
  if (scen < 10) {          // shape: sweep; start angle and modes chosen; free filament
    int m = vf_choose(4, "modes"), q = vf_choose(4, "start"), ri = (q + scen + k) & 3; double r = R[ri]; if (r > 20 && fabs(SW[scen]) > 100) r = 8; modes(m); bool neg = vf_choose(2, "neg"); std::string e = std::string(neg ? "-" : "") + "1." + h_digits(2, "e"); g.arc(r, A0[q], SW[scen], " E" + e); g.to(1, 1); g.arc(3, 90, 60, ""); g.raw("M104 S0");
  } else if (scen == 10) {  // free feedrate; with or without filament
    int m = vf_choose(4, "modes"); modes(m); std::string f = h_digits(3, "f"); if (vf_choose(2, "e")) g.arc(5, 30, 80, " E1.5 F1" + f); else g.arc(5, 30, -80, " F1" + f); g.raw("G1 F2000.25"); g.arc(5, 0, 50, " E2"); g.raw("G1 X0 Y0 E3");
  } else if (scen == 11) {  // helix
    int m = vf_choose(4, "modes"); modes(m); bool neg = vf_choose(2, "neg"); int zi = vf_choose(3, "zi"); std::string z = std::string(neg ? "-" : "") + std::string(1, '0' + zi) + "." + h_digits(2, "z"); int sw = vf_choose(4, "sw"); g.arc(4, 20, sw == 0 ? 90 : sw == 1 ? -150 : sw == 2 ? 360 : -20, " Z" + z + " E1.25"); g.raw("G1 X1 Y1 Z1 E1");
  } else if (scen == 12) {  // nominal segment length free
    double mm = (double)vf_int(4, 40, "mm") / 10.0; fa.mm_per_arc_segment = mm; fa.max_arc_segment_mm = mm; fa.mm_max_arc_error = 0; modes(vf_choose(4, "modes")); int ri = vf_choose(2, "r"), di = vf_choose(2, "dir"); g.arc(ri ? 4 : 1.5, 45, di ? 100 : -100, " E1.2"); g.raw("M104 S0");
  } else if (scen == 13) {  // correction interval
    fa.n_arc_correction = vf_choose(6, "nc"); if (fa.n_arc_correction == 5) fa.n_arc_correction = 40; fa.mm_per_arc_segment = fa.max_arc_segment_mm = 0.3; fa.mm_max_arc_error = 0; modes(vf_choose(4, "modes")); std::string e = "0." + h_digits(2, "e"); g.arc(3, 10, vf_choose(2, "dir") ? 340 : -300, " E" + e); g.raw("M104 S0");
  } else if (scen == 14) {  // minimum numbers of segments
    int n = (int)vf_int(1, 60, "n"); fa.min_arc_segments = fa.min_circle_segments = n; modes(0); int ri = vf_choose(2, "r"), si = vf_choose(2, "sw"); g.arc(ri ? 5 : 1, 45, si ? 60 : -120, " E1.2"); g.raw("M104 S0");
  } else if (scen == 15) {  // minimum segment length
    double mm = (double)vf_int(1, 30, "mm") / 10.0; fa.min_arc_segment_mm = fa.min_mm_per_arc_segment = mm; fa.mm_per_arc_segment = fa.max_arc_segment_mm = 3; fa.min_arc_segments = fa.min_circle_segments = 48; modes(3); g.arc(4, 45, vf_choose(2, "sw") ? 90 : -120, " E1.2"); g.raw("M104 S0");
  } else if (scen == 16) {  // segments per second
    if (k != 1 && k != 2 && k != 6) vf_end(); fa.arc_segments_per_sec = vf_int(5, 60, "sps"); fa.mm_per_arc_segment = 0.5; fa.max_arc_segment_mm = 4; fa.min_arc_segment_mm = 0.5; fa.min_arc_segments = fa.min_circle_segments = 0; if (k == 2) fa.min_circle_segments = 1; if (k == 6) { fa.mm_per_arc_segment = 4; fa.min_mm_per_arc_segment = 0.5; } modes(0); g.arc(5, 45, 100, " E1.2"); g.raw("M104 S0");
  } else if (scen == 17) {  // segments per radius / maximum arc error
    if (k != 1 && k != 7) vf_end(); double v = (double)vf_int(5, 40, "v") / 10; fa.mm_per_arc_segment = 0.5; if (k == 1) fa.arc_segments_per_r = v; else fa.mm_max_arc_error = v / 40; modes(0); g.arc(5, 45, 100, " E1.2"); g.raw("M104 S0");
  } else if (scen == 18) {  // other lines around the arcs
    g.erel = vf_choose(2, "erel"); modes(g.erel ? 2 : 0); int q = vf_choose(16, "line"); const char *l[] = {"", "; note", "M106 S128", "  G4 P10 ; wait", "SOME_MACRO A=1", "M117 G2 X1 Y1", "g1 f1500", "@pause", "T0", "M221 S95\r", ";G2 X1 Y1 I1 J1", "M204 S", "G3.1 X90 Y100 I-5 J0", "M2 X90 I-5", "G2.5 X90 Y100 I-5 J0", "M3 X90 Y110 I-5 J0 E1"}; g.raw(l[q] + (q == 11 ? h_digits(3, "s") : std::string())); g.arc(5, 0, 90, " E1.2", l[q]); g.raw(l[(q + 5) % 11]); g.arc(5, 0, -90, " E2 ; arc", l[(q + 3) % 11]); if (vf_choose(2, "eof")) g.s.resize(g.s.size() - 1);
  } else if (scen == 19) {  // coordinate offsets
    int m = vf_choose(4, "modes"); g.rel = m & 1; g.erel = m & 2; g.raw("G1 X100 Y100 Z5 E10 F1800"); std::string dx = h_digits(1, "x"), dy = h_digits(1, "y"), de = h_digits(1, "e"); g.raw("G92 X" + dx + "0 Y-" + dy + "0 Z2 E" + de + ".5"); g.raw("G1 X30 Y40"); g.x = 30; g.y = 40; if (g.rel) g.raw("G91"); g.raw(g.erel ? "M83" : "M82"); g.arc(5, 45, 100, " E9.9"); g.raw("G1 X1 Y1 E1"); emax = 12;
  } else if (scen == 20) {  // G90/G91 affecting the extruder
    fa.g90_g91_influences_extruder = vf_choose(2, "infl"); int q = vf_choose(4, "k"); g.raw("G1 X100 Y100 Z5 E10 F1800"); g.x = g.y = 100; if (q == 0) { g.raw("M83"); g.raw("G90"); } else if (q == 1) { g.raw("G91"); g.rel = true; } else if (q == 2) { g.raw("G91"); g.raw("M82"); g.rel = true; } else { g.raw("G91"); g.raw("G90"); } g.arc(5, 45, 100, " E1" + h_digits(1, "e") + ".5"); g.raw(";x"); emax = 20;
  } else if (scen == 21) {  // missing words: one axis, no filament, several arcs in a row
    int m = vf_choose(4, "modes"), q = vf_choose(5, "k"); modes(m); bool r = g.rel; if (q == 0) { g.raw(r ? "G3 X-10 I-5 J0 E1" : "G3 X90 I-5 J0 E1"); g.x = 90; } if (q == 1) { g.raw(r ? "G2 Y10 I0 J5 E1" : "G2 Y110 J5 E1"); g.y = 110; } if (q == 2) g.raw("G3 I-5 J0 E1"); if (q == 3) { g.arc(5, 0, 90, " E0.5", NULL); g.arc(5, 0, -90, r ? " E0.7" : " E0.7", NULL); } if (q == 4) { g.raw(r ? "G02 I-5. J0.0 E1 X-5 Y-5" : "g2 i-5 j0 e1 x95 y95"); g.x = g.y = 95; } g.raw(";next"); g.arc(5, 0, 90, " E" + std::string(1, '1') + "." + h_digits(1, "e")); g.raw(";end");
  } else if (scen == 22) {  // nothing but an arc; tools
    int q = vf_choose(3, "k"); if (q == 0) { g.x = g.y = 0; g.arc(5, 0, 90, " E0.5 F1200"); } if (q == 1) { modes(0); g.arc(5, 0, 90, " E0.5"); g.raw("T1"); g.raw("G92 E0"); g.arc(5, 0, 90, " E0." + h_digits(2, "e")); g.raw("T0"); g.arc(5, 0, 90, " E1.25"); } if (q == 2) { } g.raw(";end");
  } else if (scen < 30) {   // free end point near the circle
    if (scen > 26) vf_end(); modes(scen & 1 ? 0 : 3); int q = (scen - 23); std::string X, Y; double dx[] = {-5, -5, -1.464, -10}, dy[] = {5, -5, 3.535, 0}; bool cw = q == 1; std::string hx = h_digits(1, "x"), hy = h_digits(1, "y"); g.raw(std::string(cw ? "G2" : "G3") + " X" + h_fmt(g.rel ? dx[q] : 100 + dx[q], 2) + hx + " Y" + h_fmt(g.rel ? dy[q] : 100 + dy[q], 2) + hy + " I-5 J0 E1.2"); g.raw(";end");
  } else vf_end();
  judge(fa, k, g.s, mask, emax);
}
