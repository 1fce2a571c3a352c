#include "oracle.h"
#include "gen.h"
// case = property-mask index * 1000 + scenario; scenario menu below
static unsigned MASKS[] = {0xffffffffu, P_LINES, P_END, P_GEO, P_STATE, P_FLOW, P_MAXLEN, P_FMT, P_FW, P_STATS, P_TRAVEL, P_Z, P_COMM, P_LEN, P_SEG, P_FEAT};
static double sym_dec(const char *n, int lo, int hi, double scale) { return (double)vf_int(lo, hi, n) / scale; }   // lo..hi (integers) / scale
// full judged run
static void judge(arc_welder_args &a, const std::string &src, unsigned mask, int minarcs = -1) {
  HRun r; h_weld(a, src, r);
  if (!vf_symbolic() && getenv("VF_SHOW")) { for (auto &l : r.src) printf("S %s\n", l.c_str()); for (auto &l : r.out) printf("O %s\n", l.c_str()); }
  HJudge j(h_cfg(a), r, mask); bool ok = j.run(); if (ok && j.arcs > 0) vf_reach("run with arcs"); if (minarcs >= 0 && j.arcs < minarcs && !vf_symbolic()) fprintf(stderr, "only %d arcs\n", j.arcs);
  for (size_t i = 0; i < r.out.size(); i++) vf_obs_i("len?", r.out[i].find('\x01') == std::string::npos ? (long)r.out[i].size() : -1);
  vf_obs_i("arcs", r.res.progress.arcs_created); vf_obs_i("pts", r.res.progress.points_compressed);
}
extern "C" void vf_main(void) {
  long cs = vf_case(); unsigned mask = MASKS[cs / 1000]; int scen = (int)(cs % 1000); arc_welder_args a = h_args("s.gcode", "t.gcode"); Gen g;
  if (scen < 40) {          // one interruption inside an arc; both E modes; 3 positions; 3 option sets
    g.erel = vf_choose(2, "erel"); int pos = vf_choose(3, "pos"); int v = vf_choose(3, "opts"); args_variant(a, v == 0 ? 0 : v == 1 ? 1 : 2 + 4);
    g.start(); int p[] = {1, 3, 5}; g.moves(p[pos]); interrupt(g, scen); g.moves(4); g.finish();
  } else if (scen == 40 || scen == 41) {   // symbolic extrusion amounts on two moves
    g.erel = scen == 41; int v = vf_choose(2, "opts"); args_variant(a, v ? 8 + 2 : 0); g.start(); g.moves(2);
    for (int i = 0; i < 4; i++) { if (i == 0 || i == 2) { g.next(); std::string sg = g.erel ? (vf_choose(2, "sg") ? "-0.0" : "0.0") : "0.", dg = h_digits(2, "e"); g.raw("G1" + g.xy() + " E" + sg + dg); if (!g.erel) g.e = i == 0 ? 0.15 : 0.25; } else g.move(); } g.finish();
  } else if (scen == 42 || scen == 43) {   // flow variance limit and one extrusion amount symbolic
    g.erel = scen == 43; a.extrusion_rate_variance_percent = sym_dec("var", 0, 2000, 1000); g.start(); g.moves(3); g.next(); g.raw("G1" + g.xy() + " E" + (g.erel ? "0.0" : "0.2") + h_digits(2, "e")); g.e = 0.3; g.moves(3); g.finish();
  } else if (scen == 44 || scen == 45) {   // unequal segment lengths: rate, not amount, is what counts
    g.erel = scen == 45; a.extrusion_rate_variance_percent = sym_dec("var", 1, 2000, 1000); g.start(); for (int i = 0; i < 6; i++) { g.step = (i == 3 || i == 4) ? 0.2 : 0.1; g.de = i == 4 ? 0.1 : 0.05; g.move(); } g.finish();
  } else if (scen >= 50 && scen < 60) {    // one symbolic coordinate: vertex k leaves the circle by any amount
    int k = scen - 50; g.erel = true; g.a = -0.25; g.px = g.cx + g.rad * cos(g.a); g.py = g.cy + g.rad * sin(g.a); g.start();
    for (int i = 0; i < 5; i++) { g.next(); if (i == k % 5) g.raw("G1 X" + std::string(k < 5 ? "109." : "110.") + h_digits(2, "x") + "0 Y" + h_fmt(g.py, 3) + g.E(0.05)); else g.raw("G1" + g.xy() + g.E(0.05)); } g.finish();
  } else if (scen == 60) {   // maximum radius: any value
    a.max_radius_mm = sym_dec("maxr", 0, 1500000, 100); double rs[] = {2, 40, 300, 6000}, st[] = {0.3, 0.05, 0.01, 0.0005}; int k = vf_choose(4, "r"); g.rad = rs[k]; g.step = st[k]; g.sgn = vf_choose(2, "dir") ? 1 : -1; g.cx = 100 - g.rad; g.px = g.cx + g.rad; g.start(); g.moves(6); g.finish();
  } else if (scen == 61) {   // resolution: any value, slightly noisy circle
    a.resolution_mm = sym_dec("res", 0, 3000, 10000); g.erel = true; double no[] = {0, 0.01, -0.02, 0.004, 0.03, -0.015, 0}; g.sgn = vf_choose(2, "dir") ? 1 : -1; g.start(); for (int i = 0; i < 7; i++) { g.rad = 10 + no[i]; g.move(); } g.finish();
  } else if (scen == 62) {   // path tolerance: any value
    a.path_tolerance_percent = sym_dec("tol", 0, 2000, 10000); a.resolution_mm = 1; g.erel = true; double no[] = {0, 0.1, -0.2, 0.04, 0.3, -0.15, 0}; g.start(); for (int i = 0; i < 7; i++) { g.rad = 10 + no[i]; g.move(); } g.finish();
  } else if (scen == 63) {   // firmware compensation: any segment length, any minimum
    a.mm_per_arc_segment = sym_dec("mmseg", 1, 6000, 100); a.min_arc_segments = vf_int(1, 100, "minseg"); double rs[] = {2, 20, 100}, st[] = {0.3, 0.1, 0.02}; int k = vf_choose(3, "r"); g.rad = rs[k]; g.step = st[k]; g.px = g.cx + g.rad; g.start(); g.moves(vf_choose(2, "n") ? 20 : 6); g.finish();
  } else if (scen == 64 || scen == 65) {   // length limit: any value, all sign / digit-count combinations
    a.max_gcode_length = vf_int(0, 80, "maxlen"); g.erel = vf_choose(2, "erel"); int k = vf_choose(5, "where"); if (scen == 65) { a.allow_3d_arcs = true; a.default_xyz_precision = 5; g.xp = 5; }
    double X[] = {100, -100, 2, 999.5, -5}, Y[] = {100, -100, -1, 10.2, -1000}, R[] = {10, 10, 1, 1.5, 120}; g.cx = X[k]; g.cy = Y[k]; g.rad = R[k]; g.px = g.cx + g.rad; g.py = g.cy; g.step = k == 4 ? 0.02 : 0.15; g.e = 9.9; g.de = k == 1 ? -0.05 : 0.05; if (vf_choose(2, "f")) { g.start(); g.n = 0; g.next(); g.raw("G1" + g.xy() + g.E(g.de) + " F2400"); g.moves(6); } else { g.start(); g.moves(6); } g.finish();
  } else if (scen == 66) {   // precision settings
    int px = 3 + vf_choose(4, "px"), pe = 3 + vf_choose(4, "pe"); a.default_xyz_precision = px; a.default_e_precision = pe; a.allow_dynamic_precision = vf_choose(2, "dyn"); g.xp = 2 + vf_choose(5, "sx"); g.ep = 2 + vf_choose(5, "se"); g.start(); g.moves(6); g.finish();
  } else if (scen == 67) {   // dynamic precision grows in the middle of the run
    a.allow_dynamic_precision = true; g.erel = vf_choose(2, "erel"); int at = vf_choose(6, "at"), w = vf_choose(2, "w"); g.start(); for (int i = 0; i < 6; i++) { if (i == at) { if (w) g.xp = 5; else g.ep = 6; } g.move(); if (i == at) { g.xp = 3; g.ep = 5; } } g.finish();
  } else if (scen == 68 || scen == 69) {   // helix with one symbolic height
    a.allow_3d_arcs = true; a.resolution_mm = scen == 69 ? 0.2 : 0.05; g.erel = true; int k = vf_choose(5, "k"); g.start(); for (int i = 1; i <= 6; i++) { g.next(); g.raw("G1" + g.xy() + " Z" + (i == k + 1 ? "0." + h_digits(2, "z") : h_fmt(0.2 + 0.02 * i, 3)) + g.E(0.05)); } g.finish();
  } else if (scen == 70) {   // helix, linear, several pitches and lengths
    a.allow_3d_arcs = true; g.erel = vf_choose(2, "erel"); double dz[] = {0.001, 0.02, -0.05, 0.2, 1}; double d = dz[vf_choose(5, "dz")]; int n = vf_choose(2, "n") ? 9 : 4; g.start(); double z = 5; g.raw("G1 Z5 F600"); for (int i = 0; i < n; i++) { z += d; g.next(); g.raw("G1" + g.xy() + " Z" + h_fmt(z, 3) + g.E(0.05)); } g.finish();
  } else if (scen == 71) {   // helix whose height jumps at the last / first segment
    a.allow_3d_arcs = true; g.erel = true; int at = vf_choose(6, "at"); double j[] = {0.05, 0.5, -0.5, 3}; double jj = j[vf_choose(4, "jump")]; g.start(); double z = 5; g.raw("G1 Z5 F600"); for (int i = 0; i < 6; i++) { z += 0.01; if (i == at) z += jj; g.next(); g.raw("G1" + g.xy() + " Z" + h_fmt(z, 3) + g.E(0.05)); } g.finish();
  } else if (scen == 72) {   // end of file variants
    g.erel = vf_choose(2, "erel"); int e = vf_choose(9, "eof"); g.start(); g.moves(5);
    if (e == 0) {} else if (e == 1) g.s.resize(g.s.size() - 1); else if (e == 2) g.raw("; the end"); else if (e == 3) g.s += "; the end"; else if (e == 4) g.raw("G1 F3000"); else if (e == 5) g.raw("M104 S0"); else if (e == 6) g.raw("BLAH"); else if (e == 7) g.raw("G1" + g.xy() + g.E(0)); else if (e == 8) { g.move(" ; note"); }
  } else if (scen == 73) {   // trailing blank lines
    g.start(); g.moves(5); int e = vf_choose(3, "n"); for (int i = 0; i <= e; i++) g.raw("");
  } else if (scen == 74) {   // first-line variants
    const char *f[] = {";FLAVOR:UltiGCode", "; generated by PrusaSlicer 2.4", ";FLAVOR:Marlin", "; generated by SuperSlicer", "G28", "M83", "", "T0", "; generated by PrusaSlice", ";FLAVOR:UltiGCode "}; int k = vf_choose(10, "first"); g.raw(f[k]); g.raw(";second"); g.start(); g.moves(5); g.finish();
  } else if (scen == 75) {   // source starts directly with moves / one line / nothing
    int k = vf_choose(5, "n"); if (k == 1) g.raw("G1 X1 Y1"); if (k == 2) g.moves(5); if (k == 3) g.raw(";FLAVOR:UltiGCode"); if (k == 4) g.s = "G1 X1";
  } else if (scen == 76) {   // several revolutions; segment count per turn varies
    g.erel = vf_choose(2, "erel"); double st[] = {0.3, 0.7, 1.2, 1.57}; g.step = st[vf_choose(4, "st")]; a.resolution_mm = 2; a.path_tolerance_percent = 0.2; g.sgn = vf_choose(2, "dir") ? 1 : -1; g.start(); g.moves(26); g.finish();
  } else if (scen == 77) {   // more moves than the position history holds
    g.erel = vf_choose(2, "erel"); a.buffer_size = vf_choose(2, "buf") ? 50 : 2; g.step = 0.02; g.start(); g.moves(110); g.finish();
  } else if (scen == 78) {   // repeated points and tiny moves inside the run
    g.erel = vf_choose(2, "erel"); if (vf_choose(2, "travel")) a.allow_travel_arcs = true; int k = vf_choose(5, "kind"), at = 1 + vf_choose(4, "at"); g.start(); for (int i = 0; i < 7; i++) { g.move(); if (i == at) { if (k == 0) g.raw("G1" + g.xy() + g.E(0.05)); else if (k == 1) g.raw("G1" + g.xy()); else if (k == 2) { g.px += 0.001; g.raw("G1" + g.xy() + g.E(0.0001)); } else if (k == 3) g.raw("G1" + g.E(0.05)); else g.raw("G1 X" + h_fmt(g.px, 3)); } } g.finish();
  } else if (scen == 79) {   // S curve, corner, reversal, straight tangent
    g.erel = vf_choose(2, "erel"); int k = vf_choose(4, "shape"); if (vf_choose(2, "loose")) { a.resolution_mm = 0.5; a.path_tolerance_percent = 0.3; } g.start(); g.moves(5);
    if (k == 0) { double nx = 2 * g.px - g.cx, ny = 2 * g.py - g.cy; g.cx = nx; g.cy = ny; g.a += 3.14159265358979; g.sgn = -1; g.moves(5); } else if (k == 1) { g.raw("G1 X" + h_fmt(g.px - 5, 3) + " Y" + h_fmt(g.py - 5, 3) + g.E(0.3)); g.px -= 5; g.py -= 5; g.cx = g.px - 10; g.cy = g.py; g.a = 0; g.moves(5); } else if (k == 2) { g.sgn = -1; g.moves(5); } else { double tx = -sin(g.a), ty = cos(g.a); for (int i = 0; i < 5; i++) { g.px += tx; g.py += ty; g.raw("G1" + g.xy() + g.E(0.05)); } }
    g.finish();
  } else if (scen == 80) {   // G90/G91 affect the extruder
    a.g90_g91_influences_extruder = vf_choose(2, "infl"); int k = vf_choose(4, "k"); g.erel = true; if (k == 0) { g.erel = false; g.raw("G90"); g.raw("M83"); g.raw("G90"); g.erel = !a.g90_g91_influences_extruder; } if (k == 1) { g.raw("M82"); g.raw("G91"); g.raw("G90"); g.erel = false; } if (k == 2) { g.raw("M82"); g.raw("G91"); g.raw("M82"); g.raw("G90"); g.erel = false; } if (k == 3) { g.raw("M83"); g.raw("G91"); g.raw("G90"); g.erel = !a.g90_g91_influences_extruder; }
    g.raw("G1 Z0.2 F600"); g.raw("G1" + g.xy() + " F1800"); g.moves(6); g.raw("G91"); g.raw("G1 Z1"); g.raw("G90"); if (a.g90_g91_influences_extruder) g.erel = false; g.moves(5); g.finish();
  } else if (scen == 81) {   // feedrate written with any value on the first move / between start and first move
    g.erel = true; int k = vf_choose(3, "k"); g.start(); g.next(); std::string f = "F" + std::string(k == 2 ? "0." : "1") + h_digits(2, "f") + (k == 1 ? ".5" : ""); g.raw("G1" + g.xy() + g.E(0.05) + " " + f); g.moves(5); g.finish();
  } else if (scen == 82) {   // G92 of X/Y/Z before the arc: G-code coordinates differ from machine coordinates
    g.erel = vf_choose(2, "erel"); if (vf_choose(2, "3d")) a.allow_3d_arcs = true; g.start(); std::string dx = h_digits(1, "x"), dy = h_digits(1, "y"); g.raw("G92 X" + dx + "0 Y-" + dy + "0 Z5"); double ox = g.px, oy = g.py; (void)ox; (void)oy; g.cx = 30; g.cy = -20; g.px = 40; g.py = -20; g.a = 0; g.raw("G1 X40 Y-20"); g.moves(6); g.finish();
  } else if (scen == 83) {   // comments on the moves of an arc
    g.erel = true; int m = vf_int(0, 63, "which"); int d = vf_choose(3, "same"); static const char *SUB[] = {"b", "nab", "na", "a", "nabc", "b"}; if (vf_choose(2, "lead")) g.raw(";TYPE:WALL"); g.start(); for (int i = 0; i < 6; i++) g.move(m >> i & 1 ? d == 2 ? std::string(" ;") + SUB[i] : d ? std::string(" ; same") : std::string(" ; n") + (char)('a' + i) : ""); g.finish();
  } else if (scen == 84) {   // CRLF line ends
    g.erel = vf_choose(2, "erel"); g.start(); g.moves(3); g.raw(";note"); g.moves(5); g.finish(); std::string t; for (char c : g.s) { if (c == '\n') t += '\r'; t += c; } g.s = t;
  } else if (scen == 85) {   // lower case, no spaces, odd spelling of the moves
    g.erel = true; int k = vf_choose(6, "k"); g.start(); for (int i = 0; i < 6; i++) { g.next(); std::string X = h_fmt(g.px, 3), Y = h_fmt(g.py, 3); g.e += 0.05; if (k == 0) g.raw("g1 x" + X + " y" + Y + " e0.05"); if (k == 1) g.raw("G1X" + X + "Y" + Y + "E0.05"); if (k == 2) g.raw("G01 X" + X + " Y" + Y + " E0.05"); if (k == 3) g.raw("  G1   X" + X + "  Y" + Y + "  E0.05  "); if (k == 4) g.raw("G1 E0.05 Y" + Y + " X" + X); if (k == 5) g.raw("G1 X" + X + " Y" + Y + " E.05 A1 S3"); } g.finish();
  } else if (scen == 86) {   // two interruptions: first the blank line, then any other
    g.erel = vf_choose(2, "erel"); int k = vf_choose(NINT, "k"); g.start(); g.moves(2); g.raw(""); g.moves(2); interrupt(g, k); g.moves(4); g.finish();
  } else if (scen == 87) {   // radii, directions, positions, E modes
    double rs[] = {0.3, 1, 5, 30, 200, 1500}, st[] = {0.4, 0.3, 0.15, 0.06, 0.02, 0.005}; int k = vf_choose(6, "r"); g.rad = rs[k]; g.step = st[k]; g.sgn = vf_choose(2, "dir") ? 1 : -1; g.a = vf_choose(4, "a0") * 1.5707963; int q = vf_choose(3, "where"); double X[] = {0, -50, 120}, Y[] = {0, 30, -120}; g.cx = X[q]; g.cy = Y[q]; g.px = g.cx + g.rad * cos(g.a); g.py = g.cy + g.rad * sin(g.a); g.erel = vf_choose(2, "erel"); g.start(); g.moves(7); g.finish();
  } else if (scen == 88) {   // travel arcs
    g.erel = vf_choose(2, "erel"); a.allow_travel_arcs = true; int k = vf_choose(3, "k"); if (vf_choose(2, "3d")) a.allow_3d_arcs = true; g.start(); for (int i = 0; i < 6; i++) { g.next(); g.raw(std::string(k ? "G0" : "G1") + g.xy() + (k == 2 && i == 3 ? " F3000" : "")); } g.moves(3); for (int i = 0; i < 5; i++) { g.next(); g.raw("G0" + g.xy()); } g.finish();
  } else if (scen == 89) {   // retracting arcs (wipe while retracting)
    g.erel = vf_choose(2, "erel"); g.start(); g.moves(4); for (int i = 0; i < 5; i++) { g.next(); g.raw("G1" + g.xy() + g.E(-0.05)); } g.moves(4); g.finish();
  } else if (scen == 90) {   // tool changes with separate extruders
    g.erel = vf_choose(2, "erel"); int t = vf_choose(8, "t"); g.start(); g.moves(4); g.raw("T" + std::string(1, '0' + t)); g.raw("G92 E0"); g.e = 0; g.moves(5); g.raw("T0"); g.raw("G92 E0"); g.e = 0; g.moves(5); g.finish();
  } else if (scen == 91) {   // comments on the moves and empty lines in between
    g.erel = true; int at = vf_choose(6, "at"), n = vf_choose(3, "n"); g.start(); for (int i = 0; i < 6; i++) { if (i == at) for (int q = 0; q < n; q++) g.raw(""); g.move(std::string(" ; n") + (char)('a' + i)); } g.finish();
  } else if (scen == 99) {   // segments whose point closest to the centre lies near one of their ends, at the limit of the resolution; one coordinate free
    static const double C[4][9][2] = {{{90.832, 104.142}, {90.46, 102.79}, {90.152, 101.349}, {90.035, 100.304}, {90.085, 98.956}, {90.308, 97.794}}, {{82.184, 109.021}, {81.483, 107.398}, {80.811, 105.637}, {80.441, 104.177}},
      {{82.981, 63.867}, {84.829, 62.989}, {87.135, 62.125}, {88.727, 61.684}, {91.139, 61.055}}, {{106.232, 92.256}, {107.251, 93.113}, {108.024, 94.033}, {108.435, 94.629}, {108.829, 95.178}, {109.343, 96.27}, {109.775, 97.892}, {110.008, 98.977}}};
    static const int CN[4] = {6, 4, 5, 8}; int k = vf_choose(4, "curve"), at = vf_choose(CN[k], "vertex"); a.resolution_mm = 0.1; a.default_xyz_precision = 6; a.extrusion_rate_variance_percent = 0; g.xp = 6; g.erel = true; std::string dg = h_digits(2, "y");
    for (int i = 0; i < CN[k]; i++) { g.px = C[k][i][0]; g.py = C[k][i][1]; if (i == 0) { if (at == 0) g.px -= 0.002; g.start(); continue; } std::string Y = h_fmt(g.py, 3); if (i == at) Y = Y.substr(0, Y.size() - 2) + dg; g.raw("G1 X" + h_fmt(g.px, 3) + " Y" + Y + g.E(0.05)); } g.finish();
  } else if (scen >= 92 && scen < 98) {   // line comments naming the feature
    const char *F[] = {"", ";perimeter", ";infill", ";move to first perimeter point", ";infill(bridge)", ";skirt", ";perimeters", ";brim"}; g.erel = vf_choose(2, "erel"); int k = scen - 92, p = vf_choose(8, "p"), q = vf_choose(8, "q"); if (vf_choose(2, "lead")) g.raw(";perimeter"); g.start(); for (int i = 0; i < 7; i++) g.move(F[k == 5 ? (i & 1 ? q : p) : i == k ? p : q]); g.finish();
  } else if (scen == 98) {   // dynamic precision: one move writes one word with more decimals
    a.allow_dynamic_precision = true; g.erel = vf_choose(2, "erel"); bool d3 = vf_choose(2, "3d"); a.allow_3d_arcs = d3; int at = vf_choose(6, "at"), w = vf_choose(4, "w"); g.start(); std::string dg = h_digits(1, "d");
    for (int i = 0; i < 6; i++) { g.next(); std::string X = h_fmt(g.px, 3), Y = h_fmt(g.py, 3), Z = h_fmt(d3 ? 0.2 + 0.01 * i : 0.2, 3), E = g.E(0.05); if (i == at) { if (w == 0) X += "0" + dg; if (w == 1) Y += "0" + dg; if (w == 2) Z += "00"; if (w == 3) E += "0" + dg; } g.raw("G1 X" + X + " Y" + Y + " Z" + Z + E); } g.finish();
  } else if (scen >= 140 && scen < 140 + NINT) {   // a change of flow next to an interruption
    g.erel = true; a.extrusion_rate_variance_percent = 0.05; bool before = vf_choose(2, "before"); g.start(); g.moves(3); if (!before) interrupt(g, scen - 140); std::string dg = h_digits(2, "flow"); g.next(); g.raw("G1" + g.xy() + " E0.0" + dg); if (before) interrupt(g, scen - 140); g.moves(3); g.finish();
  } else if (scen == 46) {   // the curve continues in relative coordinates
    g.erel = vf_choose(2, "erel"); a.g90_g91_influences_extruder = vf_choose(2, "infl"); int lead = vf_choose(2, "lead") ? 4 : 0, back = vf_choose(2, "back"); std::string dg = h_digits(1, "e"); g.start(); g.moves(lead); g.raw("G91"); bool rel = g.erel || a.g90_g91_influences_extruder;
    for (int i = 0; i < 7; i++) { double X = g.px, Y = g.py; g.next(); g.e += 0.05; g.raw("G1 X" + h_fmt(g.px - X, 3) + " Y" + h_fmt(g.py - Y, 3) + " E" + (rel ? std::string("0.05") : h_fmt(g.e, 3)) + (i == 3 ? dg : "")); }
    g.raw("G90"); if (a.g90_g91_influences_extruder) g.erel = false; if (back) { g.raw("G92 E0"); g.e = 0; g.moves(5); } g.finish();
  } else if (scen >= 100 && scen < 100 + NINT) {   // two interruptions at a distance
    g.erel = vf_choose(2, "erel"); int k = vf_choose(NINT, "k"); g.start(); g.moves(3); interrupt(g, scen - 100); g.moves(3); interrupt(g, k); g.moves(4); g.finish();
  } else vf_end();
  judge(a, g.s, mask);
}
