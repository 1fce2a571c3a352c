// Combined scenarios: every case is one row of a generated covering design over geometry, extrusion style,
// options, spelling and interruptions; inside a row the marked numbers are symbolic. case = mask * 10000 + row.
#include "oracle.h"
#include "gen.h"
#include "fbtab.h"
static unsigned MASKS[] = {0xffffffffu, P_LINES, P_END, P_GEO, P_STATE, P_FLOW, P_MAXLEN, P_FMT, P_FW, P_STATS, P_TRAVEL, P_Z, P_COMM, P_LEN, P_SEG, P_FEAT};
struct Lcg { unsigned long s; Lcg(unsigned long x) : s(x * 2862933555777941757ul + 3037000493ul) { for (int i = 0; i < 4; i++) r(1); } unsigned r(unsigned n) { s = s * 6364136223846793005ul + 1442695040888963407ul; return (unsigned)((s >> 33) % n); } };
static std::string long_comment(int n, char c) { std::string s = " ; "; for (int i = 0; i < n; i++) s += (char)(i % 10 == 9 ? ' ' : c + (i / 10) % 20); return s + c; }
extern "C" void vf_main(void) {
  long cs = vf_case(); unsigned mask = MASKS[cs / 10000]; int row = (int)(cs % 10000); Lcg L(row); Gen g; arc_welder_args a = h_args("s.gcode", "t.gcode");
  // ---- options
  double RES[] = {0.05, 0.05, 0.1, 0.2, 0.02, 0.4}; a.resolution_mm = RES[L.r(6)]; double TOL[] = {0.05, 0.05, 0.2, 0.01, 0.5}; a.path_tolerance_percent = TOL[L.r(5)];
  a.allow_3d_arcs = L.r(4) == 0; a.allow_travel_arcs = L.r(3) == 0; a.allow_dynamic_precision = L.r(4) == 0;
  double VAR[] = {0, 0.05, 0.2, 0.01}; a.extrusion_rate_variance_percent = VAR[L.r(4)]; if (L.r(4) == 0) a.default_xyz_precision = 3 + L.r(4); if (L.r(4) == 0) a.default_e_precision = 3 + L.r(4);
  if (L.r(5) == 0) { a.mm_per_arc_segment = 1; a.min_arc_segments = 8 + 8 * L.r(3); } if (L.r(5) == 0) { double MR[] = {5, 20, 1000}; a.max_radius_mm = MR[L.r(3)]; }
  bool symlen = false; if (L.r(3) == 0) { if (L.r(2)) a.max_gcode_length = 31 + L.r(25); else { symlen = true; a.max_gcode_length = vf_int(31, 70, "maxlen"); } }
  a.g90_g91_influences_extruder = L.r(6) == 0; if (L.r(6) == 0) a.buffer_size = 2 + L.r(8);
  // ---- geometry
  double RAD[] = {10, 0.6, 2, 40, 150, 10}; int ri = L.r(6); g.rad = RAD[ri]; double STEP[] = {0.1, 0.7, 0.35, 0.04, 0.012, 0.25}; g.step = STEP[ri] * (L.r(2) ? 1 : 0.7);
  double A0[] = {0, 0.6, 1.6, 2.6, 3.3, 4.1, 5.2, 6.1}; g.a = A0[L.r(8)]; g.sgn = L.r(2) ? 1 : -1; double C[] = {100, 0, -60, 7.5}; g.cx = C[L.r(4)]; g.cy = C[L.r(4)]; g.px = g.cx + g.rad * cos(g.a); g.py = g.cy + g.rad * sin(g.a);
  int NM[] = {5, 4, 3, 8, 14, 9}; int nm = NM[L.r(6)]; double NZ[] = {0, 0, 0.2, 0.35, 0.5, 0.8, 1.2}; double nz = NZ[L.r(7)] * a.resolution_mm; double r0 = g.rad; double spiral = L.r(6) == 0 ? a.resolution_mm * 0.05 : 0;
  double dz = 0; if (a.allow_3d_arcs) { double DZ[] = {0, 0.004, 0.03, -0.02}; dz = DZ[L.r(4)]; } else if (L.r(12) == 0) dz = 0.01; double z = 0.2;
  g.xp = 3; if (L.r(4) == 0) g.xp = 2 + L.r(4); if (L.r(5) == 0) g.ep = 3 + L.r(3);
  // ---- style
  g.erel = L.r(2); int kind = L.r(6); if (kind > 3) kind = 0; double mm = g.rad * g.step; g.de = kind == 1 ? -mm * 0.05 : mm * 0.05; if (L.r(4) == 0) g.e = 9.7; bool g0 = kind == 2 && L.r(2);
  int lead = L.r(3) == 0 ? 1 + L.r(2) : 0; int spelling = L.r(8); int fstyle = L.r(6); int first = L.r(8); bool crlf = L.r(8) == 0; bool nonl = L.r(6) == 0; int ncom = L.r(5);
  int i1 = L.r(3) ? L.r(NINT) : -1, i2 = L.r(3) == 0 ? L.r(NINT) : -1, p1 = L.r(nm), p2 = p1 + L.r(3); int bigE = L.r(5) == 0 ? (int)L.r(nm) : -1; int symE = L.r(3) ? (int)L.r(nm) : -1; int symF = L.r(3) == 0 ? (int)L.r(nm) : -1; int mixAt = L.r(6) == 0 ? (int)L.r(nm) : -1; int dup = L.r(6) == 0 ? (int)L.r(nm) : -1;
  bool geo = row >= 5000; int symX = -1;   // short noisy curves close to the acceptance limits, one coordinate free
  if (geo) { a.extrusion_rate_variance_percent = 0; a.path_tolerance_percent = 0.5; a.resolution_mm = L.r(2) ? 0.4 : 0.1; a.mm_per_arc_segment = 0; a.min_arc_segments = 0; a.max_radius_mm = 9999; i1 = i2 = bigE = mixAt = dup = symE = symF = -1; lead = 0; dz = 0; nm = 3 + L.r(3); g.xp = 3; spelling = 0; double Z[] = {0.3, 0.5, 0.7, 1.0}; nz = Z[L.r(4)] * a.resolution_mm; if (!symlen) a.max_gcode_length = 0; if (L.r(3) == 0) symX = L.r(nm); }
  int longAt = L.r(2) ? (int)L.r(nm) : -1; if (longAt >= 0 && L.r(2)) longAt = L.r(2) ? 0 : nm - 1; double longBy = L.r(3) ? 2 + L.r(20) / 10.0 : 0.3; double step0 = g.step; if (g.step * longBy > 1.6) longBy = 1.6 / g.step;
  bool fb = row >= 6000; int fbi = fb ? (row - 6000) % 36 : 0, fbp = fb ? (row - 6000) / 36 : 0;   // fbp: which coordinate is free (0: none)
  if (fb) { a.resolution_mm = 0.4; nm = FBN[fbi] - 1; spiral = 0; symX = -1; a.allow_3d_arcs = false; dz = 0; a.max_gcode_length = 0; g.erel = true; a.allow_dynamic_precision = false; a.default_xyz_precision = 3; g.px = FB[fbi][0]; g.py = FB[fbi][1]; g.ep = 5; kind = 0; }
  // ---- text
  if (first == 1) g.raw("; generated by PrusaSlicer 2.6"); if (first == 2) g.raw(";FLAVOR:UltiGCode"); if (first == 3) g.raw(""); if (first == 4) g.raw("G28");
  if (L.r(4) == 0) { g.raw("G92 X3 Y-4 Z0"); g.cx += 1; }
  g.start(fstyle == 1 ? "1800.25" : fstyle == 2 ? "900.5" : "1800"); if (fstyle == 3) g.raw("G1 F1800"); if (kind == 3) g.raw("G1 E0.8 F1800"), g.e = g.erel ? 0 : 0.8;
  for (int i = 0; i < lead; i++) { g.px += (i ? -0.9 : 1.3) * mm; g.py += (i ? 1.1 : 0.4) * mm; g.raw("G1" + g.xy() + (kind == 2 ? "" : g.E(g.de))); }
  std::string fdig = "";
  for (int i = 0; i < nm; i++) {
    if (i == p1 && i1 >= 0) interrupt(g, i1); if (i == p2 && i2 >= 0) interrupt(g, i2);
    if (spiral) r0 += spiral; g.step = i == longAt ? step0 * longBy : step0; g.rad = r0 + (nz ? ((int)L.r(201) - 100) / 100.0 * nz : 0); g.next(); z += dz;
    std::string X = h_fmt(g.px, g.xp), Y = h_fmt(g.py, g.xp), e; double d = g.de; if (i == bigE) d *= 1.18; if (i == mixAt) d = L.r(2) ? -d : 0;
    if (kind != 2 || i == mixAt) { if (i == symE && g.ep >= 3) { e = h_fmt(g.erel ? d : g.e + d, g.ep); g.e += d; e = " E" + e.substr(0, e.size() - 2) + h_digits(2, "e"); } else e = g.E(d); }
    if (fb) { X = h_fmt(FB[fbi][2 * i + 2], 2); Y = h_fmt(FB[fbi][2 * i + 3], 2); if ((fbp - 1) / 2 == i && fbp > 0) { std::string &t = fbp % 2 ? X : Y; t = t.substr(0, t.size() - 2) + h_digits(2, "x"); } }
    if (i == symX) X = X.substr(0, X.size() - 2) + h_digits(2, "x");
    std::string c = "G1 X" + X + " Y" + Y; if (spelling == 1) c = "g1x" + X + "y" + Y; if (spelling == 2) c = "G1 Y" + Y + " X" + X; if (spelling == 3 || g0) c = "G0 X" + X + " Y" + Y; if (spelling == 4) c = "G1 F1800 X" + X + " Y" + Y;
    if (dz != 0) c += " Z" + h_fmt(z, 3); c += e; if (i == symF) { if (fstyle >= 4 || fstyle == 0) c += std::string(" F1800.") + h_digits(1, "f"); else if (fstyle == 3) c += " F" + h_digits(2, "f") + "00"; else c += " F18" + h_digits(2, "f"); }
    if (ncom == 1 && i % 2) c += " ; c" + std::string(1, (char)('a' + i)); if (ncom == 2 && i == 1) c += long_comment(110 + 20 * L.r(4), 'b'); if (ncom == 3 && i < 3) c += long_comment(50, (char)('a' + i));
    g.raw(c); if (i == dup) g.raw(L.r(2) ? c : "G1" + g.xy());
  }
  if (L.r(3)) g.finish(); if (nonl) g.s.resize(g.s.size() - 1); if (crlf) { std::string t; for (char c : g.s) { if (c == '\n') t += '\r'; t += c; } g.s = t; }
  HRun r; h_weld(a, g.s, r);
  if (!vf_symbolic() && getenv("VF_SHOW")) { for (auto &l : r.src) printf("S %s\n", l.c_str()); for (auto &l : r.out) printf("O %s\n", l.c_str()); }
  HJudge j(h_cfg(a), r, mask); bool ok = j.run(); if (ok && j.arcs > 0) vf_reach("run with arcs");
  for (size_t i = 0; i < r.out.size(); i++) vf_obs_i("len?", r.out[i].find('\x01') == std::string::npos ? (long)r.out[i].size() : -1);
  vf_obs_i("arcs", r.res.progress.arcs_created); vf_obs_i("pts", r.res.progress.points_compressed);
}
