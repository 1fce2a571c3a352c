// Source-text generator shared by the end-to-end harnesses.
#pragma once
#include "e2e.h"
struct Gen {
  std::string s; double cx = 100, cy = 100, rad = 10, a = 0, step = 0.1; bool erel = false; double e = 0, de = 0.05; int n = 0; int xp = 3, ep = 5; int sgn = 1;
  double px, py;
  Gen() { px = cx + rad; py = cy; }
  void raw(const std::string &l) { s += l; s += '\n'; }
  void next() { a += step * sgn; px = cx + rad * cos(a); py = cy + rad * sin(a); }
  std::string xy() { return " X" + h_fmt(px, xp) + " Y" + h_fmt(py, xp); }
  std::string E(double d) { e += d; return " E" + h_fmt(erel ? d : e, ep); }
  void start(const char *f = "1800") { raw(erel ? "M83" : "M82"); raw("G92 E0"); raw("G1 Z0.200 F6000"); raw("G1" + xy() + " F" + f); }
  void move(const std::string &extra = "") { next(); raw("G1" + xy() + E(de) + extra); n++; }
  void moves(int k) { for (int i = 0; i < k; i++) move(); }
  void finish() { raw("G1 X50 Y50 F3000"); raw("M104 S0"); }
};
static void interrupt(Gen &g, int k) {
  switch (k) {
  case 0: break;
  case 1: g.raw(""); break;
  case 2: g.raw("; plain comment"); break;
  case 3: g.raw(";TYPE:WALL-OUTER"); break;
  case 4: g.raw("G92 E0"); g.e = 0; break;
  case 5: { std::string p = h_digits(1, "e"), q = h_digits(1, "e2"); g.raw("G92 E" + p + "." + q); break; }
  case 6: g.raw("G92 X" + h_fmt(g.px, 3) + " Y" + h_fmt(g.py, 3)); break;
  case 7: g.raw("G1 F1" + h_digits(3, "f")); break;
  case 8: g.raw("G1 Z0." + h_digits(2, "z")); break;
  case 9: g.raw("G1" + g.E(-0.5) + " F2400"); break;
  case 10: g.next(); g.raw("G1" + g.xy()); break;
  case 11: g.next(); g.raw("G1" + g.xy() + g.E(-0.05)); break;
  case 12: g.raw(g.erel ? "M82" : "M83"); if (g.erel) { g.erel = false; } else g.erel = true; break;
  case 13: { g.raw("G91"); double ox = g.px, oy = g.py; g.next(); g.raw("G1 X" + h_fmt(g.px - ox, 3) + " Y" + h_fmt(g.py - oy, 3) + g.E(0.05)); g.raw("G90"); break; }
  case 14: g.raw("T1"); break;
  case 15: g.raw("M106 S" + h_digits(3, "s")); break;
  case 16: g.raw("G4 P100"); break;
  case 17: g.raw("SOME_MACRO A=1"); break;
  case 18: { double ox = g.px, oy = g.py; g.next(); g.raw("G3" + g.xy() + " I" + h_fmt(g.cx - ox, 3) + " J" + h_fmt(g.cy - oy, 3) + g.E(0.05)); break; }
  case 19: g.raw("G0" + g.xy()); break;
  case 20: g.next(); g.raw("G1" + g.xy() + g.E(0.05) + " ; inner note"); break;
  case 21: g.raw("G90"); break;
  case 22: g.raw("G1"); break;
  case 23: g.raw("M117 hello; note"); break;
  case 24: g.next(); g.raw("G1" + g.xy() + g.E(0.05) + " F1" + h_digits(3, "f")); break;
  case 25: g.raw("M204 S" + h_digits(3, "s") + " ; accel"); break;
  case 26: g.raw("@pause now"); break;
  case 27: g.raw("G92 Z0." + h_digits(1, "z")); break;
  case 28: g.raw("  ; indented comment"); break;
  case 29: g.raw("M221 S95"); break;
  case 30: g.next(); g.raw("G1 Y" + h_fmt(g.py, 3) + " X" + h_fmt(g.px, 3) + g.E(0.05)); break;
  case 31: g.next(); g.raw("G0" + g.xy() + g.E(0.05)); break;
  case 32: g.raw("G10"); break;
  case 33: g.raw("G11"); break;
  case 34: g.raw("G2 X1 Y2"); break;
  case 35: g.raw("G17"); break;
  case 36: g.next(); g.raw("G01" + g.xy() + g.E(0.05)); break;
  case 37: g.next(); g.raw("G00" + g.xy()); break;
  case 38: g.raw("G092 E0"); g.e = 0; break;
  }
}
static const int NINT = 39;
static void args_variant(arc_welder_args &a, int v) {
  if (v & 1) a.allow_3d_arcs = true;
  if (v & 2) a.allow_travel_arcs = true;
  if (v & 4) a.allow_dynamic_precision = true;
  if (v & 8) a.extrusion_rate_variance_percent = 0;
}

