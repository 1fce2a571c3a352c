#include "e2e.h"
extern "C" void vf_main() {
  std::string t = "G90\nM82\nG92 E0\nG1 X110 Y100 F1200\n"; double E = 0;
  for (int k = 1; k <= 6; k++) { double a = k * 0.15; E += 0.05; t += "G1 X" + h_fmt(100 + 10 * cos(a), 3) + " Y" + h_fmt(100 + 10 * sin(a), 3) + " E" + h_fmt(E, 5) + "\n"; }
  t += "G1 X50 Y50 F3000\nM104 S0\n";
  arc_welder_args a = h_args("s.gcode", "t.gcode"); HRun r; h_weld(a, t, r);
  for (auto &l : r.out) vf_print_s(l.c_str());
  vf_print_i(r.res.progress.arcs_created);
  vf_assert(r.res.success, "ok");
}
