// The position tracker against an independent machine model. case = mask * 10000 + row; every row is one command
// history from a generated covering table, with symbolic parameter values.
#include "e2e.h"
#include "gcode_position.h"
enum { Q_MOVE = 1, Q_OFF = 2, Q_HIST = 4, Q_TOOL = 8, Q_HOME = 16, Q_EXTR = 32, Q_MOTION = 64, Q_LAYER = 128 };
static unsigned MASKS[] = {0xffffffffu, Q_MOVE, Q_OFF, Q_HIST, Q_TOOL, Q_HOME, Q_EXTR, Q_MOTION, Q_LAYER};
struct Lcg { unsigned long s; Lcg(unsigned long x) : s(x * 2862933555777941757ul + 3037000493ul) { for (int i = 0; i < 4; i++) r(1); } unsigned r(unsigned n) { s = s * 6364136223846793005ul + 1442695040888963407ul; return (unsigned)((s >> 33) % n); } };
struct Par { char l; double v; bool num; };
struct Model {
  int n = 1; bool zero = true, infl = false; int rel = 0, erel = 0;   // rel: 0 absolute, 1 relative, -1 not set yet
  double p[3] = {0, 0, 0}, off[3] = {0, 0, 0}, fw[3] = {0, 0, 0}; bool known[3] = {0, 0, 0}, homed[3] = {0, 0, 0}; double f = 0; bool fk = false;
  double tfw[8][3], e[8], eo[8], retr[8], ext[8]; bool extr[8], retg[8]; int tool = 0; double home[3] = {0, 0, 0}; bool nohome[3] = {0, 0, 0};
  double erl = 0; bool gapX = false, changed[3] = {0, 0, 0};
  Model() { for (int t = 0; t < 8; t++) { e[t] = eo[t] = retr[t] = ext[t] = 0; extr[t] = retg[t] = false; for (int a = 0; a < 3; a++) tfw[t][a] = 0; } }
  double g(int a) const { return p[a] - off[a] + fw[a]; }
  int clampTool(long t) const { if (!zero) t--; if (t < 0) t = 0; if (t > n - 1) t = n - 1; return (int)t; }
  static const Par *get(const std::vector<Par> &v, char l) { const Par *r = 0; for (auto &x : v) if (x.l == l) r = &x; return r; }
  void run(const std::string &c, const std::vector<Par> &v) {
    double e0[8]; for (int t = 0; t < 8; t++) e0[t] = e[t]; int tool0 = tool;
    if (c == "G0" || c == "G1" || c == "G2" || c == "G3") {
      if (auto q = get(v, 'F')) { f = q->v; fk = true; }
      for (int a = 0; a < 3; a++) if (auto q = get(v, "XYZ"[a])) { if (rel == 1) { if (known[a]) p[a] = p[a] + q->v; } else if (rel == 0) { fw[a] = tfw[tool][a]; p[a] = q->v + off[a] - fw[a]; known[a] = true; } }
      if (auto q = get(v, 'E')) { if (erel == 1) e[tool] = e[tool] + q->v; else if (erel == 0) e[tool] = q->v + eo[tool]; }
    } else if (c == "G90" || c == "G91") { rel = c == "G91"; if (infl) erel = rel; }
    else if (c == "M82") erel = 0; else if (c == "M83") erel = 1;
    else if (c == "G92") {
      bool any = get(v, 'X') || get(v, 'Y') || get(v, 'Z') || get(v, 'E'); if (get(v, 'O')) homed[0] = homed[1] = homed[2] = true;
      if (!any && !get(v, 'O')) { for (int a = 0; a < 3; a++) if (known[a]) off[a] = p[a] + fw[a]; eo[tool] = e[tool]; }
      for (int a = 0; a < 3; a++) if (auto q = get(v, "XYZ"[a])) { if (known[a] && homed[a]) off[a] = p[a] + fw[a] - q->v; else { off[a] = 0; p[a] = q->v - fw[a]; known[a] = true; } }
      if (auto q = get(v, 'E')) eo[tool] = e[tool] - q->v;
    } else if (c == "G28") { bool any = get(v, 'X') || get(v, 'Y') || get(v, 'Z'); for (int a = 0; a < 3; a++) if (!any || get(v, "XYZ"[a])) { homed[a] = true; if (!nohome[a]) { p[a] = home[a]; known[a] = true; } } }
    else if (c == "T") { if (v.size() && v[0].num) tool = clampTool((long)v[0].v); }
    else if (c == "G10" || c == "M218") { if (auto q = get(v, c == "G10" ? 'P' : 'T')) { int t = clampTool((long)q->v); for (int a = 0; a < 3; a++) if (auto w = get(v, "XYZ"[a])) if (w->num) tfw[t][a] = w->v; } }
    erl = e[tool] - e0[tool]; (void)tool0;
  }
};
static bool near(double a, double b) { return vf_near(a, b, 1e-6); }
struct Snap { double p[3], e[8], f; bool k[3]; int tool; std::string text; };
static Snap snap(const position &q, int n) { Snap s; s.p[0] = q.x; s.p[1] = q.y; s.p[2] = q.z; s.k[0] = q.x_null; s.k[1] = q.y_null; s.k[2] = q.z_null; for (int t = 0; t < n; t++) s.e[t] = q.get_extruder(t).e; s.f = q.f; s.tool = q.current_tool; s.text = q.command.gcode; return s; }
static bool same(const Snap &a, const Snap &b, int n) { bool r = a.tool == b.tool && a.text == b.text; for (int i = 0; i < 3; i++) { r = r && a.k[i] == b.k[i]; r = vf_and(r, a.p[i] == b.p[i]); } for (int t = 0; t < n; t++) r = vf_and(r, a.e[t] == b.e[t]); return vf_and(r, a.f == b.f); }
extern "C" void vf_main(void) {
  long cs = vf_case(); unsigned mask = MASKS[cs / 10000]; int row = (int)(cs % 10000), prof = row / 1000; bool grid = prof >= 8, lifts = prof == 8; if (grid) prof = 4; /* heights and corners exactly on the limits; lifts: several tools with lift heights of their own */ Lcg L(row); Model m; gcode_position_args a; int bs[] = {50, 2, 3, 5, 8}; a.position_buffer_size = bs[L.r(5)];
  m.n = L.r(3) ? 1 + L.r(4) : 8; if (row % 3 == 0) m.n = 2 + L.r(3); a.shared_extruder = m.n == 1 && L.r(2); a.set_num_extruders(m.n); m.zero = a.zero_based_extruder = L.r(4) != 0; m.infl = a.g90_influences_extruder = L.r(3) == 0; a.default_extruder = 0;
  int dm = L.r(5); a.xyz_axis_default_mode = dm == 0 ? "relative" : dm == 1 ? "require-explicit" : "absolute"; m.rel = dm == 0 ? 1 : dm == 1 ? -1 : 0; dm = L.r(4); a.e_axis_default_mode = dm == 0 ? "relative" : dm == 1 ? "require-explicit" : "absolute"; m.erel = dm == 0 ? 1 : dm == 1 ? -1 : 0;
  for (int i = 0; i < 3; i++) { m.nohome[i] = L.r(5) == 0; m.home[i] = L.r(3) ? 0 : (int)L.r(300) - 100; } a.home_x = m.home[0]; a.home_y = m.home[1]; a.home_z = m.home[2]; a.home_x_none = m.nohome[0]; a.home_y_none = m.nohome[1]; a.home_z_none = m.nohome[2];
  for (int t = 0; t < m.n; t++) { a.retraction_lengths[t] = L.r(2) ? 0.8 : 0; a.z_lift_heights[t] = L.r(2) ? 0.2 : 0; if (!a.shared_extruder && L.r(5) == 0) { a.x_firmware_offsets[t] = m.tfw[t][0] = (int)L.r(40) - 20; a.y_firmware_offsets[t] = m.tfw[t][1] = L.r(20); } }
  if (prof == 1 || prof == 3) { if (m.n == 1) { m.n = 2 + L.r(3); a.shared_extruder = false; double h[3] = {a.home_x, a.home_y, a.home_z}; a.set_num_extruders(m.n); for (int t = 0; t < 8; t++) for (int i = 0; i < 3; i++) m.tfw[t][i] = 0; (void)h; } }
  if (lifts) { m.n = 2 + L.r(3); m.zero = a.zero_based_extruder = true; a.shared_extruder = false; a.set_num_extruders(m.n); for (int t = 0; t < 8; t++) for (int i = 0; i < 3; i++) m.tfw[t][i] = 0; for (int t = 0; t < m.n; t++) a.z_lift_heights[t] = 0.1 * ((t + row) % m.n); }
  // profile 4: heights, layers, printable area, lifts
  double inc = 0, prime = 0, minl = 0, lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0}; bool bound = false, circ = false;
  struct { int layer = 0, inc = 0, incs = 0; double h = 0, last = 0; bool lastNull = true, primed = false, in = true, hop = false; } y;
  if (prof == 4) {
    bound = L.r(2); circ = L.r(2); prime = L.r(2) ? 0.75 : 0; minl = L.r(2) ? 0.05 : 0; inc = L.r(2) ? 0.5 : 0; for (int i = 0; i < 3; i++) { lo[i] = i == 2 ? 0 : (int)L.r(100) - 50; hi[i] = 60 + L.r(150); } if (circ) hi[0] = 60 + L.r(100);
    a.is_bound_ = bound; a.is_circular_bed = circ; a.priming_height = prime; a.minimum_layer_height = minl; a.height_increment = inc; a.snapshot_x_min = lo[0]; a.snapshot_x_max = hi[0]; a.snapshot_y_min = lo[1]; a.snapshot_y_max = hi[1]; a.snapshot_z_min = lo[2]; a.snapshot_z_max = hi[2];
    a.xyz_axis_default_mode = "absolute"; m.rel = 0;
  }
  const double *lo_ = lo, *hi_ = hi; gcode_position P(a); int steps = prof ? 9 + L.r(6) : 6 + L.r(5); int s1 = L.r(steps), s2 = L.r(steps), s3 = steps - 1 - L.r(3); std::vector<Snap> hist; hist.push_back(snap(P.get_current_position(), m.n)); std::vector<Model> ms; int cap = a.position_buffer_size; int fresh = 0, deepest = 0;
  for (int k = 0; k < steps; k++) {
    int pick = L.r(22); std::string c; std::vector<Par> v; bool sym = k == s1 || k == s2 || k == s3;
    auto num = [&](double lo, double hi, const char *nm) { double d = (int)L.r(2001) / 1000.0 * (hi - lo) / 2 + lo; d = floor(d * 1000 + 0.5) / 1000; if (grid && *nm == 'z') return ((int)L.r(17)) * 0.05; if (grid && *nm != 'e' && *nm != 'f' && L.r(2)) { int ax = *nm == 'x' ? 0 : 1; return L.r(2) ? lo_[ax] : hi_[ax]; } if (sym && L.r(2) && !(prof == 4 && (*nm == 'e' || *nm == 'f'))) d = vf_double(lo, hi, nm); return d; };
    auto add = [&](char l, double d) { v.push_back({l, d, true}); };
    if (prof == 0) { if (k == 0 && L.r(3)) pick = 12; if (k == 1 && L.r(3)) pick = 0; }
    else { static const char PK[5][26] = {"", "ttttggmmaaaabbbbbcooorh00", "rraaaabbbbhhhhooooqq00zzz", "eeeeeeeeebbttmnoooll0hgrr", "xxxxxxxxxvvvvvvwweeet0olb"}; char z = lifts ? "xxxxxxxvvvvvvvwwtttttt0eb"[L.r(25)] : PK[prof % 5][L.r(25)]; if (k == 0 && prof != 2) z = 'H';
      switch (z) { case 't': pick = 16; break; case 'g': pick = 18; break; case 'm': pick = prof == 3 ? 10 : 19; break; case 'a': pick = 0; break; case 'b': pick = L.r(2) ? 1 : 4; break; case 'c': pick = 5; break; case 'o': pick = L.r(2) ? 14 : 15; break; case 'l': pick = 13; break; case 'r': pick = 8; break; case 'q': pick = 9; break; case 'h': case 'H': pick = 12; break; case 'e': pick = L.r(3) ? 3 : 4; break; case 'n': pick = 11; break; case 'z': pick = 30; break; case 'x': pick = 31; break; case 'v': pick = 32; break; case 'w': pick = 3; break; default: pick = 20; } }
    if (pick < 8) { const char *G[] = {"G1", "G1", "G0", "G1", "G1", "G2", "G3", "G1"}; c = G[pick]; int w = pick == 0 ? 7 : L.r(32); if (pick == 3) w = 8; if (pick == 4) w |= 11; if (w & 1) add('X', num(-300, 300, "x")); if (w & 2) add('Y', num(-300, 300, "y")); if (w & 4) add('Z', num(0, 200, "z")); if (w & 8) { double d = m.erel == 1 ? num(-2, 3, "e") : m.e[m.tool] - m.eo[m.tool] + num(-2, 3, "e"); add('E', d); } if (w & 16) add('F', num(1, 20000, "f")); if (w & 8 && L.r(4) == 0) { for (size_t i = 0; i + 1 < v.size(); i++) { Par t = v[i]; v[i] = v[v.size() - 1]; v[v.size() - 1] = t; } } }
    else if (pick == 8) c = L.r(2) ? "G90" : "G91"; else if (pick == 9) c = "G91"; else if (pick == 10) c = "M83"; else if (pick == 11) c = "M82";
    else if (pick == 12) { c = "G28"; int w = L.r(2) ? 0 : L.r(8); for (int i = 0; i < 3; i++) if (w >> i & 1) v.push_back({"XYZ"[i], 0, L.r(2) != 0}); }
    else if (pick < 16) { c = "G92"; int w = L.r(16); if (pick == 13) w = 8; if (prof && L.r(3) == 0) w = 0; if (w & 1) add('X', num(-300, 300, "x")); if (w & 2) add('Y', num(-300, 300, "y")); if (w & 4) add('Z', num(0, 200, "z")); if (w & 8) add('E', num(-10, 10, "e")); if (L.r(6) == 0) v.push_back({'O', 0, false}); }
    else if (pick < 18) { c = "T"; int tn = L.r(m.n + 2); static const double HUGE_T[] = {0, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 9007199254740992.0}; double th = tn > m.n ? HUGE_T[row % 6] : 0; if (th > 0) add('T', th); else add('T', tn); if (L.r(8) == 0) { v.clear(); v.push_back({'T', 0, false}); } }
    else if (pick == 18) { c = "G10"; add('P', L.r(m.n + 2)); if (L.r(4)) add('X', num(-50, 50, "x")); if (L.r(3)) add('Y', num(-50, 50, "y")); if (L.r(3) == 0) add('Z', num(-2, 2, "z")); if (L.r(5) == 0) v.erase(v.begin()); }
    else if (pick == 19) { c = "M218"; add('T', L.r(m.n + 2)); if (L.r(4)) add('X', num(-50, 50, "x")); if (L.r(3)) add('Y', num(-50, 50, "y")); if (L.r(3) == 0) add('Z', num(-2, 2, "z")); if (L.r(5) == 0) v.erase(v.begin()); }
    else if (pick == 20) { const char *O[] = {"M104", "G11", "G20", "G4", "", "M400", "M207", "M563"}; c = O[L.r(8)]; if (L.r(2)) add('S', 3); if (L.r(3) == 0) add('X', 17); }
    else if (pick == 30) { c = "G1"; char ax = "XYZ"[L.r(3)]; double d = 0; if (L.r(2)) d = num(0, 200, "v"); add(ax, d); }
    else if (pick == 31) { c = "G1"; add('X', num(-150, 250, "x")); add('Y', num(-150, 250, "y")); if (L.r(5) == 0) add('Z', num(0, 3, "z")); double d = m.erel == 1 ? num(0, 2, "e") : m.e[m.tool] - m.eo[m.tool] + num(0, 2, "e"); add('E', d); }
    else if (pick == 32) { c = "G1"; add('Z', num(0, 3, "z")); if (L.r(4) == 0) add('X', num(-150, 250, "x")); }
    else { c = "G1"; add('F', num(1, 20000, "f")); }
    parsed_command cmd; cmd.command = c; cmd.gcode = c + " #" + std::to_string(k); cmd.is_known_command = c.size() > 0; cmd.is_empty = c.empty(); std::string tx = c;
    for (auto &x : v) { tx += std::string(" ") + x.l + (x.num && !vf_is_sym_d(x.v) ? h_fmt(x.v, 3) : ""); if (c == "T") { if (x.num) cmd.parameters.push_back(parsed_command_parameter("T", (unsigned long)x.v)); else cmd.parameters.push_back(parsed_command_parameter("T", std::string("?"))); } else if (x.num) cmd.parameters.push_back(parsed_command_parameter(std::string(1, x.l), x.v, (unsigned char)3)); else cmd.parameters.push_back(parsed_command_parameter(std::string(1, x.l), std::string(""))); }
    if (!vf_symbolic() && getenv("VF_SHOW")) printf("S %s\n", tx.c_str());
    Model before = m; P.update(cmd, k + 1, k, k); ms.push_back(before); m.run(c, v); position q = P.get_current_position();
    bool mv = c == "G0" || c == "G1" || c == "G2" || c == "G3" || c == "G90" || c == "G91" || c == "M82" || c == "M83", of = c == "G92", tl = c == "T" || c == "G10" || c == "M218", hm = c == "G28";
    unsigned rel = mv ? Q_MOVE | Q_OFF | Q_TOOL | Q_HOME : of ? Q_OFF : tl ? Q_TOOL : hm ? Q_HOME : Q_MOVE;
    double X[3] = {q.x, q.y, q.z}, GX[3] = {q.get_gcode_x(), q.get_gcode_y(), q.get_gcode_z()}; bool N[3] = {q.x_null, q.y_null, q.z_null}, H[3] = {q.x_homed, q.y_homed, q.z_homed};
    if (mask & rel & (Q_MOVE | Q_OFF | Q_TOOL | Q_HOME)) {
      for (int i = 0; i < 3; i++) { vf_assert(N[i] == !m.known[i], "an axis is known exactly if the history determines it"); if (!m.known[i]) continue; vf_assert(near(X[i], m.p[i]), "machine position follows the commands"); vf_assert(near(GX[i], m.g(i)), "coordinate position follows the commands"); vf_assert(H[i] == m.homed[i], "homed axes"); }
      for (int t = 0; t < m.n; t++) { vf_assert(near(q.get_extruder(t).e, m.e[t]), "filament position of every tool"); vf_assert(near(q.get_extruder(t).get_offset_e(), m.e[t] - m.eo[t]), "filament coordinate of every tool"); }
      vf_assert(q.current_tool == m.tool, "selected tool"); vf_assert(q.f_null == !m.fk, "feedrate known"); if (m.fk) vf_assert(q.f == m.f, "feedrate"); vf_reach("position judged");
      vf_assert((m.rel < 0) == q.is_relative_null && (m.rel < 0 || q.is_relative == (m.rel == 1)), "coordinate mode"); vf_assert((m.erel < 0) == q.is_extruder_relative_null && (m.erel < 0 || q.is_extruder_relative == (m.erel == 1)), "extrusion mode");
    }
    if (mask & Q_MOTION) {
      vf_assert(near(q.get_current_extruder().e_relative, m.erl), "filament moved by the command"); if (m.known[2] && before.known[2]) vf_assert(near(q.z_relative, m.p[2] - before.p[2]), "height change of the command");
      bool far = false; for (int i = 0; i < 3; i++) { double d = m.p[i] - before.p[i]; far = vf_or(far, vf_or(d > 2e-5, d < -2e-5)); } far = vf_or(far, vf_or(m.erl > 2e-5, m.erl < -2e-5)); for (int i = 0; i < 3; i++) far = vf_or(far, m.known[i] != before.known[i]);
      bool none = true; for (int i = 0; i < 3; i++) none = vf_and(none, vf_and(m.p[i] == before.p[i], m.known[i] == before.known[i])); none = vf_and(none, m.erl == 0);
      vf_assert(vf_or(!far, q.has_position_changed), "a change of position is reported"); vf_assert(vf_or(!none, !q.has_position_changed), "no change of position is reported without one");
      bool g01 = c == "G0" || c == "G1" || c == "G2" || c == "G3"; vf_assert(q.is_travel() == (g01 && !m.get(v, 'E') && (m.get(v, 'X') || m.get(v, 'Y'))), "travel moves are the moves without extrusion"); vf_reach("motion judged");
    }
    if (mask & Q_EXTR) {
      int t = m.tool; bool sameTool = before.tool == t; double d = m.erl; extruder &x = q.get_current_extruder(); double r0 = before.retr[t], r = vf_max(0, r0 - d), ex = vf_max(0, d - r0);
      bool clear = true; double th[] = {d, r0 - d}; for (double w : th) clear = vf_and(clear, vf_or(vf_and(w < 1e-6, w > -1e-6), vf_or(w > 2e-5, w < -2e-5)));   // away from the tracker's own tolerance
      vf_assume(clear); m.retr[t] = r; 
      bool changed = q.has_position_changed; if (changed) { vf_assert(vf_near(x.retraction_length, r, 1e-5), "retracted length"); if (sameTool) { vf_assert(x.is_extruding == (ex > 1e-5), "extruding exactly if filament passes the primed point"); vf_assert(vf_near(x.extrusion_length, ex, 1e-5), "extruded length"); vf_assert(x.is_extruding_start == vf_and(ex > 1e-5, !before.extr[t]), "start of extrusion"); if (ex > 1e-5) vf_assert(x.is_retracting == false || !sameTool, "extruding is not retracting"); m.extr[t] = ex > 1e-5; } else m.extr[t] = false; vf_reach("extrusion judged"); }
    }
    if (mask & Q_LAYER) {
      auto apart = [&](double u, double w) { double d = u - w; if (d == 0 && !vf_is_sym_d(d)) return; if (vf_is_sym_d(d)) vf_assume(vf_or(d > 2e-5, d < -2e-5)); else vf_assume(fabs(d) < 1e-6 || fabs(d) > 2e-5); };   // away from the tracker's own tolerance
      bool lc = false, hc = false; extruder &x = q.get_current_extruder();
      if (q.has_position_changed) {
        bool in = true; double Z = m.p[2];
        if (bound && circ) { double d2 = m.p[0] * m.p[0] + m.p[1] * m.p[1], r = hi[0]; vf_assume(vf_or(d2 > (r + 1e-4) * (r + 1e-4), d2 < (r - 1e-4) * (r - 1e-4))); in = d2 < r * r; }
        else if (bound) for (int i = 0; i < 3; i++) { apart(m.p[i], lo[i]); apart(m.p[i], hi[i]); in = vf_and(in, vf_and(m.p[i] > lo[i] - 1e-5, m.p[i] < hi[i] + 1e-5)); }
        if (bound) y.in = in;
        apart(Z, y.last); bool above = m.known[2] && Z > y.last + 1e-5;
        if (above && (x.is_extruding || (y.layer > 0 && x.is_deretracted))) {
          if (prime > 0) apart(Z, prime); if (!y.primed && (prime == 0 || Z < prime - 1e-5)) y.primed = true;
          if (y.primed && in) { y.last = Z; y.lastNull = false; apart(Z, y.h + minl); if (Z > y.h + minl - 1e-5) { y.h = Z; y.layer++; lc = true; if (inc > 0) { double u = Z / inc; int k = (int)floor(u + 1e-4); vf_assume(vf_or(vf_and(u - k < 1e-6, u - k > -1e-6), vf_and(u - k > 1e-3, u - k < 1 - 1e-3))); if (k > y.inc && k > 1) { y.inc = k; y.incs++; hc = true; } } } }
        }
        double lift = a.z_lift_heights[m.tool]; apart(Z - y.last, lift); y.hop = m.known[2] && !y.lastNull && !x.is_extruding && Z > y.last + 1e-5 && Z - y.last > lift - 1e-5;
      }
      if (!vf_symbolic() && getenv("VF_SHOW")) printf("  Z %g bound %d circ %d in %d/%d layer %ld/%d lc %d/%d h %g/%g inc %d/%d cnt %d/%d ch %d/%d\n", m.p[2], bound, circ, q.is_in_bounds, y.in, q.layer, y.layer, q.is_layer_change, lc, q.height, y.h, q.height_increment, y.inc, q.height_increment_change_count, y.incs, q.is_height_increment_change, hc);
      vf_assert(q.is_in_bounds == y.in, "inside the printable area"); vf_assert(q.layer == y.layer && q.is_layer_change == lc, "a layer starts at the first extrusion above all earlier ones"); vf_assert(near(q.height, y.h), "layer height");
      vf_assert(q.last_extrusion_height_null == y.lastNull && (y.lastNull || near(q.last_extrusion_height, y.last)), "highest extrusion so far"); vf_assert(q.is_zhop == y.hop, "lifted above the print"); vf_assert(q.is_printer_primed == y.primed, "primed"); vf_assert(q.height_increment == y.inc && q.height_increment_change_count == y.incs && q.is_height_increment_change == hc, "height increments"); vf_reach("layer judged");
    }
    hist.push_back(snap(q, m.n)); if (fresh < cap) fresh++;
    if (mask & Q_HIST) {
      deepest = std::max(deepest, (int)hist.size() - 1); for (int i = 0; i <= fresh && i < cap; i++) { if (i == fresh && ((int)hist.size() - 1 != fresh || deepest >= cap)) break; vf_assert(same(snap(P.get_position(i), m.n), hist[hist.size() - 1 - i], m.n), "history entries stay what they were"); }
      if (L.r(5) == 0) { P.grow_max_positions(cap * 2); if (P.get_max_positions() != cap * 2) vf_assert(false, "history grows"); cap *= 2; for (int i = 0; i < fresh; i++) vf_assert(same(snap(P.get_position(i), m.n), hist[hist.size() - 1 - i], m.n), "growing keeps the history"); }
      if (L.r(4) == 0 && fresh > 1) { int u = 1 + L.r(fresh - 1 > 2 ? 2 : fresh - 1); if (L.r(2)) { position *old = P.undo_update(u); for (int i = 0; i < u; i++) vf_assert(same(snap(old[i], m.n), hist[hist.size() - 1 - i], m.n), "undo returns the removed states"); delete[] old; } else for (int i = 0; i < u; i++) P.undo_update();
        for (int i = 0; i < u; i++) { hist.pop_back(); m = ms.back(); ms.pop_back(); } fresh -= u; vf_assert(same(snap(P.get_current_position(), m.n), hist.back(), m.n), "undo restores the earlier state exactly"); vf_reach("undo judged"); }
    }
  }
  vf_obs_d("x", P.get_current_position().x); vf_obs_d("e", P.get_current_position().get_current_extruder().e);
}
