#include "oracle.h"
#include "gen.h"
// A run as a whole: header, I/O faults and cancellation, independence from logging and buffering.
static std::string base(bool erel = false) { Gen g; g.erel = erel; g.start(); g.moves(6); g.raw(";x"); g.moves(4); g.finish(); return g.s; }
static bool same_val(const std::string &a, const std::string &b) { if (a.find('\x01') == std::string::npos) return h_same(a, b); HCmd x = h_parse(a), y = h_parse(b); if (x.let != y.let || x.code != y.code) return false; for (int i = 0; i < 26; i++) { if (x.p[i].has != y.p[i].has) return false; if (x.p[i].has && !vf_must(x.p[i].v == y.p[i].v)) return false; } return h_same(x.comment, y.comment); }
// ---------------------------------------------------------------- header
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static int find_line(const std::vector<std::string> &o, size_t a, size_t b, const char *p) { int n = -1; for (size_t i = a; i < b; i++) if (starts(o[i], p)) n = (int)i; return n; }
static double val_after(const std::string &l) { size_t q = l.find('='); HNum n; h_num(l, q + 1, n); vf_assert(n.has, "header value is a number"); return n.v; }
static void header(int scen) {
  arc_welder_args a = h_args("s.gcode", "t.gcode"); std::string first; bool keep = false;
  if (scen == 0) { int k = vf_choose(8, "first"); const char *f[] = {";FLAVOR:UltiGCode", "; generated by PrusaSlicer", "; generated by PrusaSlicer 2.4.0 on 2022", ";FLAVOR:Marlin", "G28", "", ";Generated with Cura_SteamEngine", "M104 S200 ; hot"}; first = f[k]; keep = k < 3; }
  if (scen == 1) { int c = vf_byte(32, 126, "c"); first = ";FLAVOR:UltiGCod"; first += (char)c; keep = c == 'e'; }
  if (scen == 2) { int c = vf_byte(32, 126, "c"), d = vf_byte(32, 126, "d"); first = "; generated by PrusaSlice"; first += (char)c; first += (char)d; keep = c == 'r'; }
  if (scen == 3) { for (int i = 0; i < 3; i++) first += (char)vf_byte(32, 126, "c"); }
  if (scen >= 4) {
    first = "G28"; int k = scen - 4;
    if (k == 0) { a.resolution_mm = vf_int(1, 100000, "res") / 100.0; }
    if (k == 1) { a.max_radius_mm = vf_int(1, 1200000, "maxr") / 100.0; }
    if (k == 2) { a.path_tolerance_percent = vf_int(0, 1000, "tol") / 1000.0; }
    if (k == 3) { a.mm_per_arc_segment = vf_int(0, 1000, "mm") / 100.0; a.min_arc_segments = vf_int(-3, 50, "min"); }
    if (k == 4) { int m = vf_int(0, 15, "flags"); a.allow_3d_arcs = m & 1; a.allow_travel_arcs = m & 2; a.allow_dynamic_precision = m & 4; a.g90_g91_influences_extruder = m & 8; }
    if (k == 5) { a.default_xyz_precision = 3 + vf_choose(4, "px"); a.default_e_precision = 3 + vf_choose(4, "pe"); }
    if (k == 6) { a.extrusion_rate_variance_percent = vf_int(0, 3000, "var") / 1000.0; }
  }
  Gen g; g.start(); g.moves(3); g.finish(); std::string text = first + "\n" + g.s; if (scen == 0 && vf_choose(2, "crlf")) { std::string t; for (char c : text) { if (c == '\n') t += '\r'; t += c; } text = t; first += '\r'; } HRun r; h_weld(a, text, r);
  size_t i0 = keep ? 1 : 0; if (keep) vf_assert(r.out.size() && h_same(r.out[0], first), "a firmware or slicer marker stays the first line");
  if (!keep && r.out.size() && r.out[0].size()) vf_assert(r.out[0].find("Postprocessed by [ArcWelder]") != std::string::npos, "the header comes first");
  size_t n = 0, at = 0; for (size_t i = 0; i < r.out.size(); i++) if (r.out[i].find("Postprocessed by [ArcWelder]") != std::string::npos) { n++; at = i; }
  vf_assert(n == 1 && at == i0, "the header is written exactly once, at its place"); size_t e = at; while (e < r.out.size() && r.out[e].size()) { vf_assert(r.out[e][0] == ';', "the header consists of comments"); e++; }
  vf_assert(e < r.out.size(), "the header ends with an empty line");
  // everything else is the source
  std::vector<std::string> rest(r.out.begin(), r.out.begin() + i0); rest.insert(rest.end(), r.out.begin() + e + 1, r.out.end());
  // settings
  int q = find_line(r.out, at, e, "; resolution="); vf_assert(q >= 0, "resolution is recorded"); vf_assert(vf_near(val_after(r.out[q]), a.resolution_mm, 0.00501), "recorded resolution");
  q = find_line(r.out, at, e, "; path_tolerance="); vf_assert(q >= 0, "path tolerance is recorded"); vf_assert(vf_near(val_after(r.out[q]), a.path_tolerance_percent * 100, 0.0501), "recorded path tolerance");
  q = find_line(r.out, at, e, "; max_radius="); vf_assert(q >= 0, "maximum radius is recorded"); vf_assert(vf_near(val_after(r.out[q]), vf_min(a.max_radius_mm, 9999.0), 0.00501), "recorded maximum radius");
  bool fw = a.mm_per_arc_segment > 0 && a.min_arc_segments > 0; q = find_line(r.out, at, e, "; firmware_compensation=True"); vf_assert((q >= 0) == fw, "firmware compensation is recorded when on");
  if (fw) { q = find_line(r.out, at, e, "; mm_per_arc_segment="); vf_assert(q >= 0 && vf_near(val_after(r.out[q]), a.mm_per_arc_segment, 0.00501), "recorded segment length"); q = find_line(r.out, at, e, "; min_arc_segments="); vf_assert(q >= 0 && vf_near(val_after(r.out[q]), a.min_arc_segments, 0.01), "recorded minimum segments"); }
  vf_assert((find_line(r.out, at, e, "; allow_3d_arcs=True") >= 0) == a.allow_3d_arcs, "3D arcs are recorded when on"); vf_assert((find_line(r.out, at, e, "; allow_travel_arcs=True") >= 0) == a.allow_travel_arcs, "travel arcs are recorded when on");
  vf_assert((find_line(r.out, at, e, "; allow_dynamic_precision=True") >= 0) == a.allow_dynamic_precision, "dynamic precision is recorded when on"); vf_assert((find_line(r.out, at, e, "; g90_influences_extruder=True") >= 0) == a.g90_g91_influences_extruder, "G90 influence is recorded when on");
  q = find_line(r.out, at, e, "; default_xyz_precision="); vf_assert(q >= 0 && val_after(r.out[q]) == a.default_xyz_precision, "recorded XYZ precision"); q = find_line(r.out, at, e, "; default_e_precision="); vf_assert(q >= 0 && val_after(r.out[q]) == a.default_e_precision, "recorded E precision");
  bool ev = a.extrusion_rate_variance_percent > 0; q = find_line(r.out, at, e, "; extrusion_rate_variance="); vf_assert((q >= 0) == ev, "flow variance is recorded when on"); if (ev) vf_assert(vf_near(val_after(r.out[q]), a.extrusion_rate_variance_percent * 100, 0.0501), "recorded flow variance");
  vf_reach("header checked"); vf_obs_i("lines", (long)r.out.size()); vf_obs_i("at", (long)at);
}
// ---------------------------------------------------------------- faults and cancellation
static int fkind; static long flimit; static std::string srcp, dstp, refout, original; static char wfile[256]; static bool inplace, guard; static int ncb, cancel_at, nwr;
static std::string rd(const char *p) { bool g = guard; guard = true; std::string r = h_read(p); guard = g; return r; }
static void crash_ok(const char *op) {   // whatever happens next, the user's data is still on disk
  guard = true; bool src = vfs_exists(srcp.c_str()) && rd(srcp.c_str()) == original; bool fin = vfs_exists(srcp.c_str()) && !vfs_dirty(srcp.c_str()) && rd(srcp.c_str()) == refout; bool tmp = wfile[0] && vfs_exists(wfile) && !vfs_dirty(wfile) && rd(wfile) == refout; guard = false;
  vf_assert(src || fin || tmp, "the source or the complete result is on disk at every moment"); (void)op;
}
static int hook(const char *op, const char *path) {
  if (guard) return 0; std::string o = op; if (o == "write" || o == "read") { if (nwr++ < 2) crash_ok(op); } else { nwr = 0; crash_ok(op); }
  bool s = srcp == path;
  if (o == "openw") { guard = true; if (strlen(path) < sizeof wfile) strcpy(wfile, path); guard = false; }
  if (fkind == 1 && o == "openr" && s) return 1; if (fkind == 2 && o == "openw") return 1; if (fkind == 3 && o == "write") return vfs_wtotal > flimit; if (fkind == 4 && o == "remove" && s) return 1; if (fkind == 5 && o == "rename") return 1; if (fkind == 6 && o == "read" && s) return 1;
  return 0;
}
static bool cb(arc_welder_progress p, logger *, int) { ncb++; vf_assert(p.lines_processed >= 0 && p.source_file_position <= p.source_file_size, "progress stays within the file"); return cancel_at != ncb; }
static void faults(int scen) {
  fkind = scen % 10; inplace = vf_choose(2, "inplace"); int dir = vf_choose(2, "dir"); bool useCb = fkind >= 7 || vf_choose(2, "cb"); vfs_mkdir("d"); std::string D = dir ? "d/" : ""; srcp = D + "s.gcode"; dstp = inplace ? srcp : D + "t.gcode"; guard = true;
  original = base(); if (fkind == 8 || fkind == 9) { std::string t; for (int i = 0; i < 1001; i++) t += "M1\n"; original = t + original; }
  h_write("r.gcode", original); { arc_welder_args a = h_args("r.gcode", "ref.gcode"); arc_welder w(a); w.process(); } refout = h_read("ref.gcode"); h_write(srcp.c_str(), original);
  vf_assert(refout.size() > 100 && refout != original, "reference run produced output");
  flimit = fkind == 3 ? vf_int(0, (long)refout.size() - 1, "disk") : 0; nwr = 0; cancel_at = fkind == 7 ? 1 : fkind == 8 ? 2 : fkind == 9 ? 3 : -1; wfile[0] = 0; ncb = 0; vfs_wtotal = 0;
  arc_welder_args a = h_args(srcp.c_str(), dstp.c_str()); a.notification_period_seconds = -1; a.callback = useCb ? cb : (progress_callback)NULL; vfs_fault_hook = hook; guard = false; arc_welder_results res; { arc_welder w(a); res = w.process(); } crash_ok("end"); guard = true; vfs_fault_hook = 0;
  bool cancelled = fkind == 7 || fkind == 8, fault = (fkind >= 1 && fkind <= 3) || fkind == 6 || (inplace && (fkind == 4 || fkind == 5));
  vf_assert(res.success == (!cancelled && !fault), "success is reported exactly when the run completed"); vf_assert(res.cancelled == cancelled, "cancellation is reported exactly when requested");
  std::string now = vfs_exists(srcp.c_str()) ? h_read(srcp.c_str()) : "";
  if (!inplace) { vf_assert(now == original, "the source is never modified when another target is given"); if (res.success) vf_assert(h_read(dstp.c_str()) == refout, "the target holds the complete result"); }
  else { if (res.success) vf_assert(now == refout, "after an in-place run the source path holds the result"); else vf_assert(now == original || (wfile[0] && vfs_exists(wfile) && h_read(wfile) == refout), "a failed or cancelled in-place run loses nothing");
    if (wfile[0]) { std::string w = wfile; vf_assert(w != srcp, "an in-place run writes to another file first"); size_t k = w.rfind('/'); vf_assert((k == std::string::npos ? "" : w.substr(0, k + 1)) == D, "the temporary file lies beside the source"); if (res.success || cancelled) vf_assert(!vfs_exists(wfile), "no temporary file is left behind"); } }
  if (useCb) vf_assert(fkind == 1 || fkind == 2 || ncb >= 1, "progress is reported"); if (fkind == 8) vf_assert(ncb >= 2, "the run can be cancelled while it works");
  vf_reach("run finished under faults"); vf_obs_i("ok", res.success); vf_obs_i("now", (long)now.size());
}
// ---------------------------------------------------------------- independence
static bool cb2(arc_welder_progress, logger *, int) { return true; }
static void indep(int scen) {
  Gen g; g.erel = vf_choose(2, "erel"); int v = vf_choose(2, "opts"); g.start(); g.moves(4); interrupt(g, scen % 100); g.moves(5); g.finish(); int k = vf_choose(4, "what");
  arc_welder_args a = h_args("s.gcode", "t.gcode"), b = h_args("s.gcode", "u.gcode", k == 0 ? 0 : k == 1 ? (int)log_levels::DEBUG : 99); args_variant(a, v ? 7 : 0); args_variant(b, v ? 7 : 0); if (k == 2) { b.callback = cb2; b.notification_period_seconds = -1; } if (k == 3) b.buffer_size = 3 + vf_choose(2, "buf") * 300;
  HRun r, q; h_weld(a, g.s, r); h_weld(b, g.s, q); vf_assert(r.out.size() == q.out.size(), "same number of lines"); for (size_t i = 0; i < r.out.size() && i < q.out.size(); i++) vf_assert(same_val(r.out[i], q.out[i]), "logging, progress and buffering never change the output");
  vf_assert(r.res.progress.arcs_created == q.res.progress.arcs_created && r.res.progress.points_compressed == q.res.progress.points_compressed, "same statistics"); vf_reach("runs compared"); vf_obs_i("n", (long)r.out.size());
}
// ---------------------------------------------------------------- progress
static std::string ptext; static std::vector<arc_welder_progress> reports; static int pstop;
static int lines_in(const std::string &t, size_t n) { int k = 0; for (size_t i = 0; i < n; i++) if (t[i] == '\n') k++; if (n && t[n - 1] != '\n') k++; return k; }
// lines of the first n bytes that carry a command (the generated lines are commands exactly if they start with a letter)
static int codes_in(const std::string &t, size_t n) { int k = 0; bool start = true; for (size_t i = 0; i < n; i++) { if (start && t[i] >= 'A' && t[i] <= 'Z') k++; start = t[i] == '\n'; } return k; }
static int cr_blank(const std::string &t, size_t n) { int k = 0; bool start = true; for (size_t i = 0; i < n; i++) { if (start && t[i] == '\r') k++; start = t[i] == '\n'; } return k; }   // CRLF blank lines may be counted
// the processor clock: one reading falls anywhere between its neighbours
static long now_; static int nclk, free_reading; static long spacing; static long tick() { int i = nclk++; now_ = 1000000 + i * spacing; if (i == free_reading) now_ += vf_int(0, spacing, "time"); return now_; }
static bool watch(arc_welder_progress p, logger *, int) { reports.push_back(p); return (int)reports.size() != pstop; }
static void report(const arc_welder_progress &p, bool final) {
  long size = (long)ptext.size(), pos = p.source_file_position;
  vf_assert(p.source_file_size == size, "the reported source size is the size of the source"); vf_assert(pos >= 0 && pos <= size, "the reported position lies within the source"); if (pos < 0 || pos > size) return;
  vf_assert(p.percent_complete >= 0 && p.percent_complete <= 100, "the percentage is between 0 and 100"); if (size) vf_assert(vf_near(p.percent_complete, 100.0 * (double)pos / (double)size, 1e-9), "the percentage is the part of the source that has been read");
  vf_assert(p.seconds_elapsed >= 0, "elapsed time"); if (pos) vf_assert(p.seconds_remaining >= 0 && p.seconds_remaining < 1e12, "remaining time");
  vf_assert(p.lines_processed == lines_in(ptext, (size_t)pos), "the number of lines is the number of lines read"); int codes = codes_in(ptext, (size_t)pos); vf_assert(p.gcodes_processed >= codes && p.gcodes_processed <= codes + cr_blank(ptext, (size_t)pos), "the number of commands is the number of commands read");
  vf_assert(p.target_file_size >= 0, "target size"); if (pos && p.target_file_size > 0) { double r = (double)pos / (double)p.target_file_size; vf_assert(vf_near(p.compression_ratio, r, r * 1e-5), "the compression ratio is source to target size"); vf_assert(vf_near(p.compression_percent, 100.0 * (1 - 1 / r), 1e-3 + 1e-4 / r), "the compression percentage is the part saved"); }
  vf_assert(p.arcs_created <= p.points_compressed, "every arc replaces points"); (void)final;
}
static void prog(int scen) {
  static const int N[] = {0, 1, 2, 999, 1000, 1001, 2000, 2001}; bool timed = scen >= 128; int ti = scen - 128; if (timed) scen = 4 + ti / 7 % 4 + ti / 28 % 2 * 32;
  int n = N[scen % 8], last = (scen / 8) % 4; bool nl = (scen / 32) % 2, crlf = (scen / 64) % 2; const char *e = crlf ? "\r\n" : "\n";
  std::string curve; { Gen g; g.start(); g.moves(6); g.finish(); for (char c : g.s) { if (c == '\n') curve += e; else curve += c; } }
  std::string lastl = last == 0 ? "M105" : last == 1 ? ";x" : last == 2 ? "G1 X1 Y1 E0" : ""; if (last == 1) { lastl += (char)vf_byte(32, 126, "c"); lastl += (char)vf_byte(32, 126, "d"); }
  if (last == 0) lastl += std::string(" S") + (char)vf_byte('0', '9', "s");
  ptext = ""; int have = 0; if (last == 1 && n >= 2) { ptext = nl ? ";FLAVOR:UltiGCode" : "; generated by PrusaSlicer 2.4.0"; ptext += e; have = 1; } if (n > 40) { ptext += curve; have += lines_in(curve, curve.size()); }
  for (; have < n - 1; have++) { ptext += have % 1000 == 999 ? "M105" : have % 7 == 3 ? "" : have % 7 == 5 ? "; c" : have % 200 == 100 ? "G28" : "M105"; ptext += e; }
  if (n) { ptext += lastl; if (nl || lastl.empty()) ptext += e; }
  reports.clear(); bool use = timed || vf_choose(2, "callback"); pstop = use && !timed ? vf_choose(n > 40 ? 3 : 2, "stop") : 0;
  arc_welder_args a = h_args("s.gcode", "t.gcode"); a.notification_period_seconds = timed ? 1 : -1; a.callback = use ? watch : (progress_callback)NULL; h_write("s.gcode", ptext); now_ = 1000000; nclk = 0; if (timed) { free_reading = 1 + ti % 7; spacing = vf_choose(2, "slow") ? 2000000 : 400000; vf_clock_hook = tick; } arc_welder_results res; { arc_welder w(a); res = w.process(); } std::string out = h_read("t.gcode"); vf_clock_hook = 0;
  if (timed) for (size_t i = 0; i < reports.size(); i++) { vf_assert(reports[i].seconds_elapsed * 1e6 <= (double)(now_ - 1000000) + 1, "the elapsed time is not longer than the run"); if (i >= 2 && i + 1 < reports.size()) vf_assert(reports[i].seconds_elapsed - reports[i - 1].seconds_elapsed >= 0.999999, "reports keep the notification period"); }
  if (use) { vf_assert(reports.size() >= 1, "progress is reported"); for (size_t i = 0; i < reports.size(); i++) { if (i + 1 < reports.size() || !res.cancelled) report(reports[i], i + 1 == reports.size()); if (i) { const arc_welder_progress &p = reports[i - 1], &q = reports[i]; vf_assert(p.source_file_position <= q.source_file_position && p.lines_processed <= q.lines_processed && p.arcs_created <= q.arcs_created && p.points_compressed <= q.points_compressed && p.target_file_size <= q.target_file_size && p.seconds_elapsed <= q.seconds_elapsed, "progress never goes back"); } } }
  if (!res.cancelled) { report(res.progress, true); vf_assert(res.progress.source_file_position == (long)ptext.size() && res.progress.percent_complete >= 100, "the results report the whole source"); }
  vf_assert(res.progress.target_file_size == (long)out.size(), "the reported target size is the size of the target");
  if (use && reports.size()) { const arc_welder_progress &q = reports.back(), &p = res.progress; vf_assert(p.lines_processed == q.lines_processed && p.gcodes_processed == q.gcodes_processed && p.arcs_created == q.arcs_created && p.points_compressed == q.points_compressed && p.target_file_size == q.target_file_size && p.source_file_position == q.source_file_position, "the results are those of the last report"); }
  vf_reach("progress judged"); vf_obs_i("reports", (long)reports.size()); vf_obs_i("out", (long)out.size());
}
extern "C" void vf_main(void) { long cs = vf_case(); int s = (int)(cs % 1000); if (cs / 1000 == 0) header(s); else if (cs / 1000 == 1) faults(s); else if (cs / 1000 == 3) prog(s); else indep(s); }
