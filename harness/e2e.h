// End-to-end helpers: build source text, run the welder through its public API, and interpret
// G-code text with an interpreter independent of the code under test.
#pragma once
#include "vf.h"
#include "arc_welder.h"
#include <cstdio>
struct h_log : public logger {
  int level;
  h_log(int lv) : logger(std::vector<std::string>(1, ARC_WELDER_LOGGER_NAME), std::vector<int>(1, 50)), level(lv) {}
  bool is_log_level_enabled(const int, log_levels l) override { return (int)l >= level; }
  void log(const int, log_levels, const std::string &) override {}
  void log(const int, log_levels, const std::string &, bool) override {}
  void log_exception(const int, const std::string &) override {}
};
static inline void h_write(const char *p, const std::string &s) { std::ofstream f; f.open(p, std::ios_base::binary | std::ios_base::out); f << s; f.close(); }
static inline std::string h_read(const char *p) { std::ifstream f; f.open(p, std::ios_base::binary | std::ios_base::in); std::string r, l; while (std::getline(f, l)) { r += l; if (!f.eof()) r += "\n"; } f.close(); return r; }
static inline std::vector<std::string> h_lines(const std::string &s) { std::vector<std::string> v; size_t b = 0; while (b < s.size()) { size_t e = b; while (e < s.size() && s[e] != '\n') e++; v.push_back(s.substr(b, e - b)); b = e + 1; } return v; }

// ---- text building
static inline std::string h_fmt(double v, int p) { char b[64]; snprintf(b, sizeof b, "%.*f", p, v); return b; }
// n symbolic decimal digits
static inline std::string h_digits(int n, const char *name) { std::string r; for (int i = 0; i < n; i++) r.push_back((char)vf_byte('0', '9', name)); return r; }

// ---- independent number / command reader
struct HNum { bool has = false; double v = 0; int prec = 0; };
struct HCmd {
  char let = 0; int code = -1; int sub = -1; HNum p[26]; std::string text, comment; bool blank = true, hascomment = false; std::string extra;
  bool is(char l, int c) const { return let == l && code == c; }
  bool move() const { return let == 'G' && (code == 0 || code == 1); }
  bool arc() const { return let == 'G' && (code == 2 || code == 3); }
  const HNum &n(char c) const { return p[c - 'A']; }
};
static inline size_t h_num(const std::string &s, size_t i, HNum &o) {
  if (i < s.size() && s[i] == 1) { int id = 0; for (size_t k = i + 1; k < i + 6; k++) id = id * 10 + (s[k] - '0'); o.has = true; o.v = vf_ph_val[id]; o.prec = vf_ph_prec[id]; return i + 7; }
  bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; }
  double v = 0, sc = 1; int pr = 0; size_t st = i;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i] - '0'); i++; }
  if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i] - '0'); sc *= 10; pr++; i++; } }
  if (i == st) return i; o.has = true; v = v / sc; o.v = neg ? -v : v; o.prec = pr; return i;
}
static inline char h_up(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
static inline HCmd h_parse(const std::string &l) {
  HCmd c; size_t e = l.size(); for (size_t i = 0; i < l.size(); i++) if (l[i] == ';') { e = i; c.hascomment = true; c.comment = l.substr(i + 1); break; }
  c.text = l.substr(0, e); const std::string &s = c.text; size_t i = 0; while (i < s.size() && s[i] == ' ') i++;
  if (i >= s.size()) return c; c.blank = false; c.let = h_up(s[i++]); HNum k; i = h_num(s, i, k); if (k.has) c.code = (k.prec ? 1000 : 0) + (int)k.v;   // G3.1 is not G3
  while (i < s.size()) { if (s[i] == ' ') { i++; continue; } char L = h_up(s[i]); if (L < 'A' || L > 'Z') { c.extra += L; i++; continue; } i++; HNum n; size_t j = h_num(s, i, n); n.has = true; c.p[L - 'A'] = n; i = j; }
  return c;
}
// ---- independent machine model (absolute machine coordinates + G92 offsets)
struct HMach {
  double x = 0, y = 0, z = 0, e = 0, f = 0;         // machine position / accumulated filament
  double ox = 0, oy = 0, oz = 0, oe = 0;           // gcode coordinate = machine - offset
  bool rel = false, erel = false, infl = false; int tool = 0; double te[8] = {0, 0, 0, 0, 0, 0, 0, 0}, to[8] = {0, 0, 0, 0, 0, 0, 0, 0};
  double gx() const { return x - ox; } double gy() const { return y - oy; } double gz() const { return z - oz; } double ge() const { return e - oe; }
  void run(const HCmd &c) {
    if (c.let == 'G' && (c.code >= 0 && c.code <= 3)) {
      if (c.n('F').has) f = vf_ite_d(c.n('F').v > 0, c.n('F').v, f);   // firmware ignores F0
      if (c.n('X').has) x = rel ? x + c.n('X').v : c.n('X').v + ox;
      if (c.n('Y').has) y = rel ? y + c.n('Y').v : c.n('Y').v + oy;
      if (c.n('Z').has) z = rel ? z + c.n('Z').v : c.n('Z').v + oz;
      if (c.n('E').has) e = erel ? e + c.n('E').v : c.n('E').v + oe;
    } else if (c.is('G', 90)) { rel = false; if (infl) erel = false; }
    else if (c.is('G', 91)) { rel = true; if (infl) erel = true; }
    else if (c.is('M', 82)) erel = false; else if (c.is('M', 83)) erel = true;
    else if (c.is('G', 92)) {
      bool any = c.n('X').has | c.n('Y').has | c.n('Z').has | c.n('E').has;
      if (c.n('X').has) ox = x - c.n('X').v; if (c.n('Y').has) oy = y - c.n('Y').v; if (c.n('Z').has) oz = z - c.n('Z').v; if (c.n('E').has) oe = e - c.n('E').v;
      if (!any) { ox = x; oy = y; oz = z; oe = e; }
    } else if (c.let == 'T' && c.code >= 0) { int n = c.code > 7 ? 7 : c.code; te[tool] = e; to[tool] = oe; tool = n; e = te[n]; oe = to[n]; }   // every tool has its own filament position
  }
};
// ---- run the welder
struct HRun { arc_welder_results res; std::vector<std::string> src, out; bool ok; };
static inline arc_welder_args h_args(const char *src, const char *dst, int loglevel = 99) { arc_welder_args a(src, dst, new h_log(loglevel)); a.callback = NULL; return a; }
static inline void h_weld(arc_welder_args &a, const std::string &text, HRun &r) {
  h_write(a.source_path.c_str(), text); arc_welder w(a); r.res = w.process(); r.src = h_lines(text); r.out = h_lines(h_read(a.target_path.c_str()));
}
// header: everything the welder inserted before the source content. Returns index of first content line.
static inline size_t h_header_end(const std::vector<std::string> &o) { size_t i = 0; while (i < o.size() && !(o[i].size() && o[i].find("Postprocessed by") != std::string::npos)) i++; while (i < o.size() && o[i].size() > 0) i++; return i < o.size() ? i + 1 : i; }
