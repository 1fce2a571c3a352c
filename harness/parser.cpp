// The G-code line parser on symbolic bytes, digits and spellings. case = group * 1000 + index.
#include "e2e.h"
#include "gcode_parser.h"
static bool is_dig(char c) { return vf_and(c >= '0', c <= '9'); }
static void parse(const std::string &l, parsed_command &c, bool keep = true) {
  // the line lives in a heap block of exactly its size, so that any read past its terminator is a memory error
  char *b = (char *)malloc(l.size() + 1); for (size_t i = 0; i < l.size(); i++) b[i] = l[i]; b[l.size()] = 0; gcode_parser p; p.try_parse_gcode(b, c, keep); free(b); }
static std::string any(int n, const char *nm) { std::string s; for (int i = 0; i < n; i++) { int b = vf_byte(1, 255, nm); vf_assume(b != '\n'); s.push_back((char)b); } return s; }
// templates: '%' stands for an arbitrary byte
static const char *TPL[] = {"%", "%%", "%%%", "G1 X%%", "G1%%X1", "G%%", "M%%%", "T%%", "t%%%", "@%%", "@OCTOLAPSE %%", "@octolapse TAKE%%D1", "M117 %%%", "G1 X1 Y2%%", "G1 X1;%%%", "; %%%", "G92 E%%", "%%G1 X1", "G28 %%%", "M563 P0 S%%",
  "G1 X-%.%", "%%%%", "G1 %%%%", "G1 X1 ;%%;%", "G%1 X%", "M20%%", "G1.%%", "\t%%", "  %%", "G0 X%1%Y"};
static const int NTPL = sizeof(TPL) / sizeof(*TPL);
static std::string fill(const char *t) { std::string s; for (; *t; t++) if (*t == '%') s += any(1, "b"); else s += *t; return s; }
static bool same(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = vf_and(r, a[i] == b[i]); return r; }
static void text(int k) {   // G01 (engine memory checks) and G04
  std::string l = fill(TPL[k]); parsed_command c; parse(l, c);
  size_t sc = 0; while (sc < l.size() && l[sc] != ';') sc++;
  std::string g = l.substr(0, sc), m; for (size_t i = sc + 1; i < l.size(); i++) if (l[i] != '\r') m.push_back(l[i]);
  vf_assert(same(c.gcode, g), "command text is kept byte for byte"); vf_assert(same(c.comment, m), "comment text is kept");
  std::string w = g; if (m.size()) { w += ';'; w += m; } vf_assert(same(c.to_string(), w), "text and comment reproduce the line"); vf_reach("line kept");
}
// reference reading of the command word; returns 0: no opinion, 1: must be recognised as `w`, 2: must not be recognised
static int word(const std::string &l, std::string &w, size_t &i) {
  i = 0; size_t n = l.size(); while (i < n && l[i] == ' ') i++; if (i >= n) return 2; char c = l[i];
  if (c == '@') { while (i < n && l[i] != ' ' && l[i] != ';') w.push_back(h_up(l[i++])); return 1; }
  c = h_up(c); if (c != 'G' && c != 'M' && c != 'T') return 2; w.push_back(c); i++;
  while (i < n && l[i] == ' ') i++;
  if (c == 'T') { if (i >= n) return 2; if (is_dig(l[i])) return 1; char d = h_up(l[i]); if (d == 'C' || d == 'X' || d == '?') { i++; while (i < n && l[i] == ' ') i++; if (i >= n || l[i] == ';') return 1; if (l[i] == '\t') return 0; return 2; } if (l[i] == '\t') return 0; return 2; }
  if (i >= n || !is_dig(l[i])) return l.size() > i && l[i] == '.' ? 0 : 2; while (i < n && is_dig(l[i])) w.push_back(l[i++]); while (w.size() > 2 && w[1] == '0') w.erase(1, 1);
  bool sp = false; while (i < n && l[i] == ' ') { i++; sp = true; }
  if (i < n && l[i] == '.') { if (sp) return 0; w.push_back('.'); i++; if (i >= n || !is_dig(l[i])) return i < n && l[i] == ' ' ? 0 : 2; while (i < n && is_dig(l[i])) w.push_back(l[i++]); if (i < n && l[i] == ' ') { i++; while (i < n && l[i] == ' ') i++; if (i < n && is_dig(l[i])) return 0; } }
  return 1;
}
static void recog(int k) {   // G02
  std::string l = fill(TPL[k]), w; size_t i; parsed_command c; parse(l, c); int r = word(l, w, i); if (r == 0) return;
  vf_assert(c.is_known_command == (r == 1), "a line is a command exactly if it starts with a command word");
  if (r == 1) { vf_assert(same(c.command, w), "the command word is read exactly"); vf_assert(!c.is_empty, "a command is not an empty line"); }
  else { vf_assert(c.command.empty() && c.parameters.empty(), "an unknown line carries no command"); size_t j = 0; while (j < l.size() && (l[j] == ' ' || l[j] == '\t')) j++; bool text = j < l.size() && l[j] > 32 && l[j] != ';' && j == 0; if (text) vf_assert(!c.is_empty, "a line with text is not empty"); }
  parsed_command d; parse(l, d, false); vf_assert(d.is_known_command == c.is_known_command && same(c.command, d.command) && c.parameters.size() == d.parameters.size(), "formatting mode does not change the meaning");
  vf_reach("word judged");
}
// numbers: every combination of sign, digit counts and spacing; digits are free
static const char *SIGN[] = {"", "-", "+", " -", "- ", " "};
static std::string number(int id, int fd, const char *sg, double &v) {
  std::string s = sg; double m = 0; for (int i = 0; i < id; i++) { char c = (char)vf_byte('0', '9', "i"); s.push_back(c); m = m * 10 + (c - '0'); }
  double sc = 1; if (fd >= 0) { s.push_back('.'); for (int i = 0; i < fd; i++) { char c = (char)vf_byte('0', '9', "d"); s.push_back(c); m = m * 10 + (c - '0'); sc *= 10; } }
  v = m / sc; for (const char *p = sg; *p; p++) if (*p == '-') v = -v; return s;
}
static void one(const parsed_command_parameter &p, char name, double v, int fd) {
  vf_assert(p.name.size() == 1 && p.name[0] == name, "parameter letter"); vf_assert(p.value_type == 'F', "numeric parameter"); double t = 0.01; for (int i = 0; i < fd; i++) t /= 10; if (t < 1e-9) t = 1e-9; double d = p.double_value - v;   // a hundredth of the last written decimal (but not below 1e-9)
  vf_assert(vf_and(d <= t, -d <= t), "the value is the written decimal number"); vf_assert(p.double_precision == (fd > 0 ? fd : 0), "the precision is the number of decimals"); vf_reach("number judged");
}
static void nums(int k) {   // G03: k -> digits before / after the point
  int id = k % 8, fd = k / 8 - 1; if (id == 0 && fd <= 0) { return; }
  const char *sg = SIGN[vf_choose(6, "sign")]; double v; std::string n = number(id, fd, sg, v); int form = vf_choose(6, "form"); parsed_command c;
  switch (form) {
  case 0: parse("G1 X" + n, c); vf_assert(c.parameters.size() == 1, "one parameter"); one(c.parameters[0], 'X', v, fd); break;
  case 1: parse("g1x" + n + "y2.50", c); vf_assert(c.parameters.size() == 2, "two parameters"); one(c.parameters[0], 'X', v, fd); one(c.parameters[1], 'Y', 2.5, 2); break;
  case 2: parse("G92 Z1 E" + n + " ; c", c); vf_assert(c.parameters.size() == 2, "two parameters"); one(c.parameters[0], 'Z', 1, 0); one(c.parameters[1], 'E', v, fd); vf_assert(c.command == "G92", "command"); break;
  case 3: parse("M104  S" + n + "  T1;c", c); vf_assert(c.parameters.size() == 2, "two parameters"); one(c.parameters[0], 'S', v, fd); one(c.parameters[1], 'T', 1, 0); break;
  case 4: parse(" G2 X1 Y2 I" + n + " J-0.5 E.25 F1800", c); vf_assert(c.parameters.size() == 6, "six parameters"); one(c.parameters[2], 'I', v, fd); one(c.parameters[3], 'J', -0.5, 1); one(c.parameters[4], 'E', 0.25, 2); one(c.parameters[5], 'F', 1800, 0); break;
  case 5: { int b = vf_byte('A', 'z', "letter"); vf_assume(b <= 'Z' || b >= 'a'); std::string l = "G1 "; l.push_back((char)b); parse(l + n, c); vf_assert(c.parameters.size() == 1, "one parameter"); one(c.parameters[0], h_up((char)b), v, fd); break; }
  }
}
static const char *LIST[] = {"G0", "G1", "G2", "G3", "G10", "G11", "G20", "G21", "G28", "G29", "G80", "G90", "G91", "G92", "M82", "M83", "M104", "M105", "M106", "M109", "M114", "M116", "M140", "M141", "M190", "M191", "M207", "M208", "M218", "M240", "M400", "M563"};
static void flags(int k) {   // G03: letters without a number, tools, and every interpreted command
  parsed_command c;
  if (k < 32) { std::string l = LIST[k]; if (vf_choose(2, "low")) l[0] += 32; double v; std::string n = number(2, 1, "", v); parse(l + " X" + n + " E1", c); vf_assert(c.is_known_command && c.command == LIST[k] && c.parameters.size() == 2, "interpreted commands get their parameters"); one(c.parameters[0], 'X', v, 1); one(c.parameters[1], 'E', 1, 0); return; }
  if (k < 40) { int n = k - 31; std::string l = "T"; long v = 0; for (int i = 0; i < n; i++) { char d = (char)vf_byte('0', '9', "t"); l.push_back(d); v = v * 10 + (d - '0'); } if (vf_choose(2, "end")) l += " ; tool"; parse(l, c); vf_assert(c.command == "T" && c.parameters.size() == 1 && c.parameters[0].value_type == 'U', "tool number is read"); vf_assert((long)c.parameters[0].unsigned_long_value == v, "tool number"); vf_reach("number judged"); return; }
  // home flags: any subset of X, Y, Z in order, each with nothing or a number behind it
  int form = vf_choose(4, "form"); std::string l = "G28", want; for (int a = 0; a < 3; a++) if ((k - 40 + 1) >> a & 1) { want.push_back("XYZ"[a]); l += form == 2 ? "" : form == 3 ? "  " : " "; l.push_back("XYZ"[a]); if (form == 1 || form == 2) l.push_back((char)vf_byte('0', '9', "n")); }
  if (vf_choose(2, "end")) l += " ; home"; parse(l, c); vf_assert(c.parameters.size() == want.size(), "every axis letter is a parameter"); for (size_t i = 0; i < want.size(); i++) vf_assert(c.parameters[i].name.size() == 1 && c.parameters[i].name[0] == want[i], "axis letters in order"); vf_reach("number judged");
}
extern "C" void vf_main(void) {
  long cs = vf_case(); int k = cs % 1000;
  switch (cs / 1000) { case 0: text(k); break; case 1: recog(k); break; case 2: nums(k); break; case 3: flags(k); break; }
}
