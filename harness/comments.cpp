// Slicer comments: the feature every line is labelled with, over sequences of section comments and line comments
// against an independent state machine. case: one generated sequence; one or two characters of each text are free.
#include "vf.h"
#include "gcode_comment_processor.h"
#include "gcode_position.h"
#include "gcode_parser.h"
#include <vector>
#include <cstdio>
struct Lcg { unsigned long s; Lcg(unsigned long x) : s(x * 2862933555777941757ul + 3037000493ul) { for (int i = 0; i < 4; i++) r(1); } unsigned r(unsigned n) { s = s * 6364136223846793005ul + 1442695040888963407ul; return (unsigned)((s >> 33) % n); } };
static bool eq(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return d == 0; }
static bool pre(const std::string &a, const std::string &b) { return a.size() >= b.size() && eq(a.substr(0, b.size()), b); }
enum { UNKNOWN, SLICR, CURA, S3D };
struct Oracle {
  int slicer = UNKNOWN, sec = 0;   // sec: feature of the current section, 0 none
  void section(const std::string &t) {
    if (t.empty()) return;
    if (slicer == UNKNOWN || slicer == CURA) {
      static const struct { const char *t; int f; } C[] = {{"WALL-OUTER", feature_type_outer_perimeter_feature}, {"WALL-INNER", feature_type_inner_perimeter_feature}, {"FILL", feature_type_infill_feature}, {"SKIN", feature_type_solid_infill_feature}, {"SKIRT", feature_type_skirt_feature}};
      for (auto &c : C) if (eq(t, std::string("TYPE:") + c.t)) { sec = c.f; slicer = CURA; return; }
      if (pre(t, "LAYER:") || pre(t, ";MESH:NONMESH")) { sec = 0; return; } }
    if (slicer == UNKNOWN || slicer == S3D) {
      static const struct { const char *t; int f; } C[] = {{"outer perimeter", feature_type_outer_perimeter_feature}, {"inner perimeter", feature_type_inner_perimeter_feature}, {"infill", feature_type_infill_feature}, {"solid layer", feature_type_solid_infill_feature}, {"skirt", feature_type_skirt_feature}, {"ooze shield", feature_type_ooze_shield_feature}, {"prime pillar", feature_type_prime_pillar_feature}, {"gap fill", feature_type_gap_fill_feature}};
      for (auto &c : C) if (eq(t, c.t) || eq(t, std::string("feature ") + c.t)) { sec = c.f; slicer = S3D; return; } }
    if (slicer == UNKNOWN || slicer == SLICR) { if (eq(t, "CP TOOLCHANGE WIPE")) { sec = feature_type_prime_pillar_feature; slicer = SLICR; } else if (eq(t, "CP TOOLCHANGE END")) { sec = 0; slicer = SLICR; } }
  }
  int line(const std::string &t) {
    if (sec) return sec; if (slicer != UNKNOWN && slicer != SLICR) return 0;
    static const struct { const char *t; int f; } C[] = {{"perimeter", feature_type_unknown_perimeter_feature}, {"infill", feature_type_infill_feature}, {"infill(bridge)", feature_type_bridge_feature}, {"skirt", feature_type_skirt_feature}};
    for (auto &c : C) if (eq(t, c.t) || eq(t, std::string("move to first ") + c.t + " point")) { slicer = SLICR; return c.f; }
    return 0; }
};
static const char *SEC[] = {"TYPE:WALL-OUTER", "TYPE:WALL-INNER", "TYPE:FILL", "TYPE:SKIN", "TYPE:SKIRT", "LAYER:7", ";MESH:NONMESH", "outer perimeter", "inner perimeter", "infill", "solid layer", "skirt", "ooze shield", "prime pillar", "gap fill", "feature outer perimeter", "feature inner perimeter", "feature infill", "feature solid layer", "feature skirt", "feature ooze shield", "feature prime pillar", "feature gap fill", "CP TOOLCHANGE WIPE", "CP TOOLCHANGE END", "", "feature", "LAYER", "TYPE:SUPPORT"};
static const char *LIN[] = {"perimeter", "move to first perimeter point", "infill", "move to first infill point", "infill(bridge)", "move to first infill(bridge) point", "skirt", "move to first skirt point", "", " perimeter", "support", "move to first point", "perimeter "};
extern "C" void vf_main(void) {
  long cs = vf_case(); Lcg L(cs); bool tracker = cs >= 1000; int n = 1 + L.r(6), kinds = L.r(4); if (cs < 29) n = 2;
  gcode_comment_processor P; Oracle o; gcode_position_args a; gcode_position T(a); gcode_parser G;
  bool pair = cs >= 2000; if (pair) { tracker = false; n = 2; }   // every pair of sections, one character in front of or behind the second
  for (int i = 0; i < n; i++) {
    bool sec = !tracker && (cs < 29 ? i == 0 : L.r(2)); std::string t = sec ? SEC[L.r(29)] : LIN[L.r(13)];
    if (cs < 29 && i == 0) t = SEC[cs]; if (tracker && cs < 1013 && i == 0) t = LIN[cs - 1000];
    if (sec && cs >= 29 && L.r(3)) { int b = kinds == 0 ? 0 : kinds == 1 ? 7 : kinds == 2 ? 23 : (int)L.r(20), w = kinds == 0 ? 7 : kinds == 1 ? 16 : 2; t = SEC[b + L.r(w)]; }
    if (pair) { sec = true; t = SEC[i ? (cs - 2000) % 29 : (cs - 2000) / 29 % 29]; }
    int e = L.r(4); std::string d = t; if (pair) { e = 9; if (i) { int wh = vf_choose(3, "where"); std::string u(1, (char)vf_byte(32, 126, "c")); t = wh == 0 ? u + t : wh == 1 ? t + u : t; } }
    if (e == 1 && t.size()) t[L.r((unsigned)t.size())] = (char)vf_byte(32, 126, "c"); else if (e == 2) { std::string u = t.substr(0, L.r((unsigned)t.size() + 1)); char x = (char)vf_byte(32, 126, "c"); u += x; t = u + t.substr(u.size() - 1); } else if (e == 3 && t.size() > 1 && L.r(2)) t.erase(L.r((unsigned)t.size()), 1);
    if (!vf_symbolic() && getenv("VF_SHOW")) printf("%s '%s'\n", sec ? "section" : "line", t.c_str());
    if (sec) { P.update(t); o.section(t); }
    else if (tracker) { parsed_command c = G.parse_gcode((std::string(L.r(4) ? "G1 X1;" : ";") + t + (L.r(4) ? "" : "\r")).c_str(), true); T.update(c, i, i, i); int want = o.line(t); vf_assert(T.get_current_position().feature_type_tag == want, "a line carries the feature its comment names"); parsed_command q = G.parse_gcode("G1 X2"); T.update(q, i, i, i); vf_assert(T.get_current_position().feature_type_tag == 0, "a line without comment carries no feature"); vf_reach("feature judged"); }
    else { position p(1); p.command.comment = t; P.update(p); int want = o.line(t); vf_assert(p.feature_type_tag == want, "a line carries the feature its comment or section names"); vf_reach("feature judged"); }
  }
  if (!tracker) for (int i = 0; i < 9; i += 2) { position p(1); p.command.comment = LIN[i]; Oracle u = o; P.update(p); vf_assert(p.feature_type_tag == o.line(LIN[i]), "a line carries the feature its comment or section names"); vf_obs_i("tag", p.feature_type_tag); if (u.slicer != o.slicer) break; }
}
