// Independent judge of one welding run: aligns the output with the source, interprets both with HMach and
// checks the selected properties. bits in `mask` select which assertions are made.
#pragma once
#include "e2e.h"
enum { P_LINES = 1, P_END = 2, P_GEO = 4, P_STATE = 8, P_FLOW = 16, P_LEN = 32, P_FMT = 64, P_FW = 128, P_STATS = 256, P_TRAVEL = 512, P_Z = 1024, P_COMM = 2048, P_MAXLEN = 4096, P_SEG = 8192, P_FEAT = 16384 };
struct HCfg { double res, maxr, tol, erv, mmseg; int minseg, maxlen, xyzp, ep; bool d3, travel, dyn, infl; };
static inline HCfg h_cfg(const arc_welder_args &a) { HCfg c; c.res = a.resolution_mm; c.maxr = a.max_radius_mm; c.tol = a.path_tolerance_percent; c.erv = a.extrusion_rate_variance_percent; c.mmseg = a.mm_per_arc_segment; c.minseg = a.min_arc_segments; c.maxlen = a.max_gcode_length; c.xyzp = a.default_xyz_precision; c.ep = a.default_e_precision; c.d3 = a.allow_3d_arcs; c.travel = a.allow_travel_arcs; c.dyn = a.allow_dynamic_precision; c.infl = a.g90_g91_influences_extruder; return c; }
static inline bool h_same(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= (a[i] ^ b[i]); return vf_must(d == 0) != 0; }
// the text a passed-through line must have: command text, then ';' and the comment if there is one
static inline std::string h_expect(const std::string &l) { HCmd c = h_parse(l); std::string k = c.comment; if (k.size() && k[k.size() - 1] == '\r') k.resize(k.size() - 1); return c.text + (k.size() ? ";" + k : ""); }
static inline double h_pow10(int p) { double r = 1; while (p-- > 0) r /= 10; return r; }
static inline bool h_isblank(const std::string &l) { for (char c : l) if (c != ' ' && c != '\r' && c != '\t') return false; return true; }
// the feature a slicer's line comment names
static inline int h_feature(std::string c) { if (c.size() && c[c.size() - 1] == '\r') c.resize(c.size() - 1); static const char *F[] = {"perimeter", "infill", "infill(bridge)", "skirt"}; for (int k = 0; k < 4; k++) if (c == F[k] || c == std::string("move to first ") + F[k] + " point") return k + 1; return 0; }
struct HJudge {
  // segment statistics: expected moves and total length per kind (0 extrusion, 1 retraction, 2 travel), how many moves are too small to be sure about
  int sn[3] = {0, 0, 0}, sm[3] = {0, 0, 0}, sa[3] = {0, 0, 0}, samb = 0; double sl[3] = {0, 0, 0}, al[3] = {0, 0, 0}, ml[3] = {0, 0, 0}; bool slk = true;
  // kind and length of the move in source line q; -1: no move, -2: cannot tell
  int seg(size_t q, double &len) {
    const HCmd &k = sc[q]; const HMach &b = before[q], &a = after[q]; len = 0; if (!k.move() && !k.arc()) return -1; double dx = a.x - b.x, dy = a.y - b.y, dz = c.d3 ? a.z - b.z : 0, e = a.e - b.e;
    double l2 = dx * dx + dy * dy; if (vf_must(l2 < 1e-14)) return -1; if (vf_may(l2 < 1e-9)) return -2; bool pos = vf_must(e > 1e-9), neg = !pos && vf_must(e < -1e-9); if (!pos && !neg && !(e == 0 && !vf_is_sym_d(e))) return -2;
    if (k.arc()) { if (!k.n('I').has && !k.n('J').has) return -2; double i = k.n('I').v, j = k.n('J').v, cx = b.x + i, cy = b.y + j, a0 = atan2(-j, -i), a1 = atan2(a.y - cy, a.x - cx), d = k.code == 3 ? a1 - a0 : a0 - a1; while (d <= 0) d += 2 * 3.14159265358979323846; len = sqrt(d * d * (i * i + j * j) + (a.z - b.z) * (a.z - b.z)); }
    else if (vf_is_sym_d(l2) || vf_is_sym_d(dz)) slk = false; else len = sqrt(l2 + dz * dz);
    return pos ? 0 : neg ? 1 : 2; }
  HCfg c; const HRun &r; unsigned mask; std::vector<HCmd> sc, oc; std::vector<HMach> before, after; int arcs = 0, merged = 0; size_t o0 = 0; int maxxyz, maxe; std::vector<int> pxyz, pe;
  HJudge(const HCfg &c_, const HRun &r_, unsigned m) : c(c_), r(r_), mask(m) {}
  bool on(unsigned b) const { return (mask & b) != 0; }
  void A(unsigned b, bool v, const char *l) { if (on(b)) vf_assert(v, l); }
  // index of the last source line consumed by generated arc `o` starting at source line j, or -1
  long match_arc(size_t i, size_t j) {
    const HCmd &o = oc[i]; double t = h_pow10(c.xyzp) * 0.51 + 1e-7; double et = h_pow10(c.ep) * 0.51 + 1e-7; double esum = 0; bool xy = o.n('X').has && o.n('Y').has;
    if (!xy) return -1;
    long first = -1;
    for (size_t k = j; k < sc.size(); k++) {
      if (h_isblank(r.src[k])) continue;
      if (!sc[k].move()) break;
      esum += after[k].e - before[k].e;
      if (k == j) continue;
      if (!vf_must(vf_and(vf_near(o.n('X').v, after[k].gx(), t), vf_near(o.n('Y').v, after[k].gy(), t)))) continue;
      bool nextok = i + 1 >= oc.size() ? true : false; size_t q = k + 1;
      if (i + 1 < oc.size()) {
        while (q < sc.size() && h_isblank(r.src[q]) && !h_isblank(r.out[i + 1])) q++;
        if (q < sc.size() && h_same(r.out[i + 1], h_expect(r.src[q]))) nextok = true; else if (oc[i + 1].arc() && q < sc.size() && sc[q].move()) nextok = true;
      } else { while (q < sc.size() && h_isblank(r.src[q])) q++; nextok = q >= sc.size(); }
      if (nextok) { if (first < 0) first = (long)k; double ee = after[k].erel ? esum : after[k].ge(); if (!o.n('E').has || vf_must(vf_near(o.n('E').v, ee, et))) return (long)k; }
    }
    return first;
  }
  void arc(size_t i, size_t j, size_t k) {
    arcs++; const HCmd &o = oc[i]; const HMach &S = before[j], &T = after[k]; HMach M = S; M.run(o);
    int px = c.xyzp, pe_ = c.ep; if (c.dyn) for (size_t q = 0; q <= k; q++) { if (pxyz[q] > px) px = pxyz[q]; if (pe[q] > pe_) pe_ = pe[q]; }
    double t = h_pow10(px) * 0.5 + 2e-7, te = h_pow10(pe_) * 0.5 + 2e-7; int nm = 0; double esum = 0;
    std::vector<size_t> mv; for (size_t q = j; q <= k; q++) if (sc[q].move()) { mv.push_back(q); nm++; } merged += nm;
    if (on(P_FEAT)) for (size_t a = 1; a < mv.size(); a++) vf_assert(h_feature(sc[mv[a]].comment) == h_feature(sc[mv[a - 1]].comment), "moves of different features never share an arc");
    if (on(P_SEG)) { int k0 = -1; double pl = 0; for (size_t q : mv) { double l; int k = seg(q, l); if (k == -2) samb++; if (k >= 0) { sm[k]++; if (k0 < 0 || k < k0) k0 = k; pl += l; } } if (k0 >= 0) { sa[k0]++; for (size_t q : mv) { double l; int k = seg(q, l); if (k >= 0) ml[k] += l; } al[k0] += pl; } else samb++; }
    // ---- end state
    A(P_END, vf_near(M.x, T.x, t), "arc ends at the source X"); A(P_END, vf_near(M.y, T.y, t), "arc ends at the source Y");
    A(P_END, vf_near(M.z, T.z, c.d3 ? h_pow10(px) * 1.001 : t), "arc ends at the source Z"); A(P_END, vf_near(M.e, T.e, te), "arc leaves the same filament position");
    A(P_END, vf_near(M.f, T.f, 0.5 + 1e-6), "arc leaves the same feedrate");
    if (c.d3) A(P_Z, vf_near(M.z, T.z, h_pow10(px) * 1.001), "a helical arc ends at the height of its last move");
    // ---- state boundaries
    for (size_t a = 0; a < mv.size(); a++) { size_t q = mv[a];
      if (a) { A(P_STATE, !vf_may(!vf_near(after[q].f, after[mv[a - 1]].f, 1e-9)), "no feedrate change inside an arc");
        double e0 = after[mv[a - 1]].e - before[mv[a - 1]].e, e1 = after[q].e - before[q].e, D = 1e-6; bool t0 = !sc[mv[a - 1]].n('E').has, t1 = !sc[q].n('E').has;
        // a move without an E word is a travel; an E word that changes nothing (within noise) is compatible with anything
        bool mix = vf_or(vf_or(vf_and(e0 > D, e1 < -D), vf_and(e0 < -D, e1 > D)), t0 != t1 && (t0 ? vf_abs(e1) > D : vf_abs(e0) > D)); A(P_TRAVEL, !mix, "an arc never mixes extrusion, retraction and travel"); }
      if (!c.d3) A(P_STATE, vf_near(after[q].z, before[q].z, 1e-7), "no Z change inside a planar arc");
      if (!c.travel) A(P_TRAVEL, sc[q].n('E').has, "travel moves stay untouched unless allowed");
      A(P_STATE, !after[q].rel, "no relative moves inside an arc"); }
    // ---- format
    if (on(P_FMT)) { vf_assert(o.n('I').has && o.n('J').has && o.n('X').has && o.n('Y').has, "arc has X Y I J"); const char ax[] = "XYZIJ"; for (char L : ax) if (L && o.n(L).has) vf_assert(o.n(L).prec <= px, "coordinates use at most the configured decimals"); if (o.n('E').has) vf_assert(o.n('E').prec <= pe_, "E uses at most the configured decimals");
      if (c.dyn) { const char mx[] = "XYIJ"; for (char L : mx) if (L && o.n(L).has && !vf_is_sym_d(o.n(L).v)) vf_assert(o.n(L).prec == px || vf_near(o.n(L).v, (double)(long)o.n(L).v, 1e-12), "dynamic precision keeps the finest source precision"); }
      vf_assert(!vf_may(vf_and(o.n('I').v == 0, o.n('J').v == 0)), "the centre never equals the start point"); vf_assert(o.extra.empty(), "generated command has only parameters"); }
    if (on(P_MAXLEN) && c.maxlen > 0 && o.text.find('\x01') == std::string::npos) vf_assert((int)o.text.size() <= c.maxlen, "generated command fits the maximum length");
    // ---- geometry
    double cx = S.gx() + o.n('I').v, cy = S.gy() + o.n('J').v; double rr = sqrt(o.n('I').v * o.n('I').v + o.n('J').v * o.n('J').v); bool ccw = o.code == 3; double pt = 4 * h_pow10(px);
    double lim = c.res / 2 + pt;
    if (on(P_GEO)) {
      vf_assert(rr <= c.maxr + pt, "radius within the maximum"); 
      double px_ = S.gx(), py_ = S.gy(); double total = 0; bool conc = true;
      for (size_t a = 0; a < mv.size(); a++) { double x = after[mv[a]].gx(), y = after[mv[a]].gy(); double dx = x - cx, dy = y - cy; double d = sqrt(dx * dx + dy * dy);
        vf_assert(vf_near(d, rr, lim), "every source point lies within half the resolution of the arc");
        double sx = x - px_, sy = y - py_; double l2 = sx * sx + sy * sy; double cr = sx * (cy - py_) - sy * (cx - px_);   // distance of centre from the segment's line
        double tt = (cx - px_) * sx + (cy - py_) * sy; bool inside = vf_and(tt > 0, tt < l2);
        // closest approach: |cr| / sqrt(l2) >= rr - lim
        double low = vf_max(rr - lim, 0); vf_assert(vf_or(!inside, cr * cr >= low * low * l2 - 1e-9), "every source segment stays within half the resolution of the arc");
        double c2 = (px_ - cx) * (y - cy) - (py_ - cy) * (x - cx); vf_assert(ccw ? c2 > -pt * rr : c2 < pt * rr, "the arc turns the same way as the source moves");
        if (vf_is_sym_d(c2)) conc = false; else { double dt = (px_ - cx) * (x - cx) + (py_ - cy) * (y - cy); total += atan2(c2, dt); }
        px_ = x; py_ = y; }
      if (conc) { double sw = ccw ? total : -total; vf_assert(sw > 0 && sw < 2 * 3.14159265358979 + 0.02, "the arc sweeps at most one turn");
        // sweep a printer would perform from the printed numbers
        double a0 = atan2(S.gy() - cy, S.gx() - cx), a1 = atan2(o.n('Y').v - cy, o.n('X').v - cx); double d = ccw ? a1 - a0 : a0 - a1; while (d <= 0) d += 2 * 3.14159265358979323846; vf_assert(vf_near(d, sw, 0.01 + 2 * pt / rr), "a printer sweeps exactly the source angle");
        if (on(P_LEN)) {} }
    }
    if (on(P_LEN)) { double poly = 0, px_ = S.gx(), py_ = S.gy(), pz_ = S.gz(); bool conc = true; for (size_t q : mv) { double x = after[q].gx(), y = after[q].gy(), z = after[q].gz(); double d2 = (x - px_) * (x - px_) + (y - py_) * (y - py_) + (c.d3 ? (z - pz_) * (z - pz_) : 0); poly += sqrt(d2); px_ = x; py_ = y; pz_ = z; if (vf_is_sym_d(d2)) conc = false; }
      if (conc && !vf_is_sym_d(rr) && !vf_is_sym_d(o.n('X').v)) { double a0 = atan2(S.gy() - cy, S.gx() - cx), a1 = atan2(o.n('Y').v - cy, o.n('X').v - cx); double d = ccw ? a1 - a0 : a0 - a1; while (d <= 0) d += 2 * 3.14159265358979323846; double al = d * rr; if (c.d3) { double dz = T.gz() - S.gz(); al = sqrt(al * al + dz * dz); }
        vf_assert(vf_near(al, poly, c.tol * 1.06 * (poly > al ? poly : al) + 3 * pt), "arc length within the path tolerance of the source path"); } }
    // ---- flow
    if (on(P_FLOW) && c.erv > 0) { double prev = 0; for (size_t a = 0; a < mv.size(); a++) { size_t q = mv[a]; double dx = after[q].x - before[q].x, dy = after[q].y - before[q].y, dz = c.d3 ? after[q].z - before[q].z : 0; double len = sqrt(dx * dx + dy * dy + dz * dz); double rate = (after[q].e - before[q].e) / len;
        if (a && !vf_may(prev <= 0)) vf_assert(vf_near(rate, prev, (c.erv * 1.0001 + 1.1e-5) * vf_abs(prev) + 1e-9), "flow rate changes inside an arc stay within the variance"); prev = rate; } }
    // ---- firmware compensation
    if (on(P_FW) && c.minseg > 0 && c.mmseg > 0) { double circ = 2 * 3.14159265358979323846 * rr; double poly = 0; for (size_t q : mv) { double dx = after[q].x - before[q].x, dy = after[q].y - before[q].y, dz = after[q].z - before[q].z; poly += sqrt(dx * dx + dy * dy + (c.d3 ? dz * dz : 0)); }
      vf_assert(circ / c.mmseg >= c.minseg * 0.999 || circ / poly >= c.minseg * 0.999, "arcs the firmware would draw with too few segments are rejected"); }
    // ---- helix
    if (on(P_Z) && c.d3) { double poly = 0, acc = 0; for (size_t q : mv) { double dx = after[q].x - before[q].x, dy = after[q].y - before[q].y; poly += sqrt(dx * dx + dy * dy); }
      for (size_t q : mv) { double dx = after[q].x - before[q].x, dy = after[q].y - before[q].y; acc += sqrt(dx * dx + dy * dy); double zz = S.z + (T.z - S.z) * acc / poly; vf_assert(vf_near(after[q].z, zz, vf_max(c.res / 2, 0) + 2 * h_pow10(px)), "helical arcs keep every source point at its height"); } }
    if (on(P_COMM)) { for (size_t q : mv) { std::string e = sc[q].comment; if (e.size() && e[e.size() - 1] == '\r') e.resize(e.size() - 1); if (e.size()) { bool f = false; for (size_t at = o.comment.find(e); at != std::string::npos && !f; at = o.comment.find(e, at + 1)) f = (at == 0 || (at >= 3 && o.comment.compare(at - 3, 3, " - ") == 0)) && (at + e.size() == o.comment.size() || o.comment.compare(at + e.size(), 3, " - ") == 0); vf_assert(f, "comments of merged moves are kept on the arc"); } } }
    for (size_t q : mv) vf_reach("move merged into an arc"); vf_reach("arc judged");
  }
  bool run() {
    HMach m; m.infl = c.infl; for (size_t j = 0; j < r.src.size(); j++) { HCmd s = h_parse(r.src[j]); before.push_back(m); m.run(s); after.push_back(m); sc.push_back(s); int a = 0, b = 0; if (s.move()) { const char ax[] = "XYZ"; for (char L : ax) if (L && s.n(L).has && s.n(L).prec > a) a = s.n(L).prec; b = s.n('E').prec; } pxyz.push_back(a); pe.push_back(b); }
    for (auto &l : r.out) oc.push_back(h_parse(l));
    o0 = h_header_end(r.out); size_t i = o0, j = 0;
    // header may be preceded by the first source line
    if (r.src.size() && r.out.size() && (r.out[0] == r.src[0] || h_same(r.out[0], h_expect(r.src[0]))) && r.src[0].size() && r.src[0][0] == ';') j = 1;
    while (i < r.out.size()) {
      if (j < r.src.size() && h_same(r.out[i], h_expect(r.src[j]))) { i++; j++; continue; }
      if (oc[i].arc() && j < r.src.size()) { size_t jj = j; while (jj < r.src.size() && h_isblank(r.src[jj])) jj++; long k = jj < r.src.size() && sc[jj].move() ? match_arc(i, jj) : -1; if (k >= 0) { arc(i, jj, (size_t)k); j = (size_t)k + 1; i++; while (i < r.out.size() && j < r.src.size() && h_isblank(r.src[j]) && !h_isblank(r.out[i])) j++; continue; } }
      if (vf_symbolic() == 0) { fprintf(stderr, "cannot explain output line %zu: %s\n", i, r.out[i].c_str()); if (j < r.src.size()) fprintf(stderr, "  source line %zu: %s\n", j, r.src[j].c_str()); }
      A(P_LINES, false, "every output line is a source line or an arc replacing consecutive moves"); return false; }
    while (j < r.src.size() && h_isblank(r.src[j])) j++;
    A(P_LINES, j == r.src.size(), "no source line is lost"); if (j != r.src.size()) return false;
    vf_reach("output explained");
    if (on(P_STATS)) { const arc_welder_progress &p = r.res.progress; vf_assert(p.arcs_created == arcs, "reported arcs equal the arcs written"); vf_assert(p.points_compressed == merged, "reported compressed points equal the moves replaced"); vf_assert(p.lines_processed == (int)r.src.size(), "reported lines equal the source lines"); int g = 0, g2 = 0; for (size_t q = 0; q < sc.size(); q++) { if (!h_isblank(sc[q].text)) g++; if (sc[q].text.size()) g2++; } vf_assert(p.gcodes_processed >= g && p.gcodes_processed <= g2, "reported commands equal the source commands"); vf_assert(r.res.success && !r.res.cancelled, "completed run reports success"); }
    if (on(P_SEG)) {
      for (size_t q = 0; q < sc.size(); q++) { double l; int k = seg(q, l); if (k == -2) samb++; else if (k >= 0) { sn[k]++; sl[k] += l; } }
      const arc_welder_progress &p = r.res.progress; const source_target_segment_statistics *st[] = {&p.segment_statistics, &p.segment_retraction_statistics, &p.travel_statistics};
      for (int k = 0; k < 3; k++) { const source_target_segment_statistics &t = *st[k]; int s0 = 0, s1 = 0; for (auto &x : t.source_segments) s0 += x.count; for (auto &x : t.target_segments) s1 += x.count; vf_assert(s0 == t.total_count_source && s1 == t.total_count_target, "length classes add up to the total");
        bool w = k < 2 || c.travel; int n0 = w ? sn[k] : 0, n1 = w ? sn[k] - sm[k] + sa[k] : 0; if (samb) continue; vf_assert(t.total_count_source == n0, "reported source moves equal the moves of the source"); vf_assert(t.total_count_target == n1, "reported target moves equal the moves written"); vf_reach("statistics judged");
        if (!slk || !w) continue; vf_assert(vf_near(t.total_length_source, sl[k], 1e-4 + 1e-6 * sl[k]), "reported source length is the length of the source moves"); double want = sl[k] - ml[k] + al[k]; vf_assert(vf_near(t.total_length_target, want, 1e-2 + (c.tol * 1.06) * al[k]), "reported target length is the length of the written moves"); } }
    return true;
  }
};
