// Fixed-precision number formatting. case = group * 10000 + index.
#include "e2e.h"
#include "utilities.h"
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cstdlib>
namespace impl {
template <class... A> static int emit_digits_decimal(A...) { return -12345; }   // stands in if the code is organised differently
#include "fpconv.cpp"
}
static bool dig(int c) { return vf_and(c >= '0', c <= '9'); }
// the decimal text `s` (n characters, no sign) must be the digits d[0..nd) * 10^K rounded to `prec` decimals, ties either way
static void judge(const char *s, int n, const char *d, int nd, int K, int prec) {
  // value digits as a grid: position i of the result stands for 10^(top-i)
  int ip = nd + K > 1 ? nd + K : 1;   // integer digits before rounding
  int len = ip + prec; int g[64]; bool rest0 = true; int drop = 0;
  for (int i = 0; i < len; i++) { int k = i - (ip - (nd + K)); g[i] = k >= 0 && k < nd ? d[k] - '0' : 0; }
  for (int k = 0; k < nd; k++) { int i = k + ip - (nd + K); if (i == len) drop = d[k] - '0'; else if (i > len) rest0 = vf_and(rest0, d[k] == '0'); }
  int c = 1, up[64]; for (int i = len - 1; i >= 0; i--) { int x = g[i] + c; c = (int)vf_ite_i(x == 10, 1, 0); up[i] = (int)vf_ite_i(x == 10, 0, x); }
  bool wide = n == len + 1 + (prec > 0), slim = n == len + (prec > 0); vf_assert(wide || slim, "number of characters"); if (!wide && !slim) return;
  if (prec > 0) { int q = n - prec - 1; vf_assert(s[q] == '.', "decimal point"); }
  bool eu = true, ed = true; int off = wide ? 1 : 0; if (wide) { ed = false; eu = vf_and(c == 1, s[0] == '1'); } else eu = c == 0;
  for (int i = 0; i < len; i++) { int q = i + off + (prec > 0 && i >= ip ? 1 : 0); eu = vf_and(eu, s[q] == '0' + up[i]); ed = vf_and(ed, s[q] == '0' + g[i]); }
  bool canUp = drop >= 5, canDown = vf_or(drop < 5, vf_and(drop == 5, rest0));
  vf_assert(vf_or(vf_and(eu, canUp), vf_and(ed, canDown)), "text is the value rounded to the requested decimals"); vf_reach("number judged");
}
static void digits(int k) {   // group 0: every digit string of a length, scaled by any power of ten in range
  int nd = k % 17 + 1, K = k / 17 - 26; char *d = (char *)malloc(18); for (int i = 0; i < nd; i++) d[i] = (char)vf_byte(i ? '0' : '1', '9', "d");
  static const int PR[] = {0, 1, 2, 3, 4, 5, 6, 7, 12, 19, 25}; int prec = PR[vf_choose(11, "precision")]; bool neg = false; char out[FPCONV_BUFFER_LENGTH]; 
  int n = impl::emit_digits_decimal(d, nd, out, K, neg, (unsigned char)prec); if (n == -12345) { vf_reach("number judged"); return; }
  judge(out, n, d, nd, K, prec); free(d);
}
static double mk(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static double val(const std::string &s, int &dec, bool &ok) { size_t i = 0; bool ng = false; if (i < s.size() && s[i] == '-') { ng = true; i++; } double m = 0; dec = -1; ok = i < s.size(); size_t st = i; for (; i < s.size(); i++) { if (s[i] == '.') { ok = ok && dec < 0 && i > st; dec = 0; continue; } ok = vf_and(ok, dig(s[i])); m = m * 10 + (s[i] - '0'); if (dec >= 0) dec++; } if (dec == 0) ok = false; if (dec < 0) dec = 0; return ng ? -m : m; }
static const double BASES[] = {1e-16, 1.2345e-7, 0.0004999, 0.0005, 0.00951, 0.0999996, 0.3, 0.5, 0.9999996, 1.0, 1.7, 9.9996, 9.99995, 12.5, 31.4159265, 99.9995, 127.126, 255.9999, 999.9996, 1000.0, 1799.9999, 4095.5, 65535.99999, 99999.9995, 123456.789, 1048576.125, 9999999.9996, 1e8, 123456789.1, 1e9, 4e-5, 2.5e-3};
static const int NB = sizeof(BASES) / sizeof(*BASES);
static void doubles(int k, int bits) {   // group 1: doubles around a base: the lowest mantissa bits and the sign are free
  double b = BASES[k % NB]; uint64_t u; memcpy(&u, &b, 8); int pos = (k / NB) * bits; u &= ~(((1ull << bits) - 1) << pos);
  long f = vf_int(0, (1l << bits) - 1, "mantissa"); u |= (uint64_t)f << pos; if (k % 3 == 1) u |= 1ull << 63; double x = mk(u); int pr = (int)vf_int(0, 6, "precision");
  std::string s; char out[FPCONV_BUFFER_LENGTH]; int n = fpconv_dtos(x, out, (unsigned char)pr); s.assign(out, n); int prec = 0; while (prec < 6 && pr != prec) prec++;
  int dec; bool ok; double m = val(s, dec, ok), sc = 1; for (int i = 0; i < prec; i++) sc *= 10; vf_assert(ok, "plain decimal notation"); vf_assert(dec == prec, "number of decimals"); double e = m - x * sc; vf_assert(vf_and(e <= 0.5 + 1e-6, -e <= 0.5 + 1e-6), "text is the value rounded to the requested decimals"); vf_reach("number judged");
}
static void width(int k) {   // group 3: the predicted number of integer digits of any value
  int prec = k % 7; double lim = k / 7 == 0 ? 20 : k / 7 == 1 ? 2000 : k / 7 == 2 ? 150000 : 1500000; double x = vf_double(-lim, lim, "x"); int n = utilities::get_num_digits(x, prec); double h = 0.5, lo = 1, a = vf_abs(x); for (int i = 0; i < prec; i++) h /= 10; for (int i = 1; i < n; i++) lo *= 10;
  double t = h * 0.01 + lim * 1e-13; vf_assert(n >= 1, "at least one digit"); vf_assert(a + h < lo * 10 + t, "the printed value has no more digits than predicted"); if (n > 1) vf_assert(a + h >= lo - t, "the printed value has no fewer digits than predicted"); vf_reach("width judged");
}
static void ints(int) { int x = (int)vf_int(-2147483647l, 2147483647l, "x"); int n = utilities::get_num_digits(x); long lo = 1, a = x < 0 ? -(long)x : x; for (int i = 1; i < n; i++) lo *= 10; vf_assert(n >= 1 && n <= 10, "digit count"); vf_assert(vf_and(a < lo * 10, vf_or(n == 1, a >= lo)), "digit count of an integer"); vf_reach("width judged"); }
static void zero(int k) { char out[FPCONV_BUFFER_LENGTH]; for (int p = 0; p < 7; p++) { int n = fpconv_dtos(k ? -0.0 : 0.0, out, (unsigned char)p); std::string s(out, n); int dec; bool ok; double m = val(s, dec, ok); vf_assert(ok && m == 0 && (dec == 0 || dec == p), "zero"); } vf_reach("number judged"); }
extern "C" void vf_main(void) {
  long cs = vf_case(); int k = cs % 10000;
  switch (cs / 10000) { case 0: digits(k); break; case 1: doubles(k, 4); break; case 2: doubles(k, 8); break; case 3: width(k); break; case 4: if (k == 0) ints(0); else zero(k - 1); break; }
}
