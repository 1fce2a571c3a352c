// Minimal <iostream>/<fstream>/<sstream>/<iomanip> replacement used only when the
// code under test is compiled for symbolic execution: streams over an in-memory file system.
#pragma once
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <iosfwd>
#include <bits/postypes.h>
#include <string>
#include <exception>
#include <cstdio>
#include <cstring>
#include <ctime>

extern "C" {
int vf_is_sym_d(double);
int vf_is_sym_i(long);
int vfs_open(const char *path, int mode);        // mode bits: 1 in, 2 out, 4 trunc, 8 app ; returns node or -1
long vfs_size(int node);
const char *vfs_data(int node);
void vfs_write(int node, long off, const char *p, long n);
int vfs_write_fails(int node, long n); void vfs_closew(int node);
int vfs_read_fails(int node, long off);
int vf_place_d(double v, int prec, char *buf);   // symbolic number -> placeholder text
int vf_place_i(long v, char *buf);
}

namespace std {
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 32 | 128 | 16, basefield = 2 | 64 | 8, floatfield = 256 | 4;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const openmode app = 8, ate = 32, binary = 16, in = 1, out = 2, trunc = 4;
  static const seekdir beg = 0, cur = 1, end = 2;
  class failure : public exception {};
  class Init {};
  fmtflags flags_; long prec_, width_; iostate state_, exc_;
  ios_base() : flags_(dec | skipws), prec_(6), width_(0), state_(0), exc_(0) {}
  virtual ~ios_base() {}
  fmtflags flags() const { return flags_; }
  fmtflags flags(fmtflags f) { fmtflags o = flags_; flags_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = flags_; flags_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = flags_; flags_ = (flags_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags m) { flags_ &= ~m; }
  streamsize precision() const { return prec_; }
  streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
  streamsize width() const { return width_; }
  streamsize width(streamsize w) { streamsize o = width_; width_ = w; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
};
template <typename C, typename T> class basic_streambuf {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
  virtual ~basic_streambuf() {}
  virtual const char *vdata() { return ""; }
  virtual long vsize() { return 0; }
  virtual void vput(long off, const char *p, long n) {}
  virtual bool vwfail(long) { return false; }
  virtual bool vrfail() { return false; }
  long gpos_, ppos_; bool app_;
  basic_streambuf() : gpos_(0), ppos_(0), app_(false) {}
  int_type sgetc() { if (gpos_ >= vsize() || vrfail()) return T::eof(); return T::to_int_type(vdata()[gpos_]); }
  int_type sbumpc() { if (gpos_ >= vsize() || vrfail()) return T::eof(); return T::to_int_type(vdata()[gpos_++]); }
  int_type snextc() { if (sbumpc() == T::eof()) return T::eof(); return sgetc(); }
  int_type sungetc() { if (gpos_ <= 0) return T::eof(); gpos_--; return T::to_int_type(vdata()[gpos_]); }
  streamsize in_avail() { return vsize() - gpos_; }
  streamsize sgetn(C *s, streamsize n) { long k = vsize() - gpos_; if (k < 0 || vrfail()) k = 0; if (n < k) k = n; memcpy(s, vdata() + gpos_, (size_t)k); gpos_ += k; return k; }
  streamsize sputn(const C *s, streamsize n) { if (n <= 0) return 0; if (vwfail(n)) return 0; if (app_) ppos_ = vsize(); vput(ppos_, s, n); ppos_ += n; return n; }
  int_type sputc(C c) { return sputn(&c, 1) == 1 ? T::to_int_type(c) : T::eof(); }
  int pubsync() { return 0; }
};
template <typename C, typename T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_streambuf<C, T> *sb_; C fill_;
  basic_ios() : sb_(0), fill_(' ') {}
  void init(basic_streambuf<C, T> *s) { sb_ = s; if (!s) state_ |= badbit; }
  bool good() const { return state_ == 0; }
  bool eof() const { return (state_ & eofbit) != 0; }
  bool fail() const { return (state_ & (failbit | badbit)) != 0; }
  bool bad() const { return (state_ & badbit) != 0; }
  iostate rdstate() const { return state_; }
  void clear(iostate s = goodbit) { state_ = s; if (state_ & exc_) throw failure(); }
  void setstate(iostate s) { clear(state_ | s); }
  void _M_setstate(iostate s) { state_ |= s; }
  iostate exceptions() const { return exc_; }
  void exceptions(iostate e) { exc_ = e; clear(state_); }
  bool operator!() const { return fail(); }
  explicit operator bool() const { return !fail(); }
  basic_streambuf<C, T> *rdbuf() const { return sb_; }
  basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *s) { basic_streambuf<C, T> *o = sb_; sb_ = s; clear(); return o; }
  C fill() const { return fill_; }
  C fill(C c) { C o = fill_; fill_ = c; return o; }
  C widen(char c) const { return c; }
  char narrow(C c, char) const { return c; }
};
template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef basic_ios<C, T> ios_type; typedef basic_ostream<C, T> self; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_ostream() {}
  explicit basic_ostream(basic_streambuf<C, T> *s) { this->init(s); }
  virtual ~basic_ostream() {}
  class sentry { bool ok_; public: explicit sentry(basic_ostream &o) : ok_(o.good()) {} operator bool() const { return ok_; } };
  void raw(const C *p, long n) { if (!this->good() || !this->sb_) { if (!this->sb_) this->setstate(ios_base::badbit); return; } if (n > 0 && this->sb_->sputn(p, n) != n) this->setstate(ios_base::badbit); }
  void padded(const char *p, long n) {
    long w = this->width_; this->width_ = 0;
    if (w <= n) { raw(p, n); return; }
    string pad((size_t)(w - n), this->fill_); bool left = (this->flags_ & ios_base::adjustfield) == ios_base::left;
    if (left) { raw(p, n); raw(pad.data(), w - n); } else { raw(pad.data(), w - n); raw(p, n); }
  }
  void numpad(const char *p, long n) {
    if ((this->flags_ & ios_base::adjustfield) == ios_base::internal && n > 0 && (p[0] == '-' || p[0] == '+') && this->width_ > n) { C s = p[0]; long w = this->width_; this->width_ = 0; raw(&s, 1); string pad((size_t)(w - n), this->fill_); raw(pad.data(), w - n); raw(p + 1, n - 1); return; }
    padded(p, n);
  }
  self &ins_i(long v, bool uns) { char b[40]; int n; if (vf_is_sym_i(v)) n = vf_place_i(v, b); else if (this->flags_ & ios_base::hex) n = sprintf(b, "%lx", v); else n = uns ? sprintf(b, "%lu", (unsigned long)v) : sprintf(b, "%ld", v); numpad(b, n); return *this; }
  self &ins_d(double v) {
    char b[400]; int n; int p = (int)this->prec_;
    if (vf_is_sym_d(v)) n = vf_place_d(v, p, b);
    else { unsigned ff = this->flags_ & ios_base::floatfield; if (ff == ios_base::fixed) n = sprintf(b, "%.*f", p, v); else if (ff == ios_base::scientific) n = sprintf(b, "%.*e", p, v); else n = sprintf(b, "%.*g", p, v); }
    numpad(b, n); return *this; }
  self &operator<<(int v) { return ins_i(v, false); }
  self &operator<<(short v) { return ins_i(v, false); }
  self &operator<<(unsigned short v) { return ins_i(v, true); }
  self &operator<<(unsigned v) { return ins_i((long)v, true); }
  self &operator<<(long v) { return ins_i(v, false); }
  self &operator<<(unsigned long v) { return ins_i((long)v, true); }
  self &operator<<(long long v) { return ins_i((long)v, false); }
  self &operator<<(unsigned long long v) { return ins_i((long)v, true); }
  self &operator<<(bool v) { if (this->flags_ & ios_base::boolalpha) { padded(v ? "true" : "false", v ? 4 : 5); return *this; } return ins_i(v, false); }
  self &operator<<(double v) { return ins_d(v); }
  self &operator<<(float v) { return ins_d(v); }
  self &operator<<(const void *) { padded("0x0", 3); return *this; }
  self &operator<<(self &(*f)(self &)) { return f(*this); }
  self &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  self &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  self &operator<<(basic_streambuf<C, T> *s) { string t(s->vdata() + s->gpos_, (size_t)(s->vsize() - s->gpos_)); s->gpos_ = s->vsize(); raw(t.data(), (long)t.size()); return *this; }
  self &put(C c) { raw(&c, 1); return *this; }
  self &write(const C *p, streamsize n) { raw(p, n); return *this; }
  self &flush() { return *this; }
  pos_type tellp() { if (this->fail() || !this->sb_) return pos_type(off_type(-1)); return pos_type(off_type(this->sb_->app_ ? this->sb_->vsize() : this->sb_->ppos_)); }
  self &seekp(off_type o, ios_base::seekdir d) { if (!this->fail()) this->sb_->ppos_ = (d == 0 ? 0 : d == 1 ? this->sb_->ppos_ : this->sb_->vsize()) + o; return *this; }
  self &seekp(pos_type p) { return seekp(off_type(p), ios_base::beg); }
};
template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef basic_istream<C, T> self; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  long gcount_;
  basic_istream() : gcount_(0) {}
  explicit basic_istream(basic_streambuf<C, T> *s) : gcount_(0) { this->init(s); }
  virtual ~basic_istream() {}
  class sentry { bool ok_; public: explicit sentry(basic_istream &i, bool noskip = false) { if (i.good() && !noskip) i.skip(); ok_ = i.good(); if (!ok_) i.setstate(ios_base::failbit); } explicit operator bool() const { return ok_; } };
  void skip() { for (;;) { int_type c = this->sb_->sgetc(); if (c == T::eof()) { this->setstate(ios_base::eofbit); return; } if (c == ' ' || (c >= 9 && c <= 13)) this->sb_->sbumpc(); else return; } }
  streamsize gcount() const { return gcount_; }
  int_type get() { gcount_ = 0; sentry s(*this, true); if (!s) return T::eof(); int_type c = this->sb_->sbumpc(); if (c == T::eof()) this->setstate(ios_base::eofbit | ios_base::failbit); else gcount_ = 1; return c; }
  self &get(C &c) { int_type r = get(); if (r != T::eof()) c = T::to_char_type(r); return *this; }
  int_type peek() { gcount_ = 0; if (!this->good()) return T::eof(); int_type c = this->sb_->sgetc(); if (c == T::eof()) this->setstate(ios_base::eofbit); return c; }
  self &ignore(streamsize n = 1, int_type d = T::eof()) { for (long i = 0; i < n; i++) { int_type c = this->sb_->sbumpc(); if (c == T::eof()) { this->setstate(ios_base::eofbit); break; } if (c == d) break; } return *this; }
  self &unget() { this->sb_->sungetc(); return *this; }
  self &read(C *p, streamsize n) { gcount_ = 0; sentry s(*this, true); if (s) { gcount_ = this->sb_->sgetn(p, n); if (gcount_ != n) this->setstate(ios_base::eofbit | ios_base::failbit); } return *this; }
  pos_type tellg() { sentry s(*this, true); if (this->fail() || !this->sb_) return pos_type(off_type(-1)); return pos_type(off_type(this->sb_->gpos_)); }
  self &seekg(off_type o, ios_base::seekdir d) { this->state_ &= ~ios_base::eofbit; if (!this->fail()) this->sb_->gpos_ = (d == 0 ? 0 : d == 1 ? this->sb_->gpos_ : this->sb_->vsize()) + o; return *this; }
  self &seekg(pos_type p) { return seekg(off_type(p), ios_base::beg); }
  self &operator>>(self &(*f)(self &)) { return f(*this); }
  self &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  string tok() { string r; sentry s(*this); if (!s) return r; for (;;) { int_type c = this->sb_->sgetc(); if (c == T::eof()) { this->setstate(ios_base::eofbit); break; } if (c == ' ' || (c >= 9 && c <= 13)) break; r.push_back((char)c); this->sb_->sbumpc(); } if (r.empty()) this->setstate(ios_base::failbit); return r; }
};
template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public: basic_iostream() {} explicit basic_iostream(basic_streambuf<C, T> *s) { this->init(s); } virtual ~basic_iostream() {} };

// ---- string insertion / extraction
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } o.padded(s, (long)strlen(s)); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, char c) { o.padded(&c, 1); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, signed char c) { char d = (char)c; o.padded(&d, 1); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, unsigned char c) { char d = (char)c; o.padded(&d, 1); return o; }
template <> inline basic_ostream<char> &operator<<(basic_ostream<char> &o, const string &s) { o.padded(s.data(), (long)s.size()); return o; }
template <> inline basic_istream<char> &operator>>(basic_istream<char> &i, string &s) { s = i.tok(); return i; }
template <> inline basic_istream<char> &getline(basic_istream<char> &is, string &str, char delim) {
  is.gcount_ = 0; basic_istream<char>::sentry se(is, true);
  if (!se) return is;
  str.erase(); basic_streambuf<char> *sb = is.rdbuf(); long n = sb->vsize(), p = sb->gpos_; const char *d = sb->vdata();
  if (sb->vrfail()) { is._M_setstate(ios_base::badbit); return is; }
  if (p >= n) { is.setstate(ios_base::eofbit | ios_base::failbit); return is; }
  long q = p; while (q < n && d[q] != delim) q++;
  str.assign(d + p, (size_t)(q - p)); is.gcount_ = q - p;
  if (q < n) { sb->gpos_ = q + 1; is.gcount_++; } else { sb->gpos_ = q; is.setstate(ios_base::eofbit); }
  return is;
}
template <typename O> inline O &vf_strto_fail(O &o) { o.setstate(ios_base::failbit); return o; }
inline basic_istream<char> &operator>>(basic_istream<char> &i, char &c) { i.skip(); return i.get(c); }
// numbers, following num_get: the longest prefix that fits the number grammar is consumed; the state fails if it is none
inline string vf_numtok(basic_istream<char> &i, bool fl) {
  string r; basic_istream<char>::sentry se(i); if (!se) return r; basic_streambuf<char> *b = i.rdbuf(); bool mant = false, dot = false, ex = false, sign = true;
  for (;;) { int c = b->sgetc(); if (c == -1) { i.setstate(ios_base::eofbit); break; }
    if (sign && (c == '+' || c == '-')) { sign = false; } else if (c >= '0' && c <= '9') { sign = false; if (!ex) mant = true; }
    else if (fl && c == '.' && !dot && !ex) { dot = true; sign = false; } else if (fl && (c == 'e' || c == 'E') && mant && !ex) { ex = true; sign = true; } else break;
    r.push_back((char)c); b->sbumpc(); }
  return r; }
inline long vf_numint(basic_istream<char> &i, long lo, long hi, bool uns) { string t = vf_numtok(i, false); const char *p = t.c_str(); bool ng = false; if (*p == '-' || *p == '+') { ng = *p == '-'; p++; } if (!*p) { i.setstate(ios_base::failbit); return 0; }
  long v = 0; bool ov = false; for (; *p; p++) { if (v > (uns && ng ? hi : ng ? -(lo + 1) + 1 : hi) / 10 + 1) ov = true; else v = v * 10 + (*p - '0'); }
  if (ov || v > (uns ? hi : ng ? -lo : hi)) { i.setstate(ios_base::failbit); return !uns && ng ? lo : hi; } return ng ? -v : v; }
inline basic_istream<char> &operator>>(basic_istream<char> &i, double &v) { string t = vf_numtok(i, true); char *e; double r = strtod(t.c_str(), &e); if (t.empty() || *e || e == t.c_str()) { v = 0; i.setstate(ios_base::failbit); } else if (r > 1.7976931348623157e308 || r < -1.7976931348623157e308) { v = r > 0 ? 1.7976931348623157e308 : -1.7976931348623157e308; i.setstate(ios_base::failbit); } else v = r; return i; }
inline basic_istream<char> &operator>>(basic_istream<char> &i, float &v) { double d; i >> d; v = (float)d; return i; }
inline basic_istream<char> &operator>>(basic_istream<char> &i, int &v) { v = (int)vf_numint(i, -2147483647L - 1, 2147483647L, false); return i; }
inline basic_istream<char> &operator>>(basic_istream<char> &i, long &v) { v = vf_numint(i, -4000000000000000000L, 4000000000000000000L, false); return i; }
inline basic_istream<char> &operator>>(basic_istream<char> &i, unsigned &v) { v = (unsigned)vf_numint(i, 0, 4294967295L, true); return i; }

template <typename C, typename T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put('\n'); return o.flush(); }
template <typename C, typename T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(0); }
template <typename C, typename T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); }
template <typename C, typename T> inline basic_istream<C, T> &ws(basic_istream<C, T> &i) { i.skip(); return i; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; }
struct _Setprecision { int n; }; inline _Setprecision setprecision(int n) { _Setprecision r = {n}; return r; }
struct _Setw { int n; }; inline _Setw setw(int n) { _Setw r = {n}; return r; }
template <typename C> struct _Setfill { C c; }; template <typename C> inline _Setfill<C> setfill(C c) { _Setfill<C> r = {c}; return r; }
struct _Setbase { int n; }; inline _Setbase setbase(int n) { _Setbase r = {n}; return r; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setprecision s) { o.precision(s.n); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setw s) { o.width(s.n); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setfill<C> s) { o.fill(s.c); return o; }
template <typename C, typename T> inline basic_istream<C, T> &operator>>(basic_istream<C, T> &o, _Setw s) { o.width(s.n); return o; }

// ---- string streams
inline namespace __cxx11 {
template <typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> {
public:
  string s_;
  const char *vdata() override { return s_.data(); }
  long vsize() override { return (long)s_.size(); }
  void vput(long off, const char *p, long n) override { if (off == (long)s_.size()) s_.append(p, (size_t)n); else { if ((long)s_.size() < off + n) s_.resize((size_t)(off + n)); memcpy(&s_[(size_t)off], p, (size_t)n); } }
};
#define VF_STRSTREAM(NAME, BASE, DEFMODE)                                                                                \
  template <typename C, typename T, typename A> class NAME : public BASE<C, T> {                                          \
  public:                                                                                                                \
    basic_stringbuf<C, T, A> buf_;                                                                                        \
    NAME() { this->init(&buf_); }                                                                                         \
    explicit NAME(ios_base::openmode) { this->init(&buf_); }                                                              \
    explicit NAME(const string &s, ios_base::openmode m = DEFMODE) { buf_.s_ = s; this->init(&buf_); if (m & (ios_base::ate | ios_base::app)) buf_.ppos_ = (long)s.size(); } \
    NAME(const NAME &) = delete;                                                                                          \
    virtual ~NAME() {}                                                                                                    \
    string str() const { return buf_.s_; }                                                                                \
    void str(const string &s) { buf_.s_ = s; buf_.gpos_ = 0; buf_.ppos_ = 0; }                                            \
    basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&buf_); }                     \
  };
VF_STRSTREAM(basic_stringstream, basic_iostream, ios_base::in | ios_base::out)
VF_STRSTREAM(basic_ostringstream, basic_ostream, ios_base::out)
VF_STRSTREAM(basic_istringstream, basic_istream, ios_base::in)

}
// ---- file streams
template <typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> {
public:
  int node_; unsigned mode_;
  basic_filebuf() : node_(-1), mode_(0) {}
  const char *vdata() override { return vfs_data(node_); }
  long vsize() override { return (node_ < 0 || !(mode_ & 3)) ? 0 : vfs_size(node_); }
  void vput(long off, const char *p, long n) override { vfs_write(node_, off, p, n); }
  bool vwfail(long n) override { return node_ < 0 || !(mode_ & 2) || vfs_write_fails(node_, n); }
  bool vrfail() override { return node_ < 0 || !(mode_ & 1) || vfs_read_fails(node_, this->gpos_); }
  bool is_open() const { return node_ >= 0; }
  bool open(const char *p, unsigned m) { if (node_ >= 0) return false; unsigned mm = m; if ((m & 2) && !(m & (1 | 8))) mm |= 4; node_ = vfs_open(p, (int)(mm & 15)); mode_ = m | ((m & 8) ? 2u : 0u); this->gpos_ = 0; this->ppos_ = 0; this->app_ = (m & 8) != 0; if (node_ >= 0 && (m & 32)) { this->gpos_ = this->ppos_ = vfs_size(node_); } return node_ >= 0; }
  bool close() { if (node_ < 0) return false; if (mode_ & 2) vfs_closew(node_); node_ = -1; return true; }
};
#define VF_FSTREAM(NAME, BASE, DEF, FORCE)                                                                               \
  template <typename C, typename T> class NAME : public BASE<C, T> {                                                      \
  public:                                                                                                                \
    basic_filebuf<C, T> buf_;                                                                                             \
    NAME() { this->init(&buf_); }                                                                                         \
    explicit NAME(const char *p, ios_base::openmode m = DEF) { this->init(&buf_); open(p, m); }                           \
    explicit NAME(const string &p, ios_base::openmode m = DEF) { this->init(&buf_); open(p.c_str(), m); }                 \
    NAME(const NAME &) = delete;                                                                                          \
    virtual ~NAME() {}                                                                                                    \
    void open(const char *p, ios_base::openmode m = DEF) { if (!buf_.open(p, m | FORCE)) this->setstate(ios_base::failbit); else this->clear(); } \
    void open(const string &p, ios_base::openmode m = DEF) { open(p.c_str(), m); }                                        \
    bool is_open() const { return buf_.is_open(); }                                                                       \
    void close() { if (!buf_.close()) this->setstate(ios_base::failbit); }                                                \
    basic_filebuf<C, T> *rdbuf() const { return const_cast<basic_filebuf<C, T> *>(&buf_); }                               \
  };
VF_FSTREAM(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
VF_FSTREAM(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
VF_FSTREAM(basic_fstream, basic_iostream, (ios_base::in | ios_base::out), 0)

class vf_nullbuf : public basic_streambuf<char> { public: long n_ = 0; void vput(long, const char *, long) override {} };
extern ostream cout, cerr, clog; extern istream cin;
} // namespace std
