// Runtime support for symbolic execution: in-memory file system, small libc pieces, libstdc++ out-of-line parts.
#include "vf_ios.h"
#include <cstdlib>
#include <map>
#include <list>
#include <set>
extern "C" {
// ---- placeholders for symbolic numbers in text: \x01 + kind + 6 digits + '~'
#define VF_MAXPH 4096
double vf_ph_val[VF_MAXPH]; int vf_ph_prec[VF_MAXPH]; int vf_ph_n = 0;
int vf_place_d(double v, int prec, char *buf) { int id = vf_ph_n++; vf_ph_val[id % VF_MAXPH] = v; vf_ph_prec[id % VF_MAXPH] = prec; buf[0] = 1; int k = id; for (int i = 5; i >= 1; i--) { buf[i] = (char)('0' + k % 10); k /= 10; } buf[6] = 2; buf[7] = 0; return 7; }
int vf_place_i(long v, char *buf) { return vf_place_d((double)v, 0, buf); }
// ---- vfs
struct Node { char *d; long n, cap; int wopen; };
struct Ent { char name[128]; int node; };
static Node nodes[16]; static int nnodes = 0; static Ent ents[16]; static int nents = 0;
int (*vfs_fault_hook)(const char *op, const char *path) = 0;   // nonzero => the operation fails
static int (*volatile dummy_)(void) = 0;
static int ent(const char *p) { for (int i = 0; i < nents; i++) if (ents[i].node >= 0 && !strcmp(ents[i].name, p)) return i; return -1; }
static char wpath[16][128];
int vfs_open(const char *p, int mode) {
  if (vfs_fault_hook && vfs_fault_hook((mode & 2) ? "openw" : "openr", p)) return -1;
  int e = ent(p);
  if (e < 0) { if (!(mode & 2) || !(mode & (4 | 8))) return -1; if (strlen(p) >= 128) return -1; e = -1; for (int i = 0; i < nents; i++) if (ents[i].node < 0) e = i; if (e < 0) e = nents++; strcpy(ents[e].name, p); ents[e].node = nnodes++; nodes[ents[e].node].d = 0; nodes[ents[e].node].n = nodes[ents[e].node].cap = 0; }
  int nd = ents[e].node; if (mode & 4) nodes[nd].n = 0; if (mode & 2) nodes[nd].wopen++; strcpy(wpath[nd], p); return nd;
}
long vfs_size(int n) { return nodes[n].n; }
const char *vfs_data(int n) { return n < 0 || !nodes[n].d ? "" : nodes[n].d; }
void vfs_write(int nd, long off, const char *p, long n) { Node &x = nodes[nd]; if (off + n > x.cap) { long c = x.cap * 2; if (c < off + n) c = off + n; if (c < 1024) c = 1024; char *q = (char *)malloc((size_t)c); if (x.n) memcpy(q, x.d, (size_t)x.n); if (x.d) free(x.d); x.d = q; x.cap = c; } if (off > x.n) memset(x.d + x.n, 0, (size_t)(off - x.n)); memcpy(x.d + off, p, (size_t)n); if (off + n > x.n) x.n = off + n; }
long vfs_wtotal = 0;
int vfs_write_fails(int nd, long n) { vfs_wtotal += n; return vfs_fault_hook ? vfs_fault_hook("write", wpath[nd]) : 0; }
int vfs_read_fails(int nd, long) { return vfs_fault_hook ? vfs_fault_hook("read", wpath[nd]) : 0; }
void vfs_closew(int nd) { nodes[nd].wopen--; }
int vfs_dirty(const char *p) { int e = ent(p); return e >= 0 && nodes[ents[e].node].wopen > 0; }
int vfs_mkdir(const char *) { return 0; }
int vfs_exists(const char *p) { return ent(p) >= 0; }
int remove(const char *p) noexcept { if (vfs_fault_hook && vfs_fault_hook("remove", p)) return -1; int e = ent(p); if (e < 0) return -1; ents[e].node = -1; return 0; }
int unlink(const char *p) noexcept { return remove(p); }
int rename(const char *a, const char *b) noexcept { if (vfs_fault_hook && vfs_fault_hook("rename", a)) return -1; int e = ent(a); if (e < 0) return -1; int f = ent(b); if (f >= 0) ents[f].node = -1; strcpy(ents[e].name, b); return 0; }
// FILE* subset (existence probes)
FILE *fopen(const char *p, const char *m) { int nd = vfs_open(p, m[0] == 'r' ? 1 : m[0] == 'a' ? 10 : 6); if (nd < 0) return 0; long *q = (long *)malloc(16); q[0] = nd; q[1] = 0; return (FILE *)q; }
int fclose(FILE *f) { free(f); return 0; }
// ---- libc
size_t strlen(const char *s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) noexcept { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) noexcept { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) break; } return 0; }
char *strcpy(char *d, const char *s) noexcept { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) noexcept { strcpy(d + strlen(d), s); return d; }
const char *vf_strchr(const char *s, int c) __asm__("strchr");
const char *vf_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return 0; } }
const void *vf_memchr(const void *s, int c, size_t n) __asm__("memchr");
const void *vf_memchr(const void *s, int c, size_t n) { const char *p = (const char *)s; for (size_t i = 0; i < n; i++) if (p[i] == (char)c) return p + i; return 0; }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) noexcept { return isdigit(c) || isalpha(c); }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int abs(int x) noexcept { return x < 0 ? -x : x; }
long labs(long x) noexcept { return x < 0 ? -x : x; }
static unsigned rs_ = 12345; int rand(void) noexcept { rs_ = rs_ * 1103515245u + 12345u; return (int)((rs_ >> 1) & 0x3fffffff); }
void srand(unsigned s) noexcept { rs_ = s; }
int fflush(FILE *) { return 0; }
extern long (*vf_clock_hook)(void); long (*vf_clock_hook)(void); static clock_t clk_ = 1000000; clock_t clock(void) noexcept { if (vf_clock_hook) return vf_clock_hook(); return clk_ += 1000; }
long strtol(const char *s, char **e, int base) noexcept { const char *p = s; while (*p == ' ') p++; bool ng = false; if (*p == '-') { ng = true; p++; } else if (*p == '+') p++; long v = 0; const char *st = p; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); if (e) *e = (char *)(p == st ? s : p); return ng ? -v : v; }
int vf_atoi(const char *) __asm__("atoi"); int vf_atoi(const char *s) { return (int)strtol(s, 0, 10); }
double strtod(const char *s, char **e) noexcept {
  const char *p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; bool ng = false; if (*p == '-') { ng = true; p++; } else if (*p == '+') p++; double v = 0, sc = 1; int nd = 0;
  while (*p >= '0' && *p <= '9') { v = v * 10 + (*p++ - '0'); nd++; } if (*p == '.' && (nd || (p[1] >= '0' && p[1] <= '9'))) { p++; while (*p >= '0' && *p <= '9') { v = v * 10 + (*p++ - '0'); sc *= 10; nd++; } }
  if (nd && (*p == 'e' || *p == 'E')) { const char *q = p + 1; bool en = false; if (*q == '-' || *q == '+') { en = *q == '-'; q++; } if (*q >= '0' && *q <= '9') { long x = 0; while (*q >= '0' && *q <= '9') { if (x < 1000) x = x * 10 + (*q - '0'); q++; } p = q; double m = 1; bool tiny = false; for (long k = 0; k < x; k++) m *= 10; if (v != 0 || true) { double up = en ? sc * m : m / sc; if (!en && sc > m) { v = v / (sc / m); } else if (en) v = v / up; else v = v * up; sc = 1; } (void)tiny; } }
  if (e) *e = (char *)(nd ? p : s); v = v / sc; return ng ? -v : v; }
double vf_atof(const char *) __asm__("atof"); double vf_atof(const char *s) { return strtod(s, 0); }
}
namespace std {
static vf_nullbuf nb_; ostream cout(&nb_), cerr(&nb_), clog(&nb_); istream cin(&nb_);
// ---- rb-tree (ordering semantics only; no rebalancing)
static _Rb_tree_node_base *inc_(_Rb_tree_node_base *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base *dec_(_Rb_tree_node_base *x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc_(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc_(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec_(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec_(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base *const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { _List_node_base *a = x._M_next, *b = x._M_prev; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = a; y._M_prev = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "exception"; }
}

// Number formatting: symbolic values become placeholders (value + precision); concrete ones use the real code.
namespace utilities { std::string dtos(double x, unsigned char precision); }
extern "C" int vf_is_sym_d(double);
extern "C" std::string vf_dtos(double x, unsigned char p) { if (!vf_is_sym_d(x)) return utilities::dtos(x, p); char b[8]; int n = vf_place_d(x, p, b); return std::string(b, (size_t)n); }
