// Native replay driver: runs the same harness against the real, natively compiled code on recorded inputs.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <sys/stat.h>
struct In { std::string name; char kind; unsigned long long bits; };
static std::vector<In> ins; static size_t pos = 0; static long caseIdx = 0;
static In next(const char *n, char k) {
  if (pos >= ins.size()) { In d; d.name = n; d.kind = k; d.bits = 0; pos++; return d; }
  In r = ins[pos++]; if (r.name != n || r.kind != k) { fprintf(stderr, "REPLAY-DIVERGED expected %s/%c got %s/%c\n", r.name.c_str(), r.kind, n, k); exit(12); } return r; }
double vf_ph_val[4096]; int vf_ph_prec[4096];
int (*vfs_fault_hook)(const char *op, const char *path) = 0;
long (*vf_clock_hook)(void) = 0;
// I/O fault injection: the same hook as in the symbolic file system
#include <dlfcn.h>
#include <time.h>
#include <errno.h>
#include <sys/uio.h>
static const char *fdname(int fd, char *b) { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, 255); if (n <= 0) return 0; b[n] = 0; if (b[0] != '/') return 0; char cwd[512]; if (!getcwd(cwd, sizeof cwd)) return 0; size_t c = strlen(cwd); if (strncmp(b, cwd, c) || b[c] != '/') return 0; return b + c + 1; }
#define NEXT(f) ((decltype(&f))dlsym(RTLD_NEXT, #f))
extern "C" {
long vfs_wtotal = 0;
FILE *fopen(const char *p, const char *m) { if (vfs_fault_hook && vfs_fault_hook(m[0] == 'r' && !strchr(m, '+') ? "openr" : "openw", p)) { errno = EACCES; return 0; } return NEXT(fopen)(p, m); }
FILE *fopen64(const char *p, const char *m) { if (vfs_fault_hook && vfs_fault_hook(m[0] == 'r' && !strchr(m, '+') ? "openr" : "openw", p)) { errno = EACCES; return 0; } return NEXT(fopen64)(p, m); }
ssize_t write(int fd, const void *p, size_t n) { char b[256]; const char *f; if (vfs_fault_hook && (f = fdname(fd, b))) { vfs_wtotal += n; if (vfs_fault_hook("write", f)) { errno = ENOSPC; return -1; } } return NEXT(write)(fd, p, n); }
ssize_t writev(int fd, const struct iovec *v, int c) { char b[256]; const char *f; if (vfs_fault_hook && (f = fdname(fd, b))) { for (int i = 0; i < c; i++) vfs_wtotal += v[i].iov_len; if (vfs_fault_hook("write", f)) { errno = ENOSPC; return -1; } } return NEXT(writev)(fd, v, c); }
ssize_t read(int fd, void *p, size_t n) { char b[256]; const char *f; if (vfs_fault_hook && (f = fdname(fd, b)) && vfs_fault_hook("read", f)) { errno = EIO; return -1; } return NEXT(read)(fd, p, n); }
clock_t clock(void) noexcept { if (vf_clock_hook) return vf_clock_hook(); return NEXT(clock)(); }
int remove(const char *p) { if (vfs_fault_hook && vfs_fault_hook("remove", p)) { errno = EACCES; return -1; } return NEXT(remove)(p); }
int unlink(const char *p) { if (vfs_fault_hook && vfs_fault_hook("remove", p)) { errno = EACCES; return -1; } return NEXT(unlink)(p); }
int rename(const char *a, const char *c) { if (vfs_fault_hook && vfs_fault_hook("rename", a)) { errno = EACCES; return -1; } return NEXT(rename)(a, c); }
}
extern "C" {
long vf_case(void) { return caseIdx; }
long vf_int(long lo, long hi, const char *n) { if (pos >= ins.size()) { pos++; return lo; } return (long)next(n, 'i').bits; }
int vf_byte(int lo, int hi, const char *n) { if (pos >= ins.size()) { pos++; return lo; } return (int)(signed char)next(n, 'i').bits; }
double vf_double(double lo, double hi, const char *n) { if (pos >= ins.size()) { pos++; return lo; } In r = next(n, 'd'); double d; memcpy(&d, &r.bits, 8); return d; }
int vf_choose(int n, const char *nm) { return (int)next(nm, 'c').bits; }
void vf_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); exit(11); } }
void vf_assert(bool c, const char *l) { if (!c) { fprintf(stderr, "ASSERT-FAIL %s\n", l); fflush(0); exit(10); } }
void vf_reach(const char *) {}
void vf_obs_i(const char *l, long v) { printf("OBS i:%s %llu\n", l, (unsigned long long)v); }
void vf_obs_d(const char *l, double v) { unsigned long long b; memcpy(&b, &v, 8); printf("OBS d:%s %llu\n", l, b); }
void vf_end(void) { fflush(0); exit(0); }
int vf_is_sym_d(double) { return 0; }
int vf_is_sym_i(long) { return 0; }
void vf_print_d(double d) { fprintf(stderr, "D: %.17g\n", d); }
void vf_print_i(long d) { fprintf(stderr, "I: %ld\n", d); }
void vf_print_s(const char *s) { fprintf(stderr, "S: %s\n", s); }
long vf_concretise(long x) { return x; }
int vf_must(bool c) { return c; }
int vf_may(bool c) { return c; }
int vf_symbolic(void) { return 0; }
double vf_ite_d(bool c, double a, double b) { return c ? a : b; }
long vf_ite_i(bool c, long a, long b) { return c ? a : b; }
int vfs_dirty(const char *) { return 0; }
int vfs_mkdir(const char *p) { return mkdir(p, 0755); }
int vfs_exists(const char *p) { struct stat s; return stat(p, &s) == 0; }
void vf_main(void);
}
int main(int argc, char **argv) {
  if (argc < 2) return 2; FILE *f = fopen(argv[1], "r"); if (!f) return 2;
  char nm[256], k; unsigned long long b; if (fscanf(f, "case %ld\n", &caseIdx) != 1) return 2;
  while (fscanf(f, "%255s %c %llu\n", nm, &k, &b) == 3) { In i; i.name = nm; i.kind = k; i.bits = b; ins.push_back(i); }
  fclose(f);
  if (argc > 2 && chdir(argv[2])) return 2;
  vf_main(); fflush(0); return 0;
}
