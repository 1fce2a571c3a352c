// Harness interface. Under symbolic execution the vf_* functions are solver intrinsics; natively
// (replay) they read recorded inputs in order and check assertions.
#pragma once
#include <string>
#include <vector>
#include <fstream>
#include <cmath>
extern "C" {
long vf_case(void);
long vf_int(long lo, long hi, const char *name);
int vf_byte(int lo, int hi, const char *name);
double vf_double(double lo, double hi, const char *name);
int vf_choose(int n, const char *name);
void vf_assume(bool c);
void vf_assert(bool c, const char *label);
void vf_reach(const char *label);
void vf_obs_i(const char *label, long v);
void vf_obs_d(const char *label, double v);
void vf_end(void);
int vf_is_sym_d(double);
int vf_is_sym_i(long);
void vf_print_d(double);
void vf_print_i(long);
void vf_print_s(const char *);
long vf_concretise(long);
int vf_must(bool);
int vf_may(bool);
int vf_symbolic(void);
double vf_ite_d(bool c, double a, double b);
long vf_ite_i(bool c, long a, long b);
extern double vf_ph_val[]; extern int vf_ph_prec[];
extern int (*vfs_fault_hook)(const char *op, const char *path);
extern long (*vf_clock_hook)(void);
int vfs_exists(const char *path); int vfs_dirty(const char *path); int vfs_mkdir(const char *path); extern long vfs_wtotal;   // bytes the program tried to write so far
}
static inline double vf_min(double a, double b) { return vf_ite_d(a < b, a, b); }
static inline double vf_max(double a, double b) { return vf_ite_d(a < b, b, a); }
static inline double vf_abs(double a) { return std::fabs(a); }
// branch-free boolean helpers (avoid forking inside oracles)
static inline bool vf_and(bool a, bool b) { return (bool)((int)a & (int)b); }
static inline bool vf_or(bool a, bool b) { return (bool)((int)a | (int)b); }
static inline bool vf_near(double a, double b, double t) { return vf_and(a - b <= t, b - a <= t); }
