// The Python module PyArcWelder: its real sources run against a small stand-in of the Python runtime (objects with
// reference counts, dictionaries, pending exception); the conversion itself is a stand-in which checks the settings it
// is given, sends progress and returns results.
// case = mask * 10000 + n; mask: 1 settings, 2 results and progress, 4 exceptions and references
// n: base*1000 + setting*10 + form (base 0: other options missing, 1: present); 2000 all free; 3000.. progress; 4000.. bad calls, 4100.. the same with a logger that raises, 4118 a good call with it
#include "vf.h"
#include <Python.h>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <map>
#include <iomanip>
#include "arc_welder.h"
static int MASK;
static void ck(int m, bool c, const char *l) { if (MASK & m) vf_assert(c, l); }
// ---- Python objects
enum Kind { LONG, FLOAT, BOOL, STR, DICT, TUPLE, OTHER };
struct Obj { PyObject b; int kind; long l; double d; std::string s; std::vector<std::pair<std::string, Obj *>> m; std::vector<Obj *> t; };
static long LIVE; static bool PENDING; static int LOGFAULT = -1; static int CALLS, PYCALLS; static Obj *CALLBACK, *LOGGER, *CONFIG; static std::vector<Obj *> SENT; static bool IMPORT_FAILS;
#define O(p) ((Obj *)(p))
static Obj *mk(int k, PyTypeObject *t) { Obj *o = new Obj(); o->kind = k; o->b.ob_refcnt = 1; o->b.ob_type = t; LIVE++; return o; }
extern "C" {
#undef PyFloat_Type
PyTypeObject PyFloat_Type, PyLong_Type, PyUnicode_Type, PyDict_Type, PyTuple_Type, PyBool_Type, PyBytes_Type, PyList_Type, PyBaseObject_Type, _PyNone_Type;
PyObject _Py_NoneStruct; struct _longobject _Py_TrueStruct, _Py_FalseStruct;
static PyObject EXC; PyObject *PyExc_ImportError = &EXC, *PyExc_ValueError = &EXC, *PyExc_Exception = &EXC, *PyExc_TypeError = &EXC, *PyExc_RuntimeError = &EXC, *PyExc_KeyError = &EXC, *PyExc_MemoryError = &EXC;
static bool isLong(PyObject *o) { return o->ob_type == &PyLong_Type || o->ob_type == &PyBool_Type; }
static long valueOf(PyObject *o) { return o == (PyObject *)&_Py_TrueStruct ? 1 : o == (PyObject *)&_Py_FalseStruct ? 0 : O(o)->l; }
void _Py_Dealloc(PyObject *p) { Obj *o = O(p); std::vector<std::pair<std::string, Obj *>> m = o->m; std::vector<Obj *> t = o->t; LIVE--; delete o; for (auto &e : m) Py_DECREF((PyObject *)e.second); for (auto e : t) Py_DECREF((PyObject *)e); }
void Py_IncRef(PyObject *o) { Py_XINCREF(o); } void Py_DecRef(PyObject *o) { Py_XDECREF(o); }
int PyType_IsSubtype(PyTypeObject *a, PyTypeObject *b) { return a == b || (a == &PyBool_Type && b == &PyLong_Type); }
PyObject *PyLong_FromLong(long v) { Obj *o = mk(LONG, &PyLong_Type); o->l = v; return &o->b; }
PyObject *PyLong_FromLongLong(long long v) { return PyLong_FromLong((long)v); }
PyObject *PyBool_FromLong(long v) { PyObject *r = v ? (PyObject *)&_Py_TrueStruct : (PyObject *)&_Py_FalseStruct; Py_INCREF(r); return r; }
PyObject *PyFloat_FromDouble(double v) { Obj *o = mk(FLOAT, &PyFloat_Type); o->d = v; return &o->b; }
PyObject *PyUnicode_FromString(const char *s) { Obj *o = mk(STR, &PyUnicode_Type); o->s = s; return &o->b; }
PyObject *PyUnicode_FromStringAndSize(const char *s, Py_ssize_t n) { Obj *o = mk(STR, &PyUnicode_Type); o->s.assign(s, n); return &o->b; }
PyObject *PyUnicode_DecodeUTF8(const char *s, Py_ssize_t n, const char *) { return PyUnicode_FromStringAndSize(s, n); }
PyObject *PyBytes_FromString(const char *s) { Obj *o = mk(STR, &PyBytes_Type); o->s = s; return &o->b; }
const char *PyUnicode_AsUTF8(PyObject *o) { if (o->ob_type != &PyUnicode_Type) { PENDING = true; return 0; } return O(o)->s.c_str(); }
const char *PyUnicode_AsUTF8AndSize(PyObject *o, Py_ssize_t *n) { const char *r = PyUnicode_AsUTF8(o); if (r && n) *n = O(o)->s.size(); return r; }
long PyLong_AsLong(PyObject *o) { if (!isLong(o)) { PENDING = true; return -1; } return valueOf(o); }
long long PyLong_AsLongLong(PyObject *o) { return PyLong_AsLong(o); }
double PyLong_AsDouble(PyObject *o) { if (!isLong(o)) { PENDING = true; return -1; } return (double)valueOf(o); }
double PyFloat_AsDouble(PyObject *o) { if (o->ob_type == &PyFloat_Type) return O(o)->d; if (isLong(o)) return (double)valueOf(o); PENDING = true; return -1; }
int PyObject_IsTrue(PyObject *o) { if (o == Py_None) return 0; if (isLong(o)) return valueOf(o) != 0; if (o->ob_type == &PyFloat_Type) return O(o)->d != 0; if (o->ob_type == &PyUnicode_Type) return !O(o)->s.empty(); return 1; }
int PyCallable_Check(PyObject *o) { return o == &CALLBACK->b || o == &CONFIG->b; }
PyObject *PyDict_New(void) { return &mk(DICT, &PyDict_Type)->b; }
PyObject *PyDict_GetItemString(PyObject *d, const char *k) { if (d->ob_type != &PyDict_Type) return 0; for (auto &e : O(d)->m) if (e.first == k) return &e.second->b; return 0; }
PyObject *PyDict_GetItem(PyObject *d, PyObject *k) { return PyDict_GetItemString(d, O(k)->s.c_str()); }
PyObject *PyDict_GetItemWithError(PyObject *d, PyObject *k) { return PyDict_GetItem(d, k); }
int PyDict_SetItemString(PyObject *d, const char *k, PyObject *v) { Py_INCREF(v); for (auto &e : O(d)->m) if (e.first == k) { Obj *o = e.second; e.second = O(v); Py_DECREF(&o->b); return 0; } O(d)->m.push_back(std::make_pair(std::string(k), O(v))); return 0; }
int PyDict_SetItem(PyObject *d, PyObject *k, PyObject *v) { return PyDict_SetItemString(d, O(k)->s.c_str(), v); }
int PyDict_Contains(PyObject *d, PyObject *k) { return PyDict_GetItem(d, k) != 0; }
Py_ssize_t PyDict_Size(PyObject *d) { return O(d)->m.size(); }
Py_ssize_t PyTuple_Size(PyObject *t) { return O(t)->t.size(); }
PyObject *PyTuple_GetItem(PyObject *t, Py_ssize_t i) { if (i < 0 || i >= (Py_ssize_t)O(t)->t.size()) { PENDING = true; return 0; } return &O(t)->t[i]->b; }
PyObject *PyTuple_New(Py_ssize_t n) { Obj *o = mk(TUPLE, &PyTuple_Type); o->t.resize(n); return &o->b; }
int PyTuple_SetItem(PyObject *t, Py_ssize_t i, PyObject *v) { O(t)->t[i] = O(v); return 0; }
PyObject *PyTuple_Pack(Py_ssize_t n, ...) { va_list va; va_start(va, n); Obj *o = mk(TUPLE, &PyTuple_Type); for (Py_ssize_t i = 0; i < n; i++) { PyObject *v = va_arg(va, PyObject *); Py_INCREF(v); o->t.push_back(O(v)); } va_end(va); return &o->b; }
static PyObject *build(const char **f, va_list *va) {
  while (**f == ',' || **f == ':' || **f == ' ') (*f)++;
  char c = *(*f)++;
  switch (c) {
  case '{': { PyObject *d = PyDict_New(); for (;;) { while (**f == ',' || **f == ' ') (*f)++; if (**f == '}') { (*f)++; return d; } PyObject *k = build(f, va); PyObject *v = build(f, va); if (!v) { Py_DECREF(k); Py_DECREF(d); return 0; } PyDict_SetItem(d, k, v); Py_DECREF(k); Py_DECREF(v); } }
  case '(': { PyObject *t = PyTuple_New(0); for (;;) { while (**f == ',' || **f == ' ') (*f)++; if (**f == ')') { (*f)++; return t; } PyObject *v = build(f, va); if (!v) { Py_DECREF(t); return 0; } O(t)->t.push_back(O(v)); } }
  case 'd': case 'f': return PyFloat_FromDouble(va_arg(*va, double));
  case 'i': case 'b': case 'h': return PyLong_FromLong(va_arg(*va, int));
  case 'I': return PyLong_FromLong(va_arg(*va, unsigned));
  case 'l': case 'L': case 'n': case 'k': case 'K': return PyLong_FromLong(va_arg(*va, long));
  case 's': case 'z': case 'U': { const char *s = va_arg(*va, const char *); if (!s) { Py_INCREF(Py_None); return Py_None; } return PyUnicode_FromString(s); }
  case 'O': { PyObject *o = va_arg(*va, PyObject *); if (!o) { PENDING = true; return 0; } Py_INCREF(o); return o; }
  case 'N': { PyObject *o = va_arg(*va, PyObject *); if (!o) PENDING = true; return o; }
  }
  vf_assert(false, "known format unit"); return 0; }
PyObject *Py_BuildValue(const char *f, ...) { va_list va; va_start(va, f); PyObject *r = build(&f, &va); va_end(va); return r; }
PyObject *_Py_BuildValue_SizeT(const char *f, ...) { va_list va; va_start(va, f); PyObject *r = build(&f, &va); va_end(va); return r; }
int PyArg_ParseTuple(PyObject *t, const char *f, ...) { va_list va; va_start(va, f); size_t n = 0; while (f[n] == 'O') n++; if (O(t)->t.size() != n) { PENDING = true; va_end(va); return 0; } for (size_t i = 0; i < n; i++) *va_arg(va, PyObject **) = &O(t)->t[i]->b; va_end(va); return 1; }
int _PyArg_ParseTuple_SizeT(PyObject *t, const char *f, ...) { va_list va; va_start(va, f); size_t n = 0; while (f[n] == 'O') n++; if (O(t)->t.size() != n) { PENDING = true; va_end(va); return 0; } for (size_t i = 0; i < n; i++) *va_arg(va, PyObject **) = &O(t)->t[i]->b; va_end(va); return 1; }
PyObject *PyErr_Occurred(void) { return PENDING ? &EXC : 0; }
void PyErr_SetString(PyObject *, const char *) { PENDING = true; }
void PyErr_SetNone(PyObject *) { PENDING = true; }
void PyErr_SetObject(PyObject *, PyObject *) { PENDING = true; }
PyObject *PyErr_Format(PyObject *, const char *, ...) { PENDING = true; return 0; }
void PyErr_Clear(void) { PENDING = false; }
void PyErr_Print(void) { PENDING = false; }
void PyErr_PrintEx(int) { PENDING = false; }
void PyErr_WriteUnraisable(PyObject *) { PENDING = false; }
void PyErr_Fetch(PyObject **t, PyObject **v, PyObject **b) { *t = PENDING ? &EXC : 0; *v = *b = 0; PENDING = false; }
void PyErr_NormalizeException(PyObject **, PyObject **, PyObject **) {}
void PyErr_Restore(PyObject *t, PyObject *, PyObject *) { PENDING = t != 0; }
PyObject *PyErr_NewException(const char *, PyObject *, PyObject *) { return &mk(OTHER, &PyBaseObject_Type)->b; }
PyGILState_STATE PyGILState_Ensure(void) { return PyGILState_LOCKED; }
void PyGILState_Release(PyGILState_STATE) {}
PyThreadState *PyEval_SaveThread(void) { return 0; }
void PyEval_RestoreThread(PyThreadState *) {}
static PyObject *callback(Obj *arg);
static PyObject *call(PyObject *f, Obj *arg) { ck(4, !PENDING, "Python is not called with an exception pending"); PENDING = false; if (f == &CONFIG->b) { Py_INCREF(f); return f; } if (f == &CALLBACK->b) return callback(arg); PENDING = true; return 0; }
PyObject *PyObject_CallObject(PyObject *f, PyObject *a) { return call(f, a && !O(a)->t.empty() ? O(a)->t[0] : 0); }
PyObject *PyObject_Call(PyObject *f, PyObject *a, PyObject *) { return PyObject_CallObject(f, a); }
PyObject *PyObject_CallOneArg(PyObject *f, PyObject *a) { return call(f, O(a)); }
PyObject *PyObject_CallFunctionObjArgs(PyObject *f, ...) { va_list va; va_start(va, f); PyObject *a = va_arg(va, PyObject *); va_end(va); return call(f, O(a)); }
static PyObject *method(PyObject *o, const std::string &n, PyObject *) { ck(4, !PENDING, "Python is not called with an exception pending"); PENDING = false; PYCALLS++;
  if (LOGFAULT == PYCALLS) { PENDING = true; return 0; }
  if (n == "get_logger") { Py_INCREF(&LOGGER->b); return &LOGGER->b; } if (n == "getEffectiveLevel") return PyLong_FromLong(10); Py_INCREF(Py_None); return Py_None; }
PyObject *PyObject_CallMethod(PyObject *o, const char *n, const char *f, ...) { return method(o, n, 0); }
PyObject *_PyObject_CallMethod_SizeT(PyObject *o, const char *n, const char *f, ...) { return method(o, n, 0); }
PyObject *PyObject_CallMethodObjArgs(PyObject *o, PyObject *n, ...) { return method(o, O(n)->s, 0); }
PyObject *PyObject_GetAttrString(PyObject *, const char *) { Py_INCREF(&CONFIG->b); return &CONFIG->b; }
PyObject *PyImport_ImportModule(const char *) { if (IMPORT_FAILS) { PENDING = true; return 0; } return &mk(OTHER, &PyBaseObject_Type)->b; }
PyObject *PyImport_ImportModuleNoBlock(const char *n) { return PyImport_ImportModule(n); }
static char STATE[256]; static PyMethodDef *METHODS;
PyObject *PyModule_Create2(PyModuleDef *d, int) { METHODS = d->m_methods; return &mk(OTHER, &PyBaseObject_Type)->b; }
void *PyModule_GetState(PyObject *) { return STATE; }
}
// ---- the conversion
struct Want { std::string guid = "g", src = "a.gcode", dst = "b.gcode"; double r = 0.05, t = 0.05, m = 9999, s = 0, v = 0.05; long a = 0, c = 0, x = 3, e = 5; bool g = false, z = false, y = false, d = false; int level = 3; };
static Want W; static int ran, NCB; static std::vector<arc_welder_progress> PROG; static std::vector<int> ANSWER; static std::vector<bool> GO; static arc_welder_results RES;
struct vf_arc_welder {
  arc_welder_args A; vf_arc_welder(arc_welder_args a) : A(a) {} virtual ~vf_arc_welder() {}
  virtual bool on_progress_(const arc_welder_progress &) { return true; }
  arc_welder_results process() { ran++;
    ck(1, A.resolution_mm == W.r, "resolution"); ck(1, A.path_tolerance_percent == W.t, "path tolerance"); ck(1, A.max_radius_mm == W.m, "maximum radius"); ck(1, A.mm_per_arc_segment == W.s, "segment length"); ck(1, A.extrusion_rate_variance_percent == W.v, "flow variance");
    ck(1, A.min_arc_segments == W.a, "minimum segments"); ck(1, A.max_gcode_length == W.c, "length limit"); ck(1, A.default_xyz_precision == W.x, "xyz precision"); ck(1, A.default_e_precision == W.e, "e precision");
    ck(1, A.g90_g91_influences_extruder == W.g, "g90 switch"); ck(1, A.allow_3d_arcs == W.z, "3d switch"); ck(1, A.allow_travel_arcs == W.y, "travel switch"); ck(1, A.allow_dynamic_precision == W.d, "dynamic precision switch");
    ck(1, A.source_path == W.src, "source path"); ck(1, A.target_path == W.dst, "target path"); ck(1, A.buffer_size >= 5 && A.buffer_size <= 1000 && A.notification_period_seconds > 0, "buffer and notification period");
    bool lv = A.log != 0; for (int l = 0; l < 7 && lv; l++) if (A.log->is_log_level_enabled(0, (log_levels)l) != (l >= W.level)) lv = false; ck(1, lv, "log level");
    for (size_t i = 0; i < PROG.size(); i++) { bool go = on_progress_(PROG[i]); ck(2, go == GO[i], "the callback's answer decides whether the conversion goes on"); }
    return RES; }
};
#define arc_welder vf_arc_welder
#define main py_main
#include "py_logger.cpp"
#include "python_helpers.cpp"
#include "py_arc_welder.cpp"
#include "py_arc_welder_extension.cpp"
#undef main
#undef arc_welder
static Obj *item(Obj *d, const char *k) { return O(PyDict_GetItemString(&d->b, k)); }
static void isL(Obj *d, const char *k, long v) { Obj *o = item(d, k); ck(2, o && isLong(&o->b) && valueOf(&o->b) == v, k); }
static void isD(Obj *d, const char *k, double v) { Obj *o = item(d, k); ck(2, o && o->kind == FLOAT, k); if (o && o->kind == FLOAT) ck(2, vf_and(o->d <= v, v <= o->d), k); }
static void isS(Obj *d, const char *k, const std::string &v) { Obj *o = item(d, k); ck(2, o && o->kind == STR && o->s == v, k); }
static double reduction(const source_target_segment_statistics &s) { double a = s.total_count_source, b = s.total_count_target; if (s.total_count_source == 0) return 0; return (b - a) / a * 100.0; }
static void progress(Obj *d, const arc_welder_progress &p, bool texts) {
  if (!(MASK & 2)) return; ck(2, d && d->kind == DICT, "progress is a dictionary"); if (!d || d->kind != DICT) return;
  isD(d, "percent_complete", p.percent_complete); isD(d, "seconds_elapsed", p.seconds_elapsed); isD(d, "seconds_remaining", p.seconds_remaining);
  isL(d, "gcodes_processed", p.gcodes_processed); isL(d, "lines_processed", p.lines_processed); isL(d, "points_compressed", p.points_compressed); isL(d, "arcs_created", p.arcs_created); isL(d, "arcs_aborted_by_flowrate", p.arcs_aborted_by_flow_rate);
  isL(d, "num_firmware_compensations", p.num_firmware_compensations); isL(d, "num_gcode_length_exceptions", p.num_gcode_length_exceptions); isL(d, "source_file_position", p.source_file_position); isL(d, "source_file_size", p.source_file_size); isL(d, "target_file_size", p.target_file_size);
  isD(d, "compression_ratio", p.compression_ratio); isD(d, "compression_percent", p.compression_percent);
  isD(d, "source_file_total_length", p.segment_statistics.total_length_source); isD(d, "target_file_total_length", p.segment_statistics.total_length_target); isL(d, "source_file_total_count", p.segment_statistics.total_count_source); isL(d, "target_file_total_count", p.segment_statistics.total_count_target);
  isD(d, "source_file_total_travel_length", p.travel_statistics.total_length_source); isD(d, "target_file_total_travel_length", p.travel_statistics.total_length_target); isL(d, "source_file_total_travel_count", p.travel_statistics.total_count_source); isL(d, "target_file_total_travel_count", p.travel_statistics.total_count_target);
  isD(d, "total_count_reduction_percent", reduction(p.segment_statistics)); isD(d, "total_travel_count_reduction_percent", reduction(p.travel_statistics)); isS(d, "guid", W.guid);
  if (!texts) { isS(d, "segment_statistics_text", ""); isS(d, "segment_travel_statistics_text", ""); }
  else { source_target_segment_statistics c = source_target_segment_statistics::add(p.segment_statistics, p.segment_retraction_statistics); std::string a = c.str("", utilities::box_drawing::HTML), b = p.travel_statistics.str("", utilities::box_drawing::HTML); ck(2, !a.empty() && !b.empty(), "statistics texts"); isS(d, "segment_statistics_text", a); isS(d, "segment_travel_statistics_text", b); }
}
// answers: 0 None, 1 True, 2 False, 3 a number, 4 raises
static std::vector<long> NUM;
extern "C" PyObject *callback(Obj *arg) { int i = CALLS++; ck(2, i < (int)ANSWER.size(), "one call per progress"); if (i >= (int)ANSWER.size()) { PENDING = true; return 0; }
  progress(arg, PROG[i], false);
  switch (ANSWER[i]) { case 0: Py_INCREF(Py_None); return Py_None; case 1: return PyBool_FromLong(1); case 2: return PyBool_FromLong(0); case 3: return PyLong_FromLong(NUM[i]); } PENDING = true; return 0; }
static void statistics(source_target_segment_statistics &s, bool sym, const char *n) {
  if (sym) { s.total_length_source = vf_double(0, 1e7, n); s.total_length_target = vf_double(0, 1e7, n); s.total_count_source = (int)vf_int(0, 1000000, n); s.total_count_target = (int)vf_int(0, 1000000, n); }
  else { s.update(0.31, true); s.update(2.5, true); s.update(7.0, n[0] == 't'); s.update(2.81, false); if (n[0] == 'r') s.update(1.25, true); } }
static arc_welder_progress prog(bool stats) { arc_welder_progress p; p.percent_complete = vf_double(0, 100, "percent"); p.seconds_elapsed = vf_double(0, 1e6, "elapsed"); p.seconds_remaining = vf_double(0, 1e9, "remaining");
  p.gcodes_processed = (int)vf_int(0, 2147483647, "gcodes"); p.lines_processed = (int)vf_int(0, 2147483647, "lines"); p.points_compressed = (int)vf_int(0, 2147483647, "points"); p.arcs_created = (int)vf_int(0, 2147483647, "arcs"); p.arcs_aborted_by_flow_rate = (int)vf_int(0, 2147483647, "flow"); p.num_firmware_compensations = (int)vf_int(0, 2147483647, "comp"); p.num_gcode_length_exceptions = (int)vf_int(0, 2147483647, "len");
  p.compression_ratio = vf_double(0, 1e6, "ratio"); p.compression_percent = vf_double(-1e6, 100, "cpercent"); p.source_file_position = vf_int(0, 1L << 40, "pos"); p.source_file_size = vf_int(0, 1L << 40, "size"); p.target_file_size = vf_int(0, 1L << 40, "tsize");
  statistics(p.segment_statistics, stats, "segments"); statistics(p.segment_retraction_statistics, stats, "retractions"); statistics(p.travel_statistics, stats, "travels"); return p; }
static void put(Obj *d, const char *k, PyObject *v) { PyDict_SetItemString(&d->b, k, v); Py_DECREF(v); }
static const char *KEY[] = {"resolution_mm", "path_tolerance_percent", "max_radius_mm", "mm_per_arc_segment", "extrusion_rate_variance_percent", "min_arc_segments", "max_gcode_length", "default_xyz_precision", "default_e_precision", "g90_g91_influences_extruder", "allow_3d_arcs", "allow_travel_arcs", "allow_dynamic_precision", "log_level"};
// one option; form 0 missing, 1 int, 2 float (numbers) or bool (switches), 3 a fixed value
static void option(Obj *d, int s, int form) {
  if (form == 0) return; double v = 0; long n = 0; PyObject *o;
  if (s <= 4 || s == 7 || s == 8) {
    if (form == 1) { n = vf_int(-1000000, 1000000, KEY[s]); v = (double)n; o = PyLong_FromLong(n); } else if (form == 2) { v = vf_double(-1e6, 1e6, KEY[s]); o = PyFloat_FromDouble(v); }
    else { static const double F[] = {0.11, 0.07, 500, 1.5, 0.2, 0, 0, 4, 6}; v = F[s]; o = PyFloat_FromDouble(v); }
    switch (s) {
    case 0: if (v > 0) W.r = v; break; case 1: if (v >= 0) W.t = v; break; case 2: W.m = v; if (v > 9999) W.m = 9999; break; case 3: if (v >= 0) W.s = v; break; case 4: if (v >= 0) W.v = v; break;
    default: { long p = 3; if (v < 3) p = 3; else if (v > 6) p = 6; else p = (unsigned char)v; (s == 7 ? W.x : W.e) = p; } }
  } else if (s == 5 || s == 6) { n = form == 3 ? (s == 5 ? 14 : 55) : vf_int(-2147483647L, 2147483647L, KEY[s]); o = PyLong_FromLong(n); (s == 5 ? W.a : W.c) = n < 0 ? 0 : n; }
  else if (s == 13) { n = form == 3 ? 30 : vf_int(-100, 100, KEY[s]); o = PyLong_FromLong(n); W.level = n == 5 ? 1 : n == 10 ? 2 : n == 20 ? 3 : n == 30 ? 4 : n == 40 ? 5 : n == 50 ? 6 : 0; }
  else { bool b; if (form == 1) { n = vf_int(0, 3, KEY[s]); b = n > 0; o = PyLong_FromLong(n); } else if (form == 2) { n = vf_int(0, 1, KEY[s]); b = vf_concretise(n) != 0; o = PyBool_FromLong(b); } else { b = true; o = PyBool_FromLong(1); } (s == 9 ? W.g : s == 10 ? W.z : s == 11 ? W.y : W.d) = b; }
  put(d, KEY[s], o); }
static std::string word(const char *n, size_t k) { std::string s; for (size_t i = 0; i < k; i++) s.push_back((char)vf_byte(1, 126, n)); return s; }
extern "C" void vf_main(void) {
  long cs = vf_case(); MASK = (int)(cs / 10000); long n = cs % 10000;
  PyLong_Type.tp_flags = PyBool_Type.tp_flags = Py_TPFLAGS_LONG_SUBCLASS; PyUnicode_Type.tp_flags = Py_TPFLAGS_UNICODE_SUBCLASS; PyDict_Type.tp_flags = Py_TPFLAGS_DICT_SUBCLASS; PyTuple_Type.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS; PyBool_Type.tp_base = &PyLong_Type;
  PyObject *perm[] = {Py_None, (PyObject *)&_Py_TrueStruct, (PyObject *)&_Py_FalseStruct, &EXC}; PyTypeObject *pt[] = {&_PyNone_Type, &PyBool_Type, &PyBool_Type, &PyBaseObject_Type}; for (int i = 0; i < 4; i++) { perm[i]->ob_refcnt = 0xffffffffL; perm[i]->ob_type = pt[i]; }
  CALLBACK = mk(OTHER, &PyBaseObject_Type); LOGGER = mk(OTHER, &PyBaseObject_Type); CONFIG = mk(OTHER, &PyBaseObject_Type);
  if (n == 4900) { IMPORT_FAILS = true; PyObject *m = PyInit_PyArcWelder(); ck(4, PENDING, "a failed import is reported"); vf_reach("call judged"); vf_end(); return; }
  PyObject *mod = PyInit_PyArcWelder(); ck(4, mod && !PENDING, "the module loads"); ck(1, METHODS && std::string(METHODS[0].ml_name) == "ConvertFile", "the module offers ConvertFile"); if (!mod || !METHODS) { vf_end(); return; }
  PyCFunction convert = METHODS[0].ml_meth; long before = LIVE, cbrefs = CALLBACK->b.ob_refcnt;
  Obj *d = mk(DICT, &PyDict_Type); bool good = true; RES.success = true; RES.cancelled = false; int nprog = 0;
  if (n == 2001) { W.guid = word("guid", 3); W.src = word("source", 3); W.dst = word("target", 2); }
  int bad = n >= 4000 ? (int)(n - 4000) % 100 : -1; // 0..15: required argument bad / 4, way bad % 4
  const char *req[] = {"guid", "source_path", "target_path"};
  for (int i = 0; i < 3; i++) { if (bad >= 0 && bad < 16 && bad / 4 == i) { good = false; int way = bad % 4; if (way == 0) continue; put(d, req[i], way == 1 ? (Py_INCREF(Py_None), Py_None) : way == 2 ? PyLong_FromLong(7) : PyFloat_FromDouble(1.5)); continue; } put(d, req[i], PyUnicode_FromString(i == 0 ? W.guid.c_str() : i == 1 ? W.src.c_str() : W.dst.c_str())); }
  if (bad >= 12 && bad < 16) good = false; else PyDict_SetItemString(&d->b, "on_progress_received", &CALLBACK->b);
  if (n < 2000) { int s = (int)(n % 1000 / 10), form = (int)(n % 10); for (int i = 0; i < 14; i++) option(d, i, i == s ? form : n >= 1000 ? 3 : 0); }
  else if (n == 2000) { for (int i = 0; i < 14; i++) option(d, i, i < 7 ? 2 : i == 13 ? 1 : 3); }
  else if (n == 2001) { for (int i = 0; i < 14; i++) option(d, i, i < 9 ? 3 : i == 13 ? 3 : 2); }
  else if (n >= 3000 && n < 3100) { nprog = 1 + (int)(n - 3000) % 3; for (int i = 0; i < nprog; i++) { PROG.push_back(prog((MASK & 2) && i == 0)); int a = vf_choose(5, "answer"); ANSWER.push_back(a); long k = a == 3 ? vf_int(0, 5, "number") : 0; NUM.push_back(k); GO.push_back(a == 0 || a == 1 || a == 4 || (a == 3 && k > 0)); } }
  if (n >= 3100 && n < 3200) { RES.success = vf_concretise(vf_int(0, 1, "success")) != 0; RES.cancelled = vf_concretise(vf_int(0, 1, "cancelled")) != 0; RES.message = word("message", (size_t)(n - 3100)); }
  RES.progress = n == 3103 ? prog(false) : arc_welder_progress();
  if (n != 3103) { RES.progress.lines_processed = 7; RES.progress.points_compressed = 3; }
  if (n >= 4100) LOGFAULT = PYCALLS + 1 + vf_choose(n == 4118 ? 18 : 4, "logger call that raises");
  Obj *t = mk(TUPLE, &PyTuple_Type); if (bad == 16) good = false; else if (bad == 17) { good = false; t->t.push_back(O(PyLong_FromLong(3))); } else { Py_INCREF(&d->b); t->t.push_back(d); }
  Obj *r = O(convert(mod, &t->b)); vf_reach("call judged");
  ck(4, (r != 0) != PENDING, "a call returns a result or raises, never both"); ck(4, (r != 0) == good, "exactly the calls without a required argument raise"); ck(3, ran == (good ? 1 : 0), "one conversion per good call"); ck(2, CALLS == nprog, "one callback per progress");
  if (r && (MASK & 2)) { ck(2, r->kind == DICT, "results are a dictionary"); isL(r, "success", RES.success ? 1 : 0); isL(r, "is_cancelled", RES.cancelled ? 1 : 0); isS(r, "message", RES.message); progress(item(r, "progress"), RES.progress, true); }
  if (r) Py_DECREF(&r->b); Py_DECREF(&t->b); Py_DECREF(&d->b);
  ck(4, LIVE == before, "no object is left behind"); ck(4, CALLBACK->b.ob_refcnt == cbrefs, "the callback is released");
  vf_end();
}
