// The Python interface: generated Python programs against a model, and against the C++ objects behind them.
// The cases are in c10.py; this file embeds the interpreter with the modules built from the tree.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "pbt_main.hpp"
#include "model.hpp"
#include "conduit_python.hpp"
using namespace conduit; using pbt::Source; using pbt::Ctx; using model::M;

#define MODULES(X) X(conduit_python, "conduit") X(conduit_utils_python, "conduit.utils") X(conduit_blueprint_python, "conduit.blueprint") X(conduit_blueprint_mcarray_python, "conduit.blueprint.mcarray") X(conduit_blueprint_mcarray_examples_python, "conduit.blueprint.mcarray.examples") \
    X(conduit_blueprint_mesh_python, "conduit.blueprint.mesh") X(conduit_blueprint_mesh_examples_python, "conduit.blueprint.mesh.examples") X(conduit_blueprint_table_python, "conduit.blueprint.table") X(conduit_blueprint_table_examples_python, "conduit.blueprint.table.examples") \
    X(conduit_relay_python, "conduit.relay") X(conduit_relay_io_python, "conduit.relay.io") X(conduit_relay_io_blueprint_python, "conduit.relay.io.blueprint") X(conduit_relay_io_silo_python, "conduit.relay.io.silo")
#define DECL(m, p) extern "C" PyObject *PyInit_##m(void);
MODULES(DECL)

static Source *src; static Ctx *ctx;
static Node *ptr(PyObject *o) { if(!PyConduit_Node_Check(o)) { PyErr_SetString(PyExc_TypeError, "not a Node"); return NULL; } return PyConduit_Node_Get_Node_Ptr(o); }
static PyObject *rep(const M &m)
{
    if(m.id == DataType::EMPTY_ID) Py_RETURN_NONE;
    if(m.obj() || m.list()) { PyObject *l = PyList_New(0); for(auto &k : m.kids) { PyObject *r = rep(k.second); if(m.obj()) r = Py_BuildValue("(sN)", k.first.c_str(), r); PyList_Append(l, r); Py_DECREF(r); } return Py_BuildValue("(sN)", m.obj() ? "o" : "l", l); }
    if(m.str()) { std::string t = m.s(); return Py_BuildValue("(sy#)", "s", t.data(), (Py_ssize_t)t.size()); }
    PyObject *l = PyList_New(0); for(uint64_t v : m.v) { PyObject *x = PyLong_FromUnsignedLongLong(v); PyList_Append(l, x); Py_DECREF(x); } return Py_BuildValue("(sN)", DataType::id_to_name(m.id).c_str(), l);
}
static PyObject *h_draw(PyObject *, PyObject *a) { unsigned long long m; if(!PyArg_ParseTuple(a, "K", &m)) return NULL; return PyLong_FromUnsignedLongLong(src->draw(m)); }
static PyObject *h_size(PyObject *, PyObject *a) { int m; if(!PyArg_ParseTuple(a, "i", &m)) return NULL; return PyLong_FromLong(src->len(m)); }
static PyObject *h_read(PyObject *, PyObject *a) { PyObject *o; if(!PyArg_ParseTuple(a, "O", &o)) return NULL; Node *n = ptr(o); return n ? rep(model::read(*n)) : NULL; }
static PyObject *h_label(PyObject *, PyObject *a) { const char *t; if(!PyArg_ParseTuple(a, "s", &t)) return NULL; ctx->label(t); Py_RETURN_NONE; }
static PyObject *h_nontrivial(PyObject *, PyObject *) { ctx->nontrivial(); Py_RETURN_NONE; }
static PyObject *h_desc(PyObject *, PyObject *a) { const char *t; if(!PyArg_ParseTuple(a, "s", &t)) return NULL; if(ctx->want_desc) ctx->desc << t << "\n"; Py_RETURN_NONE; }
static PyObject *h_scratch(PyObject *, PyObject *) { return PyUnicode_FromString(ctx->scratch.c_str()); }
static PyObject *h_same(PyObject *, PyObject *a) { PyObject *x, *y; if(!PyArg_ParseTuple(a, "OO", &x, &y)) return NULL; return PyBool_FromLong(ptr(x) == ptr(y)); }
static PyObject *h_text(PyObject *, PyObject *a)
{
    PyObject *o; const char *what, *proto, *pad, *eoe; long indent, depth; if(!PyArg_ParseTuple(a, "Ossllss", &o, &what, &proto, &indent, &depth, &pad, &eoe)) return NULL; Node *n = ptr(o); if(!n) return NULL; std::string w = what, r, p = proto;
    if(w == "node") r = p.empty() ? n->to_string() : n->to_string(p, indent, depth, pad, eoe); else if(w == "node_json") r = n->to_json(p, indent, depth, pad, eoe); else if(w == "node_yaml") r = n->to_yaml(p, indent, depth, pad, eoe);
    else if(w == "schema") r = n->schema().to_string(p, indent, depth, pad, eoe); else if(w == "schema_json") r = n->schema().to_json(indent, depth, pad, eoe); else if(w == "schema_yaml") r = n->schema().to_yaml(indent, depth, pad, eoe);
    else if(w == "dtype") r = n->dtype().to_string(p, indent, depth, pad, eoe); else if(w == "dtype_json") r = n->dtype().to_json(indent, depth, pad, eoe); else if(w == "dtype_yaml") r = n->dtype().to_yaml(indent, depth, pad, eoe);
    else if(w == "summary") { if(p.empty()) r = n->to_summary_string(); else { Node opts; opts["num_children_threshold"] = (int64)indent; opts["num_elements_threshold"] = (int64)depth; r = n->to_summary_string(opts); } }
    else { PyErr_SetString(PyExc_ValueError, what); return NULL; }
    return PyUnicode_FromStringAndSize(r.data(), (Py_ssize_t)r.size());
}
// the DataType of a node, by name of the method
static PyObject *h_dtype(PyObject *, PyObject *a)
{
    PyObject *o; if(!PyArg_ParseTuple(a, "O", &o)) return NULL; Node *n = ptr(o); if(!n) return NULL; const DataType &d = n->dtype(); PyObject *r = PyDict_New();
#define NUM(x) { PyObject *v = PyLong_FromSsize_t((Py_ssize_t)d.x()); PyDict_SetItemString(r, #x, v); Py_DECREF(v); }
#define BOOL(x) { PyObject *v = PyBool_FromLong(d.x()); PyDict_SetItemString(r, #x, v); Py_DECREF(v); }
    NUM(id) NUM(bytes_compact) NUM(strided_bytes) NUM(spanned_bytes) NUM(number_of_elements) NUM(offset) NUM(stride) NUM(element_bytes) NUM(endianness)
    BOOL(is_compact) BOOL(is_empty) BOOL(is_object) BOOL(is_list) BOOL(is_number) BOOL(is_floating_point) BOOL(is_integer) BOOL(is_signed_integer) BOOL(is_unsigned_integer) BOOL(is_int8) BOOL(is_int16) BOOL(is_int32) BOOL(is_int64) BOOL(is_uint8) BOOL(is_uint16) BOOL(is_uint32) BOOL(is_uint64) BOOL(is_float32) BOOL(is_float64) BOOL(is_index_t)
    BOOL(is_char) BOOL(is_short) BOOL(is_int) BOOL(is_long) BOOL(is_signed_char) BOOL(is_signed_short) BOOL(is_signed_int) BOOL(is_signed_long) BOOL(is_unsigned_char) BOOL(is_unsigned_short) BOOL(is_unsigned_int) BOOL(is_unsigned_long) BOOL(is_float) BOOL(is_double) BOOL(is_string) BOOL(is_char8_str) BOOL(is_little_endian) BOOL(is_big_endian) BOOL(endianness_matches_machine)
    return r;
}
static PyObject *h_info(PyObject *, PyObject *a)
{
    PyObject *o; if(!PyArg_ParseTuple(a, "O", &o)) return NULL; Node *n = ptr(o); if(!n) return NULL; PyObject *r = PyDict_New();
#define PUT(k, e) { PyObject *v = (e); PyDict_SetItemString(r, k, v); Py_DECREF(v); }
    PUT("total_strided_bytes", PyLong_FromSsize_t(n->total_strided_bytes())) PUT("total_bytes_compact", PyLong_FromSsize_t(n->total_bytes_compact())) PUT("is_compact", PyBool_FromLong(n->is_compact())) PUT("is_root", PyBool_FromLong(n->is_root())) PUT("number_of_children", PyLong_FromSsize_t(n->number_of_children())) PUT("name", PyUnicode_FromString(n->name().c_str())) PUT("path", PyUnicode_FromString(n->path().c_str()))
    return r;
}
static PyMethodDef METHODS[] = {{"draw", h_draw, METH_VARARGS, ""}, {"size", h_size, METH_VARARGS, ""}, {"read", h_read, METH_VARARGS, ""}, {"label", h_label, METH_VARARGS, ""}, {"nontrivial", h_nontrivial, METH_NOARGS, ""}, {"desc", h_desc, METH_VARARGS, ""}, {"scratch", h_scratch, METH_NOARGS, ""}, {"same", h_same, METH_VARARGS, ""}, {"text", h_text, METH_VARARGS, ""}, {"dtype", h_dtype, METH_VARARGS, ""}, {"info", h_info, METH_VARARGS, ""}, {NULL, NULL, 0, NULL}};
static PyModuleDef HDEF = {PyModuleDef_HEAD_INIT, "h", NULL, -1, METHODS, NULL, NULL, NULL, NULL};
static PyObject *init_h(void) { return PyModule_Create(&HDEF); }

static PyObject *driver = NULL;
static void start()
{
    setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("PYTHONMALLOC", "malloc", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("PYTHONHASHSEED", "0", 1);
#define TAB(m, p) PyImport_AppendInittab(#m, PyInit_##m);
    MODULES(TAB) PyImport_AppendInittab("h", init_h);
    Py_InitializeEx(0);
    std::string dir = __FILE__; dir = dir.substr(0, dir.rfind('/'));
    std::string setup = "import sys, importlib, importlib.machinery, importlib.abc\nimport numpy\n"
        "class F(importlib.abc.MetaPathFinder):\n  def find_spec(self, name, path, target=None):\n    if name.startswith('conduit.') and name.rsplit('.',1)[1] in sys.builtin_module_names: return importlib.machinery.ModuleSpec(name, self)\n"
        "  def create_module(self, spec): return importlib.import_module(spec.name.rsplit('.',1)[1])\n  def exec_module(self, m): pass\n"
        "sys.meta_path.insert(0, F())\n"
        "import types\np = importlib.machinery.ModuleSpec('conduit', None, is_package=True)\n"
        "spec = importlib.util.spec_from_file_location('conduit', '" PY_SRC "/__init__.py', submodule_search_locations=['" PY_SRC "'])\n"
        "m = importlib.util.module_from_spec(spec); sys.modules['conduit'] = m; spec.loader.exec_module(m)\n"
        "sys.path.insert(0, '" + dir + "')\n";
    if(PyRun_SimpleString(("import importlib.util\n" + setup).c_str()) != 0) { fprintf(stderr, "python setup failed\n"); exit(3); }
    if(import_conduit() < 0) { PyErr_Print(); exit(3); }
    driver = PyImport_ImportModule("c10"); if(!driver) { PyErr_Print(); exit(3); }
}
static void py_case(const char *name, Source &s, Ctx &c)
{
    src = &s; ctx = &c; PyObject *f = PyObject_GetAttrString(driver, "run"); PyObject *r = PyObject_CallFunction(f, "s", name); Py_XDECREF(f);
    if(!r) { PyErr_Print(); PyErr_Clear(); throw pbt::Fail("the driver raised an exception"); }
    std::string m; if(r != Py_None) { const char *t = PyUnicode_AsUTF8(r); m = t ? t : "?"; } Py_DECREF(r); if(!m.empty()) throw pbt::Fail(m);
}
PBT(values, 12000, 400000) { py_case("values", s, c); }
PBT(programs, 8000, 300000) { py_case("programs", s, c); }
PBT(external, 6000, 200000) { py_case("external", s, c); }
PBT(errors, 6000, 200000) { py_case("errors", s, c); }
PBT(describe, 6000, 200000) { py_case("describe", s, c); }
PBT(schemas, 6000, 200000) { py_case("schemas", s, c); }
PBT(files, 2500, 80000) { py_case("files", s, c); }
int main(int argc, char **argv) { start(); pbt::Driver d; return d.run(argc, argv); }
