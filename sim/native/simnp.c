/* Routes numpy's array data to the simulated heap. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <stdlib.h>
#include <numpy/arrayobject.h>
#include <string.h>
void *sim_alloc(size_t, int, int);
int sim_free(void *, int);
size_t sim_size(void *);
static void *np_malloc(void *c, size_t n) { (void) c; return sim_alloc(n ? n : 1, 3, 0); }
static void *np_calloc(void *c, size_t a, size_t b) { (void) c; return sim_alloc(a * b ? a * b : 1, 3, 1); }
static void np_free(void *c, void *p, size_t n) { (void) c; (void) n; if (p && !sim_free(p, 3)) free(p); }
static void *np_realloc(void *c, void *p, size_t n) {
    if (!p) return np_malloc(c, n);
    size_t o = sim_size(p);
    if (o == (size_t) -1) return realloc(p, n);
    void *q = sim_alloc(n ? n : 1, 3, 0);
    if (!q) return NULL;
    memcpy(q, p, o < n ? o : n);
    sim_free(p, 3);
    return q;
}
static PyDataMem_Handler handler = {"simrt", 1, {NULL, np_malloc, np_calloc, np_realloc, np_free}};
static PyObject *old = NULL;
static PyObject *enable(PyObject *self, PyObject *args) {
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_RETURN_NONE;
}
static PyObject *disable(PyObject *self, PyObject *args) {
    PyObject *o = PyDataMem_SetHandler(old);
    Py_XDECREF(o);
    Py_RETURN_NONE;
}
static PyMethodDef m[] = {{"enable", enable, METH_NOARGS, ""}, {"disable", disable, METH_NOARGS, ""}, {NULL, NULL, 0, NULL}};
static struct PyModuleDef d = {PyModuleDef_HEAD_INIT, "simnp", "", -1, m};
PyMODINIT_FUNC PyInit_simnp(void) { import_array(); return PyModule_Create(&d); }
