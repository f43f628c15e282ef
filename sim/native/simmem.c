/* NumPy data allocator that poisons fresh memory (np.empty, intent(out) arrays). */
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <Python.h>
#include <numpy/arrayobject.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>

static int mode = 0;
static uint64_t s = 1;
static uint64_t count = 0;
static uint64_t pat(void)
{
    s = s * 6364136223846793005ULL + 1442695040888963407ULL;
    uint64_t r = s >> 11;
    switch (mode) {
    case 1: return 0x7ff8dead00000001ULL;
    case 2: { double d = (double)(r % 20001) / 100.0 - 100.0; uint64_t u; memcpy(&u, &d, 8); return u; }
    case 3: { double d = 1.0e30 * (double)(r % 7 + 1); uint64_t u; memcpy(&u, &d, 8); return u; }
    case 4: return (uint64_t)0x0000000100000001ULL * ((r % 5) + 1);
    default: return 0;
    }
}
static void fill(char *c, size_t n)
{
    if (!mode || !c) return;
    count++;
    while (n >= 8) { uint64_t v = pat(); memcpy(c, &v, 8); c += 8; n -= 8; }
    if (n) { uint64_t v = pat(); memcpy(c, &v, n); }
}
static void *m_malloc(void *ctx, size_t n) { (void)ctx; void *p = malloc(n ? n : 1); if (n < (64UL << 20)) fill(p, n); return p; }
static void *m_calloc(void *ctx, size_t n, size_t e) { (void)ctx; return calloc(n ? n : 1, e ? e : 1); }
static void *m_realloc(void *ctx, void *p, size_t n) { (void)ctx; return realloc(p, n ? n : 1); }
static void m_free(void *ctx, void *p, size_t n) { (void)ctx; (void)n; free(p); }
static PyDataMem_Handler handler = { "simmem", 1, { NULL, m_malloc, m_calloc, m_realloc, m_free } };
static PyObject *cap = NULL;

static PyObject *py_set(PyObject *self, PyObject *args)
{
    unsigned long long seed; int m;
    if (!PyArg_ParseTuple(args, "iK", &m, &seed)) return NULL;
    mode = m; s = seed | 1; count = 0;
    PyObject *old = PyDataMem_SetHandler(m ? cap : NULL);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *py_count(PyObject *self, PyObject *args) { return PyLong_FromUnsignedLongLong(count); }
static PyMethodDef methods[] = { { "set", py_set, METH_VARARGS, "set(mode, seed)" },
                                 { "count", py_count, METH_NOARGS, "allocations filled" }, { NULL, NULL, 0, NULL } };
static struct PyModuleDef def = { PyModuleDef_HEAD_INIT, "simmem", NULL, -1, methods };
PyMODINIT_FUNC PyInit_simmem(void)
{
    import_array();
    cap = PyCapsule_New(&handler, "mem_handler", NULL);
    return PyModule_Create(&def);
}
