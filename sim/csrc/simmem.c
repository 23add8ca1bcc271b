/*
 * SimMem: the allocator seam. A numpy data allocator whose fresh memory holds
 * seeded garbage, and that can be told to fail the k-th allocation.
 */
#define PY_SSIZE_T_CLEAN
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#include <Python.h>
#include <numpy/arrayobject.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

static int mode;            /* 0: off, 1: NaN, 2: large, 3: small ints, 4: random */
static uint64_t seed, nalloc, nfailed, npoisoned;
static int64_t fail_at = -1; /* countdown */
static int64_t min_size, nfail = 1; /* number of failures from there */

static inline uint64_t nxt(void)
{
    uint64_t z = (seed += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    return z ^ (z >> 27);
}
static void fill(void *p, size_t n)
{
    uint64_t *q = p, pat;
    size_t k = n / 8;
    npoisoned++;
    if (mode == 4) {
        for (size_t i = 0; i < k; i++)
            q[i] = nxt();
        pat = nxt();
    } else {
        pat = mode == 1 ? 0x7ff8dead7ff8deadull : mode == 2 ? 0x4142434441424344ull : 0x0000000100000001ull;
        for (size_t i = 0; i < k; i++)
            q[i] = pat;
    }
    for (size_t i = 8 * k; i < n; i++)
        ((unsigned char *)p)[i] = (unsigned char)(pat >> (8 * (i & 7)));
}
/* whether the allocation is requested by a line of the package or of pyoperators: those requested by lines of other
 * libraries do not fail, since some of these crash then (numpy.ma, astropy.wcs) */
static int from_package(void)
{
    PyFrameObject *f;
    PyCodeObject *co;
    const char *s;
    int r;

    if (!PyGILState_Check() || !(f = PyEval_GetFrame()))
        return 0;
    co = PyFrame_GetCode(f);
    s = PyUnicode_AsUTF8(co->co_filename);
    r = s && (strstr(s, "/pysimulators/") || strstr(s, "/pyoperators/"));
    Py_DECREF(co);
    return r;
}
static int failing(size_t n)
{
    if (fail_at < 0 || (int64_t)n < min_size || !from_package())
        return 0;
    nalloc++;
    if (fail_at-- == 0) {
        nfailed++;
        if (--nfail > 0)
            fail_at = 0;
        return 1;
    }
    return 0;
}
static void *m_malloc(void *ctx, size_t n)
{
    (void)ctx;
    if (failing(n))
        return NULL;
    void *p = malloc(n ? n : 1);
    if (p && mode)
        fill(p, n);
    return p;
}
static void *m_calloc(void *ctx, size_t a, size_t b)
{
    (void)ctx;
    if (failing(a * b))
        return NULL;
    return calloc(a ? a : 1, b ? b : 1);
}
static void *m_realloc(void *ctx, void *p, size_t n)
{
    (void)ctx;
    if (failing(n))
        return NULL;
    return realloc(p, n ? n : 1);
}
static void m_free(void *ctx, void *p, size_t n)
{
    (void)ctx; (void)n;
    free(p);
}
static PyDataMem_Handler handler = {"simmem", 1, {NULL, m_malloc, m_calloc, m_realloc, m_free}};
static PyObject *capsule;

static PyObject *install(PyObject *self, PyObject *args)
{
    (void)self; (void)args;
    if (!capsule)
        capsule = PyCapsule_New(&handler, "mem_handler", NULL);
    PyObject *old = PyDataMem_SetHandler(capsule);
    if (!old)
        return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *config(PyObject *self, PyObject *args)
{
    (void)self;
    unsigned long long s;
    long long f, ms, nf = 1;
    if (!PyArg_ParseTuple(args, "iKLL|L", &mode, &s, &f, &ms, &nf))
        return NULL;
    seed = s;
    fail_at = f;
    min_size = ms;
    nfail = nf;
    nalloc = nfailed = npoisoned = 0;
    Py_RETURN_NONE;
}
static PyObject *stats(PyObject *self, PyObject *args)
{
    (void)self; (void)args;
    return Py_BuildValue("KKK", nalloc, nfailed, npoisoned);
}
static PyMethodDef methods[] = {{"install", install, METH_NOARGS, ""},
                                {"config", config, METH_VARARGS, ""},
                                {"stats", stats, METH_NOARGS, ""},
                                {NULL, NULL, 0, NULL}};
static struct PyModuleDef def = {PyModuleDef_HEAD_INIT, "simmem", NULL, -1, methods, NULL, NULL, NULL, NULL};
PyMODINIT_FUNC PyInit_simmem(void)
{
    import_array();
    return PyModule_Create(&def);
}
