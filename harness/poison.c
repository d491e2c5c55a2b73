/* A small memory sanitizer for numpy data: fresh memory and freed memory is filled
   with a pattern (a nan), freed blocks stay in quarantine for a while, and a block
   in quarantine which lost its pattern was written after it had been freed. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

#define RING 16384
#define LIMIT (64u << 20)
static const uint64_t PAT = 0x7ff8deadbeefdeadULL;
typedef struct { unsigned char *p; size_t n; } Block;
static Block ring[RING];
static size_t head = 0, tail = 0, held = 0;
static long allocs = 0, frees = 0, corrupt = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static void fill(unsigned char *p, size_t n)
{
    size_t i;
    for (i = 0; i + 8 <= n; i += 8) memcpy(p + i, &PAT, 8);
    for (; i < n; i++) p[i] = 0xdd;
}
static int intact(const unsigned char *p, size_t n)
{
    size_t i;
    for (i = 0; i + 8 <= n; i += 8) if (memcmp(p + i, &PAT, 8)) return 0;
    for (; i < n; i++) if (p[i] != 0xdd) return 0;
    return 1;
}
static void evict(void)
{
    Block b = ring[tail % RING];
    tail++;
    held -= b.n;
    if (!intact(b.p, b.n)) corrupt++;
    free(b.p - 16);
}
static void *p_malloc(void *ctx, size_t n)
{
    unsigned char *q = malloc(n + 16);
    if (!q) return NULL;
    *(size_t *)q = n;
    allocs++;
    fill(q + 16, n);
    return q + 16;
}
static void *p_calloc(void *ctx, size_t a, size_t b)
{
    unsigned char *q;
    if (b && a > ((size_t)1 << 46) / b) return NULL;
    q = calloc(1, a * b + 16);
    if (!q) return NULL;
    *(size_t *)q = a * b;
    allocs++;
    return q + 16;
}
static void p_free(void *ctx, void *p, size_t unused)
{
    size_t n;
    if (!p) return;
    n = *(size_t *)((unsigned char *)p - 16);
    pthread_mutex_lock(&mu);
    frees++;
    if (n > LIMIT / 4) { free((unsigned char *)p - 16); pthread_mutex_unlock(&mu); return; }
    fill(p, n);
    while (head - tail >= RING || held + n > LIMIT) evict();
    ring[head % RING].p = p;
    ring[head % RING].n = n;
    head++;
    held += n;
    pthread_mutex_unlock(&mu);
}
static void *p_realloc(void *ctx, void *p, size_t n)
{
    size_t old;
    void *q;
    if (!p) return p_malloc(ctx, n);
    old = *(size_t *)((unsigned char *)p - 16);
    q = p_malloc(ctx, n);
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    p_free(ctx, p, old);
    return q;
}
static PyDataMem_Handler handler = { "verif_poison", 1, { NULL, p_malloc, p_calloc, p_realloc, p_free } };

static PyObject *install(PyObject *self, PyObject *args)
{
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL), *old;
    if (!cap) return NULL;
    old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *stats(PyObject *self, PyObject *args)
{
    size_t i;
    long bad;
    pthread_mutex_lock(&mu);
    bad = corrupt;
    for (i = tail; i < head; i++)
        if (!intact(ring[i % RING].p, ring[i % RING].n)) bad++;
    pthread_mutex_unlock(&mu);
    return Py_BuildValue("lll", allocs, frees, bad);
}
static PyMethodDef methods[] = {
    {"install", install, METH_NOARGS, ""}, {"stats", stats, METH_NOARGS, "allocated, freed, written after being freed"},
    {NULL, NULL, 0, NULL}};
static struct PyModuleDef module = {PyModuleDef_HEAD_INIT, "poison", "", -1, methods};
PyMODINIT_FUNC PyInit_poison(void)
{
    import_array();
    return PyModule_Create(&module);
}
