/* C10: the bloom filter of _helpers.c, every filter size, number of hash functions and id. */
#include "lib/bup/_helpers.c"

static unsigned char *filter;
static Py_ssize_t filter_len;
static int nbits, k;
static unsigned char *ids;
static Py_ssize_t ids_len;
static int answered;      /* 1 maybe, 2 no, 3 a count */
static int released;
static PyObject some;

int PyArg_ParseTuple(PyObject *a, const char *fmt, ...)
{
    __builtin_va_list ap;
    __builtin_va_start(ap, fmt);
    Py_buffer *b = __builtin_va_arg(ap, Py_buffer *);
    b->buf = filter;
    b->len = filter_len;
    if (fmt[3] == '*') {
        Py_buffer *s = __builtin_va_arg(ap, Py_buffer *);
        s->buf = ids;
        s->len = ids_len;
    } else {
        unsigned char **s = __builtin_va_arg(ap, unsigned char **);
        Py_ssize_t *n = __builtin_va_arg(ap, Py_ssize_t *);
        *s = ids;
        *n = ids_len;
    }
    int *p = __builtin_va_arg(ap, int *);
    *p = nbits;
    p = __builtin_va_arg(ap, int *);
    *p = k;
    __builtin_va_end(ap);
    return 1;
}

PyObject *Py_BuildValue(const char *fmt, ...)
{
    answered = fmt[0] == 'O' ? 2 : fmt[0] == 'i' ? 1 : 3;
    return &some;
}
void PyErr_SetString(PyObject *e, const char *s) { }
PyObject *PyErr_Format(PyObject *e, const char *fmt, ...) { return 0; }
void PyBuffer_Release(Py_buffer *b) { released++; }

/* any filter, any arguments: everything the code touches lies inside the buffers */
static void arbitrary(Py_ssize_t id_bytes)
{
    Py_ssize_t in_len;
    int in_nbits, in_k;
    __CPROVER_assume(in_len >= 0 && in_len <= ((Py_ssize_t) 1 << 38));
    __CPROVER_assume(in_nbits != 0);    /* the smallest filter ever created has two bits */
    filter_len = in_len;
    filter = malloc(in_len);
    nbits = in_nbits;
    k = in_k;
    ids_len = id_bytes;
    ids = malloc(id_bytes);
    __CPROVER_assume(filter != 0 && ids != 0);
}

static int valid(void)
{
    return (k == 4 || k == 5) && nbits >= 0 && nbits <= (k == 5 ? 29 : 37) &&
        filter_len >= 16 + ((Py_ssize_t) 1 << nbits);
}

void h_add(void)
{
    arbitrary(20);
    PyObject args;
    Py_ssize_t in_i;
    __CPROVER_assume(in_i >= 0 && in_i < filter_len);
    unsigned char old = filter[in_i];
    PyObject *r = bloom_add(0, &args);
    __CPROVER_assert((r != 0) == valid(), "adding succeeds exactly for a complete filter of a supported size");
    __CPROVER_assert((filter[in_i] & old) == old, "adding never clears a bit");
    __CPROVER_assert(in_i >= 16 || filter[in_i] == old, "adding leaves the header alone");
    if (r) {
        answered = 0;
        r = bloom_contains(0, &args);
        __CPROVER_assert(r != 0 && answered == 1, "an id just added may be present");
    }
}

/* an id that may be present still may be after any other id was added */
void h_keep(void)
{
    arbitrary(20);
    PyObject args;
    unsigned char *mine = ids, *other = malloc(20);
    __CPROVER_assume(other != 0);
    answered = 0;
    PyObject *r = bloom_contains(0, &args);
    __CPROVER_assert((r != 0) == valid(), "asking succeeds exactly for a complete filter of a supported size");
    __CPROVER_assume(r != 0 && answered == 1);
    ids = other;
    bloom_add(0, &args);
    ids = mine;
    answered = 0;
    r = bloom_contains(0, &args);
    __CPROVER_assert(r != 0 && answered == 1, "an id stays maybe present when another is added");
}

/* two ids in one call */
void h_two(void)
{
    arbitrary(40);
    PyObject args;
    PyObject *r = bloom_add(0, &args);
    if (r) {
        int in_second;
        if (in_second)
            ids += 20;
        ids_len = 20;
        answered = 0;
        r = bloom_contains(0, &args);
        __CPROVER_assert(r != 0 && answered == 1, "both ids added may be present");
    }
}

/* ids of any other length are refused */
void h_length(void)
{
    Py_ssize_t in_n;
    __CPROVER_assume(in_n >= 0 && in_n <= 60 && in_n % 20 != 0);
    arbitrary(in_n);
    PyObject args;
    __CPROVER_assert(bloom_add(0, &args) == 0, "partial ids are refused");
    __CPROVER_assert(bloom_contains(0, &args) == 0, "a partial id is refused");
}
