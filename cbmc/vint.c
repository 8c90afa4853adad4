/* C03: the real encoders of _helpers.c, every long long. */
#include "lib/bup/_helpers.c"

static unsigned long long decode(const char *buf, unsigned n, unsigned first_bits)
{
    unsigned long long r = buf[0] & ((1 << first_bits) - 1);
    for (unsigned i = 1; i < n && i < 10; i++)
        r |= ((unsigned long long) (buf[i] & 0x7f)) << (first_bits + 7 * (i - 1));
    return r;
}

void h_vuint(void)
{
    long long in_v;
    __CPROVER_assume(in_v >= 0);
    char buf[10];
    unsigned n = vuint_encode(in_v, buf);
    __CPROVER_assert(n >= 1 && n <= 10, "vuint length");
    for (unsigned i = 0; i < n && i < 10; i++)
        __CPROVER_assert(((buf[i] & 0x80) != 0) == (i + 1 < n), "vuint continuation bits");
    __CPROVER_assert(n == 1 || buf[n - 1] != 0, "vuint encoding is minimal");
    __CPROVER_assert(decode(buf, n, 7) == (unsigned long long) in_v, "vuint value");
}

void h_vint(void)
{
    long long in_v;
    char buf[10];
    unsigned n = vint_encode(in_v, buf);
    __CPROVER_assert(n >= 1 && n <= 10, "vint length");
    for (unsigned i = 0; i < n && i < 10; i++)
        __CPROVER_assert(((buf[i] & 0x80) != 0) == (i + 1 < n), "vint continuation bits");
    unsigned long long m = decode(buf, n, 6);
    __CPROVER_assert(((buf[0] & 0x40) != 0) == (in_v < 0), "vint sign bit");
    __CPROVER_assert(m == (in_v < 0 ? -(unsigned long long) in_v : (unsigned long long) in_v),
                     "vint magnitude");
}

/* the Python entry points: the argument parser delivers any long long, and
   the result bytes lie in the buffer */
static int made;
static char made_buf[64];
static Py_ssize_t made_len;
static PyObject result_obj;
static long long parsed;

int PyArg_ParseTuple(PyObject *a, const char *fmt, ...)
{
    __builtin_va_list ap;
    __builtin_va_start(ap, fmt);
    long long *p = __builtin_va_arg(ap, long long *);
    *p = parsed;
    __builtin_va_end(ap);
    return 1;
}

PyObject *PyBytes_FromStringAndSize(const char *s, Py_ssize_t n)
{
    __CPROVER_assert(n >= 0 && __CPROVER_r_ok(s, n), "result bytes lie inside the buffer");
    made = 1;
    made_len = n;
    for (int i = 0; i < 10; i++)
        if (i < n)
            made_buf[i] = s[i];
    return &result_obj;
}

PyObject *PyErr_Format(PyObject *e, const char *fmt, ...) { return 0; }

void h_entry_vuint(void)
{
    long long in_v;
    parsed = in_v;
    PyObject args;
    PyObject *r = bup_vuint_encode(0, &args);
    __CPROVER_assert((r != 0) == (in_v >= 0), "vuint_encode fails exactly for negatives");
    if (r) {
        __CPROVER_assert(made == 1 && made_len >= 1 && made_len <= 10, "vuint_encode length");
        __CPROVER_assert(decode(made_buf, made_len, 7) == (unsigned long long) in_v,
                         "vuint_encode value");
    }
}

void h_entry_vint(void)
{
    long long in_v;
    parsed = in_v;
    PyObject args;
    PyObject *r = bup_vint_encode(0, &args);
    __CPROVER_assert(r != 0 && made == 1 && made_len >= 1 && made_len <= 10,
                     "vint_encode length");
    unsigned long long m = decode(made_buf, made_len, 6);
    __CPROVER_assert(((made_buf[0] & 0x40) != 0) == (in_v < 0) &&
                     m == (in_v < 0 ? -(unsigned long long) in_v : (unsigned long long) in_v),
                     "vint_encode value");
}
