/* C23: the sparse writer of _helpers.c, every buffer, every hole length, every write that is cut short or fails.
   The file is seen through one arbitrary position G: what is proved for it holds at every position. */
#define _LARGEFILE64_SOURCE 1
#define PY_SSIZE_T_CLEAN 1
#include "config/config.h"
#include <Python.h>
#include "bup/intprops.h"
/* cbmc evaluates this builtin in the type of the destination when the operands have another; this is gcc's
   meaning of it, exact for operands of up to 64 bits */
#undef INT_ADD_OK
#define INT_ADD_OK(a, b, r) ({ __int128 sum_ = (__int128) (a) + (b); *(r) = (__typeof__(*(r))) sum_; \
                              (__int128) *(r) == sum_; })
/* (the contract machinery cannot follow a variable argument list) */
#undef PyArg_ParseTuple
#define PARSE_NO(...) 0
#define PARSE_5(a, b, c, d, e) take_args((void *) (a), (void *) (b), (void *) (c), (void *) (d), (void *) (e))
#define PARSE_PICK(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, name, ...) name
#define PyArg_ParseTuple(args, fmt, ...) PARSE_PICK(0 __VA_OPT__(,) __VA_ARGS__, \
    PARSE_NO, PARSE_NO, PARSE_NO, PARSE_NO, PARSE_NO, PARSE_NO, PARSE_NO, PARSE_NO, PARSE_NO, PARSE_NO, PARSE_NO, \
    PARSE_5, PARSE_NO, PARSE_NO, PARSE_NO, PARSE_NO, PARSE_NO)(__VA_ARGS__)
static int take_args(int *fd, unsigned char **b, Py_ssize_t *n, PyObject **m, PyObject **p);
#include "lib/bup/_helpers.c"

typedef unsigned long long ull;
typedef unsigned __int128 u128;

#define MOST 0x7fffffffffffffffULL
static ull pos;                 /* the file offset */
static ull extent;              /* the size of the file */
static ull G;                   /* any offset in the file */
static unsigned char at_G;      /* what the file holds there (0: a hole, or beyond its end) */
static const byte *gp;          /* the byte of the buffer that belongs at G, if one does */

ssize_t write(int fd, const void *buf, size_t count)
{
    ssize_t in_rc;
    __CPROVER_assume(in_rc == -1 || (in_rc >= 0 && (size_t) in_rc <= count));
    __CPROVER_assert(__CPROVER_r_ok(buf, count), "what is written lies inside the buffer");
    if (in_rc > 0) {
        if (pos > MOST - in_rc)
            return -1;
        if (G >= pos && G - pos < (ull) in_rc)
            at_G = ((const byte *) buf)[G - pos];
        pos += in_rc;
        if (pos > extent)
            extent = pos;
    }
    return in_rc;
}

off_t lseek(int fd, off_t n, int whence)
{
    int in_fail;
    __CPROVER_assert(whence == SEEK_CUR && n >= 0, "holes are skipped forwards");
    if (in_fail || pos > MOST - (ull) n)
        return -1;
    pos += n;
    return pos;
}

static int raised;
static int untouched;      /* (cbmc takes an empty frame for a missing one) */
PyObject *PyErr_SetFromErrno(PyObject *e) { raised = 1; return 0; }

static int write_all(int fd, const void *buf, const size_t count)
__CPROVER_requires(__CPROVER_r_ok(buf, count))
__CPROVER_requires(extent <= pos && pos <= MOST)
__CPROVER_assigns(pos, at_G, extent)
__CPROVER_ensures(pos <= MOST)
__CPROVER_ensures(__CPROVER_return_value != 0 || extent == (count ? pos : __CPROVER_old(extent)))
__CPROVER_ensures(__CPROVER_return_value != 0 || pos == __CPROVER_old(pos) + count)
__CPROVER_ensures(__CPROVER_return_value != 0 || pos >= __CPROVER_old(pos))
__CPROVER_ensures(__CPROVER_return_value != 0 ||
                  at_G == (G >= __CPROVER_old(pos) && G - __CPROVER_old(pos) < count
                           ? ((const byte *) buf)[G - __CPROVER_old(pos)] : __CPROVER_old(at_G)))
;
void h_write_all(void)
{
    int fd; size_t in_count;
    __CPROVER_assume(in_count < ((size_t) 1 << 40));
    byte *b = malloc(in_count);
    __CPROVER_assume(b != 0);
    write_all(fd, b, in_count);
}

static int append_sparse_region(const int fd, unsigned long long n)
__CPROVER_requires(pos <= MOST)
__CPROVER_ensures(pos <= MOST)
__CPROVER_assigns(pos, raised)
__CPROVER_ensures(__CPROVER_return_value != 0 || (pos - __CPROVER_old(pos) == n && pos >= __CPROVER_old(pos)))
__CPROVER_ensures(__CPROVER_return_value == 0 || raised)
__CPROVER_ensures(__CPROVER_return_value != 0 || raised == __CPROVER_old(raised))
;
void h_append(void)
{
    int fd; ull n;
    raised = 0;
    append_sparse_region(fd, n);
}

static int record_sparse_zeros(unsigned long long *new_pending, const int fd,
                               unsigned long long prev_pending, const unsigned long long count)
__CPROVER_requires(__CPROVER_w_ok(new_pending, sizeof(*new_pending)))
__CPROVER_requires(pos <= MOST && count < ((size_t) 1 << 40))
__CPROVER_ensures(pos <= MOST)
__CPROVER_assigns(pos, raised, *new_pending)
__CPROVER_ensures(__CPROVER_return_value != 0 ||
                  /* a count that has no room would go beyond any file */
                  (pos == __CPROVER_old(pos) && (u128) *new_pending == (u128) prev_pending + count))
__CPROVER_ensures(__CPROVER_return_value == 0 || raised)
__CPROVER_ensures(__CPROVER_return_value != 0 || raised == __CPROVER_old(raised))
;
void h_record(void)
{
    int fd; ull zeros, count;
    raised = 0;
    record_sparse_zeros(&zeros, fd, zeros, count);
}

#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#define ZERO_IN(a, b) (!(OFF(gp) >= OFF(a) && OFF(gp) < OFF(b)) || *gp == 0)

static byte *find_not_zero(const byte * const start, const byte * const end)
__CPROVER_requires(__CPROVER_same_object(start, end) && start <= end)
__CPROVER_requires(__CPROVER_r_ok(start, end - start) && __CPROVER_same_object(gp, start) && __CPROVER_r_ok(gp, 1))
__CPROVER_assigns(untouched)
__CPROVER_ensures(__CPROVER_same_object(__CPROVER_return_value, start))
__CPROVER_ensures(OFF(start) <= OFF(__CPROVER_return_value) && OFF(__CPROVER_return_value) <= OFF(end))
__CPROVER_ensures(ZERO_IN(start, __CPROVER_return_value))
__CPROVER_ensures(__CPROVER_return_value == end || *__CPROVER_return_value != 0)
;
static byte *find_trailing_zeros(const byte * const start, const byte * const end)
__CPROVER_requires(__CPROVER_same_object(start, end) && start <= end)
__CPROVER_requires(__CPROVER_r_ok(start, end - start) && __CPROVER_same_object(gp, start) && __CPROVER_r_ok(gp, 1))
__CPROVER_assigns(untouched)
__CPROVER_ensures(__CPROVER_same_object(__CPROVER_return_value, start))
__CPROVER_ensures(OFF(start) <= OFF(__CPROVER_return_value) && OFF(__CPROVER_return_value) <= OFF(end))
__CPROVER_ensures(ZERO_IN(__CPROVER_return_value, end))
__CPROVER_ensures(__CPROVER_return_value == start || *(__CPROVER_return_value - 1) != 0)
__CPROVER_ensures(__CPROVER_return_value == end || *__CPROVER_return_value == 0)
;
static byte *find_non_sparse_end(const byte * const start, const byte * const end, const ptrdiff_t min_len)
__CPROVER_requires(__CPROVER_same_object(start, end) && start <= end && min_len > 0)
__CPROVER_requires(__CPROVER_r_ok(start, end - start) && __CPROVER_same_object(gp, start) && __CPROVER_r_ok(gp, 1))
__CPROVER_assigns(untouched)
__CPROVER_ensures(__CPROVER_same_object(__CPROVER_return_value, start))
__CPROVER_ensures(OFF(start) <= OFF(__CPROVER_return_value) && OFF(__CPROVER_return_value) <= OFF(end))
/* what follows is zero, for the length of a hole or to the end */
__CPROVER_ensures(!(OFF(gp) >= OFF(__CPROVER_return_value) && OFF(gp) < OFF(end) && OFF(gp) - OFF(__CPROVER_return_value) < (size_t) min_len) || *gp == 0)
__CPROVER_ensures(start == end || *start == 0 || OFF(__CPROVER_return_value) > OFF(start))
;

static byte *base_buf;
static size_t base_len;
static void any_buffer(size_t least)
{
    size_t in_len, in_g;
    __CPROVER_assume(in_len >= least && in_len < ((size_t) 1 << 40) && in_g < in_len);
    base_buf = malloc(in_len);
    base_len = in_len;
    __CPROVER_assume(base_buf != 0);
    gp = base_buf + in_g;
}
static void part(byte **a, byte **b)
{
    size_t in_a, in_b;
    any_buffer(1);
    __CPROVER_assume(in_a <= in_b && in_b <= base_len);
    *a = base_buf + in_a;
    *b = base_buf + in_b;
}
void h_not_zero(void) { byte *a, *b; part(&a, &b); find_not_zero(a, b); }
void h_trailing(void) { byte *a, *b; part(&a, &b); find_trailing_zeros(a, b); }
void h_end(void) { byte *a, *b; ptrdiff_t m; part(&a, &b); find_non_sparse_end(a, b, m); }

/* the writer itself: everything up to offset pos0 is as before, then prev zeros are pending, then the buffer */
static ull pos0, prev0, min0, answer;
static unsigned char at_G0;
static int answered, args_ok;
static PyObject some;
static PyObject *arg_min, *arg_prev;
static PyObject o_min, o_prev;

static int take_args(int *fd, unsigned char **b, Py_ssize_t *n, PyObject **m, PyObject **p)
{
    *fd = 3;
    *b = base_buf;
    *n = base_len;
    *m = &o_min;
    *p = &o_prev;
    return 1;
}
int bup_ullong_from_py(unsigned long long *x, PyObject *py, const char *name)
{
    *x = py == &o_min ? min0 : prev0;
    return 1;
}
PyObject *PyErr_Format(PyObject *e, const char *fmt, ...) { raised = 1; return 0; }
PyObject *PyLong_FromUnsignedLongLong(unsigned long long x) { answer = x; return &some; }

#define BASE ((u128) pos0 + prev0)
#define WANTED (G < pos0 ? at_G0 : G < BASE ? 0 : *gp)
/* G is before the buffer, in it (and then gp is its byte), or out of interest */
static PyObject *bup_write_sparsely(PyObject *self, PyObject *args)
__CPROVER_requires(pos == pos0 && at_G == at_G0 && raised == 0 && min0 > 0)
__CPROVER_requires(G < pos0 || at_G0 == 0)
__CPROVER_requires(pos0 <= MOST && extent == pos)
__CPROVER_requires(base_len > 0 && base_len < ((size_t) 1 << 40) && __CPROVER_r_ok(base_buf, base_len))
__CPROVER_requires(__CPROVER_same_object(gp, base_buf) && gp >= base_buf && gp < base_buf + base_len)
__CPROVER_requires(G < BASE || (u128) G == BASE + (gp - base_buf))
__CPROVER_assigns(pos, at_G, extent, raised, answer, untouched)
__CPROVER_ensures(__CPROVER_return_value == 0 || extent == pos)
__CPROVER_ensures(__CPROVER_return_value != 0 || raised)
__CPROVER_ensures(__CPROVER_return_value == 0 || (u128) pos + answer == BASE + base_len)
__CPROVER_ensures(__CPROVER_return_value == 0 || at_G == (G < pos ? WANTED : 0))
__CPROVER_ensures(__CPROVER_return_value == 0 || !(G >= pos && G < (u128) pos + answer) || WANTED == 0)
;
void h_sparse(void)
{
    ull in_pos, in_prev, in_min, in_G; unsigned char in_at;
    any_buffer(1);
    pos = pos0 = extent = in_pos;
    prev0 = in_prev;
    min0 = in_min;
    G = in_G;
    at_G = at_G0 = in_at;
    raised = 0;
    bup_write_sparsely(0, 0);
}
