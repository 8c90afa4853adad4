/* C09: the order of the inputs of a merge (_helpers.c). */
#include "lib/bup/_helpers.c"
#define N 5
void PyMem_Free(void *p) { }
/* the library's, for arrays of pointers */
void *memmove(void *dst, const void *src, size_t n)
{
    __CPROVER_assert(n % sizeof(void *) == 0 && n / sizeof(void *) < N, "whole pointers are moved");
    void *tmp[N];
    for (int i = 0; i < N; i++)
        if (i < n / sizeof(void *))
            tmp[i] = ((void **) src)[i];
    for (int i = 0; i < N; i++)
        if (i < n / sizeof(void *))
            ((void **) dst)[i] = tmp[i];
    return dst;
}
int PyArg_ParseTuple(PyObject *a, const char *fmt, ...) { return 0; }

/* inputs in descending order of their current ids, except that the last one, which gave
   the last id, has advanced: afterwards all are in order again, none lost but an exhausted one */
void h_order(void)
{
    struct sha in_ids[N];
    struct idx *idxs[N], *orig[N];
    Py_ssize_t in_last;
    int in_done;
    __CPROVER_assume(in_last >= 0 && in_last < N);
    for (int i = 0; i < N; i++) {
        orig[i] = idxs[i] = malloc(sizeof(struct idx));
        __CPROVER_assume(idxs[i] != 0);
        idxs[i]->cur = &in_ids[i];
        idxs[i]->end = &in_ids[i] + 1;
        /* the order of ids is that of their bytes: two of them stand for all twenty */
        for (int b = 2; b < 20; b++)
            in_ids[i].bytes[b] = 0;
    }
    for (int i = 0; i + 1 < N; i++)
        if (i + 1 < in_last)
            __CPROVER_assume(_cmp_sha(&in_ids[i], &in_ids[i + 1]) >= 0);
    if (in_done)
        idxs[in_last]->end = idxs[in_last]->cur;
    Py_ssize_t last = in_last;
    _fix_idx_order(idxs, &last);
    __CPROVER_assert(last == in_last - (in_done ? 1 : 0), "an exhausted input is dropped, no other");
    for (int i = 0; i + 1 < N; i++)
        if (i + 1 <= last)
            __CPROVER_assert(_cmp_sha(idxs[i]->cur, idxs[i + 1]->cur) >= 0, "the inputs are in descending order");
    int in_j;
    __CPROVER_assume(in_j >= 0 && in_j <= last);
    int n = 0;
    for (int i = 0; i < N; i++)
        if (i <= last && idxs[i] == orig[in_j])
            n++;
    __CPROVER_assert(n == 1, "every input is there once");
}
