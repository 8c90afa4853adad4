/* C01: the split point search of _hashsplit.c, for every buffer length. */
#include "lib/bup/_hashsplit.c"
PyThreadState *PyEval_SaveThread(void) { return 0; }
void PyEval_RestoreThread(PyThreadState *t) { }

#define MATCH(r, nbits) ((rollsum_low(r) & ((1ULL << (nbits)) - 1)) == ((1ULL << (nbits)) - 1))
#define rollsum_low(r) (((uint64_t) (uint32_t) ((r)->s1 << 16)) | ((r)->s2 & 0xffff))

static inline size_t HashSplitter_roll(Rollsum *r, unsigned int nbits, const unsigned char *buf,
                                       const size_t len, unsigned int *extrabits)
__CPROVER_requires(nbits >= 13 && nbits <= 21)
__CPROVER_requires(len <= 0x7fffffffffffffff)
__CPROVER_requires(__CPROVER_is_fresh(r, sizeof(*r)))
__CPROVER_requires(__CPROVER_is_fresh(buf, len))
__CPROVER_requires(__CPROVER_is_fresh(extrabits, sizeof(*extrabits)))
__CPROVER_requires(r->wofs >= 0 && r->wofs < BUP_WINDOWSIZE)
__CPROVER_assigns(*r, *extrabits)
/* a split lies inside the data, and is taken exactly where the checksum says so */
__CPROVER_ensures(__CPROVER_return_value <= len)
__CPROVER_ensures(r->wofs >= 0 && r->wofs < BUP_WINDOWSIZE)
__CPROVER_ensures(__CPROVER_return_value == 0 || MATCH(r, nbits))
__CPROVER_ensures(__CPROVER_return_value != 0 || len == 0 || !MATCH(r, nbits))
/* the extra bits are the run of ones above the bit that is skipped */
__CPROVER_ensures(__CPROVER_return_value == 0 || *extrabits < 32 - nbits)
__CPROVER_ensures(__CPROVER_return_value == 0 ||
                  ((rollsum_low(r) >> (nbits + 1)) & ((1ULL << *extrabits) - 1))
                  == ((1ULL << *extrabits) - 1))
__CPROVER_ensures(__CPROVER_return_value == 0 || *extrabits == 31 - nbits ||
                  !((rollsum_low(r) >> (nbits + 1 + *extrabits)) & 1))
;
void h_roll(void)
{
    Rollsum *r; unsigned nbits; unsigned char *buf; size_t len; unsigned *e;
    HashSplitter_roll(r, nbits, buf, len, e);
}

/* one step of the checksum, from every state whose sums belong to its window: the sums
   remain functions of the last 64 bytes alone, so a split depends on nothing older */
static uint32_t sum1(Rollsum *r)
{
    uint32_t s = BUP_WINDOWSIZE * ROLLSUM_CHAR_OFFSET;
    for (int i = 0; i < BUP_WINDOWSIZE; i++)
        s += r->window[i];
    return s;
}
void h_step(void)
{
    Rollsum r;
    uint8_t in_c;
    __CPROVER_assume(r.wofs >= 0 && r.wofs < BUP_WINDOWSIZE);
    __CPROVER_assume(r.s1 == sum1(&r));
    Rollsum o = r;
    Rollsum *p = &r;
    rollsum_roll(p, in_c);
    __CPROVER_assert(r.window[o.wofs] == in_c, "the new byte replaces the oldest one");
    __CPROVER_assert(r.wofs == (o.wofs + 1) % BUP_WINDOWSIZE, "the window advances by one");
    int in_i;
    __CPROVER_assume(in_i >= 0 && in_i < BUP_WINDOWSIZE && in_i != o.wofs);
    __CPROVER_assert(r.window[in_i] == o.window[in_i], "the other bytes of the window stay");
    uint8_t drop = o.window[o.wofs];
    __CPROVER_assert(r.s1 == o.s1 + in_c - drop, "s1 gains the new byte and loses the dropped one");
    __CPROVER_assert(r.s2 == o.s2 + r.s1 - BUP_WINDOWSIZE * (drop + ROLLSUM_CHAR_OFFSET),
                     "s2 gains s1 and loses the dropped byte's weight");
}

void h_init(void)
{
    Rollsum r;
    rollsum_init(&r);
    int in_i;
    __CPROVER_assume(in_i >= 0 && in_i < BUP_WINDOWSIZE);
    __CPROVER_assert(r.window[in_i] == 0 && r.wofs == 0, "a new window is empty");
    __CPROVER_assert(r.s1 == 64 * 31 && r.s2 == 64 * 63 * 31, "initial sums");
}
