#include "spec.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/select.h>
#include "libtty/ttyrec.h"

enum { ADD, SUB, CMP };

static void mk(struct timeval *r, const char *s, const char *u)
{
    struct timeval t;
    t.tv_sec = (int64_t)nd_u64(s);
    t.tv_usec = nd_range(u, 0, 999999);
    if (!spec_symbolic() && !spec_replay())
    {
        t.tv_sec >>= 24;
        if (nd_bool("edge"))
            t.tv_usec = t.tv_usec & 1 ? 999999 - (t.tv_usec >> 1) % 3 : (t.tv_usec >> 1) % 3;
        if (nd_bool("near"))
            t.tv_sec = t.tv_sec & 3;
    }
    spec_assume(t.tv_sec > -(1LL << 40) && t.tv_sec < 1LL << 40);
    *r = t;
}

/* microseconds */
#define us(t) ((t).tv_sec * 1000000 + (t).tv_usec)

void harness_timeval(void)
{
    struct timeval a, b, t;
    mk(&a, "asec", "ausec");
    mk(&b, "bsec", "busec");
    t = a;
    int64_t u = (int64_t)a.tv_usec + (spec_case() == ADD ? b.tv_usec : -b.tv_usec), s = a.tv_sec + (spec_case() == ADD ? b.tv_sec : -b.tv_sec);
    spec_cover("times");
    if (spec_case() == CMP)
    {
        int c = tcmp(a, b);
        bool lt = a.tv_sec < b.tv_sec || a.tv_sec == b.tv_sec && a.tv_usec < b.tv_usec;
        bool eq = a.tv_sec == b.tv_sec && a.tv_usec == b.tv_usec;
        spec_check(c == (lt ? -1 : eq ? 0 : 1), "R01:comparison is by value");
        c = tcmp(a, t);
        spec_check(c == 0, "R01:a time equals itself");
        return;
    }
    if (spec_case() == ADD)
        tadd(t, b);
    else
        tsub(t, b);
    spec_check(t.tv_usec >= 0 && t.tv_usec < 1000000, "R01:the result is normalised");
    /* the microseconds of the result are those of the operands, carried into seconds */
    if (u >= 1000000)
        u -= 1000000, s++;
    else if (u < 0)
        u += 1000000, s--;
    spec_check(t.tv_sec == s && t.tv_usec == u, "R01:sums and differences are exact");
    spec_check(us(t) == (spec_case() == ADD ? us(a) + us(b) : us(a) - us(b)), "R01:sums and differences are exact in microseconds");
}
