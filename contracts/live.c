#include "config.h"
#include "spec.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/select.h>
#include "libtty/formats.h"

/* playing live: what the system calls are asked for */
static struct timeval wall, slept;
static int nsleep;

int contract_gettimeofday(struct timeval *t, void *tz)
{
    t->tv_sec = wall.tv_sec;
    t->tv_usec = wall.tv_usec;
    return 0;
}

int contract_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    nsleep++;
    slept.tv_sec = t->tv_sec;
    slept.tv_usec = t->tv_usec;
    return 0;
}

size_t contract_fwrite(const void *p, size_t a, size_t b, FILE *f)
{
    return b;
}

int contract_fflush(FILE *f)
{
    return 0;
}

#ifdef SPEC_NATIVE
/* natively the calls of the real code come here */
int gettimeofday(struct timeval *t, void *tz) { return contract_gettimeofday(t, tz); }
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { return contract_select(n, r, w, e, t); }
#endif

static void mk(struct timeval *t, const char *s, const char *u)
{
    t->tv_sec = (int64_t)nd_u64(s);
    t->tv_usec = nd_range(u, 0, 999999);
    if (!spec_symbolic() && !spec_replay())
    {
        t->tv_sec >>= 24;
        if (nd_bool("edge"))
            t->tv_usec = t->tv_usec & 1 ? 999999 - (t->tv_usec >> 1) % 3 : (t->tv_usec >> 1) % 3;
        if (nd_bool("near"))
            t->tv_sec = t->tv_sec & 3;
    }
    spec_assume(t->tv_sec > -(1LL << 40) && t->tv_sec < 1LL << 40);
}

static recorder_info *live(void)
{
    for (int i = 0; i < 32; i++)
        if (rec[i].name && !strcmp(rec[i].name, "live"))
            return &rec[i];
    return 0;
}

/* a normalised time from seconds and microseconds at most one carry away */
static void norm(struct timeval *t, int64_t s, int64_t u)
{
    if (u >= 1000000)
        u -= 1000000, s++;
    else if (u < 0)
        u += 1000000, s--;
    t->tv_sec = s;
    t->tv_usec = u;
}
#define SAME(a, b) ((a).tv_sec == (b).tv_sec && (a).tv_usec == (b).tv_usec)

void harness_live(void)
{
    struct timeval start, tm, *st, origin, want;
    recorder_info *r = live();
    FILE *f = spec_symbolic() ? spec_block("file", 8) : stderr;
    mk(&wall, "wallsec", "wallusec");
    mk(&start, "startsec", "startusec");
    nsleep = 0;
    st = r->init(f, &start);
    norm(&want, wall.tv_sec - start.tv_sec, wall.tv_usec - start.tv_usec);
    spec_check(SAME(*st, want), "R01:live recording starts at the recorded date");
    mk(&origin, "orgsec", "orgusec");
    mk(&wall, "wall2sec", "wall2usec");
    mk(&tm, "tmsec", "tmusec");
    *st = origin;
    r->write(f, st, &tm, "", 0);
    norm(&want, tm.tv_sec + origin.tv_sec - wall.tv_sec, tm.tv_usec + origin.tv_usec - wall.tv_usec);
    if (want.tv_sec >= 0 && (want.tv_sec || want.tv_usec))
    {
        spec_check(nsleep == 1 && SAME(slept, want), "R01:a live recorder waits exactly until the time of a frame");
        spec_check(SAME(*st, origin), "R01:waiting does not move the origin");
    }
    else
    {
        spec_check(nsleep == 0, "R01:a late frame is not delayed");
        norm(&want, origin.tv_sec - want.tv_sec, origin.tv_usec - want.tv_usec);
        spec_check(SAME(*st, want), "R01:a late frame moves the origin by the delay");
    }
    spec_cover("live");
    r->finish(f, st);
}
