#include "ttyspec.h"

/* the requests, each where it moves lines (with the count absent, less than the region, at least the region) and where it
   only moves the cursor or does nothing */
enum { LF, VT, IND, NEL, RI, IL, DL };
static int a, b, n;         /* lines [a,b) move by n, up or down */
static bool up;

#define CHECK(want) \
    { \
        spec_check(vt->scr[i].ch == (want(K_CH)), "T08:characters after moving lines"); \
        spec_check(vt->scr[i].attr == (want(K_ATTR)), "T08:attributes after moving lines"); \
        spec_check(vt->scr[i].comb == (want(K_COMB)), "T08:marks after moving lines"); \
    }
#define SAME(k)  cell(S0, i, k)
#define MOVED(k) cell(S0, up ? i + n * sx : i - n * sx, k)
#define BLANK(k) (k == K_CH ? ' ' : k == K_COMB ? 0 : old.attr)

void harness_scroll(void)
{
    int c = spec_case(), req = c >> 2;
    bool moves = c & 3, inside;
    mk_tty();
    int x = old.cx, y = old.cy;
    a = old.s1, b = old.s2, n = 1, up = req != RI && req != IL;
    inside = y >= a && y < b;
    if (req >= IL)
    {
        csi(nd_range("ntok", 0, 2));
        int p = vt->tok[0];
        spec_assume(p >= 0);
        spec_assume(moves == inside);
        a = y;
        switch (c & 3)
        {
        case 1: spec_assume(p == 0); n = 1; break;
        case 2: spec_assume(p > 0 && p < b - a); n = p; break;
        case 3: spec_assume(p >= b - a); n = p; break;
        }
    }
    else if (req == RI)
        spec_assume(moves == (y == a));
    else
        spec_assume(moves == (y == b - 1));
    switch (req)
    {
    case LF: put(10); x = 0; break;
    case VT: put(11); break;
    case IND: put(27); put('D'); break;
    case NEL: put(27); put('E'); x = 0; break;
    case RI: put(27); put('M'); break;
    case IL: put('L'); break;
    case DL: put('M'); break;
    }
    spec_cover("done");
    if (!moves && req < IL)
        y = req == RI ? (y ? y - 1 : 0) : y + 1 < sy ? y + 1 : y;
    FORALL(i, sx * sy)
    {
        if (!moves || i < a * sx || i >= b * sx)
            CHECK(SAME)
        else if (n >= b - a)
            CHECK(BLANK)
        else if (up)
        {
            if (i < (b - n) * sx)
                CHECK(MOVED)
            else
                CHECK(BLANK)
        }
        else if (i >= (a + n) * sx)
            CHECK(MOVED)
        else
            CHECK(BLANK)
    }
    spec_check(vt->cx == x && vt->cy == y, "T08:the cursor moves only for a line feed away from the edge");
    spec_check(vt->s1 == old.s1 && vt->s2 == old.s2 && vt->sx == sx && vt->sy == sy && vt->attr == old.attr, "T08:region, size and attributes stay");
    spec_check(vt->state == 0, "T08:the request is complete");
}
