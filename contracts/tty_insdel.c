#include "ttyspec.h"

enum { INS, DEL };
static int cx, row;         /* the cursor column; the index of the first cell of its line */
static int cnt;

static uint64_t damaged(int i, int k)
{
    return k == K_CH ? ' ' : k == K_COMB ? 0 : S0[i].attr & ~CJK;
}

/* the line before anything shifts: double-width characters cut by the edit are blanks */
static uint64_t cut(int c, int x, int k)
{
    int i = row + x;
    if (c == INS)
    {
        if (S0[row + cx].ch == RIGHT && (x == cx || x == cx - 1))
            return damaged(i, k);
        if (sx - cnt > cx && S0[row + sx - cnt].ch == RIGHT && x == sx - cnt - 1)
            return damaged(i, k);
    }
    else
    {
        if (S0[row + cx].ch == RIGHT && x == cx - 1)
            return damaged(i, k);
        if (cx + cnt < sx && S0[row + cx + cnt].ch == RIGHT && x == cx + cnt)
            return damaged(i, k);
    }
    return cell(S0, i, k);
}

#define CHECK(want) \
    { \
        spec_check(vt->scr[i].ch == (want(K_CH)), "T07:characters after inserting or deleting"); \
        spec_check(vt->scr[i].attr == (want(K_ATTR)), "T07:attributes after inserting or deleting"); \
        spec_check(vt->scr[i].comb == (want(K_COMB)), "T07:marks after inserting or deleting"); \
    }
#define SAME(k)  cell(S0, i, k)
#define LEFT(k)  cut(c, x, k)
#define BLANK(k) (k == K_CH ? ' ' : k == K_COMB ? 0 : old.attr)
#define RIGHTW(k) cut(c, x - cnt, k)
#define LEFTW(k) cut(c, x + cnt, k)

void harness_insdel(void)
{
    int c = spec_case();
    mk_tty();
    csi(nd_range("ntok", 0, 2));
    spec_assume((int)vt->tok[0] >= 0);
    cnt = vt->tok[0] ? (int)vt->tok[0] : 1;
    cx = old.cx;
    if (cnt > sx - cx)
        cnt = sx - cx;
    row = old.cy * sx;
    put(c == INS ? '@' : 'P');
    spec_cover("done");
    FORALL(i, sx * sy)
    {
        int x = i - row;
        if (x < 0 || x >= sx || cnt <= 0)
            CHECK(SAME)
        else if (x < cx)
            CHECK(LEFT)
        else if (c == INS)
        {
            if (x < cx + cnt)
                CHECK(BLANK)
            else
                CHECK(RIGHTW)
        }
        else
        {
            if (x < sx - cnt)
                CHECK(LEFTW)
            else
                CHECK(BLANK)
        }
    }
    spec_check(vt->cx == old.cx && vt->cy == old.cy && vt->attr == old.attr && vt->sx == sx && vt->sy == sy, "T07:the cursor and attributes stay");
    spec_check(vt->state == 0, "T07:the request is complete, further input prints");
}
