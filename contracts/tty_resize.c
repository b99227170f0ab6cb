#include "ttyspec.h"

static int min(int a, int b)
{
    return a < b ? a : b;
}

/* every entry of the store of marks is either free or belongs to one cell (natively) */
static bool marks_accounted(void)
{
    if (!vt->combs)
        return 1;
    unsigned n = vt->combs[0].ch, seen = 1;
    for (uint32_t i = vt->combs[0].next; i < n && seen <= n; i = vt->combs[i].next)
        seen++;
    for (int i = 0; i < vt->sx * vt->sy; i++)
        for (uint32_t j = vt->scr[i].comb; j && seen <= n; j = vt->combs[j].next)
            seen++;
    return seen == n;
}

void harness_resize(void)
{
    int c = spec_case(), nsx, nsy;
    mk_tty();
    if (spec_symbolic() || spec_replay())
    {
        nsx = 1 + c % 6;
        nsy = 1 + c / 6;
    }
    else
    {
        nsx = nd_range("nsx", 1, 40);
        nsy = nd_range("nsy", 1, 12);
        spec_assume(marks_accounted());
    }
    int r = tty_resize(vt, nsx, nsy);
    spec_cover("resized");
    spec_check(vt->sx == nsx && vt->sy == nsy, "T14:the new size");
    if (nsx == sx && nsy == sy)
    {
        spec_check(!r, "T14:the same size is no change");
        spec_check(vt->s1 == old.s1 && vt->s2 == old.s2 && vt->cx == old.cx && vt->cy == old.cy, "T14:the same size is no change");
        return;
    }
    spec_check(r == 1, "T14:a new size is a change");
    spec_check(vt->s1 == 0 && vt->s2 == nsy, "T14:the region is the whole screen");
    spec_check(vt->cx == min(old.cx, nsx) && vt->cy == min(old.cy, nsy - 1), "T14:the cursor is clipped into the screen");
    spec_check(vt->save_cx == min(old.save_cx, nsx) && vt->save_cy == min(old.save_cy, nsy - 1), "T14:the saved cursor is clipped into the screen");
    spec_check(vt->attr == old.attr && vt->state == old.state && vt->opt_auto_wrap == old.opt_auto_wrap && vt->G == old.G, "T14:the rest stays");
    for (int y = 0; y < nsy; y++)
        for (int x = 0; x < nsx; x++)
        {
            attrchar *a = &vt->scr[y * nsx + x];
            if (y >= sy || x >= sx)
                spec_check(a->ch == ' ' && !a->comb && a->attr == old.attr, "T14:new cells are blank");
            else if (nsx < sx && x == nsx - 1 && S0[y * sx + nsx].ch == RIGHT)
                spec_check(a->ch == ' ' && !a->comb && a->attr == (S0[y * sx + x].attr & ~CJK), "T14:a cut character becomes a blank");
            else
            {
                attrchar *b = &S0[y * sx + x];
                spec_check(a->ch == b->ch && a->comb == b->comb && a->attr == b->attr, "T14:what fits is kept");
            }
        }
    if (!spec_symbolic() && !spec_replay())
        spec_check(marks_accounted(), "T14:marks of dropped cells are released");
}
