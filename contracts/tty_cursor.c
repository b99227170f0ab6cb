#include "ttyspec.h"

enum { LEFT, RIGHTC, RIGHTA, UP, UPHOME, DOWN, DOWNHOME, POSH, POSF, HORG, HORQ, VERT, REGION, BS, CR, SAVE, RESTORE, TAB };

static int clip(int64_t v, int lo, int hi)
{
    return v < lo ? lo : v > hi ? hi : (int)v;
}

/* while a tab runs, the cursor is still before the stop */
static bool L_tab(void)
{
    return vt->cx >= old.cx && vt->cx <= (old.cx | 7) && vt->cx < sx;
}
static bool L_tab1(void)
{
    return vt->cx >= old.cx && vt->cx <= (old.cx | 7) + 1 && vt->cx <= sx;
}

void harness_cursor(void)
{
    static const char fin[] = "DCaAFBEHfG`dr";
    int c = spec_case(), nt = 0;
    mk_tty();
    if (c <= REGION)
    {
        nt = nd_range("ntok", 0, 2);
        csi(nt);
        spec_assume((int)vt->tok[0] >= 0 && (int)vt->tok[1] >= 0);
    }
    int64_t p = vt->tok[0], q = vt->tok[1], n = p ? p : 1, x = old.cx, y = old.cy, s1 = old.s1, s2 = old.s2;
    switch (c)
    {
    case LEFT: x = clip(x - n, 0, sx); break;
    case RIGHTC: case RIGHTA: x = clip(x + n, 0, sx); break;
    case UPHOME: x = 0; y = clip(y - n, 0, sy - 1); break;
    case UP: y = clip(y - n, 0, sy - 1); break;
    case DOWNHOME: x = 0; y = clip(y + n, 0, sy - 1); break;
    case DOWN: y = clip(y + n, 0, sy - 1); break;
    case POSH: case POSF: y = clip(p - 1, 0, sy - 1); x = nt ? clip(q - 1, 0, sx - 1) : 0; break;
    case HORG: case HORQ: x = clip(p - 1, 0, sx - 1); break;
    case VERT: y = clip(p - 1, 0, sy - 1); break;
    case REGION:
        if (!p)
            p = 1;
        if (!nt || !q)
            q = sy;
        if (p < q && q <= sy)
            x = 0, y = p - 1, s1 = p - 1, s2 = q;
        break;
    case BS: x = x ? x - 1 : 0; break;
    case CR: x = 0; break;
    case RESTORE: x = old.save_cx; y = old.save_cy; break;
    case TAB: x = x >= sx ? x : clip((x | 7) + 1, 0, sx); break;
    }
    switch (c)
    {
    case BS: put(8); break;
    case CR: put(13); break;
    case SAVE: put(27); put('7'); break;
    case RESTORE: put(27); put('8'); break;
    case TAB: spec_loop_inv(L_tab); spec_loop_inv(L_tab1); put(9); break;
    default: put(fin[c]);
    }
    spec_cover("moved");
    spec_check(vt->cx == x && vt->cy == y, "T09:the cursor goes where it is asked to");
    spec_check(vt->s1 == s1 && vt->s2 == s2, "T09:only a valid region request changes the scrolling region");
    spec_check(vt->save_cx == (c == SAVE ? old.cx : old.save_cx) && vt->save_cy == (c == SAVE ? old.cy : old.save_cy), "T09:the saved position");
    spec_check(vt->sx == sx && vt->sy == sy && (c == RESTORE || vt->attr == old.attr), "T09:size and attributes stay");
    int a = old.cy * sx + old.cx, b = c == TAB ? a + (int)x - old.cx : a;
    FORALL(i, sx * sy)
    {
        spec_check(vt->scr[i].ch == S_erased(a, b, old.attr, i, K_CH), "T09:only a tab changes cells: the characters it passes");
        spec_check(vt->scr[i].attr == S_erased(a, b, old.attr, i, K_ATTR), "T09:only a tab changes cells: their attributes");
        spec_check(vt->scr[i].comb == S_erased(a, b, old.attr, i, K_COMB), "T09:only a tab changes cells: their marks");
    }
}
