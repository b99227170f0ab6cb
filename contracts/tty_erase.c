#include "ttyspec.h"

enum { J0, J1, J2, K0, K1, K2, ECH, FF, ERASE_CASES };

void harness_erase(void)
{
    int c = spec_case(), p;
    mk_tty();
    if (c != FF)
        csi(nd_range("ntok", 0, 2));
    int at = old.cy * sx + old.cx, a = 0, b = 0;
    switch (c)
    {
    case J0: a = at; b = sx * sy; vt->tok[0] = 0; put('J'); break;
    case J1: a = 0; b = at; vt->tok[0] = 1; put('J'); break;
    case J2: a = 0; b = sx * sy; vt->tok[0] = 2; put('J'); break;
    case K0: a = at; b = (old.cy + 1) * sx; vt->tok[0] = 0; put('K'); break;
    case K1: a = old.cy * sx; b = at; vt->tok[0] = 1; put('K'); break;
    case K2: a = old.cy * sx; b = (old.cy + 1) * sx; vt->tok[0] = 2; put('K'); break;
    case ECH:
        p = vt->tok[0];
        spec_assume(p >= 0);
        if (p < 1)
            p = 1;
        if (p > sx - old.cx)
            p = sx - old.cx;
        a = at; b = at + p;
        put('X');
        break;
    case FF: a = 0; b = sx * sy; put(12); break;
    }
    spec_cover("erase");
    FORALL(i, sx * sy)
    {
        spec_check(vt->scr[i].ch == S_erased(a, b, old.attr, i, K_CH), "T06:the erased cells, and only those, become blanks");
        spec_check(vt->scr[i].attr == S_erased(a, b, old.attr, i, K_ATTR), "T06:erased cells take the current attribute");
        spec_check(vt->scr[i].comb == S_erased(a, b, old.attr, i, K_COMB), "T06:erased cells lose their combining marks");
    }
    spec_check(c == FF ? vt->cx == 0 && vt->cy == 0 : vt->cx == old.cx && vt->cy == old.cy, "T06:cursor");
}
