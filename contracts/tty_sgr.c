#include "ttyspec.h"

#define FGM 0x0000000003ffffffull
#define BGM 0x03ffffff00000000ull
enum { SOFF, S16, S256, SRGB };      /* colour kinds, as documented in tty.h */

/* what the parameters up to gi have made of the attributes */
static int gi;
static uint64_t ga;

static void color(bool bg, uint64_t kind, uint32_t v)
{
    uint64_t x = kind << 24 | (v & 0xffffff);
    ga = bg ? (ga & ~BGM) | x << 32 : (ga & ~FGM) | x;
}

static uint32_t tok(int i)
{
    return vt->tok[i];
}

/* one attribute: the meaning of the parameter at gi, and of those it takes along */
static void item(void)
{
    int left = vt->ntok - gi;
    uint32_t p = tok(gi), q;
    bool bg;
    if (p == 0) ga = 0;
    else if (p == 1) ga = (ga | VT100_ATTR_BOLD) & ~VT100_ATTR_DIM;
    else if (p == 2) ga = (ga | VT100_ATTR_DIM) & ~VT100_ATTR_BOLD;
    else if (p == 3) ga |= VT100_ATTR_ITALIC;
    else if (p == 4) ga |= VT100_ATTR_UNDERLINE;
    else if (p == 5) ga |= VT100_ATTR_BLINK;
    else if (p == 7) ga |= VT100_ATTR_INVERSE;
    else if (p == 9) ga |= VT100_ATTR_STRIKE;
    else if (p == 21 || p == 22) ga &= ~(VT100_ATTR_BOLD | VT100_ATTR_DIM);
    else if (p == 23) ga &= ~VT100_ATTR_ITALIC;
    else if (p == 24) ga &= ~VT100_ATTR_UNDERLINE;
    else if (p == 25) ga &= ~VT100_ATTR_BLINK;
    else if (p == 27) ga &= ~VT100_ATTR_INVERSE;
    else if (p == 29) ga &= ~VT100_ATTR_STRIKE;
    else if (p >= 30 && p <= 37) color(0, S16, p - 30);
    else if (p == 39) color(0, SOFF, 0);
    else if (p >= 40 && p <= 47) color(1, S16, p - 40);
    else if (p == 49) color(1, SOFF, 0);
    else if (p >= 90 && p <= 97) color(0, S256, p - 90 + 8);
    else if (p >= 100 && p <= 107) color(1, S256, p - 100 + 8);
    else if ((p == 38 || p == 48) && left >= 1)
    {
        bg = p == 48;
        q = tok(++gi);
        if (q == 5 && left >= 2)
            color(bg, S256, tok(++gi));
        else if (q == 2)
        {
            if (left >= 4)
                color(bg, SRGB, (tok(gi + 1) & 255) << 16 | (tok(gi + 2) & 255) << 8 | tok(gi + 3) & 255);
            gi += 3;
        }
        else if (q == 3)
            gi += 3;
        else if (q == 4)
            gi += 4;
    }
    gi++;
}

static bool L_range(void)
{
    return gi >= 0 && gi <= 21;
}

void harness_sgr(void)
{
    mk_tty();
    csi(nd_range("ntok", 0, 15));
    for (int i = 0; i < 16; i++)
    {
        vt->tok[i] = nd_u32("p");
        if (!spec_symbolic() && !spec_replay() && nd_u8("kind") < 200)
        {
            static const uint8_t known[] = { 0, 1, 2, 3, 4, 5, 7, 9, 21, 22, 23, 24, 25, 27, 29, 31, 36, 38, 39, 41, 47, 48, 49, 90, 97, 100, 107, 38, 48, 2, 5, 3 };
            vt->tok[i] = known[nd_u8("item") % sizeof known];
        }
    }
    gi = 0;
    ga = old.attr;
    if (spec_proof())
    {
        spec_ghost_step(item);
        spec_loop_inv(L_range);
        put('m');
    }
    else
    {
        while (gi <= vt->ntok)
            item();
        put('m');
    }
    spec_cover("done");
    spec_check(vt->attr == ga, "T10:the attributes asked for");
    spec_check(gi > vt->ntok, "T10:every parameter is looked at");
    spec_check(vt->cx == old.cx && vt->cy == old.cy && vt->s1 == old.s1 && vt->s2 == old.s2 && vt->save_cx == old.save_cx
        && vt->save_cy == old.save_cy && vt->save_attr == old.save_attr && vt->G == old.G && vt->curG == old.curG
        && vt->opt_auto_wrap == old.opt_auto_wrap && vt->opt_cursor == old.opt_cursor, "T10:nothing but the attributes changes");
    spec_check(vt->state == 0, "T10:the request is complete");
    FORALL(i, sx * sy)
        spec_check(vt->scr[i].ch == S0[i].ch && vt->scr[i].attr == S0[i].attr && vt->scr[i].comb == S0[i].comb, "T10:the screen stays");
}
