#include "ttyspec.h"
#include "libtty/charsets.h"

/* an ASCII byte, or the last byte of a longer sequence */
enum { ASCII, MULTI };
enum { FITS, FITS2, NOWRAP, WRAP, WRAP2, SCROLL, SCROLL2 };

/* an append to the marks of a cell changes nothing else on the screen (tty_comb.c proves it of the real function) */
void contract_tty_add_comb(tty t, attrchar *ac, ucs ch)
{
    if (!ac->comb)
        ac->comb = nd_u32("newcomb");
    if (t->combs)
        spec_havoc_array(t->combs);
}

static int px, py, sc, w;   /* where the character goes, whether the region scrolls first, its width */
static uint32_t ch;

/* cell i of the screen after scrolling */
static uint64_t B(int i, int k)
{
    if (sc && i >= old.s1 * sx && i < old.s2 * sx)
    {
        if (i >= (old.s2 - 1) * sx)
            return k == K_CH ? ' ' : k == K_COMB ? 0 : old.attr;
        return cell(S0, i + sx, k);
    }
    return cell(S0, i, k);
}

#define CHECK(want) \
    { \
        spec_check(vt->scr[i].ch == (want(K_CH)), "T05:characters after printing one"); \
        spec_check(vt->scr[i].attr == (want(K_ATTR)), "T05:attributes after printing a character"); \
        spec_check(vt->scr[i].comb == (want(K_COMB)), "T05:marks after printing a character"); \
    }
#define BASE(k) B(i, k)
#define SAME(k) cell(S0, i, k)
#define MINE(k) (k == K_CH ? ch : k == K_COMB ? 0 : w == 2 ? old.attr | CJK : old.attr)
#define FILL(k) (k == K_CH ? RIGHT : k == K_COMB ? 0 : old.attr | CJK)
#define CUT(k)  (k == K_CH ? ' ' : k == K_COMB ? 0 : B(i, k) & ~CJK)

void harness_print(void)
{
    int c = spec_case();
    uint8_t b = nd_u8("byte");
    mk_tty();
    vt->cp437 = false;
    if ((c & 1) == ASCII)
    {
        spec_assume(b >= 32 && b < 127);
        ch = b;
    }
    else
    {
        vt->utf_count = 1;
        vt->utf_char = nd_u32("utf_char");
        spec_assume((b & 0xc0) == 0x80);
        ch = vt->utf_char << 6 | b & 0x3f;
        spec_assume(ch >= 0xa0 && ch != 0xfeff && ch <= 0x10ffff && (ch & 0xffff) < 0xfffe
            && !(ch >= 0xd800 && ch <= 0xdfff) && !(ch >= 0xfdd0 && ch < 0xfdf0));
    }
    w = mk_wcwidth(ch);
    /* every outcome of the width and wrapping is one of the static cases */
    bool fits = old.cx + w <= sx;
    switch (c >> 1)
    {
    case FITS: spec_assume(w <= 1 && fits); break;
    case FITS2: spec_assume(w == 2 && fits); break;
    case NOWRAP: spec_assume(!fits && !old.opt_auto_wrap); break;
    case WRAP: spec_assume(w == 1 && !fits && old.opt_auto_wrap && old.cy + 1 < old.s2); break;
    case WRAP2: spec_assume(w == 2 && !fits && old.opt_auto_wrap && old.cy + 1 < old.s2); break;
    case SCROLL: spec_assume(w == 1 && !fits && old.opt_auto_wrap && old.cy + 1 >= old.s2); break;
    case SCROLL2: spec_assume(w == 2 && !fits && old.opt_auto_wrap && old.cy + 1 >= old.s2); break;
    }
    if (ch < 128 && old.G >> old.curG & 1)
        ch = charset_vt100[ch];
    px = old.cx;
    py = old.cy;
    sc = 0;
    if (w > 0 && px + w > sx)
    {
        if (old.opt_auto_wrap)
        {
            px = 0;
            if (py + 1 >= old.s2)
                sc = 1, py = old.s2 - 1;
            else
                py++;
        }
        else
            px = sx - w;
    }
    put(b);
    spec_cover("printed");
    int p = py * sx + px;
    FORALL(i, sx * sy)
    {
        if (w <= 0)
        {
            spec_check(vt->scr[i].ch == S0[i].ch, "T05:characters after printing one");
            spec_check(vt->scr[i].attr == S0[i].attr, "T05:attributes after printing a character");
            if (w < 0 || old.cx == 0 || i != old.cy * sx + old.cx - 1 - (S0[old.cy * sx + old.cx - 1].ch == RIGHT) || S0[i].comb)
                spec_check(vt->scr[i].comb == S0[i].comb, "T05:marks after printing a character");
        }
        else if (i == p)
            CHECK(MINE)
        else if (w == 2 && i == p + 1)
            CHECK(FILL)
        else if (px > 0 && i == p - 1)
        {
            if (B(p, K_CH) == RIGHT)
                CHECK(CUT)
            else
                CHECK(BASE)
        }
        else if (px + w < sx && i == p + w)
        {
            if (B(p + w, K_CH) == RIGHT)
                CHECK(CUT)
            else
                CHECK(BASE)
        }
        else
            CHECK(BASE)
    }
    spec_check(vt->cx == (w > 0 ? px + w : old.cx) && vt->cy == py, "T05:the cursor moves by the width");
    spec_check(vt->attr == old.attr && vt->sx == sx && vt->sy == sy && vt->s1 == old.s1 && vt->s2 == old.s2, "T05:attributes, size and region stay");
    spec_check(vt->state == 0 && vt->utf_count == 0, "T05:the character is complete");
}
