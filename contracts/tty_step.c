#include "ttyspec.h"

/* One more byte, whatever it is, in whatever state the terminal is: the memory accesses, asserts and arithmetic of the real
   code, and the invariants that make the next byte safe again. */

void contract_tty_add_comb(tty t, attrchar *ac, ucs ch)
{
    if (!ac->comb)
        ac->comb = nd_u32("newcomb");
    if (t->combs)
        spec_havoc_array(t->combs);
}

/* what harness_resize proves of the real function */
int contract_tty_resize(tty t, int nsx, int nsy)
{
    spec_check(nsx >= 2 && nsx <= MAXDIM && nsy >= 1 && nsy <= MAXDIM, "T01:a sane new size");
    return 1;
}

static void S_whole(void)
{
    FORALL(wy, sy)
        FORALL(wx, sx)
            spec_check(S_wide_ok(vt->scr, wy * sx + wx), "T02:the screen is whole where a part of the code relies on it");
}

/* any whole screen */
static void S_new_screen(void)
{
    vt->scr = spec_array("scr2", (unsigned)(sx * sy), sizeof(attrchar), "0:4,4:4,8:8");
    spec_on_touch(vt->scr, S_wide_ok);
    if (vt->combs)
        spec_havoc_array(vt->combs);
}

/* proved of the real function where it is called for ESC[L and ESC[M (for any region from any line on, and any number of lines) */
void contract_tty_scroll(tty t, int nl)
{
    spec_check(vt->s1 >= 0 && vt->s1 < vt->s2 && vt->s2 <= sy, "T02:the region to scroll is on the screen");
    spec_check(nl > 0 || nl < 0 && nl >= -0x7fffffff, "T02:scrolling by some lines");
    S_whole();
    S_new_screen();
}

/* proved of the real function where it is called for plain bytes and complete UTF-8 */
void contract_tty_write_char(tty t, ucs c)
{
    spec_check(c >= 32 && c < 127 || c >= 0xa0 && c <= 0x10ffff && c != 0xfeff && (c & 0xfffe) != 0xfffe
        && !(c >= 0xd800 && c < 0xe000) && !(c >= 0xfdd0 && c < 0xfdf0), "T02:only real characters get printed");
    spec_check(vt->cx >= 0 && vt->cx <= sx && vt->cy >= 0 && vt->cy < sy, "T02:printing happens on the screen");
    spec_check(vt->s1 >= 0 && vt->s1 < vt->s2 && vt->s2 <= sy, "T02:the region is on the screen");
    spec_check(!(vt->attr & CJK), "T02:the attributes to print with never have the double-width mark");
    S_whole();
    S_new_screen();
    vt->cx = nd_range("newcx", 0, sx);
    vt->cy = nd_range("newcy", 0, sy - 1);
}

char *contract_strdup(const char *s)
{
    return malloc(4096);
}

enum { NORMAL, ESC, GETPARS, SQUARE, QUES, SETG0, SETG1, PERCENT, OSC, OSCSTR, CTRL, CSI };
enum { ASCII = 1, MULTI, LOW, LONE, NONCHAR, BEYOND, PAIR, PAIRN, MORE, SILENT, LEADING, CP };
enum { P_ANY, FITS, FITS2, NOWRAP, WRAP, WRAP2, SCROLL, SCROLL1, SCROLL2, SCROLL21, UNPRINTED, DOWN, DOWN1, DOWN2, OUTSIDE, ONE, NEG, PART, ALL, INSIDE, IONE, INEG, IPART, IALL, IEQ, IOUT };
#define B(c) c, c

#define MAL(k) { NORMAL, 128, 191, k, FITS }, { NORMAL, 128, 191, k, NOWRAP }, { NORMAL, 128, 191, k, WRAP }, \
    { NORMAL, 128, 191, k, SCROLL }, { NORMAL, 128, 191, k, SCROLL1 }
#define CPS(l, h) { NORMAL, l, h, CP, FITS }, { NORMAL, l, h, CP, NOWRAP }, { NORMAL, l, h, CP, WRAP }, \
    { NORMAL, l, h, CP, SCROLL }, { NORMAL, l, h, CP, SCROLL1 }
static const struct step { uint8_t state, lo, hi, kind, how; } steps[] =
{
    /* 0: control codes mean the same in every state */
    { CTRL, B(0) }, { CTRL, B(5) }, { CTRL, B(7) }, { CTRL, B(8) }, { CTRL, B(9) }, { CTRL, 10, 11, 0, DOWN },
    { CTRL, B(10), 0, DOWN1 }, { CTRL, B(10), 0, DOWN2 }, { CTRL, B(11), 0, DOWN1 }, { CTRL, B(11), 0, DOWN2 }, { CTRL, B(12) },
    { CTRL, 13, 15 }, { CTRL, B(24) }, { CTRL, B(26) }, { CTRL, B(27) }, { CTRL, B(127) },
    /* 16: characters */
    { NORMAL, 1, 31, ASCII, UNPRINTED },
    { NORMAL, 32, 126, ASCII, FITS }, { NORMAL, 32, 126, ASCII, NOWRAP }, { NORMAL, 32, 126, ASCII, WRAP },
    { NORMAL, 32, 126, ASCII, SCROLL }, { NORMAL, 32, 126, ASCII, SCROLL1 },
    { NORMAL, 128, 191, MULTI, FITS }, { NORMAL, 128, 191, MULTI, FITS2 }, { NORMAL, 128, 191, MULTI, NOWRAP },
    { NORMAL, 128, 191, MULTI, WRAP }, { NORMAL, 128, 191, MULTI, WRAP2 }, { NORMAL, 128, 191, MULTI, SCROLL },
    { NORMAL, 128, 191, MULTI, SCROLL1 }, { NORMAL, 128, 191, MULTI, SCROLL2 }, { NORMAL, 128, 191, MULTI, SCROLL21 },
    MAL(LOW), MAL(LONE), MAL(NONCHAR), MAL(BEYOND),
    /* 51 */
    { NORMAL, 128, 191, PAIR, FITS }, { NORMAL, 128, 191, PAIR, FITS2 }, { NORMAL, 128, 191, PAIR, NOWRAP },
    { NORMAL, 128, 191, PAIR, WRAP }, { NORMAL, 128, 191, PAIR, WRAP2 }, { NORMAL, 128, 191, PAIR, SCROLL },
    { NORMAL, 128, 191, PAIR, SCROLL1 }, { NORMAL, 128, 191, PAIR, SCROLL2 }, { NORMAL, 128, 191, PAIR, SCROLL21 },
    MAL(PAIRN),
    { NORMAL, 128, 191, MORE }, { NORMAL, 128, 191, SILENT },
    { NORMAL, 128, 255, LEADING },
    CPS(1, 31), CPS(32, 126), CPS(128, 255),
    /* 83: sequences */
    { ESC, 1, 'C' }, { ESC, 'D', 'E', 0, DOWN }, { ESC, B('D'), 0, DOWN1 }, { ESC, B('D'), 0, DOWN2 }, { ESC, B('E'), 0, DOWN1 },
    { ESC, B('E'), 0, DOWN2 }, { ESC, 'F', 'L' }, { ESC, B('M') }, { ESC, 'N', 255 },
    /* 92: with parameters */
    { CSI, 1, '?' }, { CSI, B('@') }, { CSI, 'A', 'I' }, { CSI, B('J') }, { CSI, B('K') },
    { CSI, B('L'), 0, OUTSIDE }, { CSI, B('L'), 0, ONE }, { CSI, B('L'), 0, NEG }, { CSI, B('L'), 0, PART }, { CSI, B('L'), 0, ALL },
    { CSI, B('M'), 0, OUTSIDE }, { CSI, B('M'), 0, ONE }, { CSI, B('M'), 0, NEG }, { CSI, B('M'), 0, PART }, { CSI, B('M'), 0, ALL },
    { CSI, 'N', 'O' }, { CSI, B('P') }, { CSI, 'Q', 'W' },
    { CSI, B('X') }, { CSI, 'Y', 'b' }, { CSI, B('c') }, { CSI, 'd', 'l' }, { CSI, B('m') },
    { CSI, 'n', 255 },
    /* 116: with parameters, private ones */
    { QUES, 1, 'g' }, { QUES, B('h') }, { QUES, 'i', 'k' }, { QUES, B('l') }, { QUES, 'm', 255 },
    { SETG0, 1, 255 }, { SETG1, 1, 255 }, { PERCENT, 1, 255 }, { OSC, 1, 255 }, { OSCSTR, 1, 255 },
    /* 126: those that print or scroll, by the contracts of what they call */
    { CTRL, 10, 11 }, { NORMAL, 128, 191, LOW }, { NORMAL, 128, 191, LONE }, { NORMAL, 128, 191, NONCHAR },
    { NORMAL, 128, 191, BEYOND }, { NORMAL, 128, 191, PAIR }, { NORMAL, 128, 191, PAIRN },
    { NORMAL, 1, 31, CP }, { NORMAL, 32, 126, CP }, { NORMAL, 128, 255, CP },
    { ESC, 'D', 'E' }, { CSI, B('L'), 0, INSIDE }, { CSI, B('M'), 0, INSIDE }, { NORMAL, 32, 126, ASCII }, { NORMAL, 128, 191, MULTI },
    /* 141 */
    { CSI, B('@'), 0, IONE }, { CSI, B('@'), 0, INEG }, { CSI, B('@'), 0, IPART }, { CSI, B('@'), 0, IALL }, { CSI, B('@'), 0, IEQ }, { CSI, B('@'), 0, IOUT },
    { CSI, B('P'), 0, IONE }, { CSI, B('P'), 0, INEG }, { CSI, B('P'), 0, IPART }, { CSI, B('P'), 0, IALL }, { CSI, B('P'), 0, IEQ }, { CSI, B('P'), 0, IOUT },
};

static bool control(uint8_t b)
{
    return b == 0 || b == 5 || b >= 7 && b <= 15 || b == 24 || b == 26 || b == 27 || b == 127;
}

/* while a tab runs, the cursor is still before the stop */
static bool L_tab(void)
{
    return vt->cx >= old.cx && vt->cx <= (old.cx | 7) && vt->cx < sx;
}
static bool L_tab1(void)
{
    return vt->cx >= old.cx && vt->cx <= (old.cx | 7) + 1 && vt->cx <= sx;
}

static void nothing(void)
{
}

static bool L_attr(void)
{
    return !(vt->attr & CJK);
}

#define WHOLE \
    { \
        attrchar *a = vt->scr; \
        if (a[i].ch == RIGHT) \
            spec_check(S_wide_ok(a, i), "T02:a right half has its left half"); \
        else if (a[i].attr & CJK) \
            spec_check(S_wide_ok(a, i), "T02:a double-width character has its right half"); \
        else \
            spec_check(S_wide_ok(a, i), "T02:other characters are not double-width"); \
    }
static const struct step *p;
static int w;

/* which part of the screen the cell is in makes no difference to what is claimed, but keeps the claims apart */
static void whole(int i, int y, int x)
{
    if (p->lo == 9)
    {
        int stop = old.cx >= sx ? sx : (old.cx | 7) + 1 < sx ? (old.cx | 7) + 1 : sx;
        if (y != old.cy)
            WHOLE
        else if (x < old.cx - 1)
            WHOLE
        else if (x < old.cx)
            WHOLE
        else if (x < stop)
            WHOLE
        else if (x == stop)
            WHOLE
        else
            WHOLE
    }
    else if (p->how == DOWN2 || p->how >= ONE && p->how <= ALL)
    {
        int n = p->how == PART ? vt->tok[0] : p->how == ALL ? 0 : 1, top = p->how == DOWN2 ? old.s1 : old.cy;
        if (old.s2 * sx < 0 || top * sx < 0)    /* never; names the products the lemmas need */
            return;
        if (y < top)
            WHOLE
        else if (y >= old.s2)
            WHOLE
        else if (p->lo == 'L' && p->state == CSI)
        {
            if (y < top + n)
                WHOLE
            else
                WHOLE
        }
        else
        {
            if (y < old.s2 - n)
                WHOLE
            else
                WHOLE
        }
    }
    else if (p->how >= IONE && p->how <= IEQ)
    {
        int n = p->how <= INEG ? 1 : p->how == IPART ? vt->tok[0] : sx - old.cx;
        if (y != old.cy)
            WHOLE
        else if (x < old.cx - 1)
            WHOLE
        else if (x < old.cx)
            WHOLE
        else if (p->lo == '@')
        {
            if (x < old.cx + n)
                WHOLE
            else if (x < sx - 1)
                WHOLE
            else
                WHOLE
        }
        else
        {
            if (x < sx - n - 1)
                WHOLE
            else if (x < sx - n)
                WHOLE
            else
                WHOLE
        }
    }
    else if (p->how >= FITS && p->how <= SCROLL21)
    {
        int px = p->how == FITS || p->how == FITS2 ? old.cx : p->how == NOWRAP ? sx - w : 0;
        int py = p->how <= NOWRAP ? old.cy : p->how <= WRAP2 ? old.cy + 1 : old.s2 - 1;
        if (old.s2 * sx < 0 || py * sx < 0)
            return;
        if (p->how <= WRAP2 && p->kind != PAIR && p->kind != CP)
            WHOLE
        else if (p->how <= NOWRAP && y == py && x < px - 1)
            WHOLE
        else if (p->how <= NOWRAP && y == py && x > px + w)
            WHOLE
        else if (p->how <= NOWRAP && y == py && x < px)
            WHOLE
        else if (p->how <= NOWRAP && y == py && x >= px + w)
            WHOLE
        else if (y != py)
            WHOLE
        else
            WHOLE
    }
    else
        WHOLE
}

static void step(bool screen)
{
    p = &steps[spec_case()];
    uint8_t b = nd_u8("byte");
    if (!spec_symbolic() && !spec_replay())
        b = p->lo + b % (p->hi - p->lo + 1);
    spec_assume(b >= p->lo && b <= p->hi);
    mk_tty();
    if (p->state == CTRL)
        vt->state = nd_range("state", 0, 9);
    else
    {
        spec_assume(!control(b));
        vt->state = p->state == CSI ? GETPARS : p->state;
    }
    vt->cp437 = p->kind == CP || !p->kind && nd_bool("cp437");
    mk_utf();
    vt->ntok = nd_range("ntok", 0, 15);
    for (int i = 0; i < 16; i++)
        vt->tok[i] = nd_u32("tok");
    if (!spec_symbolic() && !spec_replay())
        for (int i = 0; i < 16; i++)
            if (vt->tok[i] & 3)
                vt->tok[i] = vt->tok[i] >> 8 & (vt->tok[i] & 4 ? 63 : 3);
    vt->osclen = nd_range("osclen", 0, 4095);
    if (vt->oscbuf)
        free(vt->oscbuf), vt->oscbuf = 0;
    if (vt->state != OSC && nd_bool("text"))
    {
        vt->oscbuf = spec_array("text", 4096, 1, "0:1");
        for (int i = 0; !spec_symbolic() && i < vt->osclen; i++)
            if (!vt->oscbuf[i])
                vt->oscbuf[i] = 'x';
    }
    if (nd_bool("sur"))
        vt->utf_surrogate = 0;
    snap();
    w = 1;      /* of code page 437, too */
    if (p->kind >= MULTI && p->kind <= SILENT)
    {
        /* the last byte of a sequence that encodes any number below 2^31, or one before the last */
        uint32_t ch = nd_u32("ch") & 0x7fffffff, sur = vt->utf_surrogate;
        if (!spec_symbolic() && !spec_replay())
        {
            ch >>= vt->tok[0] & 31;
            if (vt->tok[1] & 1)
                ch = 0x4e00 + (ch & 0xff);
            if (p->kind == PAIR || p->kind == PAIRN || p->kind == LONE || p->kind == SILENT && vt->tok[1] & 2)
                ch = 0xd800 + (ch & 0x7ff);
            if (p->kind == LONE)
                ch |= 0xdc00;
            if (p->kind == BEYOND)
                ch |= 0x200000;
            if (p->kind == LOW)
                ch &= 0x7f;
            if (p->kind == NONCHAR)
                ch = ch & 0xf0000 | (ch & 0xffff ? 0xfffe : 0xfdd0) + (ch >> 8 & 1);
            if (p->kind == PAIRN)
                ch |= 0x3fe, sur |= 0x3f;
            if (p->kind == PAIR || p->kind == PAIRN)
                sur = vt->utf_surrogate = 0xd800 + (sur & 0x3ff), ch |= 0xdc00;
            if (p->kind == MORE)
                ch &= 0x1ffffff;
        }
        vt->utf_count = p->kind == MORE ? nd_range("utf_count", 2, 5) : 1;
        vt->utf_char = ch >> 6;
        b = 0x80 | ch & 0x3f;
        bool nonchar = ch > 0x10ffff || (ch & 0xffff) >= 0xfffe || ch >= 0xfdd0 && ch < 0xfdf0, trail = ch >= 0xdc00 && ch < 0xe000,
            lead = ch >= 0xd800 && ch < 0xdc00;
        spec_assume(!sur || sur >= 0xd800 && sur < 0xdc00);
        switch (p->kind)
        {
        case MULTI:
            spec_assume(ch >= 0xa0 && ch != 0xfeff && !nonchar && !trail && !lead);
            w = mk_wcwidth(ch);
            break;
        case LOW: spec_assume(ch < 0xa0); break;
        case LONE: vt->utf_surrogate = 0; spec_assume(trail); break;
        case NONCHAR: spec_assume(nonchar && ch <= 0x10ffff); break;
        case BEYOND: spec_assume(ch > 0x10ffff); break;
        case PAIR: case PAIRN:
            spec_assume(trail && sur);
            ch = (sur << 10) + ch + (0x10000 - (0xd800 << 10) - 0xdc00);
            spec_check(ch >= 0x10000 && ch <= 0x10ffff, "T02:a pair of surrogates stands for a character");
            spec_assume(p->kind == PAIRN ? (ch & 0xffff) >= 0xfffe : (ch & 0xffff) < 0xfffe);
            if (p->kind == PAIR)
                w = mk_wcwidth(ch);
            break;
        case SILENT:
            spec_assume(lead || ch == 0xfeff);
            break;
        }
    }
    bool fits = old.cx + w <= sx;
    switch (p->how)
    {
    case FITS: spec_assume(w <= 1 && fits); break;
    case FITS2: spec_assume(w == 2 && fits); break;
    case NOWRAP: spec_assume(!fits && !old.opt_auto_wrap); break;
    case WRAP: spec_assume(w == 1 && !fits && old.opt_auto_wrap && old.cy + 1 < old.s2); break;
    case WRAP2: spec_assume(w == 2 && !fits && old.opt_auto_wrap && old.cy + 1 < old.s2); break;
    case SCROLL: spec_assume(w == 1 && !fits && old.opt_auto_wrap && old.cy + 1 >= old.s2 && old.s1 + 1 < old.s2); break;
    case SCROLL1: spec_assume(w == 1 && !fits && old.opt_auto_wrap && old.cy + 1 >= old.s2 && old.s1 + 1 == old.s2); break;
    case SCROLL2: spec_assume(w == 2 && !fits && old.opt_auto_wrap && old.cy + 1 >= old.s2 && old.s1 + 1 < old.s2); break;
    case SCROLL21: spec_assume(w == 2 && !fits && old.opt_auto_wrap && old.cy + 1 >= old.s2 && old.s1 + 1 == old.s2); break;
    }
    switch (p->how)
    {
    case DOWN: spec_assume(old.cy + 1 != old.s2); break;
    case DOWN1: spec_assume(old.cy + 1 == old.s2 && old.s1 + 1 == old.s2); break;
    case DOWN2: spec_assume(old.cy + 1 == old.s2 && old.s1 + 1 < old.s2); break;
    case OUTSIDE: spec_assume(old.cy < old.s1 || old.cy >= old.s2); break;
    case ONE: case NEG:
        spec_assume(old.cy >= old.s1 && old.cy < old.s2 - 1);
        vt->tok[0] = p->how == ONE ? 0 : 0x80000000 | vt->tok[0];
        break;
    case PART:
        spec_assume(old.cy >= old.s1 && old.cy < old.s2 && (int)vt->tok[0] > 0 && (int)vt->tok[0] < old.s2 - old.cy);
        if (!screen && ((old.s2 - old.cy - (int)vt->tok[0]) * sx < 0 || (old.s2 - (int)vt->tok[0]) * sx < 0))
            return;     /* never; names the products */
        break;
    case ALL: spec_assume(old.cy >= old.s1 && old.cy < old.s2 && ((int)vt->tok[0] >= old.s2 - old.cy
        || old.cy + 1 == old.s2)); break;
    case IONE: case INEG:
        spec_assume(old.cx < sx);
        vt->tok[0] = p->how == IONE ? 0 : 0x80000000 | vt->tok[0];
        break;
    case IPART: spec_assume((int)vt->tok[0] > 0 && (int)vt->tok[0] < sx - old.cx); break;
    case IALL: spec_assume((int)vt->tok[0] > 0 && (int)vt->tok[0] > sx - old.cx && old.cx < sx); break;
    case IEQ: spec_assume(old.cx < sx); vt->tok[0] = sx - old.cx; break;
    case IOUT: spec_assume(old.cx == sx); break;
    case INSIDE: spec_assume(old.cy >= old.s1 && old.cy < old.s2); break;
    }
    if (spec_proof() && p->lo == 9)
    {
        spec_loop_inv(L_tab);
        spec_loop_inv(L_tab1);
    }
    if (p->kind == LEADING)
        spec_assume(b >= 0xc0 || !vt->utf_count);
    if (spec_proof() && (b == 'm' || p->lo == 'h' || p->lo == 'l'))
    {
        spec_ghost_step(nothing);
        spec_loop_inv(L_attr);
    }
    if (old.s2 * sx < 0)    /* never; names the product */
        return;
    put(b);
    spec_cover("step");

    spec_check(vt->cx >= 0 && vt->cx <= vt->sx && vt->cy >= 0 && vt->cy < vt->sy, "T01:the cursor stays on the screen");
    spec_check(vt->save_cx >= 0 && vt->save_cx <= vt->sx && vt->save_cy >= 0 && vt->save_cy < vt->sy, "T01:the saved cursor stays on the screen");
    spec_check(vt->s1 >= 0 && vt->s1 < vt->s2 && vt->s2 <= vt->sy, "T01:the region stays on the screen");
    spec_check(vt->state >= 0 && vt->state <= 9, "T01:the parser state is a known one");
    spec_check(vt->utf_count >= 0 && vt->utf_count <= 5, "T01:an unfinished character is short");
    bool pars = vt->state == GETPARS || vt->state == SQUARE || vt->state == QUES;
    spec_check(!pars || vt->ntok >= 0 && vt->ntok <= 15, "T01:the parameters fit");
    spec_check(vt->state != OSC || !vt->oscbuf, "T01:a string command starts with no text");
    spec_check(!vt->oscbuf || vt->osclen >= 0 && vt->osclen < 4096, "T01:the text of a string command fits");
    spec_check(!(vt->attr & CJK) && !(vt->save_attr & CJK), "T02:the attributes to print with never have the double-width mark");
    if (screen && vt->sx == old.sx && vt->sy == old.sy)
        FORALL(y, sy)
            FORALL(x, sx)
                whole(y * sx + x, y, x);
    spec_cover("stepped");
}

void harness_step(void)
{
    step(1);
}

/* the same without looking at the screen afterwards */
void harness_safe(void)
{
    step(0);
}
