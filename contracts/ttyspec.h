/* The terminal: the state invariant, arbitrary valid states, and the vocabulary the terminal contracts share. */
#ifndef TTYSPEC_H
#define TTYSPEC_H
#include "spec.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libtty/tty.h"
#include "libtty/wcwidth.h"

#define RIGHT VT100_CJK_RIGHT
#define CJK   VT100_ATTR_CJK
#define MAXDIM 4096

#include "wcwidth_c.h"

/* releasing the marks of a cell changes nothing else on the screen (harness_comb proves it of the real function) */
void contract_tty_kill_comb(tty t, attrchar *ac)
{
    if (!ac->comb)
        return;
    ac->comb = 0;
    spec_havoc_array(t->combs);
}

static tty vt;              /* the terminal under contract */
static attrchar *S0;        /* its screen before the call */
static combc *C0;
static int sx, sy;          /* its size before the call */
static struct tty old;      /* its other fields before the call */

/* every index of [0,n): a fixed arbitrary one under the verifier, all of them natively */
#define FORALL(i, n) \
    for (int i = spec_symbolic() ? (int)nd_u32(#i) : 0, i##_once = 1; spec_symbolic() ? i##_once : i < (n); i++, i##_once = 0) \
        if (i >= 0 && i < (n))

/* ---- the screen invariant: double-width characters are whole */
static bool S_is_right(attrchar *a, unsigned i)
{
    return a[i].ch == RIGHT;
}

static bool S_wide_ok(void *arr, unsigned i)
{
    attrchar *a = arr;
    unsigned x = i % (unsigned)sx;
    if (a[i].ch == RIGHT)
        return (a[i].attr & CJK) && !a[i].comb && x > 0 && (a[i - 1].attr & CJK) && a[i - 1].ch != RIGHT
            && mk_wcwidth(a[i - 1].ch) == 2;
    if (a[i].attr & CJK)
        return mk_wcwidth(a[i].ch) == 2 && x + 1 < (unsigned)sx && a[i + 1].ch == RIGHT && (a[i + 1].attr & CJK);
    return mk_wcwidth(a[i].ch) == 1;
}

extern tty native_tty(void);    /* natively: a terminal brought to a random state by random input */

static void snap(void)
{
    sx = vt->sx;
    sy = vt->sy;
    S0 = spec_snapshot(vt->scr);
    C0 = vt->combs ? spec_snapshot(vt->combs) : 0;
    memcpy(&old, vt, sizeof(struct tty));
}

/* a counterexample says of a cell only whether it has marks: give it one of its own */
static void mk_marks(void)
{
    unsigned n = sx * sy, cap = 32;
    while (cap < n + 2)
        cap *= 2;
    free(vt->combs);
    vt->combs = malloc(cap * sizeof(combc));
    vt->combs[0].ch = cap;
    vt->combs[0].next = n + 1;
    for (unsigned i = 1; i < cap; i++)
        vt->combs[i].ch = i + 1, vt->combs[i].next = i + 1;
    for (unsigned i = 0; i < n; i++)
    {
        vt->combs[i + 1].ch = 0x300 + i % 64;
        vt->combs[i + 1].next = 0;
        if (!vt->scr[i].ch)     /* a cell it says nothing of */
            vt->scr[i].ch = ' ', vt->scr[i].attr = 0, vt->scr[i].comb = 0;
        if (vt->scr[i].comb)
            vt->scr[i].comb = i + 1;
    }
    for (unsigned i = 0; i < n; i++)
        spec_assume(S_wide_ok(vt->scr, i));
}

/* an arbitrary terminal that satisfies the invariant, between two input bytes, in the ground parser state */
static void mk_tty(void)
{
    if (!spec_symbolic() && !spec_replay())
        vt = native_tty();
    else
    {
        sx = spec_dim("sx", 2, MAXDIM);
        sy = spec_dim("sy", 1, MAXDIM);
        spec_scale(sx);
        vt = tty_init(0, 0, 1);
        free(vt->scr);
        vt->sx = sx;
        vt->sy = sy;
        vt->cx = nd_range("cx", 0, sx);
        vt->cy = nd_range("cy", 0, sy - 1);
        vt->s1 = nd_range("s1", 0, sy - 1);
        vt->s2 = nd_range("s2", 1, sy);
        spec_assume(vt->s1 < vt->s2);
        vt->save_cx = nd_range("save_cx", 0, sx);
        vt->save_cy = nd_range("save_cy", 0, sy - 1);
        vt->attr = nd_u64("attr") & ~CJK;
        vt->save_attr = nd_u64("save_attr") & ~CJK;
        vt->G = nd_u8("G");
        vt->save_G = nd_u8("save_G");
        vt->curG = nd_bool("curG");
        vt->save_curG = nd_bool("save_curG");
        vt->opt_auto_wrap = nd_bool("auto_wrap");
        vt->opt_cursor = nd_bool("opt_cursor");
        vt->opt_kpad = nd_bool("opt_kpad");
        vt->allow_resize = nd_bool("allow_resize");
        vt->scr = spec_array("scr", (unsigned)(sx * sy), sizeof(attrchar), "0:4,4:4,8:8");
        spec_on_touch(vt->scr, S_wide_ok);
        vt->combs = spec_array("combs", 1 << 20, sizeof(combc), "0:4,4:4");
        if (spec_replay())
            mk_marks();
    }
    snap();
}

/* an arbitrary partial UTF-8 sequence and surrogate */
static void mk_utf(void)
{
    vt->utf_char = nd_u32("utf_char");
    vt->utf_surrogate = nd_u32("utf_surrogate");
    vt->utf_count = nd_range("utf_count", 0, 5);
}

static void put(char c)
{
    tty_write(vt, &c, 1);
}

/* bring the parser to "ESC [ parameters", with n further separators and arbitrary parameters */
static void csi(int n)
{
    put(27);
    put('[');
    put('0');
    vt->ntok = n;
    vt->tok[0] = nd_u32("p0");
    vt->tok[1] = nd_u32("p1");
    vt->tok[2] = nd_u32("p2");
    old.state = vt->state;
}

/* ---- expected screens */
static uint32_t S_ch0(int i)   { return S0[i].ch; }

enum { K_CH, K_COMB, K_ATTR };
static uint64_t cell(attrchar *s, int i, int k)
{
    return k == K_CH ? s[i].ch : k == K_COMB ? s[i].comb : s[i].attr;
}

/* the screen S0 with cells [a,b) erased, where halves of double-width characters left alone become blanks */
static uint64_t S_erased(int a, int b, uint64_t attr, int i, int k)
{
    if (i >= a && i < b)
        return k == K_CH ? ' ' : k == K_COMB ? 0 : attr;
    if (a < b && (i == a - 1 && S0[a].ch == RIGHT || i == b && S0[b].ch == RIGHT))
        return k == K_CH ? ' ' : k == K_COMB ? 0 : S0[i].attr & ~CJK;
    return cell(S0, i, k);
}

#define SAME_CURSOR(lbl) spec_check(vt->cx == old.cx && vt->cy == old.cy, lbl)
#endif
