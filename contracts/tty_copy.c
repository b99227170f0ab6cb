#include "ttyspec.h"

static char *T0, *O0;
static uint32_t tlen;

/* strdup of the title, whose end is known */
size_t contract_strlen(const char *s)
{
    uint32_t n = nd_u32("strlen");
    spec_assume(n <= tlen && s[n] == 0);
    return n;
}

char *contract_strdup(const char *s)
{
    size_t n = contract_strlen(s);
    char *d = malloc(n + 1);
    memcpy(d, s, n + 1);
    return d;
}

static bool L_nonul(void *arr, unsigned i)
{
    char *s = arr;
    return i >= tlen || s[i] != 0;
}

#define F(x) spec_check(nv->x == old.x && vt->x == old.x, "T15:a copy has the same state")

static void cb(tty t)
{
    spec_check(t == vt, "T15:no listener is called for the copy");
}

/* natively: the same input leads to the same state */
static void twins(struct tty *a, struct tty *b)
{
    spec_check(a->sx == b->sx && a->sy == b->sy && a->cx == b->cx && a->cy == b->cy && a->attr == b->attr
        && a->s1 == b->s1 && a->s2 == b->s2 && a->state == b->state && a->G == b->G && a->curG == b->curG
        && a->utf_count == b->utf_count && a->opt_auto_wrap == b->opt_auto_wrap && a->opt_cursor == b->opt_cursor
        && a->cp437 == b->cp437 && a->save_cx == b->save_cx, "T15:a copy reacts like the original");
    spec_check(!a->title == !b->title && (!a->title || !strcmp(a->title, b->title)), "T15:a copy reacts like the original");
    for (int i = 0; i < a->sx * a->sy; i++)
    {
        spec_check(a->scr[i].ch == b->scr[i].ch && a->scr[i].attr == b->scr[i].attr, "T15:a copy reacts like the original");
        uint32_t x = a->scr[i].comb, y = b->scr[i].comb;
        while (x && y && a->combs[x].ch == b->combs[y].ch)
            x = a->combs[x].next, y = b->combs[y].next;
        spec_check(!x && !y, "T15:a copy reacts like the original");
    }
}

#ifndef SPEC_NATIVE
static int native_item(char *o, int sx, int sy) { return 0; }
static void spec_feed(void) { }
#else
extern int native_item(char *o, int sx, int sy);
uint64_t spec_rnd(void);
#endif

void harness_copy(void)
{
    uint32_t ncombs = 0;
    mk_tty();
    if (spec_symbolic() || spec_replay())
    {
        vt->cp437 = nd_bool("cp437");
        mk_utf();
        vt->state = nd_range("state", 0, 9);
        vt->ntok = nd_range("ntok", 0, 16);
        for (int i = 0; i < 16; i++)
            vt->tok[i] = nd_u32("tok");
        tlen = nd_u32("tlen") & 0xffff;
        if (spec_case() & 1)
        {
            vt->title = spec_array("title", tlen + 1, 1, "0:1");
            if (spec_symbolic())
                spec_on_touch(vt->title, L_nonul);
            vt->title[tlen] = 0;
        }
        else
            vt->title = 0;
        vt->osclen = nd_range("osclen", 0, 4095);
        if (spec_case() & 2)
            vt->oscbuf = spec_array("osc", 4096, 1, "0:1");
        if (spec_case() & 4)
        {
            ncombs = nd_range("ncombs", 1, 1 << 16);
            vt->combs[0].ch = ncombs;
        }
        else
        {
            free(vt->combs);
            vt->combs = 0;
        }
        snap();
        T0 = vt->title ? spec_snapshot(vt->title) : 0;
        O0 = vt->oscbuf ? spec_snapshot(vt->oscbuf) : 0;
    }
    else
    {
        ncombs = vt->combs ? vt->combs[0].ch : 0;
        T0 = vt->title;
        tlen = T0 ? strlen(T0) : 0;
#ifdef SPEC_NATIVE
        static const char *const mid[] = { "", "\033", "\033[3", "\033[3;4", "\033[?2", "\033]0;abc", "\033]", "\xe4\xb8", "\033(" };
        const char *m = mid[spec_rnd() % 9];
        tty_write(vt, m, strlen(m));
        snap();
        O0 = vt->oscbuf;
#endif
    }
    vt->l_flush = cb;
    vt->l_bell = cb;
    struct tty *nv = tty_copy(vt);
    F(sx); F(sy); F(cx); F(cy); F(s1); F(s2); F(attr); F(save_cx); F(save_cy); F(save_attr);
    F(G); F(curG); F(save_G); F(save_curG); F(cp437); F(allow_resize); F(opt_auto_wrap); F(opt_cursor); F(opt_kpad);
    F(utf_char); F(utf_surrogate); F(utf_count); F(state); F(ntok);
    if (old.oscbuf)
        F(osclen);
    for (int i = 0; i < 16; i++)
        F(tok[i]);
    spec_check(nv->scr != vt->scr && (!vt->combs || nv->combs != vt->combs) && (!vt->title || nv->title != vt->title)
        && (!vt->oscbuf || nv->oscbuf != vt->oscbuf) && nv != vt, "T15:a copy shares nothing with the original");
    spec_check(!nv->combs == !vt->combs && !nv->title == !vt->title && !nv->oscbuf == !vt->oscbuf, "T15:a copy has what the original has");
    spec_check(!nv->l_char && !nv->l_comb && !nv->l_cursor && !nv->l_clear && !nv->l_scroll && !nv->l_flag && !nv->l_osc
        && !nv->l_resize && !nv->l_flush && !nv->l_bell && !nv->l_free, "T15:no listener is called for the copy");
    FORALL(i, sx * sy)
    {
        spec_check(nv->scr[i].ch == S0[i].ch && nv->scr[i].attr == S0[i].attr && nv->scr[i].comb == S0[i].comb, "T15:a copy has the same screen");
        spec_check(vt->scr[i].ch == S0[i].ch && vt->scr[i].attr == S0[i].attr && vt->scr[i].comb == S0[i].comb, "T15:copying leaves the original alone");
    }
    FORALL(m, ncombs)
        spec_check(nv->combs[m].ch == C0[m].ch && nv->combs[m].next == C0[m].next, "T15:a copy has the same marks");
    if (T0)
        FORALL(c, tlen + 1)
            spec_check(nv->title[c] == T0[c], "T15:a copy has the same title");
    if (O0)
        FORALL(o, old.osclen)
            spec_check(nv->oscbuf[o] == O0[o], "T15:a copy has the same unfinished string");
    spec_cover("copied");
#ifdef SPEC_NATIVE
    if (!spec_replay())
    {
        struct tty *third = tty_copy(vt);
        char b[512];
        for (int k = 0; k < 8; k++)
        {
            int n = native_item(b, sx, sy);
            tty_write(vt, b, n);
            tty_write(nv, b, n);
            twins(vt, nv);
        }
        /* whatever happens to one, the other stays */
        tty_resize(third, sx + 1, sy);
        tty_free(third);
        twins(vt, nv);
    }
#endif
    tty_free(nv);
}
