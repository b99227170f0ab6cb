#include "ttyspec.h"

/* The same bytes in one call and in pieces, for the search for failing inputs; engine/frame.py decides the property. */

extern int native_item(char *o, int sx, int sy);
extern uint64_t spec_rnd(void);

static uint64_t ev[2], nev[2];
static int who;

static void event(int kind, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e)
{
    uint64_t v[6] = { kind, a, b, c, d, e };
    for (int i = 0; i < 6; i++)
        ev[who] = (ev[who] ^ v[i]) * 0x100000001b3ull + 0x9e3779b97f4a7c15ull;
    nev[who]++;
}
static void on_char(tty t, int x, int y, ucs ch, uint64_t attr, int width) { event(1, x, y, ch, attr, width); }
static void on_comb(tty t, int x, int y, ucs ch, uint64_t attr) { event(2, x, y, ch, attr, 0); }
static void on_cursor(tty t, int x, int y) { event(3, x, y, 0, 0, 0); }
static void on_clear(tty t, int x, int y, int len) { event(4, x, y, len, 0, 0); }
static void on_scroll(tty t, int nl) { event(5, nl, 0, 0, 0, 0); }
static void on_flag(tty t, int f, int v) { event(6, f, v, 0, 0, 0); }
static void on_resize(tty t, int x, int y) { event(7, x, y, 0, 0, 0); }
static void on_bell(tty t) { event(8, 0, 0, 0, 0, 0); }
static void on_osc(tty t, int cmd, const char *s)
{
    event(9, cmd, strlen(s), 0, 0, 0);
    while (*s)
        event(10, *s++, 0, 0, 0, 0);
}

static void listen(tty t)
{
    t->l_char = on_char;
    t->l_comb = on_comb;
    t->l_cursor = on_cursor;
    t->l_clear = on_clear;
    t->l_scroll = on_scroll;
    t->l_flag = on_flag;
    t->l_resize = on_resize;
    t->l_bell = on_bell;
    t->l_osc = on_osc;
}

static int item(char *o, int x, int y)
{
    int n = native_item(o, x, y);
    switch (spec_rnd() % 12)
    {
    case 0:
        return spec_rnd() % (n + 1);
    case 1:
        if (n)
            o[spec_rnd() % n] = spec_rnd();
        return n;
    case 2:
        for (n = 0; n < 4; n++)
            o[n] = spec_rnd();
        return n;
    case 3:
        return sprintf(o, "\033]%d;%dtext%d\033\\", (int)(spec_rnd() % 3), (int)(spec_rnd() % 99), (int)(spec_rnd() % 99));
    case 4:
        return sprintf(o, "\355\240\265\355\260%c", 0x80 + (int)(spec_rnd() & 63));
    }
    return n;
}

void harness_chunk(void)
{
    char buf[4096];
    vt = native_tty();
    tty a = tty_copy(vt), b = tty_copy(vt);
    listen(a), listen(b);
    int len = 0, k = 1 + spec_rnd() % 20;
    while (k--)
        len += item(buf + len, a->sx, a->sy);
    ev[0] = ev[1] = nev[0] = nev[1] = 0;
    char *whole = malloc(len ? len : 1);      /* of its own, so that reading beyond the end shows */
    memcpy(whole, buf, len);
    who = 0;
    tty_write(a, whole, len);
    free(whole);
    who = 1;
    for (int i = 0; i < len;)
    {
        int n = spec_rnd() & 1 ? 1 : spec_rnd() % 6;
        if (n > len - i)
            n = len - i;
        char *part = malloc(n ? n : 1);
        memcpy(part, buf + i, n);
        tty_write(b, part, n);
        free(part);
        i += n;
    }
    spec_check(a->sx == b->sx && a->sy == b->sy && a->cx == b->cx && a->cy == b->cy && a->s1 == b->s1 && a->s2 == b->s2, "T04:size, cursor and region");
    spec_check(a->attr == b->attr && a->G == b->G && a->curG == b->curG && a->cp437 == b->cp437 && a->opt_auto_wrap == b->opt_auto_wrap
        && a->opt_cursor == b->opt_cursor && a->opt_kpad == b->opt_kpad, "T04:attributes and modes");
    spec_check(a->save_cx == b->save_cx && a->save_cy == b->save_cy && a->save_attr == b->save_attr && a->save_G == b->save_G
        && a->save_curG == b->save_curG, "T04:what was saved");
    spec_check(a->state == b->state && a->utf_count == b->utf_count && (!a->utf_count || a->utf_char == b->utf_char)
        && a->utf_surrogate == b->utf_surrogate && (a->state != 2 || a->ntok == b->ntok), "T04:the parser");
    spec_check(!a->title == !b->title && (!a->title || !strcmp(a->title, b->title)), "T04:the title");
    bool same = a->sx == b->sx && a->sy == b->sy;
    for (int i = 0; same && i < a->sx * a->sy; i++)
    {
        same = a->scr[i].ch == b->scr[i].ch && a->scr[i].attr == b->scr[i].attr;
        uint32_t p = a->scr[i].comb, q = b->scr[i].comb;
        for (; p && q && a->combs[p].ch == b->combs[q].ch; p = a->combs[p].next, q = b->combs[q].next)
            ;
        same = same && !p && !q;
    }
    spec_check(same, "T04:the screen");
    spec_check(ev[0] == ev[1] && nev[0] == nev[1], "T04:the events");
    spec_cover("done");
    tty_free(a), tty_free(b);
}

/* for the verifier: where the flush notice is */
void *flush_field(tty t)
{
    return &t->l_flush;
}
