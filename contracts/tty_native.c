/* natively: terminals brought to a random state by random input */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "libtty/tty.h"

uint64_t spec_rnd(void);
static tty cur;

static int utf8(char *o, uint32_t c)
{
    if (c < 0x80) { o[0] = c; return 1; }
    if (c < 0x800) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | c & 63; return 2; }
    if (c < 0x10000) { o[0] = 0xe0 | c >> 12; o[1] = 0x80 | c >> 6 & 63; o[2] = 0x80 | c & 63; return 3; }
    o[0] = 0xf0 | c >> 18; o[1] = 0x80 | c >> 12 & 63; o[2] = 0x80 | c >> 6 & 63; o[3] = 0x80 | c & 63;
    return 4;
}

static uint32_t rnd_char(void)
{
    switch (spec_rnd() % 12)
    {
    case 0: case 1: case 2: return 0x4e00 + spec_rnd() % 0x100;
    case 3: return 0x300 + spec_rnd() % 0x70;
    case 4: return 0xa0 + spec_rnd() % 0x160;
    case 5: return 0x1f600 + spec_rnd() % 64;
    case 6: return 0x20000 + spec_rnd() % 64;
    default: return 32 + spec_rnd() % 95;
    }
}

/* one complete random item of input */
int native_item(char *o, int sx, int sy)
{
    static const char fin[] = "mmmmDCaFAEBrJKLM@PXfHHHGG`dJKLM@PX";
    int n = 0, r = spec_rnd() % 40;
    if (r < 20)
        return utf8(o, rnd_char());
    if (r < 22)
        return o[0] = "\r\n\b\t\013\016\017"[spec_rnd() % 7], 1;
    if (r == 22)
        return sprintf(o, "\033%c", "78DEM=>"[spec_rnd() % 7]);
    if (r == 23)
        return sprintf(o, "\033%c%c", "()"[spec_rnd() & 1], "0BU"[spec_rnd() % 3]);
    if (r == 24)
        return sprintf(o, "\033[?%d%c", spec_rnd() & 1 ? 7 : 25, "hl"[spec_rnd() & 1]);
    if (r == 25 && !(spec_rnd() & 7))
        return sprintf(o, "\033]0;t%d\007", (int)(spec_rnd() % 100));
    if (r < 30)
        return sprintf(o, "\033[%d;%dH", 1 + (int)(spec_rnd() % (sy + 1)), 1 + (int)(spec_rnd() % (sx + 1)));
    if (r == 30)
    {
        int a = 1 + spec_rnd() % sy, b = 1 + spec_rnd() % sy;
        return sprintf(o, "\033[%d;%dr", a, b);
    }
    if (r == 31)
    {
        memset(o, 0, 8);
        int k = spec_rnd() % 5;
        for (int i = 0; i < k; i++)
            n += utf8(o + n, 0x300 + spec_rnd() % 0x70);
        return n;
    }
    if (r == 32 && !(spec_rnd() & 31))
        return sprintf(o, "\033[c");
    char f = fin[spec_rnd() % (sizeof fin - 1)];
    n = sprintf(o, "\033[");
    int k = f == 'm' ? spec_rnd() % 6 : spec_rnd() % 3;
    for (int i = 0; i < k; i++)
    {
        static const int v[] = { 0, 1, 2, 3, 4, 5, 7, 9, 22, 31, 38, 38, 5, 2, 44, 48, 95, 103, 200 };
        n += sprintf(o + n, "%s%d", i ? ";" : "", f == 'm' ? v[spec_rnd() % 19] : (int)(spec_rnd() % 6));
    }
    o[n++] = f;
    return n;
}

tty native_tty(void)
{
    if (cur)
        tty_free(cur);
    int sx, sy, k;
    switch (spec_rnd() % 8)
    {
    case 0: sx = 2 + spec_rnd() % 3; break;
    case 1: sx = 100 + spec_rnd() % 200; break;
    default: sx = 2 + spec_rnd() % 18;
    }
    sy = spec_rnd() % 8 ? 1 + spec_rnd() % 8 : 1 + spec_rnd() % 60;
    cur = tty_init(sx, sy, spec_rnd() & 1);
    k = spec_rnd() % 4 ? spec_rnd() % 60 : spec_rnd() % 400;
    char b[128];
    while (k--)
        tty_write(cur, b, native_item(b, sx, sy));
    if (!(spec_rnd() & 3))
        tty_write(cur, "\033%@", 3);
    return cur;
}
