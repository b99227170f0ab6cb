#include "ttyspec.h"

/* IBM code page 437, control codes shown as its pictures */
static const uint32_t cp437[256] =
{
    0x0, 0x263a, 0x263b, 0x2665, 0x2666, 0x2663, 0x2660, 0x2022,
    0x25d8, 0x25cb, 0x25d9, 0x2642, 0x2640, 0x266a, 0x266b, 0x263c,
    0x25b6, 0x25c0, 0x2195, 0x203c, 0xb6, 0xa7, 0x25ac, 0x21a8,
    0x2191, 0x2193, 0x2192, 0x2190, 0x221f, 0x2194, 0x25b2, 0x25bc,
    0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27,
    0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f,
    0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37,
    0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f,
    0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47,
    0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
    0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57,
    0x58, 0x59, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f,
    0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67,
    0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
    0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77,
    0x78, 0x79, 0x7a, 0x7b, 0x7c, 0x7d, 0x7e, 0x2302,
    0xc7, 0xfc, 0xe9, 0xe2, 0xe4, 0xe0, 0xe5, 0xe7,
    0xea, 0xeb, 0xe8, 0xef, 0xee, 0xec, 0xc4, 0xc5,
    0xc9, 0xe6, 0xc6, 0xf4, 0xf6, 0xf2, 0xfb, 0xf9,
    0xff, 0xd6, 0xdc, 0xa2, 0xa3, 0xa5, 0x20a7, 0x192,
    0xe1, 0xed, 0xf3, 0xfa, 0xf1, 0xd1, 0xaa, 0xba,
    0xbf, 0x2310, 0xac, 0xbd, 0xbc, 0xa1, 0xab, 0xbb,
    0x2591, 0x2592, 0x2593, 0x2502, 0x2524, 0x2561, 0x2562, 0x2556,
    0x2555, 0x2563, 0x2551, 0x2557, 0x255d, 0x255c, 0x255b, 0x2510,
    0x2514, 0x2534, 0x252c, 0x251c, 0x2500, 0x253c, 0x255e, 0x255f,
    0x255a, 0x2554, 0x2569, 0x2566, 0x2560, 0x2550, 0x256c, 0x2567,
    0x2568, 0x2564, 0x2565, 0x2559, 0x2558, 0x2552, 0x2553, 0x256b,
    0x256a, 0x2518, 0x250c, 0x2588, 0x2584, 0x258c, 0x2590, 0x2580,
    0x3b1, 0xdf, 0x393, 0x3c0, 0x3a3, 0x3c3, 0xb5, 0x3c4,
    0x3a6, 0x398, 0x3a9, 0x3b4, 0x221e, 0x3c6, 0x3b5, 0x2229,
    0x2261, 0xb1, 0x2265, 0x2264, 0x2320, 0x2321, 0xf7, 0x2248,
    0xb0, 0x2219, 0xb7, 0x221a, 0x207f, 0xb2, 0x25a0, 0xa0,
};
/* DEC Special Graphics with the extensions this terminal knows */
static const uint32_t graphics[128] =
{
    0x0, 0x1, 0x2, 0x3, 0x4, 0x5, 0x6, 0x7,
    0x8, 0x9, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf,
    0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17,
    0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e, 0x1f,
    0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27,
    0x28, 0x29, 0x2a, 0x2192, 0x2190, 0x2191, 0x2193, 0x2f,
    0x2588, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37,
    0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f,
    0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47,
    0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f,
    0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57,
    0x58, 0x59, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0xa0,
    0x2666, 0x2592, 0x2409, 0x240c, 0x240d, 0x240a, 0xb0, 0xb1,
    0x2424, 0x240b, 0x2518, 0x2510, 0x250c, 0x2514, 0x253c, 0x23ba,
    0x23bb, 0x2500, 0x23bc, 0x23bd, 0x251c, 0x2524, 0x2534, 0x252c,
    0x2502, 0x2264, 0x2265, 0x3c0, 0x2260, 0xa3, 0xb7, 0x7f,
};

static int nmark;
static uint32_t mark;
static void rec_comb(tty t, int x, int y, ucs c, uint64_t attr)
{
    nmark++;
    mark = c;
}

void contract_tty_add_comb(tty t, attrchar *ac, ucs ch)
{
    if (!ac->comb)
        ac->comb = nd_u32("newcomb");
    if (t->combs)
        spec_havoc_array(t->combs);
    if (t->l_comb)
        t->l_comb(t, 0, 0, ch, ac->attr);
}

/* every byte sequence is one of these cases */
enum { SEQ1, SEQ2, SEQ3, SEQ4, SEQ5, SEQ6, CUT2, CUT3, CUT4, CUT5, CUT6, STRAY, PAIR, LONE, CP437, CP437G, GRAPHICS };

static uint32_t v;          /* what the sequence encodes */

static int bias;            /* natively: favour leading (1) or trailing (2) surrogates */

static void sequence(int n)
{
    static const uint8_t lead[] = { 0, 0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc };
    uint8_t b[6];
    b[0] = nd_u8("lead");
    if (!spec_symbolic() && !spec_replay())
        b[0] = bias ? 0xed : lead[n] | b[0] & (0x7f >> n);
    spec_assume((b[0] & (0xff << (7 - n) & 0xff)) == lead[n]);
    v = b[0] & (0x7f >> n);
    put(b[0]);
    for (int i = 1; i < n; i++)
    {
        b[i] = 0x80 | nd_u8("next") & 0x3f;
        if (bias && i == 1 && !spec_symbolic() && !spec_replay())
            b[i] = 0x90 + 0x10 * bias | b[i] & 15;
        v = v << 6 | b[i] & 0x3f;
        put(b[i]);
    }
}

/* the first k bytes of a sequence of n */
static void cut(int n)
{
    static const uint8_t lead[] = { 0, 0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc };
    uint8_t b = nd_u8("lead");
    if (!spec_symbolic() && !spec_replay())
        b = lead[n] | b & (0x7f >> n);
    spec_assume((b & (0xff << (7 - n) & 0xff)) == lead[n]);
    put(b);
    int k = nd_range("after", 0, n - 2);
    for (int i = 0; i < 4; i++)
        if (i < k)
            put(0x80 | nd_u8("next") & 0x3f);
}

static uint8_t printable_ascii(void)
{
    uint8_t b = nd_u8("ascii");
    if (!spec_symbolic() && !spec_replay())
        b = 32 + b % 95;
    spec_assume(b >= 32 && b < 127);
    return b;
}

#define NONCHAR(v) ((v) > 0x10ffff || ((v) & 0xffff) >= 0xfffe || (v) >= 0xfdd0 && (v) < 0xfdf0)
#define OVERLONG(v, n) ((v) < (n == 2 ? 0x80u : n == 3 ? 0x800u : n == 4 ? 0x10000u : n == 5 ? 0x200000u : 0x4000000u))

static void check_printed(uint32_t want, const char *l)
{
    int p = old.cy * sx + old.cx, ww = mk_wcwidth(want);
    if (ww > 0)
        spec_check(vt->scr[p].ch == want && vt->cx == old.cx + ww && !nmark, l);
    else if (ww < 0)
        spec_check(vt->scr[p].ch == S0[p].ch && vt->cx == old.cx && !nmark, l);
    else
        spec_check(vt->scr[p].ch == S0[p].ch && vt->cx == old.cx && (nmark == 0 || nmark == 1 && mark == want), l);
}

static void check_nothing(const char *l)
{
    int p = old.cy * sx + old.cx;
    spec_check(vt->scr[p].ch == S0[p].ch && vt->cx == old.cx && vt->cy == old.cy && !nmark, l);
}

void harness_decode(void)
{
    int c = spec_case();
    mk_tty();
    spec_assume(old.cx >= 1 && old.cx + 2 <= sx && sx >= 3);
    mk_utf();
    spec_assume(!vt->utf_surrogate || vt->utf_surrogate >= 0xd800 && vt->utf_surrogate < 0xdc00);
    vt->cp437 = c == CP437 || c == CP437G;
    bool g = c == GRAPHICS || c == CP437G;
    vt->G = g ? 3 : 0;
    nmark = bias = 0;
    vt->l_comb = rec_comb;
    uint32_t pend = vt->utf_surrogate, want;

    if (c == SEQ1)
    {
        uint8_t b = printable_ascii();
        put(b);
        check_printed(b, "T11:an ASCII character prints itself");
    }
    else if (c <= SEQ6)
    {
        sequence(c + 1);
        if (v < 0xa0)
            check_printed(0xfffd, "T11:an overlong control code prints the replacement character");
        else if (v == 0xfeff && !OVERLONG(v, c + 1))
            check_nothing("T11:a byte order mark prints nothing");
        else if (v >= 0xd800 && v < 0xdc00)
            check_nothing("T11:a leading surrogate waits for its partner");
        else if (v >= 0xdc00 && v < 0xe000)
        {
            if (pend)
            {
                want = 0x10000 + (pend - 0xd800) * 0x400 + (v - 0xdc00);
                if (NONCHAR(want))
                    want = 0xfffd;
                check_printed(want, "T11:two surrogates are joined");
            }
            else
                check_printed(0xfffd, "T11:a surrogate without partner prints the replacement character");
        }
        else if (NONCHAR(v))
            check_printed(0xfffd, "T11:non-characters and values beyond Unicode print the replacement character");
        else if (!OVERLONG(v, c + 1))
            check_printed(v, "T11:a well-formed sequence prints its character");
        spec_check(vt->state == 0 && !vt->utf_count, "T11:the sequence is complete");
    }
    else if (c <= CUT6)
    {
        uint8_t b = printable_ascii();
        cut(c - CUT2 + 2);
        check_nothing("T11:an unfinished sequence prints nothing");
        put(b);
        check_printed(b, "T11:after an unfinished sequence only the next character prints");
    }
    else if (c == STRAY)
    {
        uint8_t b = nd_u8("byte");
        if (!spec_symbolic() && !spec_replay())
            b |= 0x80;
        vt->utf_count = 0;
        spec_assume(b >= 0x80 && b < 0xc0 || b >= 0xfe);
        put(b);
        check_nothing("T11:a stray continuation or invalid byte prints nothing");
        b = printable_ascii();
        put(b);
        check_printed(b, "T11:after a stray byte the next character prints");
    }
    else if (c == PAIR)
    {
        bias = 1;
        sequence(3);
        spec_assume(v >= 0xd800 && v < 0xdc00);
        want = v;
        bias = 2;
        sequence(3);
        spec_assume(v >= 0xdc00 && v < 0xe000);
        want = 0x10000 + (want - 0xd800) * 0x400 + (v - 0xdc00);
        if (NONCHAR(want))
            want = 0xfffd;
        check_printed(want, "T11:a surrogate pair prints its character");
    }
    else if (c == LONE)
    {
        vt->utf_surrogate = 0;
        bias = 2;
        sequence(3);
        spec_assume(v >= 0xdc00 && v < 0xe000);
        check_printed(0xfffd, "T11:a surrogate without partner prints the replacement character");
    }
    else
    {
        uint8_t b = nd_u8("byte");
        spec_assume(b != 0 && b != 5 && !(b >= 7 && b <= 15) && b != 24 && b != 26 && b != 27 && b != 127);
        if (c == GRAPHICS)
        {
            spec_assume(b >= 32 && b < 127);
            want = b;
        }
        else
            want = cp437[b];
        if (g && want < 128)
        {
            /* the picture is as wide as the letter it replaces */
            want = graphics[want];
            int p = old.cy * sx + old.cx;
            put(b);
            spec_check(vt->scr[p].ch == want && vt->cx == old.cx + 1 && !nmark, "T11:line-drawing characters");
        }
        else
        {
            put(b);
            check_printed(want, "T11:single-byte characters of code page 437");
        }
        spec_check(vt->state == 0, "T11:the character is complete");
    }
    spec_cover("decoded");
}
