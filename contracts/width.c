#include "spec.h"
#include "libtty/wcwidth.h"

/* characters without a width of their own (Unicode 5.0 categories Mn, Me and Cf without the soft hyphen, and the Hangul
   medial vowels and final consonants) */
static const struct { uint32_t first, last; } marks[] =
{
    { 0x0300, 0x036f }, { 0x0483, 0x0486 }, { 0x0488, 0x0489 }, { 0x0591, 0x05bd }, { 0x05bf, 0x05bf },
    { 0x05c1, 0x05c2 }, { 0x05c4, 0x05c5 }, { 0x05c7, 0x05c7 }, { 0x0600, 0x0603 }, { 0x0610, 0x0615 },
    { 0x064b, 0x065e }, { 0x0670, 0x0670 }, { 0x06d6, 0x06e4 }, { 0x06e7, 0x06e8 }, { 0x06ea, 0x06ed },
    { 0x070f, 0x070f }, { 0x0711, 0x0711 }, { 0x0730, 0x074a }, { 0x07a6, 0x07b0 }, { 0x07eb, 0x07f3 },
    { 0x0901, 0x0902 }, { 0x093c, 0x093c }, { 0x0941, 0x0948 }, { 0x094d, 0x094d }, { 0x0951, 0x0954 },
    { 0x0962, 0x0963 }, { 0x0981, 0x0981 }, { 0x09bc, 0x09bc }, { 0x09c1, 0x09c4 }, { 0x09cd, 0x09cd },
    { 0x09e2, 0x09e3 }, { 0x0a01, 0x0a02 }, { 0x0a3c, 0x0a3c }, { 0x0a41, 0x0a42 }, { 0x0a47, 0x0a48 },
    { 0x0a4b, 0x0a4d }, { 0x0a70, 0x0a71 }, { 0x0a81, 0x0a82 }, { 0x0abc, 0x0abc }, { 0x0ac1, 0x0ac5 },
    { 0x0ac7, 0x0ac8 }, { 0x0acd, 0x0acd }, { 0x0ae2, 0x0ae3 }, { 0x0b01, 0x0b01 }, { 0x0b3c, 0x0b3c },
    { 0x0b3f, 0x0b3f }, { 0x0b41, 0x0b43 }, { 0x0b4d, 0x0b4d }, { 0x0b56, 0x0b56 }, { 0x0b82, 0x0b82 },
    { 0x0bc0, 0x0bc0 }, { 0x0bcd, 0x0bcd }, { 0x0c3e, 0x0c40 }, { 0x0c46, 0x0c48 }, { 0x0c4a, 0x0c4d },
    { 0x0c55, 0x0c56 }, { 0x0cbc, 0x0cbc }, { 0x0cbf, 0x0cbf }, { 0x0cc6, 0x0cc6 }, { 0x0ccc, 0x0ccd },
    { 0x0ce2, 0x0ce3 }, { 0x0d41, 0x0d43 }, { 0x0d4d, 0x0d4d }, { 0x0dca, 0x0dca }, { 0x0dd2, 0x0dd4 },
    { 0x0dd6, 0x0dd6 }, { 0x0e31, 0x0e31 }, { 0x0e34, 0x0e3a }, { 0x0e47, 0x0e4e }, { 0x0eb1, 0x0eb1 },
    { 0x0eb4, 0x0eb9 }, { 0x0ebb, 0x0ebc }, { 0x0ec8, 0x0ecd }, { 0x0f18, 0x0f19 }, { 0x0f35, 0x0f35 },
    { 0x0f37, 0x0f37 }, { 0x0f39, 0x0f39 }, { 0x0f71, 0x0f7e }, { 0x0f80, 0x0f84 }, { 0x0f86, 0x0f87 },
    { 0x0f90, 0x0f97 }, { 0x0f99, 0x0fbc }, { 0x0fc6, 0x0fc6 }, { 0x102d, 0x1030 }, { 0x1032, 0x1032 },
    { 0x1036, 0x1037 }, { 0x1039, 0x1039 }, { 0x1058, 0x1059 }, { 0x1160, 0x11ff }, { 0x135f, 0x135f },
    { 0x1712, 0x1714 }, { 0x1732, 0x1734 }, { 0x1752, 0x1753 }, { 0x1772, 0x1773 }, { 0x17b4, 0x17b5 },
    { 0x17b7, 0x17bd }, { 0x17c6, 0x17c6 }, { 0x17c9, 0x17d3 }, { 0x17dd, 0x17dd }, { 0x180b, 0x180d },
    { 0x18a9, 0x18a9 }, { 0x1920, 0x1922 }, { 0x1927, 0x1928 }, { 0x1932, 0x1932 }, { 0x1939, 0x193b },
    { 0x1a17, 0x1a18 }, { 0x1b00, 0x1b03 }, { 0x1b34, 0x1b34 }, { 0x1b36, 0x1b3a }, { 0x1b3c, 0x1b3c },
    { 0x1b42, 0x1b42 }, { 0x1b6b, 0x1b73 }, { 0x1dc0, 0x1dca }, { 0x1dfe, 0x1dff }, { 0x200b, 0x200f },
    { 0x202a, 0x202e }, { 0x2060, 0x2063 }, { 0x206a, 0x206f }, { 0x20d0, 0x20ef }, { 0x302a, 0x302f },
    { 0x3099, 0x309a }, { 0xa806, 0xa806 }, { 0xa80b, 0xa80b }, { 0xa825, 0xa826 }, { 0xfb1e, 0xfb1e },
    { 0xfe00, 0xfe0f }, { 0xfe20, 0xfe23 }, { 0xfeff, 0xfeff }, { 0xfff9, 0xfffb }, { 0x10a01, 0x10a03 },
    { 0x10a05, 0x10a06 }, { 0x10a0c, 0x10a0f }, { 0x10a38, 0x10a3a }, { 0x10a3f, 0x10a3f }, { 0x1d167, 0x1d169 },
    { 0x1d173, 0x1d182 }, { 0x1d185, 0x1d18b }, { 0x1d1aa, 0x1d1ad }, { 0x1d242, 0x1d244 }, { 0xe0001, 0xe0001 },
    { 0xe0020, 0xe007f }, { 0xe0100, 0xe01ef },
};
#define NMARKS ((int)(sizeof(marks) / sizeof(marks[0])))

/* characters two columns wide (East Asian wide and full-width) */
static bool S_wide(uint32_t c)
{
    return c >= 0x1100 && c <= 0x115f || c == 0x2329 || c == 0x232a || c >= 0x2e80 && c <= 0xa4cf && c != 0x303f
        || c >= 0xac00 && c <= 0xd7a3 || c >= 0xf900 && c <= 0xfaff || c >= 0xfe10 && c <= 0xfe19 || c >= 0xfe30 && c <= 0xfe6f
        || c >= 0xff00 && c <= 0xff60 || c >= 0xffe0 && c <= 0xffe6 || c >= 0x20000 && c <= 0x2fffd || c >= 0x30000 && c <= 0x3fffd;
}

static void check(uint32_t c, int want)
{
    spec_cover("width");
    int w = mk_wcwidth(c);
    spec_check(w == want, "T18:the width is that of the tables");
    /* what the contracts of the callers rely on (wcwidth_c.h) */
    spec_check(w >= -1 && w <= 2, "T18:callers: range");
    spec_check(!(c == 0) || w == 0, "T18:callers: NUL");
    spec_check((w == -1) == (c < 32 && c || c >= 0x7f && c < 0xa0), "T18:callers: controls");
    spec_check(!(c >= 32 && c < 0x7f || c >= 0xa0 && c < 0x300 || c == 0xffffffff || c == 0xfffd) || w == 1, "T18:callers: latin");
    spec_check(!(c >= 0x370 && c < 0x483 || c >= 0x2010 && c < 0x202a || c >= 0x202f && c < 0x2060 || c >= 0x2070 && c < 0x20d0
        || c >= 0x20f0 && c < 0x2329 || c >= 0x232b && c < 0x2e80) || w == 1, "T18:callers: symbols");
    spec_check(w != -1 || c < 0xa0, "T18:callers: no control codes above");
    spec_check(w != 2 || c >= 0x1100, "T18:callers: wide");
    spec_check(w != 0 || c == 0 || c >= 0x300, "T18:callers: marks");
}

/* every code lies in one of the intervals, or in one of the gaps between them: the case says near which */
void harness_width(void)
{
    uint32_t c = nd_u32("c");
    int from = spec_case() * 18, to = from + 18;
    if (!spec_symbolic() && !spec_replay() && nd_u8("near") < 200)
    {
        int j = from + nd_u8("which") % 18;
        if (j >= NMARKS)
            j = from;
        c = (nd_bool("last") ? marks[j].last : marks[j].first) + nd_range("off", -2, 2);
    }
    if (from)
        spec_assume(c > marks[from - 1].last);
    if (to < NMARKS)
        spec_assume(c <= marks[to - 1].last);
    else
        to = NMARKS;
    for (int k = from; k < to; k++)
    {
        if (c < marks[k].first)
        {
            if (!c)
                check(c, 0);
            else if (c < 32 || c >= 0x7f && c < 0xa0)
                check(c, -1);
            else
                check(c, S_wide(c) ? 2 : 1);
            return;
        }
        if (c <= marks[k].last)
        {
            check(c, 0);
            return;
        }
    }
    check(c, S_wide(c) ? 2 : 1);
}
