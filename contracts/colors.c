#include "spec.h"
#include "libtty/tty.h"

/* what a palette index means (xterm's cube and grey ramp, CGA basic colours with brown) */
static uint32_t S_palette(uint32_t i)
{
    if (i < 16)
    {
        uint32_t lo = i >= 8 ? 0x55 : 0;
        if (i == 3)
            return 0xaa5500;
        return ((i & 1 ? 0xaa : 0) + lo) << 16 | ((i & 2 ? 0xaa : 0) + lo) << 8 | ((i & 4 ? 0xaa : 0) + lo);
    }
    if (i < 232)
    {
        uint32_t r = (i - 16) / 36, g = (i - 16) / 6 % 6, b = (i - 16) % 6;
        return (r ? 55 + 40 * r : 0) << 16 | (g ? 55 + 40 * g : 0) << 8 | (b ? 55 + 40 * b : 0);
    }
    uint32_t v = 8 + (i - 232) * 10;
    return v << 16 | v << 8 | v;
}

#define T16  ((uint32_t)VT100_COLOR_16 << 24)
#define T256 ((uint32_t)VT100_COLOR_256 << 24)
#define TRGB ((uint32_t)VT100_COLOR_RGB << 24)

/* the basic colour of an RGB value: the components well above half of the largest are lit, a large largest is bright, and a
   small one with all lit is dark grey */
static uint32_t S_basic(uint32_t c)
{
    uint32_t r = c >> 16 & 255, g = c >> 8 & 255, b = c & 255, m = r > g ? r : g;
    m = m > b ? m : b;
    uint32_t lit = (2 * r > 2 * (m / 2) + 64 ? 1 : 0) + (g >= m / 2 + 33 ? 2 : 0) + (b >= m / 2 + 33 ? 4 : 0);
    return lit == 7 && m < 0x71 ? 8 : lit + (m >= 0xc1 && !(lit & 8) ? 8 : 0);
}

static uint32_t apart(uint32_t a, uint32_t b)
{
    return a > b ? a - b : b - a;
}

/* Riemersma's measure, as the code documents it */
static uint32_t S_diff(uint32_t x, uint32_t y)
{
    int r = apart(x >> 16 & 255, y >> 16 & 255), g = apart(x >> 8 & 255, y >> 8 & 255), b = apart(x & 255, y & 255);
    int rm = ((x >> 16 & 255) + (y >> 16 & 255)) / 2;
    return 2 * r + 4 * g + 3 * b + rm * (r - b) / 256;
}

void harness_colors(void)
{
    uint32_t c = nd_u32("c");
    int to = spec_case() % 4, shifted = spec_case() / 4;
    uint32_t from = (c & VT100_ATTR_COLOR_TYPE) >> 24;
    uint32_t r = tty_color_convert(c, shifted ? (uint32_t)to << 24 : (uint32_t)to);

    if (to == VT100_COLOR_OFF)
    {
        spec_check(r == 0, "T17:conversion to 'no colour' gives 0");
        return;
    }
    if (from == to)
    {
        spec_check(r == c, "T17:a colour already in the wanted mode is unchanged");
        return;
    }
    spec_cover("colors");
    if (from == VT100_COLOR_16 && to == VT100_COLOR_256)
        spec_check((r & 0xffffff) == (c & 0xffffff), "T17:a basic colour keeps its index in the 256-colour palette");
    if (from == VT100_COLOR_16 && to == VT100_COLOR_RGB)
        spec_check((r & 0xffffff) == S_palette(c & 0xff), "T17:a basic colour becomes its RGB value");
    if (from == VT100_COLOR_256 && to == VT100_COLOR_RGB)
        spec_check((r & 0xffffff) == S_palette(c & 0xff), "T17:a palette colour becomes its RGB value");
    if (to == VT100_COLOR_16)
    {
        uint32_t rgb = from == VT100_COLOR_RGB ? c & 0xffffff : S_palette(c & 0xff);
        spec_check((r & 0xffffff) < 16, "T17:a converted basic colour is in range");
        if (from != VT100_COLOR_OFF)
            spec_check((r & 0xffffff) == S_basic(rgb), "T17:narrowing to a basic colour keeps the lit components and the brightness");
        uint32_t i = nd_u8("basic");
        if (i < 16 && i != 3 && from != VT100_COLOR_OFF && rgb == S_palette(i))
            spec_check((r & 0xffffff) == i, "T17:the RGB value of a basic colour but brown gives it back");
    }
    if (to == VT100_COLOR_256 && from != VT100_COLOR_16)
        spec_check((r & 0xffffff) < 256, "T17:a converted palette colour is in range");
    if (to == VT100_COLOR_256 && from == VT100_COLOR_RGB)
    {
        uint32_t i = nd_u8("i");
        if (i >= 16 && (c & 0xffffff) == S_palette(i))
            spec_check(S_palette(r & 0xff) == S_palette(i), "T17:an RGB value of the cube or grey ramp survives the palette");
        if (!spec_symbolic())       /* too much multiplication for the solver */
            spec_check(S_diff(c, S_palette(r & 0xff)) <= S_diff(c, S_palette(S_basic(c))), "T17:the palette entry chosen is at least as close as the basic colour");
    }
}
