#ifndef WCWIDTH_C_H
#define WCWIDTH_C_H
/* what callers may rely on about the width of a character; harness_width proves it of the real function */
int contract_mk_wcwidth(uint32_t c)
{
    if (!spec_proof())
    {
        spec_assume(c == RIGHT || c < 0x1160 && (c < 0x370 || c > 0x482 && c<0x300) || c >= 0x2500 && c < 0x2600 || c >= 0x4e00 && c < 0xa000);
        if (!c) return 0;
        if (c < 32 || c >= 0x7f && c < 0xa0) return -1;
        return c >= 0x300 && c < 0x370 ? 0 : c >= 0x1100 && c < 0x1160 || c >= 0x4e00 && c < 0xa000 ? 2 : 1;
    }
    if (spec_concrete(c))
    {
        if (c == 0xfffd || c >= 32 && c < 0x7f)
            return 1;
        if (c && c < 32)
            return -1;
    }
    int w = (int)spec_uf1("wcwidth", c);
    spec_fact(w >= -1 && w <= 2);
    spec_fact(!(c == 0) || w == 0);
    spec_fact(!(c < 32 && c || c >= 0x7f && c < 0xa0) || w == -1);
    spec_fact(!(c >= 32 && c < 0x7f || c >= 0xa0 && c < 0x300 || c == RIGHT || c == 0xfffd) || w == 1);
    spec_fact(!(c >= 0x370 && c < 0x483 || c >= 0x2010 && c < 0x202a || c >= 0x202f && c < 0x2060 || c >= 0x2070 && c < 0x20d0
        || c >= 0x20f0 && c < 0x2329 || c >= 0x232b && c < 0x2e80) || w == 1);
    spec_fact(w != -1 || c < 0xa0);
    spec_fact(w != 2 || c >= 0x1100);
    spec_fact(w != 0 || c == 0 || c >= 0x300);
    return w;
}
#endif
