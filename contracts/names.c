#include "config.h"
#include "spec.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/time.h>
#include "libtty/formats.h"
#include "libstream/compress.h"
#include "libstream/stream.h"
#include "libtty/ttyrec.h"
int open_stream(int fd, const char* url, int mode, const char **error);

/* what every suffix stands for, as documented */
static const struct { const char *ext, *name; int l; } COMP[] = {
    {".gz", "gzip", 3}, {".bz2", "bzip2", 4}, {".xz", "xz", 3}, {".zst", "zstd", 4}};
static const struct { const char *ext, *w, *r; int l; } FMT[] = {
    {".txt", "ansi", "baudrate", 4}, {".ttyrec", "ttyrec", "ttyrec", 7}, {".nh", "nh_recorder", "nh_recorder", 3},
    {".cast", "asciicast", "asciicast", 5}, {".cast-v1", "asciicast-v1", 0, 8}, {".dm2", 0, "dosrecorder", 4}};
#define NCOMP 4
#define NFMT 6

static unsigned char *nm;       /* the name: n bytes and a NUL */
static int n;

static int low(int c)
{
    return c >= 'A' && c <= 'Z' ? c + 32 : c;
}

#ifndef SPEC_NATIVE
/* the C library, as POSIX has it in the C locale */
size_t contract_strlen(const char *s)
{
    size_t l = 0;
    if ((unsigned char*)s == nm)
        return n;
    while (s[l])
        l++;
    return l;
}

int contract_strncasecmp(const char *a, const char *b, size_t l)
{
    for (size_t i = 0; i < l; i++)
    {
        int x = low((unsigned char)a[i]), y = low((unsigned char)b[i]);
        if (x != y)
            return x - y;
        if (!x)
            return 0;
    }
    return 0;
}

int contract_strncmp(const char *a, const char *b, size_t l)
{
    for (size_t i = 0; i < l; i++)
        if (a[i] != b[i] || !a[i])
            return (unsigned char)a[i] - (unsigned char)b[i];
    return 0;
}

int contract_strcasecmp(const char *a, const char *b)
{
    for (size_t i = 0; ; i++)
    {
        int x = low((unsigned char)a[i]), y = low((unsigned char)b[i]);
        if (x != y || !y)
            return x - y;
    }
}

int contract_strcmp(const char *a, const char *b)
{
    for (size_t i = 0; ; i++)
        if (a[i] != b[i] || !b[i])
            return (unsigned char)a[i] - (unsigned char)b[i];
}

static void *filtered;
static int filters, filter_wr;
int contract_filter(void func(int,int,const char*), int fd, int wr, const char *arg, const char **error)
{
    filtered = (void*)func;
    filter_wr = wr;
    filters++;
    return 77;
}
#endif

static bool S_text(void *a, unsigned i)
{
    return i == (unsigned)n ? nm[i] == 0 : nm[i] != 0;
}

/* the name without its last `skip` characters ends in ext */
static bool ends(const char *ext, int l, int skip)
{
    bool eq = n - skip >= l;
    for (int i = 0; i < l; i++)
        if (n - skip >= l)
            eq &= low(nm[n - skip - l + i]) == low(ext[i]);
    return eq;
}

static void mk(void)
{
    n = spec_dim("n", 0, 1 << 20);
    if (!spec_symbolic() && !spec_replay())
        n = nd_range("len", 0, 24);
    nm = spec_array("name", (unsigned)n + 1, 1, "0:1");
    if (!spec_symbolic() && !spec_replay())
    {
        char t[64] = "";
        for (int k = nd_range("dots", 0, 3); k > 0; k--)
        {
            int i = nd_range("which", 0, NCOMP + NFMT + 1);
            strcat(t, i < NCOMP ? COMP[i].ext : i < NCOMP + NFMT ? FMT[i - NCOMP].ext : i == NCOMP + NFMT ? "x" : ".");
        }
        int l = strlen(t), k = nd_range("cutdots", 0, 2);
        for (int i = 0; i < n; i++)
            nm[i] = nm[i] ? nm[i] : 'a';
        if (k && l)
            l--;
        for (int i = 0; i < l && i < n; i++)
            nm[n - 1 - i] = nd_range("up", 0, 7) ? t[l - 1 - i] : (t[l - 1 - i] >= 'a' && t[l - 1 - i] <= 'z' ? t[l - 1 - i] - 32 : t[l - 1 - i]);
        nm[n] = 0;
    }
    spec_on_touch(nm, S_text);
}

/* the compression of the name, or -1 */
static int comp(void)
{
    for (int i = 0; i < NCOMP; i++)
        if (ends(COMP[i].ext, COMP[i].l, 0))
            return i;
    return -1;
}

static bool same(const char *a, const char *b)
{
    if (!a || !b)
        return a == b;
    int i = 0;
    while (a[i] && a[i] == b[i])
        i++;
    return a[i] == b[i];
}

void harness_names(void)
{
    int c = spec_case(), k;
    const char *want = 0, *got;
    mk();
    switch (c)
    {
    case 0: case 1: case 2: case 3:     /* the format of a name, written and read, without and with a fallback */
    {
        const char *fb = c & 2 ? c & 1 ? "auto" : "ansi" : 0;
        want = fb;
        k = comp();
        got = c & 1 ? ttyrec_r_find_format(0, (char*)nm, fb) : ttyrec_w_find_format(0, (char*)nm, fb);
        spec_cover("format");
        bool any = 0;
        for (int i = 0; i < NFMT; i++)
        {
            want = c & 1 ? FMT[i].r : FMT[i].w;
            bool e = want && ends(FMT[i].ext, FMT[i].l, k < 0 ? 0 : COMP[k].l);
            any |= e;
            spec_check(!e || same(got, want), "R06:a name gets the format of its suffix, whatever compression follows");
        }
        spec_check(any || same(got, fb), "R06:a name without a known suffix gets none but the fallback");
        break;
    }
    case 4: case 5:
    {
        compress_info *tab = c == 4 ? compressors : decompressors, *ci = comp_from_ext((char*)nm, tab);
        spec_cover("compression");
        bool any = 0;
        for (int i = 0; i < NCOMP; i++)
        {
            bool e = ends(COMP[i].ext, COMP[i].l, 0);
            any |= e;
            for (int j = 0; tab[j].name; j++)
                if (same(tab[j].name, COMP[i].name))
                    spec_check((ci == tab + j) == e, "R06:a name gets the compression of its suffix, and one without a known suffix none");
            spec_check(!e || ci, "R06:a name gets the compression of its suffix, and one without a known suffix none");
        }
        spec_check(any || !ci, "R06:a name gets the compression of its suffix, and one without a known suffix none");
        break;
    }
    case 6: case 7:
    {
        /* a format asked for by name: any text of up to 14 characters */
        char f[16];
        for (int i = 0; i < 15; i++)
            f[i] = nd_u8("f");
        if (!spec_symbolic() && !spec_replay() && nd_bool("real"))
        {
            got = c == 6 ? rec[nd_range("w", 0, rec_n - 1)].name : play[nd_range("r", 0, play_n - 1)].name;
            strcpy(f, got);
            if (nd_bool("upper"))
                f[0] ^= 32;
        }
        f[15] = 0;
        got = c == 6 ? ttyrec_w_find_format(f, 0, "ansi") : ttyrec_r_find_format(f, 0, "auto");
        spec_cover("by name");
        for (int i = 0; i < (c == 6 ? rec_n : play_n); i++)
            if (!strcasecmp(f, c == 6 ? rec[i].name : play[i].name))
                want = c == 6 ? rec[i].name : play[i].name;
        spec_check(same(got, want), "R06:a format asked for by name is that one or none");
        break;
    }
#ifndef SPEC_NATIVE
    case 8: case 9: case 10: case 11:   /* opening a stream on a descriptor */
    {
        const char *err;
        int m = c & 1 ? SM_WRITE : c & 2 ? SM_READ : SM_REPREAD;
        int fd = nd_range("fd", 0, 1 << 20);
        filters = 0;
        filtered = 0;
        int r = open_stream(fd, (char*)nm, m, &err);
        k = comp();
        spec_cover("stream");
        spec_check(k < 0 ? !filters && r == fd : filters == 1 && r == 77 && filter_wr == (c & 1), "R06:only a compressed stream is filtered");
        if (k >= 0)
            for (int i = 0; i < 4; i++)
                if (same((c & 1 ? compressors : decompressors)[i].name, COMP[k].name))
                    spec_check(filtered == (void*)(c & 1 ? compressors : decompressors)[i].comp, "R06:a stream is filtered by the compressor of its suffix");
        break;
    }
#endif
    }
}
