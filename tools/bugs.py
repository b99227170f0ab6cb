"""planted bugs: what mkbug.py builds /verif/seeded from (no check reads this)"""
T = 'libtty/tty.c'
HEAD = r'''
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libtty/tty.h"
#define SAY(...) (fprintf(stderr, __VA_ARGS__), exit(1))
static void w(tty t, const char *s) { tty_write(t, s, strlen(s)); }
static unsigned at(tty t, int x, int y) { return t->scr[y * t->sx + x].ch; }
'''
BUGS = [
    dict(id='b01-erase-cut', property='T06', edits=[(T, '''                    if (CX<=0)
                        break;
                    cjk_damage_right(vt, CX-1, true);''', '''                    if (CX<=0)
                        break;
                    if (CX+1<SX)
                        cjk_damage_right(vt, CX-1, true);''')],
        needs='a double-width character in the last two columns and the cursor exactly on its right half when the line is erased up to the cursor',
        breaks='the right half of the character stays as a filler',
        demo=HEAD + r'''
int main(void)
{
    tty t = tty_init(10, 3, 1);
    w(t, "\033[1;9H\xe4\xb8\x80\033[1;10H\033[1K");
    if (at(t, 9, 0) != ' ' || t->scr[9].attr & VT100_ATTR_CJK) SAY("half left\n");
    return 0;
}
'''),
    dict(id='b02-wrap-below-region', property='T05', edits=[(T, '''            CX=0;
            CY++;
            if (CY>=vt->s2)
            {
                CY=vt->s2-1;
                SCROLL(1);
            }''', '''            CX=0;
            if (++CY>=vt->s2)
            {
                if (CY>SY-1)
                    CY=vt->s2-1;
                SCROLL(1);
            }''')],
        needs='a scrolling region that ends above the bottom line, and a character wrapped from its last line',
        breaks='the character lands below the region instead of on its last line',
        demo=HEAD + r'''
int main(void)
{
    tty t = tty_init(4, 5, 1);
    w(t, "\033[1;3r\033[3;1Habcde");
    if (at(t, 0, 2) != 'e' || at(t, 0, 1) != 'a' || at(t, 0, 3) != ' ') SAY("wrong line\n");
    return 0;
}
'''),
    dict(id='b03-scroll-clear', property='T08', edits=[(T, '''    if ((s=vt->s2-vt->s1-abs(nl))<=0)
    {
        tty_clear_region(vt, vt->s1*SX, (vt->s2-vt->s1)*SX, true);''', '''    if ((s=vt->s2-vt->s1-abs(nl))<=0)
    {
        tty_clear_region(vt, vt->s1*SX, (nl<0? vt->s2-vt->s1 : nl<SY-vt->s1? nl : SY-vt->s1)*SX, true);''')],
        needs='deleting more lines than the scrolling region has below the cursor, with lines below the region',
        breaks='lines below the region are cleared as well',
        demo=HEAD + r'''
int main(void)
{
    tty t = tty_init(4, 5, 1);
    w(t, "a\r\nb\r\nc\r\nd\r\ne\033[1;3r\033[2;1H\033[4M");
    if (at(t, 0, 0) != 'a' || at(t, 0, 1) != ' ' || at(t, 0, 2) != ' ' || at(t, 0, 3) != 'd' || at(t, 0, 4) != 'e') SAY("wrong lines\n");
    return 0;
}
'''),
    dict(id='b04-sgr-256', property='T10', edits=[(T, '''                            BG(256, vt->tok[++i]);
                            break;
                        case 2:
                            if (i+3<=vt->ntok)
                                BG(RGB, (vt->tok[i+1]&0xff)<<16
                                      | (vt->tok[i+2]&0xff)<<8
                                      | (vt->tok[i+3]&0xff));
                            // fallthru
                        case 3:
                            i+=3;
                            break;''', '''                            BG(256, vt->tok[++i]);
                            break;
                        case 2:
                            if (i+3<=vt->ntok)
                            {
                                BG(RGB, (vt->tok[i+1]&0xff)<<16
                                      | (vt->tok[i+2]&0xff)<<8
                                      | (vt->tok[i+3]&0xff));
                                i+=3;
                            }
                            break;
                        case 3:
                            i+=3;
                            break;''')],
        needs='an RGB background request with parameters missing whose remaining parameters are attribute codes',
        breaks='the stray colour components are taken as attributes',
        demo=HEAD + r'''
int main(void)
{
    tty t = tty_init(4, 5, 1);
    w(t, "\033[0;48;2;1;7m");
    if (t->attr) SAY("attributes %llx\n", (unsigned long long)t->attr);
    return 0;
}
'''),
    dict(id='b05-cursor-region', property='T09', edits=[(T, '''                if (vt->tok[1]<=SY && vt->tok[0]<vt->tok[1])
                {
                    vt->s1=vt->tok[0]-1;''', '''                if (vt->tok[1]>SY)
                    vt->tok[1]=SY;
                if (vt->tok[0]<vt->tok[1])
                {
                    vt->s1=vt->tok[0]-1;''')],
        needs='a scrolling region reaching below the screen',
        breaks='an invalid region request is no longer ignored: the cursor moves',
        demo=HEAD + r'''
int main(void)
{
    tty t = tty_init(8, 5, 1);
    w(t, "\033[4;4H\033[2;6r");
    if (t->cx != 3 || t->cy != 3 || t->s1 != 0 || t->s2 != 5) SAY("region taken\n");
    return 0;
}
'''),
    dict(id='b06-right-overflow', property='T01', edits=[(T, """                if (i<SX-CX)
                    CX+=i;""", """                if (CX+i<SX)
                    CX+=i;""")],
        needs='a count near the largest number, from a column other than the first',
        breaks='the cursor leaves the screen, and the next character is written outside its memory',
        demo=HEAD + r"""
int main(void)
{
    tty t = tty_init(10, 3, 1);
    w(t, "\033[2;5H\033[2147483646C");
    if (t->cx < 0 || t->cx > 10) SAY("cursor at %d\n", t->cx);
    return 0;
}
"""),
    dict(id='b07-title-overflow', property='T01', edits=[(T, 'vt->osclen<MAXOSC-1', 'vt->osclen<MAXOSC')],
        needs='a title of 4096 bytes or more',
        breaks='the terminating zero is written past the end of the buffer',
        demo=HEAD + r"""
int main(void)
{
    tty t = tty_init(10, 3, 1);
    w(t, "\033]0;");
    for (int i = 0; i < 5000; i++)
        w(t, "x");
    w(t, "\007");
    if (!t->title || strlen(t->title) != 4095) SAY("title\n");
    return 0;
}
"""),
    dict(id='b08-wide-over-wide', property='T02', edits=[(T, 'cjk_damage_right(vt, CX+w-1, false);', 'cjk_damage_right(vt, CX+(w==2 && CX+w==SX-1? 0 : w-1), false);')],
        needs='a double-width character printed one column before another, away from the right edge',
        breaks='the right half of the second one stays as a filler with no character',
        demo=HEAD + r"""
int main(void)
{
    tty t = tty_init(10, 3, 1);
    w(t, "\033[1;9H\xe4\xb8\x80\033[1;8H\xe4\xb8\x81");
    if (at(t, 7, 0) != 0x4e01 || at(t, 8, 0) != VT100_CJK_RIGHT || at(t, 9, 0) != ' ' || t->scr[9].attr & VT100_ATTR_CJK) SAY("half left\n");
    return 0;
}
"""),
    dict(id='b09-insert-pushes-half', property='T07', edits=[(T, 'cjk_damage_left(vt, SX-i, true); // pushed off screen', 'cjk_damage_left(vt, SX-1, true); // pushed off screen')],
        needs='inserting two or more blanks so that the right edge cuts a double-width character',
        breaks='the left half of the character stays on the screen at the right edge',
        demo=HEAD + r"""
int main(void)
{
    tty t = tty_init(10, 3, 1);
    w(t, "\033[1;8H\xe4\xb8\x80\033[1;1H\033[2@");
    if (at(t, 9, 0) != ' ' || t->scr[9].attr & VT100_ATTR_CJK) SAY("half left\n");
    return 0;
}
"""),
    dict(id='b11-stale-surrogate', property='T11', edits=[(T, """                            (0x10000 - (0xD800 << 10) - 0xDC00);
                        vt->utf_surrogate=0;""", """                            (0x10000 - (0xD800 << 10) - 0xDC00);
                        if (c&0x100)
                            vt->utf_surrogate=0;""")],
        needs='a surrogate pair followed, at any later time, by a second trailing surrogate',
        breaks='the lone trailing surrogate prints a character made up with the old leading one',
        demo=HEAD + r"""
int main(void)
{
    tty t = tty_init(10, 3, 1);
    w(t, "\xed\xa0\xb5\xed\xb0\x80" "ab\xed\xb0\x81");
    if (at(t, 0, 0) != 0x1d400 || at(t, 3, 0) != 0xfffd) SAY("%x %x\n", at(t, 0, 0), at(t, 3, 0));
    return 0;
}
"""),
    dict(id='b12-restore-charset', property='T12', edits=[(T, 'vt->curG=vt->save_curG;\n                L_CURSOR;', 'vt->curG&=vt->save_curG;\n                L_CURSOR;')],
        needs='a position saved while G1 was in use, restored while G0 is',
        breaks='the charset in use is not restored',
        demo=HEAD + r"""
int main(void)
{
    tty t = tty_init(10, 3, 1);
    w(t, "\016\0337\017\0338q");
    if (at(t, 0, 0) != 0x2500) SAY("%x\n", at(t, 0, 0));
    return 0;
}
"""),
    dict(id='b13-copy-marks', property='T15', edits=[(T, 'memcpy(nvt->combs, vt->combs, NCOMBS*sizeof(combc));', 'memcpy(nvt->combs, vt->combs, (FREECOMB<NCOMBS? FREECOMB : NCOMBS)*sizeof(combc));')],
        needs='marks released before the copy, while later ones are still in use',
        breaks='marks of the copy are garbage',
        demo=HEAD + r"""
int main(void)
{
    tty t = tty_init(10, 3, 1);
    w(t, "a\xcc\x81" "b\xcc\x82" "c\xcc\x83" "\033[1;1Hx");
    tty u = tty_copy(t);
    if (u->combs[u->scr[2].comb].ch != 0x303 || u->combs[u->scr[2].comb].next) SAY("mark %x\n", u->combs[u->scr[2].comb].ch);
    return 0;
}
"""),
    dict(id='b14-printf-edge', property='T16', edits=[(T, 'else if (len>=BUFFER_SIZE)', 'else if (len>BUFFER_SIZE)')],
        needs='a formatted text of exactly 16384 bytes',
        breaks='its last byte is lost',
        demo=HEAD + r"""
int main(void)
{
    static char b[20000];
    for (int n = 16380; n < 16390; n++)
    {
        tty t = tty_init(80, 25, 1);
        memset(b, 'a', n), b[n - 1] = 'z', b[n] = 0;
        tty_printf(t, "%s", b);
        tty_printf(t, "\033[D");
        if (at(t, t->cx, t->cy) != 'z') SAY("length %d\n", n);
        tty_free(t);
    }
    return 0;
}
"""),
    dict(id='b15-dark-gray', property='T17', edits=[('libtty/colors.c', 'if (hue == 7 && max <= 0x70)', 'if (hue == 7 && max <= 0x50)')],
        srcs='libtty/colors.c',
        needs='converting the palette colour 8 (dark gray) from RGB to 16 colours',
        breaks='it becomes light gray',
        demo=r"""
#include "config.h"
#include <stdio.h>
#include "libtty/tty.h"
int main(void)
{
    for (unsigned i = 8; i < 9; i++)
    {
        unsigned rgb = tty_color_convert(1 << 24 | i, 3);
        unsigned c = tty_color_convert(3 << 24 | rgb & 0xffffff, 1);
        if ((c & 0xff) != i) return fprintf(stderr, "%u -> %x -> %x\n", i, rgb, c), 1;
    }
    return 0;
}
"""),
    dict(id='b16-last-marks', property='T18', edits=[('libtty/wcwidth.c', 'sizeof(combining) / sizeof(struct interval) - 1', 'sizeof(combining) / sizeof(struct interval) - 2')],
        srcs='libtty/wcwidth.c',
        needs='a character of the last range of the table (variation selectors supplement)',
        breaks='it takes a cell of its own',
        demo=r"""
#include "config.h"
#include <stdio.h>
#include "libtty/wcwidth.h"
int main(void)
{
    for (unsigned i = 0xe0100; i <= 0xe01ef; i++)
        if (mk_wcwidth(i)) return fprintf(stderr, "%x\n", i), 1;
    return 0;
}
"""),
    dict(id='b17-equal-microseconds', property='R01', edits=[('libtty/ttyrec.h', '-=(d).tv_usec)<0)', '-=(d).tv_usec)<=0)')],
        srcs='libtty/charsets.c',
        needs='subtracting times with equal microseconds',
        breaks='the result has a million microseconds',
        demo=r"""
#include "config.h"
#include <stdio.h>
#include <sys/time.h>
#include "libtty/ttyrec.h"
int main(void)
{
    struct timeval a = {10, 500}, b = {3, 500};
    tsub(a, b);
    if (a.tv_sec != 7 || a.tv_usec) return fprintf(stderr, "%d %d\n", (int)a.tv_sec, (int)a.tv_usec), 1;
    return 0;
}
"""),

    dict(id='b18-telnet-doubled', property='R05', edits=[('libstream/url_telnet.c', """                if (*bp++==SE)
                    state=0;
                else
                    state=4;""", """                if (*bp++==SE)
                    state=0;
                else
                    state=bp[-1]==IAC? 5 : 4;""")],
        srcs='$NETSRC', libs='$NETLIB',
        needs='a subnegotiation holding a doubled 255 right before 240',
        breaks='the doubled 255 is taken for the start of the end, and negotiation leaks into the data',
        demo=r"""
#include "config.h"
#include <string.h>
#define IN "a\377\372\030\377\377\360b\377\360c"
#define WANT "ac"
#define CUT 1
NETDEMO
"""),
    dict(id='b19-telnet-cut-iac', property='R05', edits=[('libstream/url_telnet.c', """        bp=buf;
        op=out;
""", """        bp=buf;
        op=out;
        if (state==5 && *bp!=SE)
            state=0;
""")],
        srcs='$NETSRC', libs='$NETLIB',
        needs='a read that ends between an escape inside a subnegotiation and what follows it',
        breaks='the rest of the subnegotiation is taken for data',
        demo=r"""
#include "config.h"
#include <string.h>
#define IN "a\377\372\030\377\377zz\377\360c"
#define WANT "ac"
#define CUT 5
NETDEMO
"""),
    dict(id='b20-suffix-is-name', property='R06', edits=[('libstream/prefix.c', 'if (tl-el-skip<0)', 'if (tl-el-skip<=0)')],
        srcs='$RECSRC', libs='$RECLIB',
        needs='a name that consists of the suffix alone', breaks='it gets no format',
        demo=r"""
#include "config.h"
#include <stdio.h>
#include <string.h>
#include <sys/time.h>
#include "libtty/ttyrec.h"
int main(void)
{
    const char *f = ttyrec_r_find_format(0, ".ttyrec", "auto"), *g = ttyrec_w_find_format(0, ".nh.gz", "ansi");
    if (!f || strcmp(f, "ttyrec") || !g || strcmp(g, "nh_recorder")) return fprintf(stderr, "%s %s\n", f, g), 1;
    return 0;
}
"""),
    dict(id='b21-skip-length', property='R06', edits=[('libtty/files.c', """        ci=comp_from_ext(filename, decompressors);
        if (ci)
            skip=strlen(ci->ext);""", """        ci=comp_from_ext(filename, decompressors);
        if (ci)
            skip=sizeof(ci->ext[0])+strlen("gz");""")],
        srcs='$RECSRC', libs='$RECLIB',
        needs='a name with a compression suffix that is not three characters long', breaks='the format before it is not found',
        demo=r"""
#include "config.h"
#include <stdio.h>
#include <string.h>
#include <sys/time.h>
#include "libtty/ttyrec.h"
int main(void)
{
    static const char *n[] = {"x.cast", "x.cast.gz", "x.cast.xz", "x.cast.bz2", "x.cast.zst", 0};
    for (int i = 0; n[i]; i++)
    {
        const char *f = ttyrec_r_find_format(0, n[i], "auto");
        if (!f || strcmp(f, "asciicast")) return fprintf(stderr, "%s: %s\n", n[i], f), 1;
    }
    return 0;
}
"""),
    dict(id='b22-resize-saved', property='T14', edits=[('libtty/tty.c', 'if (vt->save_cy>=nsy)', 'if (vt->save_cy>nsy)')],
        needs='saving the cursor on the line right below the new bottom, shrinking and restoring',
        breaks='the cursor comes back below the screen',
        demo=HEAD + r"""
int main(void)
{
    tty t = tty_init(10, 10, 1);
    tty_printf(t, "\033[6;1H\0337");
    tty_resize(t, 10, 5);
    tty_printf(t, "\0338");
    if (t->cy > 4) SAY("line %d of %d\n", t->cy, t->sy);
    return 0;
}
"""),
    dict(id='b23-resize-marks', property='T14', edits=[('libtty/tty.c', """            for (x=nsx;x<SX;x++)
                tty_kill_comb""", """            for (x=nsx+1;x<SX;x++)
                tty_kill_comb""")],
        needs='narrowing a screen that has combining marks in the first dropped column, again and again',
        breaks='the marks of that column are never released',
        demo=HEAD + r"""
int main(void)
{
    tty t = tty_init(10, 3, 1);
    unsigned n = 0;
    for (int i = 0; i < 400; i++)
    {
        tty_resize(t, 10, 3);
        tty_printf(t, "\033[1;9He\xcc\x81");
        tty_resize(t, 8, 3);
        if (i == 100) n = t->combs[0].ch;
    }
    if (t->combs[0].ch != n) SAY("the store grew from %u to %u\n", n, t->combs[0].ch);
    return 0;
}
"""),
    dict(id='b24-chunk-truncated', property='T04', edits=[('libtty/tty.c', """    buf--;
    while (len--)""", """    if (vt->utf_surrogate && len>0 && !(*buf&0x80))
        vt->utf_surrogate=0;
    buf--;
    while (len--)""")],
        needs='a chunk ending in a lead surrogate, the next one starting with ASCII and going on with a trailing surrogate',
        breaks='the two surrogates combine within one chunk but not across the cut',
        demo=HEAD + r"""
int main(void)
{
    tty a = tty_init(10, 3, 1), b = tty_init(10, 3, 1);
    tty_write(a, "\xed\xa0\x80" "a\xed\xb0\x80", 7);
    tty_write(b, "\xed\xa0\x80", 3);
    tty_write(b, "a\xed\xb0\x80", 4);
    for (int x = 0; x < 10; x++)
        if (at(a, x, 0) != at(b, x, 0)) SAY("column %d: %x %x\n", x, at(a, x, 0), at(b, x, 0));
    return 0;
}
"""),
]
_REC = ('libtty/files.c libtty/formats.c libtty/asciicast.c libtty/dosrecorder.c libtty/tty.c libtty/charsets.c libtty/wcwidth.c libstream/prefix.c '
        'libstream/compress.c libstream/stream.c libstream/url_file.c libstream/url_tcp.c libstream/url_telnet.c libstream/url_termcast.c libstream/url_curl.c')
_LIB = '-lz -lbz2 -llzma -lzstd -lcurl'
_NET = r"""
#include <stdio.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/socket.h>
#include "libtty/ttyrec.h"
#include "libstream/stream.h"
static int reads, pos;
static char out[1000];
static int nout;
/* the socket: the first CUT bytes, then the rest */
ssize_t __wrap_recv(int s, void *b, size_t n, int f)
{
    int l = sizeof(IN) - 1;
    int k = reads++ ? l - pos : CUT;
    memcpy(b, IN + pos, k);
    pos += k;
    return k;
}
ssize_t __wrap_send(int s, const void *b, size_t n, int f) { return n; }
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (fd != 72) return __real_write(fd, b, n);
    memcpy(out + nout, b, n);
    nout += n;
    return n;
}
int __real_close(int fd);
int __wrap_close(int fd) { return fd == 71 || fd == 72 ? 0 : __real_close(fd); }
int main(void)
{
    telnet(71, 72, 0);
    if (nout != sizeof(WANT) - 1 || memcmp(out, WANT, nout))
    {
        fprintf(stderr, "%d bytes: %.*s\n", nout, nout, out);
        return 1;
    }
    return 0;
}
"""
for _b in BUGS:
    _b['demo'] = _b['demo'].replace('NETDEMO', _NET)
    if '$' in _b.get('srcs', ''):
        _b['srcs'] = _REC
    if '$' in _b.get('libs', ''):
        _b['libs'] = _LIB + (' -Wl,--wrap=recv,--wrap=send,--wrap=write,--wrap=close' if 'NET' in _b['libs'] else '')
