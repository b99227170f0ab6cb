#include "ttyspec.h"
#include <stdarg.h>

/* the formatted text, of any length */
static char *text;
static uint32_t len, pos;
static bool wrong;

int contract_vsnprintf(char *buf, size_t size, const char *fmt, va_list ap)
{
    if (spec_case() == 1)
        return -1;          /* some C libraries do not tell the length */
    if (!size)
        return len;
    uint32_t n = len < size ? len : size - 1;
    memcpy(buf, text, n);
    buf[n] = 0;
    return len;
}

int contract_vasprintf(char **s, const char *fmt, va_list ap)
{
    char *p = malloc(len + 1);
    memcpy(p, text, len + 1);
    *s = p;
    return len;
}

/* writing: the terminal takes the bytes in order, whatever the pieces (T04) */
void contract_tty_write(tty t, const char *buf, int n)
{
    uint32_t i = nd_u32("i");
    if (n < 0 || pos + (uint32_t)n > len)
        wrong = 1;
    else if (i < (uint32_t)n && buf[i] != text[pos + i])
        wrong = 1;
    pos += n;
}

void harness_printf(void)
{
    len = spec_dim("len", 0, 1 << 24);
    if (!spec_symbolic() && !spec_replay())
        switch (nd_u8("size") % 8)
        {
        case 0: len = 16384 - 3 + len % 6; break;
        case 1: len = 16384 + len * 300; break;
        case 2: len = 0; break;
        }
    text = spec_array("text", len + 1, 1, "0:1");
    for (int i = 0; !spec_symbolic() && i < len; i++)
        if (!text[i])
            text[i] = 'x';
    text[len] = 0;
    pos = 0;
    wrong = 0;
    if (spec_symbolic())
    {
        vt = tty_init(0, 0, 1);
        tty_printf(vt, "%s", text);
        spec_check(!wrong && pos == len, "T16:the terminal is written exactly the formatted text");
    }
    else
    {
        mk_tty();
        struct tty *b = tty_copy(vt);
        tty_printf(vt, "%s", text);
        tty_write(b, text, len);
        spec_check(vt->sx == b->sx && vt->sy == b->sy && vt->cx == b->cx && vt->cy == b->cy && vt->attr == b->attr
            && vt->state == b->state && vt->G == b->G && vt->curG == b->curG && vt->utf_count == b->utf_count
            && vt->opt_auto_wrap == b->opt_auto_wrap && vt->opt_cursor == b->opt_cursor, "T16:the terminal is written exactly the formatted text");
        for (int i = 0; i < vt->sx * vt->sy; i++)
            spec_check(vt->scr[i].ch == b->scr[i].ch && vt->scr[i].attr == b->scr[i].attr, "T16:the terminal is written exactly the formatted text");
        tty_free(b);
    }
    spec_cover("printed");
    free(text);
}
