#include "ttyspec.h"

enum { G0, G1, SHIFT, PERCENT, KEYPAD, SETH, SETL, SAVEREST, RESETSEQ, RESET, BADESC, BADCSI, BADQUES, MANYPARS, STARTTITLE, TEXT, ENDBEL, ENDESC, CANCEL, WHOLE, CANCELLED };

/* everything apart from the screen, as it should be now */
static struct tty e;

static void check_rest(const char *l)
{
    spec_check(vt->cx == e.cx && vt->cy == e.cy && vt->s1 == e.s1 && vt->s2 == e.s2 && vt->attr == e.attr
        && vt->sx == e.sx && vt->sy == e.sy, l);
    spec_check(vt->save_cx == e.save_cx && vt->save_cy == e.save_cy && vt->save_attr == e.save_attr
        && vt->save_G == e.save_G && vt->save_curG == e.save_curG, l);
    spec_check(vt->G == e.G && vt->curG == e.curG && vt->cp437 == e.cp437 && vt->allow_resize == e.allow_resize
        && vt->opt_auto_wrap == e.opt_auto_wrap && vt->opt_cursor == e.opt_cursor && vt->opt_kpad == e.opt_kpad, l);
}

static void check_screen(const char *l)
{
    FORALL(i, sx * sy)
        spec_check(vt->scr[i].ch == S0[i].ch && vt->scr[i].attr == S0[i].attr && vt->scr[i].comb == S0[i].comb, l);
}

/* parameters of ESC[?...h so far */
static int gi;
static bool gwrap, gcur, gv;
static void item(void)
{
    if (vt->tok[gi] == 7)
        gwrap = gv;
    if (vt->tok[gi] == 25)
        gcur = gv;
    gi++;
}
static bool L_range(void)
{
    return gi >= 0 && gi <= 16 && gwrap == !!vt->opt_auto_wrap && gcur == !!vt->opt_cursor
        && vt->G == old.G && vt->curG == old.curG && vt->save_G == old.save_G && vt->save_curG == old.save_curG
        && vt->cp437 == old.cp437 && vt->allow_resize == old.allow_resize && vt->opt_kpad == old.opt_kpad;
}

/* ---- string commands */
static int nosc, osclen0;
static uint32_t osccode;
static bool osctext;    /* the text reported was the expected one */
static char *text0;     /* the text so far */
static bool L_nonul(void *arr, unsigned i)
{
    char *s = arr;
    return i >= (unsigned)old.osclen || s[i] != 0;
}

/* the length of a string is the least index that holds a NUL; the only one the terminal puts is at the end of its text */
size_t contract_strlen(const char *s)
{
    uint32_t n = nd_u32("strlen");
    spec_assume(n < 4096);
    spec_assume(s[n] == 0);
    spec_assume(s[vt->osclen] != 0 || n <= (uint32_t)vt->osclen);
    return n;
}

char *contract_strdup(const char *s)
{
    size_t n = contract_strlen(s);
    char *d = malloc(4096);
    memcpy(d, s, n + 1);
    return d;
}

static void rec_osc(tty t, int code, const char *s)
{
    nosc++;
    osccode = code;
    osctext = 1;
    if (!text0)
        osctext = !*s;
    else if (spec_symbolic())
    {
        uint32_t i = nd_u32("i");
        if (i < (uint32_t)osclen0)
            osctext = s[i] == text0[i];
        else if (i == osclen0)
            osctext = !s[i];
    }
    else
        for (int i = 0; i <= osclen0; i++)
            if (s[i] != (i < osclen0 ? text0[i] : 0))
                osctext = 0;
}

/* a string command under way, with a text of any length */
static void mk_text(void)
{
    vt->state = 9;
    vt->tok[0] = nd_u32("code");
    if (!spec_symbolic() && !spec_replay() && nd_bool("zero"))
        vt->tok[0] = 0;
    spec_assume(vt->tok[0] != 0xffffffff);
    vt->osclen = nd_range("osclen", 0, 4095);
    if (!spec_symbolic() && !spec_replay() && nd_bool("full"))
        vt->osclen = 4095;
    free(vt->oscbuf);
    vt->oscbuf = spec_array("text", 4096, 1, "0:1");
    old.osclen = vt->osclen;
    if (spec_symbolic())
        spec_on_touch(vt->oscbuf, L_nonul);
    else
        for (int i = 0; i < vt->osclen; i++)
            if (!vt->oscbuf[i])
                vt->oscbuf[i] = 'x';
    text0 = spec_snapshot(vt->oscbuf);
    osclen0 = vt->osclen;
}

static bool control(uint8_t b)
{
    return b == 0 || b == 5 || b >= 7 && b <= 15 || b == 24 || b == 26 || b == 27 || b == 127;
}

static void put2(char a, char b)
{
    put(a);
    put(b);
}

#define L_MODE  "T12:a request changes exactly its mode or charset"
#define L_TITLE "T12:a string command with code 0 sets the title"

static void check_title(void)
{
    spec_check(nosc == 1 && osccode == vt->tok[0] && osctext, "T12:each string is delivered once, as received");
    spec_check(!vt->oscbuf, "T12:no text is left behind");
    if (vt->tok[0])
        return;
    if (!text0)
        spec_check(!vt->title, L_TITLE);
    else
        FORALL(i, osclen0 + 1)
            spec_check(vt->title[i] == (i < osclen0 ? text0[i] : 0), "T12:the title is the text");
}

void harness_modes(void)
{
    int c = spec_case();
    uint8_t b = nd_u8("byte");
    mk_tty();
    memcpy(&e, &old, sizeof(e));
    if (!spec_symbolic())
        vt->l_osc = rec_osc;
    nosc = 0;
    text0 = 0;
    switch (c)
    {
    case G0: case G1:
        if (!spec_symbolic() && !spec_replay() && b < 128)
            b = "0BU"[b % 3];
        spec_assume(!control(b));
        put2(27, c == G0 ? '(' : ')');
        put(b);
        if (b == '0')
            e.G = old.G | 1 << (c - G0);
        else if (b == 'B' || b == 'U')
            e.G = old.G & ~(1 << (c - G0));
        spec_check(vt->state == 0, "T12:the request is complete");
        break;
    case SHIFT:
        spec_assume(b < 2);
        put(b + 14);
        e.curG = !b;
        break;
    case PERCENT:
        if (!spec_symbolic() && !spec_replay() && b < 128)
            b = "@8G"[b % 3];
        spec_assume(!control(b));
        put2(27, '%');
        put(b);
        if (b == '@')
            e.cp437 = 1;
        else if (b == '8' || b == 'G')
            e.cp437 = 0;
        spec_check(vt->state == 0, "T12:the request is complete");
        break;
    case KEYPAD:
        spec_assume(b < 2);
        put2(27, '=' + b);
        e.opt_kpad = !b;
        spec_check(vt->state == 0, "T12:the request is complete");
        break;
    case SETH: case SETL:
        put2(27, '[');
        put2('?', '0');
        vt->ntok = nd_range("ntok", 0, 15);
        for (int i = 0; i < 16; i++)
        {
            vt->tok[i] = nd_u32("p");
            if (!spec_symbolic() && !spec_replay())
                vt->tok[i] = "\7\31\7\31\1\17\31\0"[vt->tok[i] & 7];
        }
        gi = 0;
        gwrap = old.opt_auto_wrap;
        gcur = old.opt_cursor;
        gv = c == SETH;
        if (spec_proof())
        {
            spec_ghost_step(item);
            spec_loop_inv(L_range);
            put(gv ? 'h' : 'l');
        }
        else
        {
            put(gv ? 'h' : 'l');
            while (gi <= vt->ntok)
                item();
        }
        e.opt_auto_wrap = gwrap;
        e.opt_cursor = gcur;
        spec_check(gi > vt->ntok, "T12:every parameter is looked at");
        spec_check(vt->state == 0, "T12:the request is complete");
        break;
    case SAVEREST:
        put2(27, '7');
        e.save_cx = old.cx;
        e.save_cy = old.cy;
        e.save_attr = old.attr;
        e.save_G = old.G;
        e.save_curG = old.curG;
        check_rest("T12:saving changes nothing but what is saved");
        /* whatever happens in between */
        vt->cx = nd_range("newcx", 0, sx);
        vt->cy = nd_range("newcy", 0, sy - 1);
        vt->attr = nd_u64("newattr");
        vt->G = nd_u8("newG");
        vt->curG = nd_bool("newcurG");
        put2(27, '8');
        spec_check(vt->state == 0, "T12:the request is complete");
        break;
    case RESETSEQ: case RESET:
        vt->state = 0;
        vt->utf_count = nd_range("utf_count", 0, 5);
        if (c == RESETSEQ)
        {
            csi(nd_range("ntok", 0, 2));
            put('c');
        }
        else
        {
            vt->state = nd_range("state", 0, 9);
            if (vt->state >= 8)
                vt->tok[0] = 0xffffffff;
            tty_reset(vt);
        }
        e.cx = e.cy = e.save_cx = e.save_cy = e.s1 = 0;
        e.s2 = sy;
        e.attr = 0;
        e.opt_auto_wrap = 1;
        e.opt_cursor = 1;
        e.opt_kpad = 0;
        e.G = e.save_G = 2;
        e.curG = e.save_curG = 0;
        e.save_attr = vt->save_attr;
        spec_check(vt->state == 0 && !vt->utf_count, "T12:a reset forgets unfinished input");
        check_rest("T12:a reset gives the power-on settings");
        FORALL(i, sx * sy)
            spec_check(vt->scr[i].ch == ' ' && !vt->scr[i].comb, "T12:a reset blanks the screen");
        spec_cover("mode");
        return;
    case BADESC:
        spec_assume(!control(b) && b != '[' && b != ']' && b != '(' && b != ')' && b != '%' && b != '7' && b != '8' && b != 'D'
            && b != 'E' && b != 'M' && b != '=' && b != '>');
        put2(27, b);
        spec_check(vt->state == 0, "T12:an unknown sequence ends");
        break;
    case BADCSI:
        spec_assume(!control(b) && !(b >= '0' && b <= '9') && b != ';' && b != '?');
        spec_assume(b != 'm' && b != 'D' && b != 'C' && b != 'a' && b != 'F' && b != 'A' && b != 'E' && b != 'B' && b != 'r'
            && b != 'J' && b != 'K' && b != 'L' && b != 'M' && b != '@' && b != 'P' && b != 'X' && b != 'f' && b != 'H' && b != 'G'
            && b != '`' && b != 'd' && b != 'c' && b != 't');
        csi(nd_range("ntok", 0, 15));
        put(b);
        spec_check(vt->state == 0, "T12:an unknown sequence ends");
        break;
    case BADQUES:
        spec_assume(!control(b) && !(b >= '0' && b <= '9') && b != ';' && b != 'h' && b != 'l');
        put2(27, '[');
        put2('?', '1');
        put(b);
        spec_check(vt->state == 0, "T12:an unknown sequence ends");
        break;
    case MANYPARS:
        csi(15);
        put(';');
        spec_check(vt->state == 0, "T12:a sequence with too many parameters ends");
        break;
    case STARTTITLE:
        /* whatever was left of an earlier one */
        free(vt->oscbuf);
        vt->oscbuf = nd_bool("stale") ? malloc(4096) : 0;
        vt->osclen = nd_range("osclen", 0, 4095);
        vt->l_osc = rec_osc;
        put2(27, ']');
        uint32_t n = nd_range("digits", 0, 3), code = 0;
        for (int i = 0; i < 3; i++)
            if (i < n)
            {
                uint8_t d = nd_range("digit", 0, 9);
                put('0' + d);
                code = code * 10 + d;
            }
        if (nd_bool("empty"))
        {
            put(7);
            spec_check(vt->tok[0] == code, "T12:the code of a string command");
            check_title();
            break;
        }
        put(';');
        spec_check(vt->state == 9 && vt->oscbuf && !vt->osclen && vt->tok[0] == code && !nosc, "T12:a string starts empty");
        break;
    case TEXT:
        mk_text();
        vt->l_osc = rec_osc;
        spec_assume(!control(b));
        put(b);
        spec_check(vt->state == 9 && vt->tok[0] != 0xffffffff && vt->oscbuf && !nosc, "T12:a string goes on until terminated");
        spec_check(vt->osclen == (osclen0 < 4095 ? osclen0 + 1 : osclen0), "T12:a string grows up to the limit");
        FORALL(i, vt->osclen)
            spec_check((uint8_t)vt->oscbuf[i] == (i < osclen0 ? (uint8_t)text0[i] : b), "T12:the text gains exactly the byte");
        break;
    case ENDBEL:
        mk_text();
        vt->l_osc = rec_osc;
        put(7);
        check_title();
        spec_check(vt->state == 0, "T12:the request is complete");
        break;
    case ENDESC:
        mk_text();
        vt->l_osc = rec_osc;
        put2(27, '\\');
        check_title();
        spec_check(vt->state == 0, "T12:the request is complete");
        break;
    case CANCEL:
        mk_text();
        vt->l_osc = rec_osc;
        put(nd_bool("can") ? 24 : 26);
        spec_check(!nosc && vt->state == 0, "T12:a cancelled string is not delivered");
        break;
    case CANCELLED:
        /* a malformed string command swallows its text, and the next one starts afresh */
        vt->l_osc = rec_osc;
        put2(27, ']');
        spec_assume(!control(b) && !(b >= '0' && b <= '9') && b != ';');
        put(b);
        b = nd_u8("byte");
        spec_assume(!control(b));
        put(b);
        spec_check(vt->state == 9 && !nosc, "T12:a malformed string command swallows its text");
        put(7);
        spec_check(vt->state == 0 && !nosc, "T12:a malformed string command has no effect");
        break;
    }
    spec_cover("mode");
    check_rest(c >= BADESC ? "T12:sequences without a meaning and strings leave the terminal alone" : L_MODE);
    check_screen("T12:the screen stays");
}
