#include "config.h"
#include "spec.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/time.h>
#include "libtty/ttyrec.h"
#include "libstream/stream.h"

/* The telnet protocol, byte by byte: what has been begun, and what a byte adds to the data. */
static int g_state, g_verb, g_sub;  /* 0 data, 1 IAC, 2 IAC verb, 3 IAC SB, 4 in a subnegotiation, 5 IAC in it */
static unsigned char g_exp[1 << 14];
static int g_n, g_pos, left, closed;

static void expect(int c)
{
    g_exp[g_n++] = c;
}

static void ref(int c)
{
    switch (g_state)
    {
    case 0:
        if (c == 255)
            g_state = 1;
        else
            expect(c);
        break;
    case 1:
        switch (c)
        {
        case 255:
            expect(255);
            g_state = 0;
            break;
        case 251:
            g_verb = 251, g_state = 2;
            break;
        case 252:
            g_verb = 252, g_state = 2;
            break;
        case 253:
            g_verb = 253, g_state = 2;
            break;
        case 254:
            g_verb = 254, g_state = 2;
            break;
        case 250:
            g_state = 3;
            break;
        default:
            g_state = 0;
        }
        break;
    case 2:
        g_verb = 0;
        g_state = 0;
        break;
    case 3:
        g_state = 4;
        g_sub = 0;
        break;
    case 4:
        if (c == 255)
            g_state = 5;
        else if (++g_sub > 64)  /* nothing real is this long: taken as not ended */
            g_sub = g_state = 0;
        break;
    case 5:
        if (c == 240)
            g_sub = g_state = 0;
        else
            g_state = 4;
        break;
    }
}

#define SOCK 71
#define OUT 72

/* any bytes, in reads of any length (natively), of one, two or three bytes (under the verifier, any number of them) */
ssize_t contract_recv(int s, void *b, size_t n, int flags)
{
    unsigned char *p = b;
    spec_check(s == SOCK && n >= 3, "R05:the socket is read");
    spec_check(g_pos == g_n, "R05:no data is held back when the stream pauses");
    g_pos = g_n = 0;
    int k = spec_case() % 3 + 1;
    if (spec_symbolic() || spec_replay())
    {
        if (!spec_proof() && !left--)
            return 0;
        if (nd_bool("end"))
            return nd_bool("error") ? -1 : 0;
    }
    else
    {
        if (!left--)
            return nd_bool("error") ? -1 : 0;
        k = nd_bool("long") ? nd_range("k", 1, n) : nd_range("k", 1, 20);
    }
    for (int i = 0; i < k; i++)
    {
        int c = nd_u8("byte");
        if (!spec_symbolic() && !spec_replay())
        {
            int how = nd_range("how", 0, 3);
            if (how == 0)
                c = 255;
            else if (how == 1 && g_state != 4)
                c = 236 + c % 20;
            else if (g_state == 4 && c == 255 && nd_range("stay", 0, 7))
                c = 1;
        }
        p[i] = c;
        ref(c);
    }
    return k;
}

ssize_t contract_write(int fd, const void *b, size_t n)
{
    const unsigned char *p = b;
    spec_check(fd == OUT, "R05:the data goes to the output");
    spec_check(n <= (size_t)(g_n - g_pos), "R05:nothing is added to the data");
    for (size_t i = 0; i < n; i++)
        spec_check(p[i] == g_exp[g_pos + i], "R05:the data is the stream with commands removed and doubled bytes restored");
    g_pos += n;
    if (g_pos == g_n)
        g_pos = g_n = 0;
    spec_cover("data");
    return n;
}

ssize_t contract_send(int s, const void *b, size_t n, int flags)
{
    const unsigned char *p = b;
    spec_check(s == SOCK, "R05:replies go to the server");
    for (size_t i = 0; i < n; i++)
        left += p[i] == 300;
    return n;
}

int contract_close(int fd)
{
    closed++;
    return 0;
}

#ifdef SPEC_NATIVE
ssize_t __real_write(int fd, const void *b, size_t n);
int __real_close(int fd);
ssize_t __wrap_recv(int s, void *b, size_t n, int f) { return contract_recv(s, b, n, f); }
ssize_t __wrap_send(int s, const void *b, size_t n, int f) { return contract_send(s, b, n, f); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return fd == OUT ? contract_write(fd, b, n) : __real_write(fd, b, n); }
int __wrap_close(int fd) { return fd == OUT || fd == SOCK ? contract_close(fd) : __real_close(fd); }
#endif

void harness_telnet(void)
{
    g_state = g_verb = g_sub = g_n = g_pos = closed = 0;
    left = spec_symbolic() || spec_replay() ? 3 : nd_range("reads", 0, 9);
    telnet(SOCK, OUT, 0);
    spec_check(g_pos == g_n, "R05:all data is delivered");
    spec_check(closed == 2, "R05:both ends are closed");
    spec_cover("end");
}
