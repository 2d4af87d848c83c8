/* The part of shim.c that drivers need when they use the real dynamic linker. */
#define _GNU_SOURCE 1
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

void shim_log(const char *fmt, ...)
{
    static char logbuf[65536];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(logbuf, sizeof(logbuf), fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof(logbuf)) n = sizeof(logbuf) - 1;
    for (int o = 0; o < n; ) {
        ssize_t w = write(1, logbuf + o, n - o);
        if (w <= 0) _exit(99);
        o += w;
    }
}

const char *shim_hex(const char *s)
{
    static char bufs[8][45000];
    static int k;
    char *b = bufs[k++ & 7];
    if (!s) return "-";
    char *p = b;
    *p++ = '=';
    for (size_t i = 0; s[i] && i < 20000; i++) p += sprintf(p, "%02x", (unsigned char)s[i]);
    *p = 0;
    return b;
}

char *shim_unhex(const char *t)
{
    if (!t || t[0] != '=') return NULL;
    size_t n = strlen(t + 1) / 2;
    char *r = (char *)malloc(n + 1);
    for (size_t i = 0; i < n; i++) { unsigned v; sscanf(t + 1 + 2 * i, "%2x", &v); r[i] = (char)v; }
    r[n] = 0;
    return r;
}

int shim_cmd(int argc, char **argv)
{
    if (strcmp(argv[0], "cd") == 0) {
        char *d = shim_unhex(argv[1]);
        if (chdir(d) != 0) _exit(96);
        free(d);
        return 1;
    }
    (void)argc;
    return 0;
}

void shim_script(void (*cb)(int, char **))
{
    size_t cap = 1 << 23, n = 0;
    char *b = (char *)malloc(cap + 1);
    ssize_t r;
    while ((r = read(0, b + n, cap - n)) > 0) n += (size_t)r;
    b[n] = 0;
    char *save1 = NULL;
    for (char *l = strtok_r(b, "\n", &save1); l; l = strtok_r(NULL, "\n", &save1)) {
        char *argv[16], *save2 = NULL;
        int argc = 0;
        for (char *t = strtok_r(l, " ", &save2); t && argc < 15; t = strtok_r(NULL, " ", &save2)) argv[argc++] = t;
        argv[argc] = NULL;
        if (argc && !shim_cmd(argc, argv)) cb(argc, argv);
    }
}
