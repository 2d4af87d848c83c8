/* A simulated dynamic linker: every dl*() call of the program under test ends up here (ld --wrap), is
 * answered according to a script and written to the log. Handles are never reused, so closing twice or
 * using a closed handle shows up. */
#define _GNU_SOURCE 1
#include <dlfcn.h>
#include <link.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#ifndef HEXMAX
# define HEXMAX 40000
#endif
#define MAXLIB 16
#define MAXSYM 80
#define MAXH 4096

/* the names of the symbols, given by the driver */
extern const char *shim_names[];
extern const int shim_count;
/* real addresses for the symbols of library k (functions of the driver), or NULL */
void *shim_real(int lib, int sym) __attribute__((weak));

static struct { char *name; unsigned char has[MAXSYM]; char *path; } libs[MAXLIB];
static int nlibs;
static char mem[MAXLIB][MAXSYM + 1][16];
static struct { int lib; int open; char tag[8]; struct link_map lm; } hs[MAXH];
static int nh;
static char pending[20000];
static int have_pending;
static int errno_no;
static size_t errlen;
static int nulls; /* dlsym() failures that leave no message */

enum { F_OPEN, F_CLOSE, F_SYM, F_INFO, F_ADDR, F_ATEXIT, F_N };
static const char *fnames[] = { "open", "close", "sym", "info", "addr", "atexit" };
static char *faults[F_N];

static char *maps_text;
static int maps_fail;
static int lname_mode; /* 0: the path of the library, 1: NULL, 2: empty, 3: dlinfo leaves lm NULL */

static char logbuf[2 * HEXMAX + 26000];

void shim_log(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(logbuf, sizeof(logbuf), fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof(logbuf)) n = sizeof(logbuf) - 1;
    for (int o = 0; o < n; ) {
        ssize_t w = write(1, logbuf + o, n - o);
        if (w <= 0) _exit(99);
        o += w;
    }
}

/* "-" is NULL, otherwise "=" and the text in hexadecimal */
const char *shim_hex(const char *s)
{
    static char bufs[8][2 * HEXMAX + 5000];
    static int k;
    char *b = bufs[k++ & 7];
    if (!s) return "-";
    char *p = b;
    *p++ = '=';
    for (size_t i = 0; s[i] && i < HEXMAX; i++) p += sprintf(p, "%02x", (unsigned char)s[i]);
    *p = 0;
    return b;
}

char *shim_unhex(const char *t)
{
    if (!t || t[0] != '=') return NULL;
    size_t n = strlen(t + 1) / 2;
    char *r = (char *)malloc(n + 1);
    for (size_t i = 0; i < n; i++) { unsigned v; sscanf(t + 1 + 2 * i, "%2x", &v); r[i] = (char)v; }
    r[n] = 0;
    return r;
}

static int fault(int f)
{
    if (!faults[f] || !*faults[f]) return 0;
    return *faults[f]++ == '1';
}

static const char *set_err(const char *what, const char *arg)
{
    int n = snprintf(pending, sizeof(pending), "E%d:%s:%s%%s", ++errno_no, what, arg ? arg : "(null)");
    if (n < 0) n = 0;
    if ((size_t)n > 19000) n = 19000;
    while ((size_t)n < errlen && n < 19000) pending[n++] = 'x';
    pending[n] = 0;
    have_pending = 1;
    return pending;
}

static int find_lib(const char *name)
{
    for (int i = 0; i < nlibs; i++) if (strcmp(libs[i].name, name) == 0) return i;
    return -1;
}

static void *do_open(const char *what, const char *name, int flags)
{
    int l = name ? find_lib(name) : -1;
    if (l < 0 || fault(F_OPEN)) {
        set_err("open", name);
        shim_log("D %s %s %d 0 %s\n", what, shim_hex(name), flags, shim_hex(pending));
        return NULL;
    }
    int h = nh++;
    if (nh >= MAXH) _exit(98);
    hs[h].lib = l;
    hs[h].open = 1;
    hs[h].lm.l_name = libs[l].path;
    hs[h].lm.l_addr = 0x10000000u + 0x100000u * (unsigned)h;
    shim_log("D %s %s %d h%d -\n", what, shim_hex(name), flags, h);
    return &hs[h];
}

static int handle_no(void *p)
{
    for (int i = 0; i < nh; i++) if (p == &hs[i]) return i;
    return -1;
}

/* number of a handle of this linker, -1: NULL, -2: something else */
int shim_handle(void *p) { int h = p ? handle_no(p) : -1; return p && h < 0 ? -2 : h; }

/* number of the library whose symbol i is at p, -1: NULL, -2: something else */
int shim_sym(int i, void *p)
{
    if (!p) return -1;
    for (int l = 0; l < nlibs; l++) {
        void *a = shim_real ? shim_real(l, i) : NULL;
        if (!a) a = mem[l][i];
        if (a == p) return l;
    }
    return -2;
}

void *__wrap_dlopen(const char *name, int flags) { return do_open("dlopen", name, flags); }
void *__wrap_dlmopen(long ns, const char *name, int flags) { (void)ns; return do_open(ns == -1 ? "dlmopen" : "dlmopenX", name, flags); }

int __wrap_dlclose(void *p)
{
    int h = handle_no(p);
    if (h < 0 || !hs[h].open) {
        shim_log("D dlclose h%d BAD -\n", h);
        return -1;
    }
    if (fault(F_CLOSE)) {
        set_err("close", NULL);
        shim_log("D dlclose h%d 0 %s\n", h, shim_hex(pending));
        return -1;
    }
    hs[h].open = 0;
    shim_log("D dlclose h%d 1 -\n", h);
    return 0;
}

void *__wrap_dlsym(void *p, const char *name)
{
    int h = handle_no(p);
    if (h < 0 || !hs[h].open) {
        shim_log("D dlsym h%d %s BAD -\n", h, shim_hex(name));
        return NULL;
    }
    for (int i = 0; i < shim_count; i++) {
        if (strcmp(shim_names[i], name) == 0) {
            if (!libs[hs[h].lib].has[i] || fault(F_SYM)) break;
            void *a = shim_real ? shim_real(hs[h].lib, i) : NULL;
            if (!a) a = mem[hs[h].lib][i];
            shim_log("D dlsym h%d %s %p -\n", h, shim_hex(name), a);
            return a;
        }
    }
    if (nulls) {
        shim_log("D dlsym h%d %s 0 -\n", h, shim_hex(name));
        return NULL;
    }
    set_err("sym", name);
    shim_log("D dlsym h%d %s 0 %s\n", h, shim_hex(name), shim_hex(pending));
    return NULL;
}

char *__wrap_dlerror(void)
{
    if (!have_pending) return NULL;
    have_pending = 0;
    return pending;
}

int __wrap_dlinfo(void *p, int req, void *out)
{
    int h = handle_no(p);
    if (h < 0 || !hs[h].open || req != RTLD_DI_LINKMAP) {
        shim_log("D dlinfo h%d BAD -\n", h);
        return -1;
    }
    if (fault(F_INFO)) {
        set_err("info", NULL);
        shim_log("D dlinfo h%d 0 %s\n", h, shim_hex(pending));
        return -1;
    }
    if (lname_mode == 1) hs[h].lm.l_name = NULL;
    else if (lname_mode == 2) hs[h].lm.l_name = (char *)"";
    else hs[h].lm.l_name = libs[hs[h].lib].path;
    *(struct link_map **)out = &hs[h].lm;
    shim_log("D dlinfo h%d 1 %s\n", h, shim_hex(hs[h].lm.l_name));
    return 0;
}

int __wrap_dladdr(const void *addr, Dl_info *info)
{
    for (int l = 0; l < nlibs; l++) {
        for (int i = 0; i < shim_count; i++) {
            void *a = shim_real ? shim_real(l, i) : NULL;
            if (!a) a = mem[l][i];
            if (a == addr) {
                if (fault(F_ADDR)) { shim_log("D dladdr 0 -\n"); return 0; }
                memset(info, 0, sizeof(*info));
                info->dli_fname = libs[l].path;
                shim_log("D dladdr 1 %s\n", shim_hex(libs[l].path));
                return 1;
            }
        }
    }
    shim_log("D dladdr BAD -\n");
    return 0;
}

int __real_atexit(void (*f)(void));
int __wrap_atexit(void (*f)(void))
{
    if (fault(F_ATEXIT)) { shim_log("D atexit 0\n"); return -1; }
    shim_log("D atexit 1\n");
    return __real_atexit(f);
}

#ifndef SHIM_EXTRA_CMD
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m)
{
    if (strcmp(p, "/proc/self/maps") == 0) {
        if (maps_fail) { shim_log("D maps 0\n"); return NULL; }
        shim_log("D maps 1\n");
        if (!maps_text || !*maps_text) return __real_fopen("/dev/null", "r");
        return fmemopen(maps_text, strlen(maps_text), "r");
    }
    return __real_fopen(p, m);
}
#endif

#ifndef SHIM_EXTRA_CMD
/* ---- Linux 6.11: ioctl(PROCMAP_QUERY) on /proc/self/maps, answered from the text of the script */
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include "plat/procmap/linux/fs.h"
static int pq_mode; /* 0: works, 1: the kernel does not know it, 2: the file cannot be opened */
static int pq_fd = -1;
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...)
{
    int m = 0;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    if (strcmp(p, "/proc/self/maps") != 0) return __real_open(p, fl, m);
    if (pq_mode == 2 || maps_fail || (fl & O_ACCMODE) != O_RDONLY) { shim_log("D mapsfd 0\n"); return -1; }
    if (pq_fd != -1) shim_log("LEAK mapsfd\n");
    pq_fd = __real_open("/dev/null", O_RDONLY);
    shim_log("D mapsfd 1\n");
    return pq_fd;
}
int __real_close(int fd);
int __wrap_close(int fd)
{
    if (fd != -1 && fd == pq_fd) pq_fd = -1;
    return __real_close(fd);
}
void shim_fdcheck(void) { if (pq_fd != -1) shim_log("LEAK mapsfd\n"); }
int __wrap_ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    struct procmap_query *q = va_arg(ap, struct procmap_query *);
    va_end(ap);
    if (fd == -1 || fd != pq_fd || req != PROCMAP_QUERY || q->size < 104 || (q->query_flags & ~0x3ful) || !q->vma_name_size != !q->vma_name_addr || !q->build_id_size != !q->build_id_addr) { shim_log("D query BAD\n"); errno = EINVAL; return -1; }
    if (pq_mode == 1) { shim_log("D query 0\n"); errno = ENOTTY; return -1; }
    int next = (q->query_flags & PROCMAP_QUERY_COVERING_OR_NEXT_VMA) != 0;
    for (const char *l = maps_text; l && *l; l = strchr(l, '\n') ? strchr(l, '\n') + 1 : NULL) {
        unsigned long a, z, ino;
        char mode[8];
        int at = 0;
        if (sscanf(l, "%lx-%lx %7s %*x %*x:%*x %lu%n", &a, &z, mode, &ino, &at) < 4) continue;
        if (!(q->query_addr < z && (next || q->query_addr >= a))) continue;
        if (((q->query_flags & 0x20) && ino == 0) || ((q->query_flags & 1) && mode[0] != 'r') || ((q->query_flags & 2) && mode[1] != 'w') || ((q->query_flags & 4) && mode[2] != 'x') || ((q->query_flags & 8) && mode[3] != 's')) { if (next) continue; break; }
        l += at;
        while (*l == ' ') l++;
        size_t n = strcspn(l, "\n");
        q->vma_start = a; q->vma_end = z; q->inode = ino;
        if (q->vma_name_size) {
            if (n && (n + 1 > q->vma_name_size || n + 1 > 4096)) { shim_log("D query 0\n"); errno = ENAMETOOLONG; return -1; }
            if (n) { memcpy((char *)(size_t)q->vma_name_addr, l, n); ((char *)(size_t)q->vma_name_addr)[n] = 0; }
            q->vma_name_size = n ? (unsigned)n + 1 : 0;
        }
        q->build_id_size = 0;
        shim_log("D query 1\n");
        return 0;
    }
    shim_log("D query 0\n");
    errno = ENOENT;
    return -1;
}

/* ---- AIX: loadquery(); every loaded library has an entry, in the order and with the neighbours the script wants */
#include "plat/aix/sys/ldr.h"
static int ld_mode; /* bit 0: symbols in the text section, bit 1: newest first, bit 2: neighbours, bit 3: no main program */
static char *ld_put(char *p, char *end, char **lastp, const char *name, void *to, unsigned long ts, void *dorg, unsigned long ds)
{
    const char *m = strchr(name, '('), *e = strrchr(name, ')');
    size_t nl = strlen(name), ml = 0;
    if (m && e && e[1] == 0 && e > m) { nl = (size_t)(m - name); ml = (size_t)(e - m - 1); } else m = NULL;
    size_t need = (offsetof(struct ld_info, ldinfo_filename) + nl + ml + 2 + 7) & ~(size_t)7;
    if (!p || need < sizeof(struct ld_info)) need = sizeof(struct ld_info);
    if (!p || need > (size_t)(end - p)) return NULL;
    struct ld_info *i = (struct ld_info *)p;
    memset(p, 0, need);
    i->ldinfo_next = (unsigned)need;
    i->ldinfo_textorg = to; i->ldinfo_textsize = ts; i->ldinfo_dataorg = dorg; i->ldinfo_datasize = ds;
    char *f = p + offsetof(struct ld_info, ldinfo_filename);
    memcpy(f, name, nl); f[nl] = 0;
    if (m) memcpy(f + nl + 1, m + 1, ml);
    f[nl + 1 + ml] = 0;
    *lastp = p;
    return p + need;
}
int loadquery(int flags, void *buffer, unsigned int length)
{
    if (flags != L_GETINFO || fault(F_INFO)) { shim_log("D loadquery %s\n", flags != L_GETINFO ? "BAD" : "0"); return -1; }
    char *p = (char *)buffer, *end = p + length, *last = NULL;
    memset(p, 0xEE, length);
    static char prog[64], other[64];
    if (!(ld_mode & 8)) p = ld_put(p, end, &last, "/prog", prog, sizeof prog, other, sizeof other);
    for (int k = 0; k < nlibs; k++) {
        int l = ld_mode & 2 ? nlibs - 1 - k : k, used = 0;
        for (int h = 0; h < nh; h++) used |= hs[h].open && hs[h].lib == l;
        if (!used) continue;
        char *a = mem[l][0], *z = mem[l][shim_count - 1] + 1;
        if (ld_mode & 4) p = ld_put(p, end, &last, "/other/before.a(x.o)", a - 32, 32, NULL, 0);
        if (ld_mode & 4) p = ld_put(p, end, &last, "/other/empty.a", a, 0, a, 0);
        p = ld_mode & 1 ? ld_put(p, end, &last, libs[l].path, a, (unsigned long)(z - a), other, 1) : ld_put(p, end, &last, libs[l].path, prog + 32, 1, a, (unsigned long)(z - a));
        if (ld_mode & 4) p = ld_put(p, end, &last, "/other/after.a", z, 32, other, 1);
    }
    if (!p || !last) { shim_log("D loadquery 0\n"); return -1; }
    ((struct ld_info *)last)->ldinfo_next = 0;
    shim_log("D loadquery 1\n");
    return 0;
}

/* ---- dlfcn-win32: a handle is an HMODULE */
unsigned int GetModuleFileNameA(void *p, char *buf, unsigned int n)
{
    int h = handle_no(p);
    if (h < 0 || !hs[h].open) { shim_log("D modname h%d BAD\n", h); return 0; }
    if (fault(F_INFO)) { shim_log("D modname h%d 0\n", h); return 0; }
    size_t l = strlen(libs[hs[h].lib].path);
    shim_log("D modname h%d 1\n", h);
    if (l >= n) { memcpy(buf, libs[hs[h].lib].path, n); if (n) buf[n - 1] = 0; return n; }
    memcpy(buf, libs[hs[h].lib].path, l + 1);
    return (unsigned)l;
}
int MessageBoxA(void *w, const char *text, const char *cap, unsigned type) { (void)w; (void)cap; (void)type; shim_log("BOX %s\n", shim_hex(text)); return 1; }
#endif

/* script commands of the simulation; returns 1 if it was one */
int shim_cmd(int argc, char **argv)
{
    if (strcmp(argv[0], "lib") == 0) {
        /* lib <hexname> <bits> <hexpath> */
        int k = nlibs++;
        if (nlibs > MAXLIB) _exit(97);
        libs[k].name = shim_unhex(argv[1]);
        for (int i = 0; argv[2][i] && i < MAXSYM; i++) libs[k].has[i] = argv[2][i] == '1';
        libs[k].path = argc > 3 ? shim_unhex(argv[3]) : libs[k].name;
        return 1;
    }
#ifdef SHIM_EXTRA_CMD
    if (SHIM_EXTRA_CMD(argc, argv)) return 1;
#endif
    if (strcmp(argv[0], "faults") == 0) {
        for (int f = 0; f < F_N; f++) if (strcmp(argv[1], fnames[f]) == 0) faults[f] = argc > 2 ? strdup(argv[2]) : NULL;
        return 1;
    }
    if (strcmp(argv[0], "errlen") == 0) { errlen = (size_t)atoi(argv[1]); return 1; }
#ifndef SHIM_EXTRA_CMD
    if (strcmp(argv[0], "ldmode") == 0) { ld_mode = atoi(argv[1]); return 1; }
#endif
    if (strcmp(argv[0], "nulls") == 0) { nulls = atoi(argv[1]); return 1; }
    if (strcmp(argv[0], "lname") == 0) { lname_mode = atoi(argv[1]); return 1; }
#ifndef SHIM_EXTRA_CMD
    if (strcmp(argv[0], "pq") == 0) { pq_mode = atoi(argv[1]); return 1; }
#endif
    if (strcmp(argv[0], "maps") == 0) {
        /* maps fail | maps =hex ; "@" followed by a digit is replaced below by the address range of the newest handle */
        maps_fail = strcmp(argv[1], "fail") == 0;
        maps_text = maps_fail ? NULL : shim_unhex(argv[1]);
        return 1;
    }
    /* text that a careless program could take for its own error */
    if (strcmp(argv[0], "stale") == 0) { set_err("stale", NULL); shim_log("T stale %s\n", shim_hex(pending)); return 1; }
    return 0;
}

/* read the script from stdin: calls cb for each line; */
void shim_script(void (*cb)(int, char **))
{
    size_t cap = 1 << 23, n = 0;
    char *b = (char *)malloc(cap + 1);
    ssize_t r;
    while ((r = read(0, b + n, cap - n)) > 0) n += (size_t)r;
    b[n] = 0;
    char *save1 = NULL;
    for (char *l = strtok_r(b, "\n", &save1); l; l = strtok_r(NULL, "\n", &save1)) {
        char *argv[16], *save2 = NULL;
        int argc = 0;
        for (char *t = strtok_r(l, " ", &save2); t && argc < 15; t = strtok_r(NULL, " ", &save2)) argv[argc++] = t;
        argv[argc] = NULL;
        if (argc && !shim_cmd(argc, argv)) {
            cb(argc, argv);
#ifndef SHIM_EXTRA_CMD
            shim_fdcheck();
#endif
        }
    }
}
