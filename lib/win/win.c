/* a simulated Win32 loader: the same script and log as shim.c. Error codes are unique (20000 + number),
 * and every successful call leaves a misleading code behind, as the documentation of Windows allows. */
#define HEXMAX 90000
static int win_cmd(int argc, char **argv);
#define SHIM_EXTRA_CMD win_cmd
#include "../shim.c"
#include <errno.h>
#include <locale.h>
#include "windows.h"

#define BASE 20000u
#define MAXERR 4000
static char *texts[MAXERR];
static char arena[1 << 26];
static size_t used;
static DWORD last;
static void *bufs[64];
static int nbufs;

__attribute__((constructor)) static void init(void) { setlocale(LC_ALL, "C.UTF-8"); }

static const char *fail_with(const char *what, const char *arg)
{
    set_err(what, arg);
    /* system texts are valid in any character set */
    if (mbstowcs(NULL, pending, 0) == (size_t)-1) for (char *p = pending; *p; p++) if (*p & 0x80) *p = '?';
    if (errno_no >= MAXERR) _exit(96);
    texts[errno_no] = strcpy(arena + used, pending);
    used += strlen(pending) + 1;
    if (used + 20000 > sizeof(arena)) _exit(96);
    last = BASE + (DWORD)errno_no;
    return pending;
}
static void garble(void) { fail_with("garbage", NULL); }

static char *narrow(const wchar_t *w)
{
    static char b[4][200000];
    static int k;
    char *p = b[k++ & 3];
    if (!w) return NULL;
    if (wcstombs(p, w, 200000) == (size_t)-1) strcpy(p, "?unconvertible");
    return p;
}

/* file names are the same with either kind of slash */
static int find_lib_win(const char *name)
{
    for (int i = 0; i < nlibs; i++) {
        const char *a = name, *b = libs[i].name;
        for (; *a && *b && (*a == *b || (strchr("/\\", *a) && strchr("/\\", *b))); a++, b++) {}
        if (!*a && !*b) return i;
    }
    return -1;
}

static HMODULE win_open(const char *name, DWORD flags, char aw, HANDLE file)
{
    int l = name ? find_lib_win(name) : -1;
    if (l < 0 || fault(F_OPEN)) {
        fail_with("open", name);
        shim_log("D dlopen %s %d 0 %s %c%s\n", shim_hex(name), (int)flags, shim_hex(pending), aw, file ? "F" : "");
        return NULL;
    }
    int h = nh++;
    if (nh >= MAXH) _exit(98);
    hs[h].lib = l;
    hs[h].open = 1;
    shim_log("D dlopen %s %d h%d - %c%s\n", shim_hex(name), (int)flags, h, aw, file ? "F" : "");
    garble();
    return (HMODULE)&hs[h];
}
HMODULE LoadLibraryA(const char *name) { return win_open(name, 1, 'A', NULL); }
HMODULE LoadLibraryW(const wchar_t *name) { return win_open(narrow(name), 1, 'W', NULL); }
HMODULE LoadLibraryExA(const char *name, HANDLE file, DWORD flags) { return win_open(name, flags, 'A', file); }
HMODULE LoadLibraryExW(const wchar_t *name, HANDLE file, DWORD flags) { return win_open(narrow(name), flags, 'W', file); }

FARPROC GetProcAddress(HMODULE p, const char *name)
{
    int h = handle_no(p);
    if (h < 0 || !hs[h].open) {
        shim_log("D dlsym h%d %s BAD -\n", h, shim_hex(name));
        fail_with("badhandle", NULL);
        return NULL;
    }
    for (int i = 0; i < shim_count; i++) {
        if (strcmp(shim_names[i], name) == 0) {
            if (!libs[hs[h].lib].has[i] || fault(F_SYM)) break;
            void *a = shim_real ? shim_real(hs[h].lib, i) : NULL;
            if (!a) a = mem[hs[h].lib][i];
            shim_log("D dlsym h%d %s %p -\n", h, shim_hex(name), a);
            garble();
            return (FARPROC)a;
        }
    }
    fail_with("sym", name);
    shim_log("D dlsym h%d %s 0 %s\n", h, shim_hex(name), shim_hex(pending));
    return NULL;
}

BOOL FreeLibrary(HMODULE p)
{
    int h = handle_no(p);
    if (h < 0 || !hs[h].open) {
        shim_log("D dlclose h%d BAD -\n", h);
        fail_with("badhandle", NULL);
        return FALSE;
    }
    if (fault(F_CLOSE)) {
        fail_with("close", NULL);
        shim_log("D dlclose h%d 0 %s\n", h, shim_hex(pending));
        return FALSE;
    }
    hs[h].open = 0;
    shim_log("D dlclose h%d 1 -\n", h);
    garble();
    return TRUE;
}

DWORD GetLastError(void) { return last; }
void SetLastError(DWORD e) { last = e; }

static const char *module_path(HMODULE p, DWORD n)
{
    int h = handle_no(p);
    if (h < 0 || !hs[h].open) {
        shim_log("D dlinfo h%d BAD -\n", h);
        fail_with("badhandle", NULL);
        return NULL;
    }
    if (fault(F_INFO)) {
        fail_with("info", NULL);
        shim_log("D dlinfo h%d 0 %s\n", h, shim_hex(pending));
        return NULL;
    }
    (void)n;
    return libs[hs[h].lib].path;
}
DWORD GetModuleFileNameA(HMODULE p, char *buf, DWORD n)
{
    const char *t = module_path(p, n);
    if (!t) return 0;
    size_t l = strlen(t);
    int h = handle_no(p);
    if (l < n) {
        memcpy(buf, t, l + 1);
        shim_log("D dlinfo h%d 1 %s\n", h, shim_hex(t));
        garble();
        return (DWORD)l;
    }
    memcpy(buf, t, n - 1);
    buf[n - 1] = 0;
    fail_with("trunc", NULL);
    shim_log("D dlinfo h%d 0 %s\n", h, shim_hex(pending));
    return n;
}
DWORD GetModuleFileNameW(HMODULE p, wchar_t *buf, DWORD n)
{
    const char *t = module_path(p, n);
    if (!t) return 0;
    size_t l = mbstowcs(NULL, t, 0);
    int h = handle_no(p);
    if (l < n) {
        mbstowcs(buf, t, n);
        shim_log("D dlinfo h%d 1 %s\n", h, shim_hex(t));
        garble();
        return (DWORD)l;
    }
    mbstowcs(buf, t, n - 1);
    buf[n - 1] = 0;
    fail_with("trunc", NULL);
    shim_log("D dlinfo h%d 0 %s\n", h, shim_hex(pending));
    return n;
}

static const char *sys_text(DWORD id)
{
    switch (id) {
    case 0: return "The operation completed successfully. ";
    case ERROR_INVALID_HANDLE: return "The handle is invalid. ";
    case ERROR_INVALID_PARAMETER: return "The parameter is incorrect. ";
    case ERROR_INVALID_NAME: return "The filename, directory name, or volume label syntax is incorrect. ";
    case ERROR_NOT_FOUND: return "Element not found. ";
    }
    if (id > BASE && id <= BASE + (DWORD)errno_no) return texts[id - BASE];
    return NULL;
}
static int format_args(DWORD flags, const void *src, DWORD n, void *args)
{
    /* buffers for the whole message, no inserts, from the system */
    if ((flags & 0x100) && (flags & 0x200) && (flags & 0x1000) && !src && !args && n == 0) return 1;
    shim_log("D FormatMessage BAD\n");
    return 0;
}
static int nofmt;
DWORD FormatMessageA(DWORD flags, const void *src, DWORD id, DWORD lang, char *buf, DWORD n, void *args)
{
    const char *t = sys_text(id);
    (void)lang;
    if (!format_args(flags, src, n, args) || nofmt || !t) { garble(); return 0; }
    if (nbufs >= 64) { shim_log("D LocalFree BAD\n"); _exit(95); }
    *(char **)buf = strdup(t);
    bufs[nbufs++] = *(char **)buf;
    garble();
    return (DWORD)strlen(t);
}
DWORD FormatMessageW(DWORD flags, const void *src, DWORD id, DWORD lang, wchar_t *buf, DWORD n, void *args)
{
    const char *t = sys_text(id);
    (void)lang;
    if (!format_args(flags, src, n, args) || nofmt || !t) { garble(); return 0; }
    if (nbufs >= 64) { shim_log("D LocalFree BAD\n"); _exit(95); }
    size_t l = strlen(t);
    wchar_t *w = (wchar_t *)calloc(l + 1, sizeof(wchar_t));
    mbstowcs(w, t, l + 1);
    *(wchar_t **)buf = w;
    bufs[nbufs++] = w;
    garble();
    return (DWORD)wcslen(w);
}
HLOCAL LocalFree(HLOCAL p)
{
    if (!p) return NULL;
    for (int i = 0; i < nbufs; i++) {
        if (bufs[i] == p) {
            bufs[i] = bufs[--nbufs];
            memset(p, 0x58, 1);
            free(p);
            garble();
            return NULL;
        }
    }
    shim_log("D LocalFree BAD\n");
    return p;
}
wchar_t *win_wcsdup(const wchar_t *s)
{
    size_t n = wcslen(s) + 1;
    return wmemcpy((wchar_t *)malloc(n * sizeof(wchar_t)), s, n);
}
int win_buffers(void) { return nbufs; }
void win_nofmt(int v) { nofmt = v; }
static int win_cmd(int argc, char **argv) { if (strcmp(argv[0], "nofmt")) return 0; nofmt = atoi(argv[1]); return 1; }

int MessageBoxA(HWND w, const char *text, const char *cap, UINT type) { (void)w; shim_log("BOX %s %s %u\n", shim_hex(text), shim_hex(cap), type); return 1; }
int MessageBoxW(HWND w, const wchar_t *text, const wchar_t *cap, UINT type) { (void)w; shim_log("BOX %s %s %u\n", shim_hex(narrow(text)), shim_hex(narrow(cap)), type); return 1; }

int mbstowcs_s(size_t *ret, wchar_t *dst, size_t n, const char *src, size_t count)
{
    size_t l = mbstowcs(NULL, src, 0);
    (void)count;
    garble();
    if (l == (size_t)-1) { if (ret) *ret = 0; if (dst && n) dst[0] = 0; return EILSEQ; }
    if (!dst) { if (ret) *ret = l + 1; return 0; }
    if (n == 0) return EINVAL;
    wchar_t *t = (wchar_t *)calloc(l + 1, sizeof(wchar_t));
    mbstowcs(t, src, l + 1);
    size_t k = l < n ? l : n - 1;
    wmemcpy(dst, t, k);
    dst[k] = 0;
    free(t);
    if (ret) *ret = k + 1;
    return k < l ? 80 : 0; /* STRUNCATE */
}
int wcstombs_s(size_t *ret, char *dst, size_t n, const wchar_t *src, size_t count)
{
    size_t l = wcstombs(NULL, src, 0);
    (void)count;
    garble();
    if (l == (size_t)-1) { if (ret) *ret = 0; if (dst && n) dst[0] = 0; return EILSEQ; }
    if (!dst) { if (ret) *ret = l + 1; return 0; }
    if (n == 0) return EINVAL;
    char *t = (char *)calloc(l + 1, 1);
    wcstombs(t, src, l + 1);
    size_t k = l < n ? l : n - 1;
    memcpy(dst, t, k);
    dst[k] = 0;
    free(t);
    if (ret) *ret = k + 1;
    return k < l ? 80 : 0;
}

#define BIG 400000
int win_snprintf(char *dst, size_t n, size_t count, const char *fmt, ...)
{
    static char b[BIG];
    va_list ap;
    (void)count;
    va_start(ap, fmt);
    int l = vsnprintf(b, BIG, fmt, ap);
    va_end(ap);
    if (l < 0 || l >= BIG) _exit(94);
    if ((size_t)l < n) { memcpy(dst, b, (size_t)l + 1); return l; }
    memcpy(dst, b, n - 1);
    dst[n - 1] = 0;
    return -1;
}
/* %s is a wide and %hs a narrow string here */
static const wchar_t *wfmt(const wchar_t *f)
{
    static wchar_t b[2000];
    size_t o = 0;
    for (; *f && o < 1990; f++) {
        if (f[0] == L'%' && f[1] == L'%') { b[o++] = *f++; b[o++] = *f; }
        else if (f[0] == L'%' && f[1] == L's') { b[o++] = L'%'; b[o++] = L'l'; b[o++] = L's'; f++; }
        else if (f[0] == L'%' && f[1] == L'h' && f[2] == L's') { b[o++] = L'%'; b[o++] = L's'; f += 2; }
        else if (f[0] == L'%' && f[1] == L'S') { b[o++] = L'%'; b[o++] = L's'; f++; }
        else b[o++] = *f;
    }
    b[o] = 0;
    return b;
}
int win_snwprintf(wchar_t *dst, size_t n, size_t count, const wchar_t *fmt, ...)
{
    static wchar_t b[BIG];
    va_list ap;
    (void)count;
    va_start(ap, fmt);
    int l = vswprintf(b, BIG, wfmt(fmt), ap);
    va_end(ap);
    if (l < 0) { dst[0] = 0; return -1; }
    if ((size_t)l < n) { wmemcpy(dst, b, (size_t)l + 1); return l; }
    wmemcpy(dst, b, n - 1);
    dst[n - 1] = 0;
    return -1;
}
int win_fprintf(FILE *f, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int l = vfprintf(f, fmt, ap);
    va_end(ap);
    return l;
}
int win_fwprintf(FILE *f, const wchar_t *fmt, ...)
{
    static wchar_t b[BIG];
    va_list ap;
    va_start(ap, fmt);
    int l = vswprintf(b, BIG, wfmt(fmt), ap);
    va_end(ap);
    if (l >= 0) fputs(narrow(b), f);
    return l;
}
int win_fputwc(wchar_t c, FILE *f) { fputc((int)c, f); return c; }
