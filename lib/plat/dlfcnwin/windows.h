/* model of the part of the Windows headers that the generated code needs beside dlfcn-win32; see shim.c */
#ifndef MOCK_WINDOWS_H
#define MOCK_WINDOWS_H
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned int DWORD;
typedef unsigned int UINT;
typedef struct HINSTANCE__ *HMODULE;
typedef void *HWND;
#define MB_OK 0u
#define MB_ICONERROR 0x10u
DWORD GetModuleFileNameA(HMODULE h, char *buf, DWORD n);
DWORD GetModuleFileNameW(HMODULE h, wchar_t *buf, DWORD n);
int MessageBoxA(HWND w, const char *text, const char *cap, UINT type);
int MessageBoxW(HWND w, const wchar_t *text, const wchar_t *cap, UINT type);
/* C library of Windows */
#define _TRUNCATE ((size_t)-1)
static inline int _snprintf_s(char *dst, size_t n, size_t count, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = vsnprintf(dst, n, fmt, ap);
    va_end(ap);
    if (count != _TRUNCATE) abort();
    return r < 0 || (size_t)r >= n ? -1 : r;
}
static inline int fprintf_s(FILE *f, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = vfprintf(f, fmt, ap);
    va_end(ap);
    return r;
}
int _snwprintf_s(wchar_t *dst, size_t n, size_t count, const wchar_t *fmt, ...);
int fwprintf_s(FILE *f, const wchar_t *fmt, ...);
#ifdef __cplusplus
}
template<typename T, size_t N> constexpr size_t win_countof(T (&)[N]) { return N; }
# define _countof(x) win_countof(x)
#else
# define _countof(x) (sizeof(x) / sizeof((x)[0]))
#endif
#ifdef UNICODE
# define GetModuleFileName GetModuleFileNameW
# define MessageBox MessageBoxW
#else
# define GetModuleFileName GetModuleFileNameA
# define MessageBox MessageBoxA
#endif
#define _strdup strdup
#define _wcsdup wcsdup
#endif
