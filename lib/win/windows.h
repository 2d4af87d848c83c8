/* model of the part of the Win32 API that the generated code uses; see win.c */
#ifndef MOCK_WINDOWS_H
#define MOCK_WINDOWS_H
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned int DWORD;
typedef int BOOL;
typedef unsigned int UINT;
typedef struct HINSTANCE__ *HMODULE;
typedef void *HANDLE, *HLOCAL, *LPVOID, *HWND;
typedef long long (*FARPROC)(void);
#define TRUE 1
#define FALSE 0
#define WINAPI
#define ERROR_SUCCESS 0u
#define ERROR_INVALID_HANDLE 6u
#define ERROR_INVALID_PARAMETER 87u
#define ERROR_INSUFFICIENT_BUFFER 122u
#define ERROR_INVALID_NAME 123u
#define ERROR_MOD_NOT_FOUND 126u
#define ERROR_PROC_NOT_FOUND 127u
#define ERROR_NO_UNICODE_TRANSLATION 1113u
#define ERROR_NOT_FOUND 1168u
#define FORMAT_MESSAGE_ALLOCATE_BUFFER 0x100u
#define FORMAT_MESSAGE_IGNORE_INSERTS 0x200u
#define FORMAT_MESSAGE_FROM_SYSTEM 0x1000u
#define FORMAT_MESSAGE_MAX_WIDTH_MASK 0xFFu
#define LANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
#define MAKELANGID(p, s) ((((unsigned short)(s)) << 10) | (unsigned short)(p))
#define MB_OK 0u
#define MB_ICONERROR 0x10u
HMODULE LoadLibraryA(const char *name);
HMODULE LoadLibraryW(const wchar_t *name);
HMODULE LoadLibraryExA(const char *name, HANDLE file, DWORD flags);
HMODULE LoadLibraryExW(const wchar_t *name, HANDLE file, DWORD flags);
FARPROC GetProcAddress(HMODULE h, const char *name);
BOOL FreeLibrary(HMODULE h);
DWORD GetLastError(void);
void SetLastError(DWORD e);
DWORD GetModuleFileNameA(HMODULE h, char *buf, DWORD n);
DWORD GetModuleFileNameW(HMODULE h, wchar_t *buf, DWORD n);
DWORD FormatMessageA(DWORD flags, const void *src, DWORD id, DWORD lang, char *buf, DWORD n, void *args);
DWORD FormatMessageW(DWORD flags, const void *src, DWORD id, DWORD lang, wchar_t *buf, DWORD n, void *args);
HLOCAL LocalFree(HLOCAL p);
int MessageBoxA(HWND w, const char *text, const char *cap, UINT type);
int MessageBoxW(HWND w, const wchar_t *text, const wchar_t *cap, UINT type);
/* C library of Windows */
#define _TRUNCATE ((size_t)-1)
int mbstowcs_s(size_t *ret, wchar_t *dst, size_t n, const char *src, size_t count);
int wcstombs_s(size_t *ret, char *dst, size_t n, const wchar_t *src, size_t count);
int win_snprintf(char *dst, size_t n, size_t count, const char *fmt, ...);
int win_snwprintf(wchar_t *dst, size_t n, size_t count, const wchar_t *fmt, ...);
int win_fprintf(FILE *f, const char *fmt, ...);
int win_fwprintf(FILE *f, const wchar_t *fmt, ...);
int win_fputwc(wchar_t c, FILE *f);
int win_buffers(void);
void win_nofmt(int v);
wchar_t *win_wcsdup(const wchar_t *s);
#ifdef __cplusplus
}
template<typename T, size_t N> constexpr size_t win_countof(T (&)[N]) { return N; }
# define _countof(x) win_countof(x)
#else
# define _countof(x) (sizeof(x) / sizeof((x)[0]))
#endif
#ifdef UNICODE
# define LoadLibrary LoadLibraryW
# define LoadLibraryEx LoadLibraryExW
# define GetModuleFileName GetModuleFileNameW
# define FormatMessage FormatMessageW
# define MessageBox MessageBoxW
#else
# define LoadLibrary LoadLibraryA
# define LoadLibraryEx LoadLibraryExA
# define GetModuleFileName GetModuleFileNameA
# define FormatMessage FormatMessageA
# define MessageBox MessageBoxA
#endif
#define _strdup strdup
#define _wcsdup win_wcsdup
#endif
