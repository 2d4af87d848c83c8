#ifndef MOCK_TCHAR_H
#define MOCK_TCHAR_H
#include <windows.h>
#ifdef _UNICODE
# define _T(x) L##x
# define _TCHAR wchar_t
# define _tcsstr wcsstr
# define _tcschr wcschr
# define _tcsrchr wcsrchr
# define _tcslen wcslen
# define _tcscmp wcscmp
# define _tcsdup wcsdup
# define _sntprintf_s _snwprintf_s
# define _ftprintf_s fwprintf_s
# define _fputtc fputwc
#else
# define _T(x) x
# define _TCHAR char
# define _tcsstr strstr
# define _tcschr strchr
# define _tcsrchr strrchr
# define _tcslen strlen
# define _tcscmp strcmp
# define _tcsdup strdup
# define _sntprintf_s _snprintf_s
# define _ftprintf_s fprintf_s
# define _fputtc fputc
#endif
#endif
