#ifndef MOCK_TCHAR_H
#define MOCK_TCHAR_H
#include <windows.h>
#ifdef _UNICODE
# define _T(x) L##x
# define _TCHAR wchar_t
# define _tcsstr wcsstr
# define _tcschr wcschr
# define _tcsrchr wcsrchr
# define _tcslen wcslen
# define _tcscmp wcscmp
# define _tcsdup win_wcsdup
# define _sntprintf_s win_snwprintf
# define _ftprintf_s win_fwprintf
# define _fputtc win_fputwc
#else
# define _T(x) x
# define _TCHAR char
# define _tcsstr strstr
# define _tcschr strchr
# define _tcsrchr strrchr
# define _tcslen strlen
# define _tcscmp strcmp
# define _tcsdup strdup
# define _sntprintf_s win_snprintf
# define _ftprintf_s win_fprintf
# define _fputtc fputc
#endif
#endif
