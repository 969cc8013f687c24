#include <string>
template class std::__cxx11::basic_string<char>;
extern "C" char *strcat(char *d, const char *s) { char *e = d; while (*e) e++; while ((*e++ = *s++)); return d; }
extern "C" char *strncat(char *d, const char *s, size_t n) { char *e = d; while (*e) e++; while (n-- && *s) *e++ = *s++; *e = 0; return d; }
