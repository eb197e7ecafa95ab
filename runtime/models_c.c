/* libc string functions for the engine (bitcode only) */
typedef unsigned long size_t;
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *)p; if (n <= 40) { size_t r = n; for (size_t i = n; i-- > 0;) { size_t m = -(size_t)(q[i] == (unsigned char)c); r = (i & m) | (r & ~m); } return r >= n ? (void *)0 : (void *)(q + r); } for (size_t i = 0; i < n; ++i) if (q[i] == (unsigned char)c) return (void *)(q + i); return 0; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isalnum(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
char *strchr(const char *s, int c) { size_t n = strlen(s), r = n + 1; for (size_t i = n + 1; i-- > 0;) { size_t m = -(size_t)(s[i] == (char)c); r = (i & m) | (r & ~m); } return r > n ? (char *)0 : (char *)s + r; } /* one case split only */
