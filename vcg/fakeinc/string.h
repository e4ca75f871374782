#ifndef VCG_STRING
#define VCG_STRING
#include "_types.h"
void *memset(void *p, int c, size_t n);
void *memcpy(void *d, const void *s, size_t n);
void *memmove(void *d, const void *s, size_t n);
int memcmp(const void *d, const void *s, size_t n);
size_t strlen(const char *s);
int strcmp(const char *a, const char *b);
int strncmp(const char *a, const char *b, size_t n);
char *strchr(const char *a, int c);
char *strcpy(char *a, const char *b);
char *strcat(char *a, const char *b);
char *strstr(const char *a, const char *b);
#endif
