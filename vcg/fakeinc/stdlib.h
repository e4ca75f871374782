#ifndef VCG_STDLIB
#define VCG_STDLIB
#include "_types.h"
void *malloc(size_t n);
void *calloc(size_t n, size_t m);
void *realloc(void *p, size_t n);
void free(void *p);
void exit(int c);
int abs(int x);
int atoi(const char *s);
char *getenv(const char *s);
void qsort(void *b, size_t n, size_t s, int (*c)(const void*, const void*));
#endif
