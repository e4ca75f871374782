#ifndef VCG_STDIO
#define VCG_STDIO
#include "_types.h"
typedef struct vcg_FILE FILE;
extern FILE *stdout; extern FILE *stderr; extern FILE *stdin;
int printf(const char *f, ...);
int fprintf(FILE *s, const char *f, ...);
int sprintf(char *b, const char *f, ...);
int snprintf(char *b, size_t n, const char *f, ...);
int sscanf(const char *b, const char *f, ...);
#endif
