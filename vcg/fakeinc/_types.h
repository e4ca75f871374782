#ifndef VCG_TYPES
#define VCG_TYPES
typedef unsigned long size_t;
#define NULL ((void*)0)
#endif
