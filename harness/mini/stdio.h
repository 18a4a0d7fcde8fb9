#pragma once
#include <stddef.h>
typedef long off_t; typedef long ssize_t; typedef struct _f FILE; extern FILE *stderr, *stdout;
int fprintf(FILE *, const char *, ...); int printf(const char *, ...); int snprintf(char *, size_t, const char *, ...);
