#pragma once
#include <stddef.h>
void abort(void) __attribute__((noreturn)); void exit(int) __attribute__((noreturn)); void *malloc(size_t); void free(void *); void *calloc(size_t, size_t);
