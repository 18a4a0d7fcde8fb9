#pragma once
#include <stddef.h>
#include <stdio.h>
typedef int pid_t;  long syscall(long, ...); long sysconf(int);
