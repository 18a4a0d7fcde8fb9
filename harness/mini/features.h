#pragma once
#ifdef SX_OLD	/* a compiler without newer builtins */
#define __GNUC_PREREQ(a, b) 0
#else
#define __GNUC_PREREQ(a, b) 1
#endif
#define __GLIBC_PREREQ(a, b) 1
