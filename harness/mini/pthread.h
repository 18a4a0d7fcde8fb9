#pragma once
#include <endian.h>
typedef unsigned long pthread_t; typedef struct { long x[8]; } pthread_mutex_t, pthread_cond_t, pthread_attr_t; typedef unsigned int pthread_key_t;
