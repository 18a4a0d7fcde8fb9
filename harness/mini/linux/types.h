#pragma once
typedef unsigned char __u8; typedef signed char __s8; typedef unsigned short __u16; typedef short __s16; typedef unsigned int __u32; typedef int __s32;
typedef unsigned long long __u64; typedef long long __s64;
