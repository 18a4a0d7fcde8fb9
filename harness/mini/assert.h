#undef assert
#define assert(x) ((void) 0)
#ifndef __cplusplus
#undef static_assert
#define static_assert _Static_assert
#endif
