/* the same as C++ */
#include <rseq/rseq.h>
extern "C" {
#include "mb.c"
}
