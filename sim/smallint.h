/* Build variant that makes the library's "counter is about to overflow" branches
 * (INT_MAX accesses) reachable within a short run. */
#include <limits.h>
#undef INT_MAX
#define INT_MAX 6
