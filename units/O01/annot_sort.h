#include <stdint.h>
/* a sorted array, as its comparison with the key sees it: elements [g_lo, g_hi) are equal to the key */

#define ZVL_binary_search(base, count, size, key, start, end) LASG(start, end) LINV(start >= 0 && start <= g_lo && end >= g_hi && end <= count && start <= end) LDEC(end - start)
