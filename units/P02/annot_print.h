#include <stdint.h>
extern int64_t g_k; extern char *g_begin; extern int64_t g_max;
#define ZVL_print_pad(text, max_len, pad, count, res) LASG(res, __CPROVER_object_from(text)) LINV(res >= 0 && (res == 0 || (res <= count && res <= max_len)) && (g_k < 0 || g_k >= res || text[g_k] == pad)) LDEC(max_len - res)
