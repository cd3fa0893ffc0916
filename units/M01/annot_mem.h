extern int64_t vz_o;
/* ghost: g_len the stated size, g_q an arbitrary position in the block, g_r an arbitrary position outside */
int64_t g_len, g_q, g_r, g_p; uint8_t g_want, g_want2, g_wr; uint8_t *g_base; uint8_t *g_i, *g_j; int g_depth; int64_t g_n1;
#define P8(p) ((uint8_t const *)(p))
#define KEEP (g_r < 0 || g_base[g_r] == g_wr)
#define MM_UP LASG(n, d, s, __CPROVER_object_whole(dest)) \
    LINV(n >= 0 && n <= g_len && d == (uint8_t *)dest + (g_len - n) && s == P8(source) + (g_len - n)) \
    LINV(g_q < 0 || (g_q < g_len - n ? P8(dest)[g_q] == g_want : P8(source)[g_q] == g_want)) LINV(KEEP) LDEC(n)
#define MM_DOWN LASG(n, __CPROVER_object_whole(dest)) LINV(n >= 0 && n <= g_len) \
    LINV(g_q < 0 || (g_q >= n ? P8(dest)[g_q] == g_want : P8(source)[g_q] == g_want)) LINV(KEEP) LDEC(n)
#define ZVL_memmove_up_head(dest, source, n, d, s) MM_UP
#define ZVL_memmove_up_words(dest, source, n, d, s) MM_UP
#define ZVL_memmove_up_rest(dest, source, n, d, s) MM_UP
#define ZVL_memmove_down_head(dest, source, n, d, s) MM_DOWN
#define ZVL_memmove_down_words(dest, source, n, d, s) MM_DOWN
#define ZVL_memmove_down_rest(dest, source, n, d, s) MM_DOWN
#define OFF(p, b) ((int64_t)__CPROVER_POINTER_OFFSET(p) - (int64_t)__CPROVER_POINTER_OFFSET(b))
#define ZVL_memset_words(dest, n, s, c, c64) LASG(n, s, __CPROVER_object_whole(dest)) \
    LINV(n >= 0 && n <= g_len && n % 4 == 0 && __CPROVER_same_object(s, dest) && OFF(s, dest) >= 24 && OFF(s, dest) + n <= g_len && OFF(s, dest) + n > g_len - 4) \
    LINV(!(g_q >= 0 && (g_q < OFF(s, dest) || g_q >= OFF(s, dest) + n - 28)) || P8(dest)[g_q] == c) LINV(KEEP) LDEC(n)
#define ZVL_memcompare(s1, s2, size, a, b) LASG(size, a, b, g_p) \
    LINV(size >= 0 && size <= g_len && a == P8(s1) + (g_len - size) && b == P8(s2) + (g_len - size)) \
    LINV(!(g_q >= 0 && g_q < g_len - size) || P8(s1)[g_q] == P8(s2)[g_q]) LDEC(size)
#define ZVG_memcompare(s1, s1p8) g_p = OFF(s1p8, s1);
#define ZVL_memchr_head(data, c, n, s) LASG(n, s) LINV(n >= 0 && n <= g_len && s == P8(data) + (g_len - n)) \
    LINV(!(g_q >= 0 && g_q < g_len - n) || P8(data)[g_q] != c) LDEC(n)
#define ZVL_memchr_rest(data, c, n, s) ZVL_memchr_head(data, c, n, s)
#define ZVL_memchr_words(data, c, n, w, k) LASG(n, w) LINV(n >= 0 && n <= g_len && w == (zpl_isize const *)(P8(data) + (g_len - n))) \
    LINV(!(g_q >= 0 && g_q < g_len - n) || P8(data)[g_q] != c) LDEC(n)
#define ZVL_memrchr(data, c, n, s) LASG(n) LINV(n >= 0 && n <= g_len) LINV(!(g_q >= n) || P8(data)[g_q] != c) LDEC(n)
#define SWAPPED (g_q < 0 || (g_q < g_n1 ? g_i[g_q] == g_want2 && g_j[g_q] == g_want : g_i[g_q] == g_want && g_j[g_q] == g_want2))
#ifndef U_memswap256
#define ZVL_memswap_chunks(i, j, size, buffer) LASG(size, i, j, g_n1, vz_o, __CPROVER_object_whole(g_base), __CPROVER_object_whole(buffer)) \
    LINV(g_n1 >= 0 && g_n1 <= g_len && i == g_i + g_n1 && j == g_j + g_n1) LINV(size > 0 && size <= g_len && g_n1 + size == g_len && vz_o == g_q - g_n1) \
    LINV(SWAPPED) LINV(KEEP) LDEC(size)
#define ZVG_memswap_after(i, j) g_n1 += 256; vz_o = g_q - g_n1;
#endif
/* cut: proved, the block is then replaced by any block with the proved facts */
#define CUT(p, c) __CPROVER_assert((c), "VZ: cut " #c); __CPROVER_havoc_object(p); __CPROVER_assume(c);
#define MS_EDGE2(A, M) CUT(dest, (!(g_q >= 0 && (g_q < OFF(s, dest) + A || g_q >= OFF(s, dest) + n - M)) || P8(dest)[g_q] == c) && KEEP)
#define MS_EDGE(M) MS_EDGE2(M, M)
#define ZVG_memset_edge28a(dest, s, n, c) MS_EDGE2(28, 12)
#define ZVG_memset_edge4(dest, s, n, c) MS_EDGE(4)
#define ZVG_memset_edge4w(dest, s, n, c) MS_EDGE(4)
#define ZVG_memset_edge12(dest, s, n, c) MS_EDGE(12)
#define ZVG_memset_edge28(dest, s, n, c) MS_EDGE(28)
/* the same pointer, proved, in a form whose object the verifier sees */
#define NORM(p, b) { int64_t vz_o = OFF(p, b); LEMMA(p == (uint8_t *)(b) + vz_o); p = (uint8_t *)(b) + vz_o; }
#define ZVG_memset_word(dest, s, n, c, M) CUT(dest, (!(g_q >= 0 && (g_q < OFF(s, dest) + M || g_q >= OFF(s, dest) + n - 28)) || P8(dest)[g_q] == c) && KEEP)
