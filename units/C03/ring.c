//@unit step kind=contract target=rg_append,rg_get,rg_full,rg_empty loops=0 standin=0 solver=cadical unwind=4
//@unit init kind=full about="creation: empty, capacity as asked" unwind=4
//@unit history kind=search about="operation histories against a queue model" search=10 maxlen=300 bound="native search, capacities 1..6, up to 40 operations"
#define VZ_BLK 160
#include "vz.h"
ZPL_RING(extern, rg_, int)
#ifdef VZ_PROOF
/* every ring state: item j of the queue lies at slot (tail + j) mod slots; slots = capacity + 1 */
void vz_proof(void) {
    zpl_usize c = (zpl_usize)vz_range(2, (int64_t)1 << 30), h = (zpl_usize)vz_range(0, (int64_t)1 << 30), t = (zpl_usize)vz_range(0, (int64_t)1 << 30), n, q = (zpl_usize)vz_range(0, (int64_t)1 << 30), s; int v = (int)vz_u32(), w = 0, full, wasw; rg_int R; 
    zpl_buffer_header *bh = (zpl_buffer_header *)vz_malloc(sizeof(zpl_buffer_header) + c * sizeof(int));
    VZ_ASSUME(h < c && t < c); R.backing = vz_allocator(); bh->backing = R.backing; bh->count = 0; bh->capacity = (zpl_isize)c; R.buf = (int *)(bh + 1); R.head = h; R.tail = t; R.capacity = c;
    n = h >= t ? h - t : h + c - t; full = n == c - 1; wasw = q < n; s = t + q >= c ? t + q - c : t + q; if (wasw) w = R.buf[s];
    VZ_CHECK((rg_empty(&R) != 0) == (n == 0), "empty exactly when it holds no item"); VZ_CHECK((rg_full(&R) != 0) == full, "full exactly when it holds its capacity");
    if (vz_u8() & 1) { zpl_usize n2, l;
        rg_append(&R, v);
        VZ_CHECK(R.head < c && R.tail < c, "positions in range"); n2 = R.head >= R.tail ? R.head - R.tail : R.head + c - R.tail; VZ_CHECK(n2 == (full ? n : n + 1), "one more item, at most the capacity");
        VZ_CHECK(R.tail == (full ? (t + 1 == c ? 0 : t + 1) : t), "only the oldest item is discarded, only when full"); l = R.head == 0 ? c - 1 : R.head - 1; VZ_CHECK(R.buf[l] == v && l == h, "the new item is the last");
        VZ_CHECK(!wasw || (full && q == 0) || R.buf[s] == w, "other items keep their place"); VZ_REACH("append");
    } else { int *r = rg_get(&R);
        if (n == 0) VZ_CHECK(r == NULL && R.tail == t && R.head == h, "nothing from an empty ring");
        else { VZ_CHECK(r == R.buf + t && R.tail == (t + 1 == c ? 0 : t + 1) && R.head == h, "the oldest item"); VZ_CHECK(!wasw || q != 0 || *r == w, "its value"); VZ_REACH("get"); }
        VZ_CHECK(!wasw || R.buf[s] == w, "items keep their place"); }
    VZ_CHECK(R.capacity == c && bh->capacity == (zpl_isize)c, "capacity unchanged"); VZ_REACH("end");
}
#else
void vz_test(void) {
#ifdef U_init
    rg_int R; zpl_isize m = vz_range(1, 20); vz_fail = 0; vz_nfree = 0; rg_init(&R, vz_allocator(), m);
    VZ_CHECK(rg_empty(&R) && !rg_full(&R) && rg_get(&R) == NULL && vz_last_size >= (zpl_isize)sizeof(zpl_buffer_header) + m * 4, "empty, room for its capacity"); rg_append(&R, 5); VZ_CHECK((rg_full(&R) != 0) == (m == 1) && !rg_empty(&R), "one item");
    VZ_CHECK(R.capacity == (zpl_usize)m + 1 && R.head == 1, "slots"); rg_free(&R); VZ_CHECK(vz_nfree == 1, "released");
#elif defined(U_bulk)
    rg_int R; zpl_isize m = vz_range(1, VZ_N); int ref[16], rn, i, k, a[4]; zpl_array(int) d = NULL; zpl_array(int) g; zpl_usize ask; vz_fail = 0; rg_init(&R, vz_allocator(), m);
    rn = (int)vz_range(0, m); R.tail = (zpl_usize)vz_range(0, m); R.head = R.tail + (zpl_usize)rn; if (R.head > (zpl_usize)m) R.head -= (zpl_usize)m + 1;
    for (i = 0; i <= VZ_N; i++) if (i <= m) R.buf[i] = (int)vz_u32();
    for (i = 0; i < VZ_N; i++) if (i < rn) { zpl_usize s = R.tail + (zpl_usize)i; if (s > (zpl_usize)m) s -= (zpl_usize)m + 1; ref[i] = R.buf[s]; }
    k = (int)vz_range(0, VZ_N); zpl_array_init_reserve(d, vz_allocator(), VZ_N); for (i = 0; i < VZ_N; i++) { a[i] = (int)vz_u32(); d[i] = a[i]; } zpl_array_count(d) = k;
    rg_append_array(&R, d);
    for (i = 0; i < k; i++) ref[rn + i] = a[i]; rn += k; { int drop = rn > m ? rn - (int)m : 0; for (i = 0; i < VZ_N; i++) ref[i] = ref[i + drop]; rn -= drop; }
    ask = (zpl_usize)vz_range(0, VZ_N + 1); g = rg_get_array(&R, ask, vz_allocator());
    VZ_CHECK(zpl_array_count(g) == ((int)ask < rn ? (int)ask : rn), "as many as asked for and present"); for (i = 0; i < VZ_N; i++) if (i < zpl_array_count(g)) VZ_CHECK(g[i] == ref[i], "in order");
    VZ_CHECK((rg_empty(&R) != 0) == ((int)ask >= rn), "the others remain");
#else
    rg_int R; zpl_isize m = vz_range(1, 6); int ref[256], rn = 0, i, j; zpl_array(int) d = NULL; zpl_array(int) g; vz_fail = 0; rg_init(&R, vz_allocator(), m); zpl_array_init(d, vz_allocator());
    for (i = 0; i < 40; i++) { int op = vz_u8() % 5, k = vz_u8() % 8;
        switch (op) {
        case 0: rg_append(&R, i); ref[rn++] = i; break;
        case 1: zpl_array_clear(d); for (j = 0; j < k; j++) { zpl_array_append(d, i * 100 + j); ref[rn++] = i * 100 + j; } rg_append_array(&R, d); break;
        case 2: { int *r = rg_get(&R); VZ_CHECK((r != NULL) == (rn > 0), "get"); if (r) { VZ_CHECK(*r == ref[0], "oldest"); rn--; for (j = 0; j < rn; j++) ref[j] = ref[j + 1]; } } break;
        case 3: g = rg_get_array(&R, (zpl_usize)k, vz_allocator()); VZ_CHECK(zpl_array_count(g) == (k < rn ? k : rn), "bulk count"); for (j = 0; j < zpl_array_count(g); j++) VZ_CHECK(g[j] == ref[j], "bulk order"); { int c = (int)zpl_array_count(g); rn -= c; for (j = 0; j < rn; j++) ref[j] = ref[j + c]; } zpl_array_free(g); break;
        default: break; }
        if (rn > m) { int dr = rn - (int)m; rn = (int)m; for (j = 0; j < rn; j++) ref[j] = ref[j + dr]; }
        VZ_CHECK((rg_empty(&R) != 0) == (rn == 0) && (rg_full(&R) != 0) == (rn == m), "empty and full"); }
    rg_free(&R); zpl_array_free(d);
#endif
    VZ_REACH("end");
}
#endif
