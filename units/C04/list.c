//@unit add kind=full about="zpl_list_add after any element of any list: exactly the neighbouring links change" unwind=8
//@unit remove kind=full about="zpl_list_remove of any element of any list" unwind=8
//@unit init kind=full about="zpl_list_init" unwind=4
//@unit enumerate kind=bounded about="sequences of insertions and removals: forward and backward enumeration" n=3 bound="up to 3 operations" unwind=6
//@unit history kind=search about="insertion/removal histories against a sequence model" search=6 maxlen=200 bound="native search, up to 30 operations"
#include "vz.h"
#ifndef VZ_PROOF
void vz_test(void) {
#if defined(U_add) || defined(U_remove)
    /* an arbitrary element L of an arbitrary list: its neighbours P and N exist or not; PP and NN stand for whatever lies beyond */
    zpl_list PP, P, L, N, NN, I, op, on, opp, onn, ol; int hp = vz_u8() & 1, hn = vz_u8() & 1; zpl_list *r; char d[6];
    PP.prev = NULL; PP.next = &P; P.prev = &PP; P.next = &L; L.prev = hp ? &P : NULL; L.next = hn ? &N : NULL; N.prev = &L; N.next = &NN; NN.prev = &N; NN.next = NULL;
    PP.ptr = d; P.ptr = d + 1; L.ptr = d + 2; N.ptr = d + 3; NN.ptr = d + 4; zpl_list_init(&I, d + 5);
    if (vz_u8() & 1) { I.next = &PP; I.prev = &NN; } /* stale links of an element used before */
    op = P; on = N; opp = PP; onn = NN; ol = L;
#ifdef U_add
    r = zpl_list_add(&L, &I);
    VZ_CHECK(r == &I, "returns the inserted element"); VZ_CHECK(L.next == &I && I.prev == &L, "linked after the position, both ways");
    VZ_CHECK(I.next == (hn ? &N : NULL), "linked before the former next"); if (hn) VZ_CHECK(N.prev == &I && N.next == on.next, "the former next points back to it"); else VZ_CHECK(N.prev == on.prev, "nothing else");
    VZ_CHECK(L.prev == ol.prev && P.next == op.next && P.prev == op.prev, "links before the position unchanged");
#else
    r = zpl_list_remove(&L);
    VZ_CHECK(r == (hn ? &N : NULL), "returns the element after it");
    if (hp) VZ_CHECK(P.next == (hn ? &N : NULL), "the previous skips it"); if (hn) VZ_CHECK(N.prev == (hp ? &P : NULL), "the next skips it");
    VZ_CHECK(P.prev == op.prev && N.next == on.next, "outer links unchanged");
#endif
    VZ_CHECK(PP.next == opp.next && PP.prev == opp.prev && NN.prev == onn.prev && NN.next == onn.next, "elements beyond unchanged");
    VZ_CHECK(PP.ptr == d && P.ptr == d + 1 && L.ptr == d + 2 && N.ptr == d + 3 && NN.ptr == d + 4 && I.ptr == d + 5, "contents unchanged");
#elif defined(U_init)
    zpl_list l; char c; l.next = &l; l.prev = &l; zpl_list_init(&l, &c); VZ_CHECK(l.ptr == &c && !l.next && !l.prev, "a single element");
#else
    int n = VZ_N, i, c = 1, used = 1, j; VZ_NATIVE_ONLY(n = 30;)
    zpl_list e[32], *seq[32], *l; for (i = 0; i <= n; i++) zpl_list_init(&e[i], &e[i]); seq[0] = &e[0];
    for (i = 0; i < n; i++) {
        int at = (int)vz_range(0, c - 1);
        if (vz_u8() & 3) { zpl_list *x = &e[used++]; zpl_list_add(seq[at], x); for (j = c; j > at + 1; j--) seq[j] = seq[j - 1]; seq[at + 1] = x; c++; }
        else if (c > 1) { VZ_CHECK(zpl_list_remove(seq[at]) == (at + 1 < c ? seq[at + 1] : NULL), "returns the next"); c--; for (j = at; j < c; j++) seq[j] = seq[j + 1]; }
    }
    for (j = 0, l = seq[0]; j < c; j++, l = l->next) VZ_CHECK(l == seq[j], "forward enumeration"); VZ_CHECK(l == NULL, "forward end");
    for (j = c - 1, l = seq[c - 1]; j >= 0; j--, l = l->prev) VZ_CHECK(l == seq[j], "backward enumeration"); VZ_CHECK(l == NULL, "backward end");
#endif
    VZ_REACH("end");
}
#endif
