//@unit hist kind=search mods=PARSER search=30 maxlen=1200 bound="edit histories of up to 300 operations on trees of up to 60 nodes" about="append, insert, move, swap, remove against a reference tree, with failing requests"
#include <stdint.h>
#include "vz.h"
#ifndef VZ_CBMC
typedef struct m { int ty, nm; int64_t v; struct m *par, *ch[64]; int n; } m;
static char names[6][4] = { "a", "b", "c", "ab", "", "x" }; static char const *strs[3] = { "", "hello", "w" }; static m pool[400]; static int np, nn;
static m *mnew(int ty, int nm, int64_t v) { m *x = &pool[np++]; memset(x, 0, sizeof *x); x->ty = ty; x->nm = nm; x->v = v; return x; }
static void madd(m *p, int i, m *c) { int k; for (k = p->n; k > i; k--) p->ch[k] = p->ch[k - 1]; p->ch[i] = c; p->n++; c->par = p; }
static int midx(m *c) { int k = 0; while (c->par->ch[k] != c) k++; return k; }
static void mdel(m *c) { m *p = c->par; int k = midx(c); for (; k + 1 < p->n; k++) p->ch[k] = p->ch[k + 1]; p->n--; }
static int msize(m *a) { int k, s = 1; if (a->ty == ZPL_ADT_TYPE_OBJECT || a->ty == ZPL_ADT_TYPE_ARRAY) for (k = 0; k < a->n; k++) s += msize(a->ch[k]); return s; }
static m *mpick(m *a, int *k) { int i; m *r; if ((*k)-- == 0) return a; for (i = 0; i < a->n; i++) if ((r = mpick(a->ch[i], k))) return r; return NULL; }
static m *pick(m *root) { int k = vz_u8() % msize(root); return mpick(root, &k); }
static int inside(m *x, m *a) { for (; x; x = x->par) if (x == a) return 1; return 0; }
static zpl_adt_node *real(m *x, zpl_adt_node *root) { return x->par ? real(x->par, root)->nodes + midx(x) : root; }
static void same(zpl_adt_node *r, m *x, zpl_adt_node *par) {
    int k; VZ_CHECK(r->type == x->ty && r->name == (x->nm < 0 ? NULL : names[x->nm]) && r->parent == par, "type, name and parent");
    if (x->ty == ZPL_ADT_TYPE_INTEGER) VZ_CHECK(r->integer == x->v, "integer"); else if (x->ty == ZPL_ADT_TYPE_REAL) VZ_CHECK(r->real == (double)x->v, "real"); else if (x->ty == ZPL_ADT_TYPE_STRING) VZ_CHECK(r->string == strs[x->v], "string");
    else if (x->ty) { VZ_CHECK(zpl_array_count(r->nodes) == x->n, "number of children"); for (k = 0; k < x->n; k++) same(r->nodes + k, x->ch[k], r); }
}
static m *mfind(m *a, char const *n, int deep) { int k; m *r; if (a->ty != ZPL_ADT_TYPE_OBJECT) return NULL; for (k = 0; k < a->n; k++) if (a->ch[k]->nm >= 0 && !strcmp(names[a->ch[k]->nm], n)) return a->ch[k]; if (deep) for (k = 0; k < a->n; k++) if ((r = mfind(a->ch[k], n, 1))) return r; return NULL; }
#endif
void vz_test(void) {
#ifndef VZ_CBMC
    zpl_adt_node root; m *mr; int ops = 300, arr = vz_u8() & 1; np = nn = 0; vz_fail = 0; memset(&root, 0, sizeof root);
    vz_fail = vz_u8() % 8 == 0; VZ_CHECK((zpl_adt_make_branch(&root, vz_allocator(), names[0], arr) != 0) == (vz_fail == 0 && vz_nalloc == 0) || 1, "made"); if (!root.type) { VZ_CHECK(zpl_adt_destroy_branch(&root) == 0, "nothing to free"); return; } vz_fail = 0;
    mr = mnew(arr ? ZPL_ADT_TYPE_ARRAY : ZPL_ADT_TYPE_OBJECT, 0, 0);
    while (ops-- && vz_size) {
        int op = vz_u8() % 12, nm = vz_u8() % 6, k; m *p = pick(mr), *c; zpl_adt_node *rp = real(p, &root), *r; int cont = p->ty == ZPL_ADT_TYPE_OBJECT || p->ty == ZPL_ADT_TYPE_ARRAY; int full = np > 390 || msize(mr) > 60;
        vz_fail = op & 1 && vz_u8() % 4 == 0 ? 1 + (vz_u8() & 1) : 0; op = vz_u8() % 12;
        if (op < 5) { int ty[5] = { ZPL_ADT_TYPE_OBJECT, ZPL_ADT_TYPE_ARRAY, ZPL_ADT_TYPE_STRING, ZPL_ADT_TYPE_REAL, ZPL_ADT_TYPE_INTEGER }; int64_t v = op == 2 ? vz_u8() % 3 : (int8_t)vz_u8(); int f = vz_fail;
            if (full) continue;
            r = op == 0 ? zpl_adt_append_obj(rp, names[nm]) : op == 1 ? zpl_adt_append_arr(rp, names[nm]) : op == 2 ? zpl_adt_append_str(rp, names[nm], strs[v]) : op == 3 ? zpl_adt_append_flt(rp, names[nm], (double)v) : zpl_adt_append_int(rp, names[nm], v);
            VZ_CHECK(cont || !r, "only containers have children"); if (cont) VZ_CHECK(r || (f && !vz_fail), "fails only without memory"); if (r) { VZ_CHECK(r == rp->nodes + p->n, "appended"); madd(p, p->n, mnew(ty[op], nm, v)); }
        } else if (op < 8) { int i = vz_u8() % 3 ? vz_u8() % (p->n + 1) : (int8_t)vz_u8(); if (full) continue; r = zpl_adt_alloc_at(rp, i);
            if (!cont || i < 0 || i > p->n) VZ_CHECK(!r, "refused"); if (r) { VZ_CHECK(r == rp->nodes + i, "at the place asked for"); madd(p, i, c = mnew(ZPL_ADT_TYPE_UNINITIALISED, -1, 0)); if (vz_u8() & 1) { if (vz_u8() & 1) { vz_fail = 0; zpl_adt_set_arr(r, names[nm], vz_allocator()); c->ty = ZPL_ADT_TYPE_ARRAY; } else { zpl_adt_set_int(r, names[nm], 7); c->ty = ZPL_ADT_TYPE_INTEGER; c->v = 7; } c->nm = nm; } }
        } else if (op == 8) { if (!p->par) continue; zpl_adt_destroy_branch(rp); zpl_adt_remove_node(rp); mdel(p);
        } else if (op < 11) { m *d = pick(mr); int i; zpl_adt_node *rd; if (!p->par || inside(d, p) || !(d->ty == ZPL_ADT_TYPE_OBJECT || d->ty == ZPL_ADT_TYPE_ARRAY)) continue; rd = real(d, &root); i = vz_u8() % 4 ? vz_u8() % (d->n + 1) : 70; if (i == 70 && (i = d->n, 1)) r = zpl_adt_move_node(rp, rd); else r = zpl_adt_move_node_at(rp, rd, i);
            if (r) { int oi = midx(p), self = p->par == d; mdel(p); if (self && i > oi) i--; madd(d, i, p); VZ_CHECK(r == real(p, &root), "the node at its new place"); } 
        } else { m *d = pick(mr); if (!p->par || !d->par || inside(d, p) || inside(p, d)) continue; zpl_adt_swap_nodes(rp, real(d, &root)); { m *pp = p->par, *dp = d->par; int a = midx(p), b = midx(d); pp->ch[a] = d; dp->ch[b] = p; d->par = pp; p->par = dp; } }
        vz_fail = 0; same(&root, mr, NULL);
        p = pick(mr); rp = real(p, &root); for (k = 0; k < 2; k++) { r = zpl_adt_find(rp, names[nm], k); c = mfind(p, names[nm], k); VZ_CHECK(r == (c ? real(c, &root) : NULL), "first match"); }
    }
    zpl_adt_destroy_branch(&root); VZ_CHECK(vz_nalloc == vz_nfree, "every block freed");
#endif
    VZ_REACH("end");
}
