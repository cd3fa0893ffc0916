//@unit hist kind=search mods=PARSER search=30 maxlen=600 bound="trees of up to 40 nodes, locators of up to 6 segments" about="locators against a reference resolution"
#include <stdint.h>
#include "vz.h"
#ifndef VZ_CBMC
static char names[5][4] = { "a", "b", "c", "1", "a" }; static char const *strs[4] = { "", "a", "w", "12" }; static int left_;
static void grow(zpl_adt_node *n, int deep) { int k = vz_u8() % 6; while (k-- && left_ > 0 && vz_size) { int t = vz_u8() % 6; zpl_adt_node *c = zpl_adt_alloc(n); char const *nm = vz_u8() % 8 ? names[vz_u8() % 5] : NULL; left_--; if (!c) continue; if (t == 0 && deep) { zpl_adt_set_obj(c, nm, zpl_heap()); grow(c, deep - 1); } else if (t == 1 && deep) { zpl_adt_set_arr(c, nm, zpl_heap()); grow(c, deep - 1); } else if (t == 2 || t == 4) zpl_adt_set_str(c, nm, strs[vz_u8() % 4]); else if (t == 3) { static int64_t ints[4] = { 0, 12, -1, INT64_MAX }; zpl_adt_set_int(c, nm, ints[vz_u8() % 4]); } else if (t == 5 && vz_u8() & 1) c->name = nm; else zpl_adt_set_flt(c, nm, 1.5); } }
static zpl_adt_node *kid(zpl_adt_node *n, int k) { return n->nodes + k; }
static int has(zpl_adt_node *n, char const *v) { char b[40]; if (n->type == ZPL_ADT_TYPE_STRING) return !strcmp(n->string, v); if (n->type != ZPL_ADT_TYPE_INTEGER) return 0; sprintf(b, "%lld", (long long)n->integer); return !strcmp(b, v); }
static zpl_adt_node *field(zpl_adt_node *n, char const *f, char const *v) { int k; for (k = 0; k < zpl_array_count(n->nodes); k++) if (kid(n, k)->name && !strcmp(kid(n, k)->name, f) && has(kid(n, k), v)) return n; return NULL; }
#endif
void vz_test(void) {
#ifndef VZ_CBMC
    zpl_adt_node root, *w = &root, *r; char t[400]; int segs, s, o = 0, dead = 0; memset(&root, 0, sizeof root); left_ = 40; zpl_adt_make_branch(&root, zpl_heap(), NULL, vz_u8() & 1); grow(&root, 4);
    if (vz_u8() % 3 == 0) t[o++] = '/';
    segs = vz_u8() % 7;
    for (s = 0; s < segs; s++) { int kind, cont = w && (w->type == ZPL_ADT_TYPE_OBJECT || w->type == ZPL_ADT_TYPE_ARRAY), k; char const *f = names[vz_u8() % 5]; static char const *vals[7] = { "", "a", "w", "12", "0", "-1", "9223372036854775807" }; char const *v = vals[vz_u8() % 7]; if (s) t[o++] = '/';
        kind = vz_u8() % 5; 
        if (kind == 0) { o += sprintf(t + o, "[%s=%s]", f, v); if (cont && w->type == ZPL_ADT_TYPE_OBJECT) w = field(w, f, v); else if (cont) { zpl_adt_node *x = NULL; for (k = 0; k < zpl_array_count(w->nodes) && !x; k++) if (kid(w, k)->type == ZPL_ADT_TYPE_OBJECT) x = field(kid(w, k), f, v); w = x; } else w = NULL; }
        else if (kind == 1 && (!cont || w->type == ZPL_ADT_TYPE_ARRAY)) { zpl_adt_node *x = NULL; o += sprintf(t + o, "[%s]", v); if (cont) for (k = 0; k < zpl_array_count(w->nodes) && !x; k++) if (has(kid(w, k), v)) x = kid(w, k); w = x; }
        else if (kind == 2) { int i = vz_u8() % 7 - 1; o += sprintf(t + o, "%d", i); if (cont && w->type == ZPL_ADT_TYPE_ARRAY) w = i >= 0 && i < zpl_array_count(w->nodes) ? kid(w, i) : NULL; else if (cont) { zpl_adt_node *x = NULL; char b[9]; sprintf(b, "%d", i); for (k = 0; k < zpl_array_count(w->nodes) && !x; k++) if (kid(w, k)->name && !strcmp(kid(w, k)->name, b)) x = kid(w, k); w = x; } else w = NULL; }
        else { zpl_adt_node *x = NULL; o += sprintf(t + o, "%s", f); if (cont && w->type == ZPL_ADT_TYPE_OBJECT) { for (k = 0; k < zpl_array_count(w->nodes) && !x; k++) if (kid(w, k)->name && !strcmp(kid(w, k)->name, f)) x = kid(w, k); } else if (cont && f[0] == '1' && zpl_array_count(w->nodes) > 1) x = kid(w, 1); w = x; } }
    if (segs && vz_u8() % 6 == 0) t[o++] = '/'; t[o] = 0; (void)dead;
    { char *c = (char *)vz_malloc(o + 1); memcpy(c, t, o + 1); r = zpl_adt_query(&root, c); VZ_CHECK(!memcmp(c, t, o + 1), "the locator is unchanged"); if (r != w) fprintf(stderr, "locator %s\n", c); VZ_CHECK(r == w, "exactly the node described"); }
    zpl_adt_destroy_branch(&root);
#endif
    VZ_REACH("end");
}
