//@unit any kind=search mods=PARSER search=60 maxlen=300 bound="texts up to 300 bytes, nesting within the stack" about="arbitrary and near-valid texts in exact-size blocks, with failing requests: access, termination, result inside the text"
#include <stdint.h>
#include "vz.h"
#ifndef VZ_CBMC
static char *g_t; static size_t g_n;
static void txt(char const *s) { VZ_CHECK(s >= g_t && s <= g_t + g_n && memchr(s, 0, g_t + g_n + 1 - s), "text inside the document, terminated"); }
static void walk(zpl_adt_node *n, zpl_adt_node *par, int named) { zpl_isize k; VZ_CHECK(n->parent == par, "parent"); if (named) { VZ_CHECK(n->name != NULL, "members have names"); txt(n->name); }
    switch (n->type) { case ZPL_ADT_TYPE_STRING: case ZPL_ADT_TYPE_MULTISTRING: txt(n->string); break; case ZPL_ADT_TYPE_OBJECT: case ZPL_ADT_TYPE_ARRAY: for (k = 0; k < zpl_array_count(n->nodes); k++) walk(n->nodes + k, n, n->type == ZPL_ADT_TYPE_OBJECT); break; case ZPL_ADT_TYPE_INTEGER: case ZPL_ADT_TYPE_REAL: break; default: VZ_CHECK(0, "every node has a type"); } }
#endif
void vz_test(void) {
#ifndef VZ_CBMC
    static char const *tok[] = { "{", "}", "[", "]", ",", ":", "=", "|", "\"", "'", "`", "\\", "//", "/*", "*/", "\n", " ", "\"a\":", "b:", "true", "false", "null", "Infinity", "-NaN", "-", "+", ".", "0x1F", "12", "3.5e2", "e", "1e9", "\"s\"", "\\\"", "99999999999999999999999999", "\t", "$x=", "_:", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "0.00000000000000000000000000000000000000000000000000001" };
    zpl_adt_node root; zpl_u8 e; char b[4000]; size_t n = 0; int mode = vz_u8() & 3, f = vz_u8(), na = vz_nalloc, nf = vz_nfree;
    while (vz_size && n < 3900) { int c = vz_u8(); if (mode && c < 128) { char const *t = tok[c % (sizeof tok / sizeof *tok)]; strcpy(b + n, t); n += strlen(t); } else if (c) b[n++] = (char)c; }
    b[n] = 0; g_n = n; g_t = (char *)vz_malloc(n + 1); memcpy(g_t, b, n + 1); vz_fail = f < 64 ? 1 + f % 8 : 0;
    e = zpl_json_parse(&root, g_t, vz_allocator()); VZ_CHECK(e <= ZPL_JSON_ERROR_OUT_OF_MEMORY && (e != ZPL_JSON_ERROR_OUT_OF_MEMORY || f < 64), "an error code"); if (f < 64 && vz_fail == 0) VZ_CHECK(e == ZPL_JSON_ERROR_OUT_OF_MEMORY, "failed requests are reported");
    vz_fail = 0; VZ_CHECK(g_t[n] == 0, "the terminator stays");
    if (!e) { VZ_CHECK(root.type == ZPL_ADT_TYPE_OBJECT || root.type == ZPL_ADT_TYPE_ARRAY, "a document"); walk(&root, NULL, 0); }
    if (e == ZPL_JSON_ERROR_OUT_OF_MEMORY) { zpl_adt_node r2; char *c = (char *)vz_malloc(n + 1); zpl_u8 e1, e2; memcpy(c, b, n + 1); zpl_json_free(&root); e1 = zpl_json_parse(&root, g_t, zpl_heap()); e2 = zpl_json_parse(&r2, c, zpl_heap()); VZ_CHECK((e1 == 0) == (e2 == 0), "the text can be parsed again"); zpl_json_free(&r2); }
    zpl_json_free(&root); VZ_CHECK(vz_nalloc - na == vz_nfree - nf, "every block is freed");
    { char *q = (char *)vz_malloc(n + 1); zpl_adt_node x; memset(&x, 0, sizeof x); memcpy(q, b, n + 1); { char *r = zpl_adt_parse_number(&x, q); VZ_CHECK(r >= q && (r <= q + n || n == 0), "number scan inside the text"); } memset(&x, 0, sizeof x); zpl_adt_parse_number_strict(&x, q); }
#endif
    VZ_REACH("end");
}
