//@unit round kind=search mods=PARSER search=40 maxlen=400 bound="trees of up to 60 nodes, all indentations 0..12" about="write and parse again; and generated texts with known members"
#include <stdint.h>
#include "vz.h"
#ifndef VZ_CBMC
static int left_; static char pool[8192]; static int po;
static char const *word(int ident) { char *s = pool + po; int n = vz_u8() % 7, k; static char const ab[] = "abz_AZ09 ,:|{}[]/*'`.-+=\n\t#e"; if (ident && n == 0) n = 1; if (po > 8000) return "a"; for (k = 0; k < n; k++) { int c = vz_u8(); s[k] = ident ? "abcxyzABZ_0123"[c % (k ? 14 : 9)] : ab[c % (sizeof ab - 1)]; } s[n] = 0; po += n + 1; return s; }
static char const *nm(void) { return word(vz_u8() & 1); }
static void grow(zpl_adt_node *n, int deep) { int k = vz_u8() % 6, obj = n->type == ZPL_ADT_TYPE_OBJECT; while (k-- && left_ > 0 && vz_size) { zpl_adt_node *c = zpl_adt_alloc(n); char const *name = obj ? nm() : NULL; int t = vz_u8() % 7; left_--; if (!c) abort();
    if (t == 0 && deep) { zpl_adt_set_obj(c, name, zpl_heap()); grow(c, deep - 1); } else if (t == 1 && deep) { zpl_adt_set_arr(c, name, zpl_heap()); grow(c, deep - 1); } else if (t == 2) zpl_adt_set_str(c, name, word(0)); else if (t == 3) { char const *s = word(0); if (!strchr(s, '`')) { zpl_adt_set_str(c, name, s); c->type = ZPL_ADT_TYPE_MULTISTRING; } else zpl_adt_set_int(c, name, 5); }
    else if (t == 4) { static uint8_t p[7] = { ZPL_ADT_PROPS_TRUE, ZPL_ADT_PROPS_FALSE, ZPL_ADT_PROPS_NULL, ZPL_ADT_PROPS_INFINITY, ZPL_ADT_PROPS_INFINITY_NEG, ZPL_ADT_PROPS_NAN, ZPL_ADT_PROPS_NAN_NEG }; zpl_adt_set_flt(c, name, 0); c->props = p[vz_u8() % 7]; } else { int64_t v = vz_u8() & 1 ? (int8_t)vz_u8() : (int64_t)vz_u64(); zpl_adt_set_int(c, name, v); } } }
static void same(zpl_adt_node *x, zpl_adt_node *y, int named) { zpl_isize k; VZ_CHECK(x->type == y->type, "type"); if (named) VZ_CHECK(y->name && !strcmp(x->name, y->name), "name");
    if (x->type == ZPL_ADT_TYPE_STRING || x->type == ZPL_ADT_TYPE_MULTISTRING) VZ_CHECK(!strcmp(x->string, y->string), "string"); else if (x->type == ZPL_ADT_TYPE_INTEGER) VZ_CHECK(x->integer == y->integer, "integer"); else if (x->type == ZPL_ADT_TYPE_REAL) VZ_CHECK(x->props == y->props, "constant");
    else { VZ_CHECK(zpl_array_count(x->nodes) == zpl_array_count(y->nodes), "number of members"); for (k = 0; k < zpl_array_count(x->nodes); k++) { VZ_CHECK(y->nodes[k].parent == y, "parent"); same(x->nodes + k, y->nodes + k, x->type == ZPL_ADT_TYPE_OBJECT); } } }
static char out[200000]; static int oo;
static void ws(int nl) { int k = vz_u8() % 8; if (k < 2) oo += sprintf(out + oo, "%s", k ? "  " : "\t"); else if (k == 2) oo += sprintf(out + oo, "/* x * y\n*/"); else if (k == 3 && nl) oo += sprintf(out + oo, "// c }\n"); else if (k == 4 && nl) oo += sprintf(out + oo, "\r\n"); }
static int ident(char const *s) { if (!*s || !(zpl_char_is_alpha(*s) || *s == '_')) return 0; for (; *s; s++) if (!(zpl_char_is_alphanumeric(*s) || *s == '_')) return 0; return 1; }
static void text(zpl_adt_node *n) { zpl_isize k; switch (n->type) {
    case ZPL_ADT_TYPE_STRING: { char q = strchr(n->string, '\'') || vz_u8() & 1 ? '"' : '\''; oo += sprintf(out + oo, "%c%s%c", q, n->string, q); break; } case ZPL_ADT_TYPE_MULTISTRING: oo += sprintf(out + oo, "`%s`", n->string); break; case ZPL_ADT_TYPE_INTEGER: oo += sprintf(out + oo, "%lld", (long long)n->integer); break;
    case ZPL_ADT_TYPE_REAL: { static char const *w[] = { "", "NaN", "-NaN", "Infinity", "-Infinity", "false", "true", "null" }; oo += sprintf(out + oo, "%s", w[n->props]); break; }
    default: { int obj = n->type == ZPL_ADT_TYPE_OBJECT; oo += sprintf(out + oo, obj ? "{" : "["); ws(1); for (k = 0; k < zpl_array_count(n->nodes); k++) { zpl_adt_node *c = n->nodes + k; if (obj) { int d = vz_u8() & 3; if (d == 0 && ident(c->name)) oo += sprintf(out + oo, "%s", c->name); else if (d == 1 && !strchr(c->name, '\'')) oo += sprintf(out + oo, "'%s'", c->name); else oo += sprintf(out + oo, "\"%s\"", c->name); ws(1); out[oo++] = ":=|"[vz_u8() % 3]; ws(1); } text(c); ws(!obj); if (k + 1 < zpl_array_count(n->nodes)) { if (obj) out[oo++] = ",\n|"[vz_u8() % 3]; else out[oo++] = ','; } else if (vz_u8() & 1) out[oo++] = ','; ws(1); } oo += sprintf(out + oo, obj ? "}" : "]"); } } }
#endif
void vz_test(void) {
#ifndef VZ_CBMC
    zpl_adt_node root, r2; zpl_string s; char *c; zpl_isize n; int ind = vz_u8() % 14 - 1; memset(&root, 0, sizeof root); left_ = 60; po = oo = 0; zpl_adt_make_branch(&root, zpl_heap(), NULL, 0); grow(&root, 4);
    s = zpl_json_write_string(zpl_heap(), &root, ind < 0 ? ZPL_JSON_INDENT_STYLE_COMPACT : ind); VZ_CHECK(s != NULL, "written"); n = zpl_string_length(s); VZ_CHECK((zpl_isize)strlen(s) == n, "length"); c = (char *)vz_malloc(n + 1); memcpy(c, s, n + 1);
    { int e = zpl_json_parse(&r2, c, zpl_heap()); if (e) fprintf(stderr, "text %s\n", s); VZ_CHECK(e == 0, "parses again"); } same(&root, &r2, 0); zpl_json_free(&r2); zpl_string_free(s);
    ws(1); text(&root); ws(1); out[oo] = 0; c = (char *)vz_malloc(oo + 1); memcpy(c, out, oo + 1); { int e = zpl_json_parse(&r2, c, zpl_heap()); if (e) fprintf(stderr, "text %s\n", out); VZ_CHECK(e == 0, "parses"); } same(&root, &r2, 0); zpl_json_free(&r2); zpl_json_free(&root);
#endif
    VZ_REACH("end");
}
