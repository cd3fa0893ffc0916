//@unit opts kind=search mods=OPTS search=35 maxlen=300 bound="up to 7 declarations, up to 12 arguments of up to 16 characters" about="declarations, argument scanning, values, errors, positionals against a reference reading of the arguments"
#include <stdint.h>
#include "vz.h"
#ifndef VZ_CBMC
#include <unistd.h>
#include <fcntl.h>
static char const *LN[] = {"file", "fil", "files", "a-b", "x_1", "m", "mem2"}, *SN[] = {"f", "fi", "m", "-x", "a_", "z9", "F"};
typedef struct { char const *n, *l; int type, met, pos, ok; char text[40]; } ent;
static ent E[8]; static int ne, pq[8], np; static char errs[16][40]; static int et[16], nerr;
static int isname(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_'; }
static int canon(char const *s, int real) { int n = 0; if (*s == '-') s++; for (; *s >= '0' && *s <= '9'; s++) n++; if (real && n && *s == '.') { s++; while (*s == '5') s++; } return n > 0 && n < 12 && *s == 0; }
static void set(int i, char const *b) { int k, j; E[i].met = 1; snprintf(E[i].text, 40, "%s", b); for (k = 0; k < np; k++) if (pq[k] == i) { for (j = k; j + 1 < np; j++) pq[j] = pq[j + 1]; np--; break; } }
static void err(int t, char const *b, int n) { et[nerr] = t; snprintf(errs[nerr], 40, "%.*s", n, b); nerr++; }
static int find(char const *b, int n, int lng) { int i; for (i = 0; i < ne; i++) { char const *s = lng ? E[i].l : E[i].n; if (s && (int)strlen(s) == n && !memcmp(s, b, n)) return i; } return -1; }
static void model(int argc, char **av) { int i; for (i = 1; i < argc; i++) { char const *p = av[i]; if (!*p) continue; while (*p && strchr(" \t\n\r\f\v", *p)) p++;
    if (*p == '-') { int lng = p[1] == '-', n = 0, t; char const *b = p + 1 + lng; while (isname(b[n])) n++; t = find(b, n, lng);
        if (t < 0) err(ZPL_OPTS_ERR_OPTION, b, 99);
        else if (b[n] == '=') { if (E[t].type == ZPL_OPTS_FLAG) err(ZPL_OPTS_ERR_EXTRA_VALUE, b, n); else set(t, b + n + 1); }
        else if (b[n]) err(ZPL_OPTS_ERR_OPTION, b, 99);
        else { char const *sp = i + 1 < argc ? av[i + 1] : NULL; int val = sp && *sp != '-';
            if (E[t].type == ZPL_OPTS_FLAG) { if (val && np == 0) err(ZPL_OPTS_ERR_EXTRA_VALUE, b, 99); else E[t].met = 1; }
            else if (!val) err(ZPL_OPTS_ERR_MISSING_VALUE, b, 99); else { set(t, sp); i++; } } }
    else if (np) set(pq[0], p); else err(ZPL_OPTS_ERR_VALUE, p, 99); } }
#endif
void vz_test(void) {
#ifndef VZ_CBMC
    zpl_opts o; int i, argc, na = vz_nalloc, nf = vz_nfree, r, perm = vz_u8(); char *av0[13], **av; char const *ls[8]; vz_fail = 0; ne = np = nerr = 0; zpl_opts_init(&o, vz_allocator(), "app"); argc = vz_u8() % 8;
    for (i = 0; i < argc; i++) { ent *e = &E[ne]; int k = vz_u8(); memset(e, 0, sizeof *e); e->l = k & 3 || i == 0 ? LN[(i + perm) % 7] : NULL; e->n = !e->l || k & 4 ? SN[(i * 2 + perm) % 7] : NULL; e->type = (k >> 3) & 3; ls[i] = e->l; zpl_opts_add(&o, e->n, e->l, "text", (zpl_u8)e->type); ne++;
        if (k & 32) { int q = (k >> 6) % ne; if (E[q].l && !E[q].pos && E[q].type != ZPL_OPTS_FLAG) { E[q].pos = 1; pq[np++] = q; zpl_opts_positional_add(&o, E[q].l); } else if (!E[q].l) zpl_opts_positional_add(&o, "none"); } }
    argc = 1 + vz_u8() % 12; av0[0] = (char *)"app";
    for (i = 1; i < argc; i++) { char s[64]; int k = vz_u8(), l = vz_u8(), n = 0, j; if ((k & 3) && ne) { ent *e = &E[l % ne]; char const *c = (k & 3) == 1 || !e->n ? e->l ? e->l : e->n : e->n; n = sprintf(s, "%s%s%s", k & 4 && k & 8 ? " " : "", c == e->l ? "--" : "-", c); if (k >= 128) s[n++] = "=:==x-\\="[l >> 5]; }
        if (!(k & 3) || n == 0 || s[n - 1] == '=') { if (k & 16) n += sprintf(s + n, k & 32 ? "%d" : "%d.5", (int)(int8_t)l * 331); else for (j = l % 7; j > 0; j--) { int x = vz_u8(); s[n++] = x < 200 ? "-=ab \\\t1._f:"[x % 12] : x; } }
        s[n] = 0; av0[i] = (char *)vz_malloc(n + 1); memcpy(av0[i], s, n + 1); }
    model(argc, av0); av = (char **)vz_malloc(sizeof(char *) * argc); memcpy(av, av0, sizeof(char *) * argc);
    r = zpl_opts_compile(&o, argc, av);
    VZ_CHECK(!!r == (nerr == 0), "errors reported"); VZ_CHECK(zpl_array_count(o.errors) == nerr, "number of errors"); for (i = 0; i < nerr; i++) VZ_CHECK(o.errors[i].type == et[i] && !strcmp(o.errors[i].val, errs[i]), "error kind and text");
    VZ_CHECK(!!zpl_opts_positionals_filled(&o) == (np == 0), "positionals filled");
    for (i = 0; i < ne; i++) { zpl_opts_entry *e = o.entries + i; VZ_CHECK(e->met == (zpl_b32)E[i].met && e->pos == (zpl_b32)E[i].pos && e->type == E[i].type, "option met");
        if (e->met) { if (e->type == ZPL_OPTS_STRING) VZ_CHECK(!strcmp(e->text, E[i].text), "text value"); if (e->type == ZPL_OPTS_INT && canon(E[i].text, 0)) VZ_CHECK(e->integer == strtoll(E[i].text, 0, 10), "integer value"); if (e->type == ZPL_OPTS_FLOAT && canon(E[i].text, 1)) VZ_CHECK(e->real - strtod(E[i].text, 0) < 1e-3 && strtod(E[i].text, 0) - e->real < 1e-3, "real value"); }
        if (ls[i]) { VZ_CHECK(!!zpl_opts_has_arg(&o, ls[i]) == E[i].met, "has"); if (e->type == ZPL_OPTS_STRING) { char const *g = zpl_opts_string(&o, ls[i], "fb"); VZ_CHECK(!strcmp(g, E[i].met ? E[i].text : "fb"), "lookup of a text"); } if (e->type == ZPL_OPTS_INT) VZ_CHECK(zpl_opts_integer(&o, ls[i], 77) == (E[i].met ? e->integer : 77), "lookup of an integer"); if (e->type == ZPL_OPTS_FLOAT && (!E[i].met || canon(E[i].text, 1))) VZ_CHECK(zpl_opts_real(&o, ls[i], 7.5) == (E[i].met ? e->real : 7.5), "lookup of a real"); } }
    VZ_CHECK(!zpl_opts_has_arg(&o, "none") && zpl_opts_integer(&o, "none", 5) == 5, "undeclared names");
    if ((perm & 31) == 0) { int s = dup(1), d = open("/dev/null", O_WRONLY); if (s >= 0 && d >= 0) { dup2(d, 1); zpl_opts_print_help(&o); zpl_opts_print_errors(&o); dup2(s, 1); } if (s >= 0) close(s); if (d >= 0) close(d); }
    zpl_opts_free(&o); VZ_CHECK(vz_nalloc - na == vz_nfree - nf, "every block freed");
#endif
    VZ_REACH("end");
}
