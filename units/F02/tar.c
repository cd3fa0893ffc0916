//@unit unpack kind=contract target=zpl_tar_unpack calls=zpl_file_tell:vz_tell,zpl_file_size:vz_size_,zpl_file_seek:vz_seek,zpl_file_read_at_check:vz_read,zpl_str_to_i64:vz_num,zpl__tar_checksum:vz_sum fp=zpl_tar_unpack.function_pointer_call.1/vz_cb standin=0 unwind=16
//@unit hist kind=search search=40 maxlen=3000 bound="archives of up to 8 files, archive texts up to 3000 bytes" about="pack and unpack; damaged and arbitrary archives"
#define VZ_ANNOT "annot_tar.h"
#include <stdint.h>
#include "vz.h"
#ifdef VZ_CBMC
static zpl_i64 g_size, g_pos; static zpl_file g_f; static zpl_isize g_cb; static int g_reads, g_stop;
/* contracts of the file layer: a file of g_size bytes; a read delivers only existing bytes, at the offset asked for */
zpl_i64 vz_tell(zpl_file *f) { VZ_CHECK(f == &g_f, "the archive"); return g_pos; }
zpl_i64 vz_size_(zpl_file *f) { VZ_CHECK(f == &g_f, "the archive"); return g_size; }
zpl_i64 vz_seek(zpl_file *f, zpl_i64 o) { VZ_CHECK(f == &g_f && o >= 0, "a position"); return o; }
struct hd { uint8_t b[512]; }; struct hd nondet_hd(void);
zpl_b32 vz_read(zpl_file *f, void *b, zpl_isize n, zpl_i64 o, zpl_isize *br) { zpl_isize r = (zpl_isize)nondet_vz8(); VZ_CHECK(f == &g_f && n == 512 && o >= 0 && __CPROVER_w_ok(b, 512), "a header"); VZ_ASSUME(r >= 0 && r <= 512); VZ_ASSUME(o >= g_size ? r == 0 : r <= g_size - o);
    *(struct hd *)b = nondet_hd(); if (br) *br = r; return nondet_vz1() & 1; }
zpl_i64 vz_num(char const *s, char **e, zpl_i32 base) { VZ_CHECK(base == 8 && s[15] == 0, "octal digits, terminated"); (void)e; return (zpl_i64)nondet_vz8(); }
zpl_usize vz_sum(zpl__tar_header *h) { (void)h; return (zpl_usize)nondet_vz8(); }
zpl_isize vz_cb(zpl_file *f, zpl_tar_record *r, void *u) { VZ_CHECK(f == &g_f && u == &g_cb, "the archive and the user data"); VZ_CHECK(r->length >= 0 && r->offset >= 512 && r->offset <= g_size && r->length <= g_size - r->offset, "the data lie inside the archive"); VZ_CHECK(__CPROVER_r_ok(r->path, 101) && r->path[100] == 0, "the name is terminated"); VZ_CHECK(r->error == ZPL_TAR_ERROR_NONE || r->error == ZPL_TAR_ERROR_BAD_CHECKSUM, "error code"); VZ_REACH("callback"); return (zpl_isize)nondet_vz8(); }
#endif
#ifdef VZ_PROOF
void vz_proof(void) {
    zpl_isize e; g_size = vz_range(0, (int64_t)1 << 60); g_pos = vz_range(0, (int64_t)1 << 60); VZ_ASSUME(g_pos <= g_size);
    e = zpl_tar_unpack(&g_f, vz_cb, &g_cb); VZ_CHECK(e == 0 || e == -ZPL_TAR_ERROR_INTERRUPTED || e == -ZPL_TAR_ERROR_IO_ERROR || e == -ZPL_TAR_ERROR_INVALID_INPUT, "an error code");
    VZ_REACH("end");
}
#else
#ifndef VZ_CBMC
#include <unistd.h>
#include <sys/stat.h>
static char dir[64]; static void cleanup(void) { char b[100]; int k; for (k = 0; k < 8; k++) { sprintf(b, "%s/f%d", dir, k); unlink(b); } rmdir(dir); }
static int nrec, nbad; static char names[16][128]; static uint8_t *data[16]; static int64_t len[16]; static int strict; static uint8_t *whole; static zpl_isize wn;
static zpl_isize cb(zpl_file *f, zpl_tar_record *r, void *u) { zpl_isize n = 0; (void)u; VZ_CHECK(r->length >= 0 && r->offset >= 0 && r->offset + r->length <= wn, "the data lie inside the archive"); VZ_CHECK(strlen(r->path) <= 100, "terminated name"); VZ_CHECK(zpl_file_tell(f) == r->offset, "positioned at the data");
    { uint32_t s = 256; int i; uint8_t *h = whole + r->offset - 512; for (i = 0; i < 512; i++) if (i < 148 || i >= 156) s += h[i]; VZ_CHECK((r->error == ZPL_TAR_ERROR_BAD_CHECKSUM) == (s != (uint32_t)strtoul((char *)memcpy(memset(names[15], 0, 20), h + 148, 8), 0, 8)) || !strict, "checksum"); nbad += r->error != 0; }
    if (strict && nrec < 8) { uint8_t *b = (uint8_t *)vz_malloc((size_t)r->length); VZ_CHECK(r->type == ZPL_TAR_TYPE_REGULAR && r->error == 0 && r->offset % 512 == 0, "a regular file at a block boundary"); VZ_CHECK(!strcmp(r->path, names[nrec]) && r->length == len[nrec], "name and size"); VZ_CHECK(zpl_file_read_at_check(f, b, r->length, r->offset, &n) && n == r->length && !memcmp(b, data[nrec], (size_t)n), "contents"); }
    nrec++; return vz_u8() == 77; }
#endif
void vz_test(void) {
#if defined U_checksum
    zpl__tar_header *hp = (zpl__tar_header *)vz_malloc(sizeof *hp); uint8_t *p = (uint8_t *)hp; zpl_usize s = 256; int i; VZ_CHECK(sizeof *hp == 512 && zpl_offset_of(zpl__tar_header, name) == 0 && zpl_offset_of(zpl__tar_header, mode) == 100 && zpl_offset_of(zpl__tar_header, size) == 124 && zpl_offset_of(zpl__tar_header, mtime) == 136 && zpl_offset_of(zpl__tar_header, checksum) == 148 && zpl_offset_of(zpl__tar_header, type) == 156 && zpl_offset_of(zpl__tar_header, linkname) == 157, "header layout");
    for (i = 0; i < 148; i++) s += p[i]; for (i = 156; i < 512; i++) s += p[i]; VZ_CHECK(zpl__tar_checksum(hp) == s, "checksum");
#elif !defined VZ_CBMC
    zpl_file ar; int k, n = vz_u8() % 8, mode = vz_u8() & 3; zpl_isize e, q; uint64_t h = 88172645463325252ull; char path[8][300]; char const *pp[8];
    if (!dir[0]) { strcpy(dir, "/tmp/vzXXXXXX"); if (!mkdtemp(dir)) abort(); atexit(cleanup); }
    zpl_file_stream_new(&ar, zpl_heap()); strict = 0; nrec = nbad = 0;
    if (mode) {
        for (k = 0; k < n; k++) { FILE *f; int64_t i, L = vz_u8() % 5 ? vz_u8() % 40 : vz_u16() % 9000, pad = vz_u8() % 4 ? 0 : 70 + vz_u8() % 20; if (vz_u8() % 5 == 0) L = (vz_u8() % 4) * 512; data[k] = (uint8_t *)vz_malloc((size_t)L); len[k] = L; for (i = 0; i < L; i++) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; data[k][i] = (uint8_t)h; }
            sprintf(path[k], "%s", dir); for (i = 0; i < pad; i++) strcat(path[k], "/"); sprintf(path[k] + strlen(path[k]), "/f%d", k); if (strlen(path[k]) >= 100) path[k][0] = 0, sprintf(path[k], "%s/f%d", dir, k); f = fopen(path[k], "wb"); if (!f) abort(); fwrite(data[k], 1, (size_t)L, f); fclose(f); strcpy(names[k], path[k]); pp[k] = path[k]; }
        e = zpl_tar_pack(&ar, pp, n); VZ_CHECK(e == 0, "packs"); whole = zpl_file_stream_buf(&ar, &wn); VZ_CHECK(wn % 512 == 0 && wn >= 1024, "whole blocks"); for (k = 0; k < 1024; k++) VZ_CHECK(whole[wn - 1024 + k] == 0, "two zero blocks at the end");
        { int64_t o = 0, i; for (k = 0; k < n; k++) { VZ_CHECK(!strcmp((char *)whole + o, names[k]) && strtoll((char *)whole + o + 124, 0, 8) == len[k] && whole[o + 156] == '0' && strtol((char *)whole + o + 100, 0, 8) == 0664 && strtoll((char *)whole + o + 136, 0, 8) > 1000000000, "header"); o += 512; VZ_CHECK(!len[k] || !memcmp(whole + o, data[k], (size_t)len[k]), "data"); for (i = len[k]; i % 512; i++) VZ_CHECK(whole[o + i] == 0, "padding"); o += (len[k] + 511) / 512 * 512; } VZ_CHECK(o + 1024 == wn, "nothing else"); }
        strict = 1; zpl_file_seek(&ar, 0); { const uint8_t *sd = vz_data; size_t ss = vz_size; vz_size = 0; e = zpl_tar_unpack(&ar, cb, NULL); vz_data = sd; vz_size = ss; } VZ_CHECK(e == 0 && nrec == n && nbad == 0, "every record, in order"); strict = 0;
        { char lp[130]; char const *l = lp; memset(lp, 'x', 120); lp[120] = 0; VZ_CHECK(zpl_tar_pack(&ar, &l, 1) < 0, "a missing file is reported"); sprintf(lp, "%s", dir); while (strlen(lp) < 110) strcat(lp, "/"); if (n) { sprintf(lp + strlen(lp), "f0"); VZ_CHECK(zpl_tar_pack(&ar, &l, 1) == -ZPL_TAR_ERROR_INVALID_INPUT, "a name that does not fit is refused"); } }
        for (k = 0; k < n; k++) unlink(path[k]);
        if (mode == 1) { zpl_file_close(&ar); return; }
        whole = zpl_file_stream_buf(&ar, &wn); k = vz_u8() % 6; while (k--) { int64_t o = vz_u16(); o = vz_u8() & 1 ? o % (int64_t)wn : o % 4 * 512 + (vz_u8() & 1 ? 124 : 148) + o % 12; if (o < wn) whole[o] = vz_u8() & 1 ? "-07 \0"[vz_u8() % 5] : vz_u8(); }
        if (vz_u8() & 1) { zpl_file f2; uint8_t *c; wn = (zpl_isize)(vz_u16() % wn); c = (uint8_t *)vz_malloc((size_t)wn); memcpy(c, whole, (size_t)wn); whole = c; zpl_file_stream_open(&f2, zpl_heap(), c, wn, 0); zpl_file_close(&ar); ar = f2; }
    } else { uint8_t *c; wn = (zpl_isize)vz_size; c = (uint8_t *)vz_malloc((size_t)wn); for (q = 0; q < wn; q++) c[q] = vz_u8(); zpl_file_close(&ar); zpl_file_stream_open(&ar, zpl_heap(), c, wn, 0); whole = c; }
    zpl_file_seek(&ar, 0); nrec = 0; e = zpl_tar_unpack(&ar, cb, NULL); VZ_CHECK(e <= 0, "an error code"); zpl_file_close(&ar);
#endif
    VZ_REACH("end");
}
#endif
