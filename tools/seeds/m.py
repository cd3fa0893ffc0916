PRE='#define ZPL_IMPL\n#include "zpl.h"\n#include <assert.h>\n'
SEEDS=[
dict(id='r01-unique-fold', property='R01', needs='two positions of the unique sequence that straddle the middle of the prime', breaks='the unique sequence yields the same value twice',
 edits=[('code/source/core/random.c','if (x <= prime / 2)','if (x < prime / 2)')], demo=PRE+'''
int main(void){ zpl_random r={0}; zpl_u32 a,b; r.value=2147483645u; a=zpl_random_gen_u32_unique(&r); b=zpl_random_gen_u32_unique(&r); return a==b; }'''),
dict(id='t01-swap-parent', property='T01', needs='swapping two nodes that live under different parents', breaks='a swapped node keeps pointing at its former parent',
 edits=[('code/source/adt.c','    temp.parent = other_parent;\n','    temp.parent = parent;\n')], demo=PRE+'''
int main(void){ zpl_adt_node root={0},*a,*b; zpl_adt_make_branch(&root,zpl_heap(),NULL,0); zpl_adt_append_obj(&root,"a"); zpl_adt_append_obj(&root,"b"); a=root.nodes; b=root.nodes+1;
 zpl_adt_append_int(a,"x",1); zpl_adt_append_int(b,"y",2); zpl_adt_swap_nodes(a->nodes,b->nodes); return !(a->nodes->parent==a && b->nodes->parent==b && a->nodes->integer==2 && b->nodes->integer==1); }'''),
dict(id='t02-last-match', property='T02', needs='an array holding the searched value more than once', breaks='a value filter yields the last match instead of the first',
 edits=[('code/source/adt.c','break; /* we found a matching value in array, ignore the rest of it */','/* we found a matching value in array */')], demo=PRE+'''
int main(void){ zpl_adt_node root={0}; zpl_adt_make_branch(&root,zpl_heap(),NULL,1); zpl_adt_append_int(&root,NULL,4); zpl_adt_append_int(&root,NULL,5); zpl_adt_append_int(&root,NULL,5); return zpl_adt_query(&root,"[5]")!=root.nodes+1; }'''),
dict(id='v01-comma-in-cell', property='V01', needs='a delimiter other than the comma and an unquoted cell that contains a comma', breaks='the cell ends at the comma and the delimiter after it becomes part of no cell',
 edits=[('code/source/parsers/csv.c',"while (*e && *e != delim && *e != '\\n');","while (*e && *e != delim && *e != ',' && *e != '\\n');")], demo=PRE+'''
int main(void){ char t[]="ab,cd;ef\\n"; zpl_csv_object r; if(zpl_csv_parse_delimiter(&r,t,zpl_heap(),false,';')!=0) return 1; if(zpl_array_count(r.nodes)!=2) return 1; return zpl_strcmp(r.nodes[0].nodes[0].string,"ab,cd")!=0 || zpl_strcmp(r.nodes[1].nodes[0].string,"ef")!=0; }'''),
dict(id='w01-short-escape', property='W01', needs='a text with a control character below 16', breaks='such characters are escaped with one digit and decode to something else',
 edits=[('code/source/parsers/uri.c','"%02X"','"%X"')], demo=PRE+'''
int main(void){ zpl_adt_node r,q; zpl_string s; zpl_uri_init(&r,(char*)"x",zpl_heap()); zpl_adt_append_str(&r,"k","a\\nzz"); s=zpl_uri_write_string(zpl_heap(),&r); if(zpl_uri_parse(&q,s,zpl_heap())) return 1; { zpl_adt_node *n=zpl_adt_find(&q,"k",false); return !n || n->type!=ZPL_ADT_TYPE_STRING || zpl_strcmp(n->string,"a\\nzz")!=0; } }'''),
dict(id='x01-prefix-name', property='X01', needs='an argument naming a proper prefix of a declared option', breaks='an undeclared abbreviated name sets the option instead of being reported',
 edits=[('code/source/opts.c','if (zpl_strnlen(name, len) == zpl_strlen(n) && !zpl_strncmp(n, name, len)) { return e; }','if (zpl_strnlen(name, len) <= zpl_strlen(n) && !zpl_strncmp(n, name, len)) { return e; }')], demo=PRE+'''
int main(void){ zpl_opts o; char a0[]="app",a1[]="--fil=x"; char *av[]={a0,a1,NULL}; zpl_opts_init(&o,zpl_heap(),"app"); zpl_opts_add(&o,"f","file","d",ZPL_OPTS_STRING); return zpl_opts_compile(&o,2,av)!=0 || zpl_opts_has_arg(&o,"file"); }'''),
dict(id='q01-full-other', property='Q01', needs='a full queue of another priority than the normal one', breaks='enqueueing into a full queue is accepted and drops queued jobs',
 edits=[('code/source/jobs.c','if (!zpl_jobs_full(pool, priority)) {','if (!zpl_jobs_full(pool, ZPL_JOBS_PRIORITY_NORMAL)) {')], demo=PRE+'''
static void f(void*d){(void)d;}
int main(void){ static zpl_jobs_system p; zpl_jobs_init_with_limit(&p,zpl_heap(),0,2); if(!zpl_jobs_enqueue_with_priority(&p,f,0,ZPL_JOBS_PRIORITY_HIGH)||!zpl_jobs_enqueue_with_priority(&p,f,0,ZPL_JOBS_PRIORITY_HIGH)) return 1; return zpl_jobs_enqueue_with_priority(&p,f,0,ZPL_JOBS_PRIORITY_HIGH)!=0; }'''),
dict(id='f02-half-block', property='F02', needs='an entry whose size leaves 1 to 256 bytes in its last block', breaks='the entry is padded to half a block, so everything after it is misplaced',
 edits=[('code/source/core/file_tar.c','zpl_align_forward_i64(remaining_data, 512);','zpl_align_forward_i64(remaining_data, 256);')], demo=PRE+'''
int main(void){ char const *names[]={"in.bin"}; FILE *f=fopen("in.bin","wb"); zpl_file a; if(!f) return 2; fputs("hello",f); fclose(f); zpl_file_stream_new(&a,zpl_heap()); if(zpl_tar_pack(&a,names,1)!=0) return 1; return zpl_file_size(&a)!=512+512+1024; }'''),
dict(id='o02-last-bucket', property='O02', needs='a key with a byte 0xff', breaks='such keys are placed by their number instead of their position',
 edits=[('code/source/core/sort.c','for (i = 0; i < zpl_count_of(offsets); i++) {','for (i = 0; i < zpl_count_of(offsets) - 1; i++) {')], demo=PRE+'''
int main(void){ zpl_u8 a[16]={0xff,3,1,2},t[16]={0}; zpl_radix_sort_u8(a,t,4); return !(a[0]==1&&a[1]==2&&a[2]==3&&a[3]==0xff); }'''),
dict(id='f01-gap-write', property='F01', needs='a write to a growable stream that starts beyond its end', breaks='the data land at the former end and the gap filling is overwritten',
 edits=[('code/source/core/file_stream.c','zpl_memcopy(d->buf + offset + rwlen,','zpl_memcopy(d->buf + zpl_min(offset + rwlen, buflen),')], demo=PRE+'''
int main(void){ zpl_file f; zpl_isize n; zpl_u8 *b; zpl_file_stream_new(&f,zpl_heap()); zpl_file_write_at(&f,"ab",2,0); zpl_file_write_at(&f,"z",1,5); b=zpl_file_stream_buf(&f,&n); return !(n==6 && b[0]=='a' && b[1]=='b' && b[2]==0 && b[4]==0 && b[5]=='z'); }'''),
dict(id='f03-first-dot', property='F03', needs='a path with more than one dot', breaks='the extension starts after the first dot instead of the last',
 edits=[('code/header/core/file_misc.h',"ld = zpl_char_last_occurence(path, '.');","ld = zpl_char_first_occurence(path, '.');\n    if (ld && *ld == 0) ld = NULL;")], demo=PRE+'''
int main(void){ char const *p="a/b.c.tar", *q="noext"; return zpl_path_extension(p)!=p+6 || zpl_path_extension(q)!=NULL; }'''),
dict(id='u01-above-max', property='U01', needs='a four-byte sequence that encodes a value above the largest code point', breaks='the invalid sequence is accepted',
 edits=[('code/source/core/string.c','{ 0x80, 0x8f },','{ 0x80, 0x9f },')], demo=PRE+'''
int main(void){ zpl_rune r=0; zpl_u8 s[]={0xf4,0x90,0x80,0x80,0}; zpl_isize n=zpl_utf8_decode(s,4,&r); return !(n==1 && r==ZPL_RUNE_INVALID); }'''),
]
