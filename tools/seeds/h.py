PRE='#define ZPL_IMPL\n#include "zpl.h"\n#include <assert.h>\n'
SEEDS=[
dict(id='h01-crc64-table', property='H01', needs='a message whose running remainder selects table entry 0x7f', breaks='CRC-64 of such messages differs from the published algorithm',
 edits=[('code/source/hashing.c','0x8f689158505e9b8bull','0x8f689158505e9b8aull')] , demo=PRE+'''
int main(void){ unsigned char m[2]; int a,b; for(a=0;a<256;a++) for(b=0;b<256;b++){ zpl_u64 r=0; int i,k; m[0]=a;m[1]=b;
 for(i=0;i<2;i++){ r^=m[i]; for(k=0;k<8;k++) r=(r&1)?(r>>1)^0x95AC9329AC4BC9B5ull:r>>1; } if(zpl_crc64(m,2)!=r) return 1; } return 0; }'''),
dict(id='h02-murmur32-tail', property='H02', needs='a message whose length is 3 modulo 4', breaks='the third tail byte is mixed in at the wrong place',
 edits=[('code/source/hashing.c','case 3: k1 ^= tail[2] << 16;','case 3: k1 ^= tail[2] << 15;')], demo=PRE+'''
int main(void){ return zpl_murmur32_seed("abc",3,0)==0xB3DD93FAu?0:1; }'''),
dict(id='h03-encode-last', property='H03', needs='a message whose length is 2 modulo 3', breaks='the last significant character drops the low bits of the second byte of the tail',
 edits=[('code/source/hashing.c',"v = (i+2 < len) ? (v << 8 | s[i+2]) : (v << 8);","v = (i+2 < len) ? (v << 8 | s[i+2]) : ((v & ~0x3) << 8);")], demo=PRE+'''
int main(void){ zpl_u8 *e=zpl_base64_encode(zpl_heap(),"ab",2); return zpl_strcmp((char*)e,"YWI=")==0 && zpl_strcmp((char*)zpl_base64_encode(zpl_heap(),"ac",2),"YWM=")==0?0:1; }'''),
]
