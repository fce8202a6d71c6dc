/* The algorithmic ranges of GB18030-2000/2005: first four-byte sequence, first and last code point */
static const struct { uint8_t q[4]; uint32_t lo,hi; } gb_range[13]={
	{{0x81,0x30,0xD3,0x30},0x452,0x200F},
	{{0x81,0x37,0xA8,0x39},0x2643,0x2E80},
	{{0x82,0x30,0xA6,0x33},0x361B,0x3917},
	{{0x82,0x31,0xD4,0x38},0x3CE1,0x4055},
	{{0x82,0x32,0xC9,0x37},0x4160,0x4336},
	{{0x82,0x33,0xA3,0x39},0x44D7,0x464B},
	{{0x82,0x33,0xE8,0x38},0x478E,0x4946},
	{{0x82,0x34,0xA1,0x31},0x49B8,0x4C76},
	{{0x82,0x35,0x8F,0x33},0x9FA6,0xD7FF},
	{{0x83,0x36,0xD0,0x30},0xE865,0xF92B},
	{{0x84,0x30,0x9C,0x38},0xFA2A,0xFE2F},
	{{0x84,0x31,0xA2,0x34},0xFFE6,0xFFFF},
	{{0x90,0x30,0x81,0x30},0x10000,0x10FFFF},
};
/* linear position; 1687218 is that of 81 30 81 30 */
static uint32_t gb_linear(const uint8_t *q){ return ((q[0]*10u+q[1])*126u+q[2])*10u+q[3]; }
static int gb_to_ucs(uint32_t lin,uint32_t *u){
	int k; for(k=0;k<13;k++){ uint32_t s=gb_linear(gb_range[k].q); if(lin>=s && lin<=s+(gb_range[k].hi-gb_range[k].lo)){ *u=gb_range[k].lo+(lin-s); return 1; } }
	return 0;
}
static int gb_from_ucs(uint32_t u,uint8_t *q){
	int k; for(k=0;k<13;k++) if(u>=gb_range[k].lo && u<=gb_range[k].hi){ uint32_t l=gb_linear(gb_range[k].q)+(u-gb_range[k].lo)-1687218;
		q[3]=0x30+l%10; l/=10; q[2]=0x81+l%126; l/=126; q[1]=0x30+l%10; q[0]=0x81+l/10; return 1; }
	return 0;
}
