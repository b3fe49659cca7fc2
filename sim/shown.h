/* Everything that determines the picture (filled by probe.c) */
#pragma once
struct ShSpr { int active, x, y, chr, pal, prio, fx, fy, w, h, hx, hy, scale, angle, key; };
struct Shown {
	unsigned char con[24][32], concol[24][32], pnl[24][32], pnlcol[24][32], fkey[24][32], fkeycol[24][32];
	int visible, cursor, cx, cy, ptype, shift, key_pressed;
	unsigned short bg[2][2][64][64]; int ofs[2][2][2];
	struct ShSpr sp[2][100], keys[95];
	unsigned char grp[2][192][256]; int gprio[2];
};
