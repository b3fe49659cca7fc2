// P24: what the window shows is the machine's state - whenever the program rests, every
// pixel of both screens is what text, colours, characters, tiles, sprites, pixels, panel and
// their priorities and visibility say, under every schedule and history.
#include "lang.h"
#include "shown.h"
extern "C" const void* probe_code(void* ptc);
extern "C" { const unsigned char* probe_chr(void*, int bank); const unsigned short* probe_colbank(void*, int bank); }
static u64 hmem(u64 h, const void* p, size_t n){ const u64* q = (const u64*)p; for (n /= 8; n--; ++q){ h = (h ^ *q) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; }
static string nl(string s){ for (auto& c : s) if (c == '\r') c = '\n'; return s; }

namespace {
// where the keys and icons are: x, y, width, height, character (-1: none), key
static const short KEYS[95][6] = {{0,48,32,32,280,1},{24,48,16,32,384,2},{40,48,16,32,386,3},{56,48,16,32,388,4},{72,48,16,32,390,5},{88,48,16,32,392,6},{104,48,16,32,394,7},{120,48,16,32,396,8},{136,48,16,32,398,9},{152,48,16,32,400,10},{168,48,16,32,402,11},{184,48,16,32,404,12},{200,48,16,32,406,13},{216,48,16,32,408,14},{232,48,32,32,276,15},{0,72,16,32,410,16},{16,72,16,32,412,17},{32,72,16,32,414,18},{48,72,16,32,416,19},{64,72,16,32,418,20},{80,72,16,32,420,21},{96,72,16,32,422,22},{112,72,16,32,424,23},{128,72,16,32,426,24},{144,72,16,32,428,25},{160,72,16,32,430,26},{176,72,16,32,432,27},{192,72,16,32,434,28},{208,72,16,32,436,29},{224,72,16,32,438,30},{240,72,16,32,440,31},{0,96,32,32,284,32},{24,96,16,32,442,33},{40,96,16,32,444,34},{56,96,16,32,446,35},{72,96,16,32,448,36},{88,96,16,32,450,37},{104,96,16,32,452,38},{120,96,16,32,454,39},{136,96,16,32,456,40},{152,96,16,32,458,41},{168,96,16,32,460,42},{184,96,16,32,462,43},{200,96,16,32,464,44},{216,96,16,32,466,45},{232,96,16,32,468,46},{0,120,32,32,296,47},{32,120,16,32,470,48},{48,120,16,32,472,49},{64,120,16,32,474,50},{80,120,16,32,476,51},{96,120,16,32,478,52},{112,120,16,32,480,53},{128,120,16,32,482,54},{144,120,16,32,484,55},{160,120,16,32,486,56},{176,120,16,32,488,57},{192,120,16,32,490,58},{208,120,16,32,492,59},{224,120,32,32,300,60},{0,144,16,16,313,61},{24,144,16,16,508,62},{40,144,16,16,509,63},{56,144,16,16,510,64},{80,144,32,16,496,65},{112,144,16,16,495,65},{128,144,16,16,495,65},{144,144,16,16,495,65},{160,144,16,16,495,65},{176,144,16,16,494,65},{200,144,16,16,309,66},{216,144,16,16,310,67},{240,144,16,16,311,68},{0,-1,16,16,505,101},{16,-1,32,16,499,101},{48,-1,16,16,504,102},{64,-1,32,16,499,102},{96,-1,16,16,503,103},{112,-1,32,16,499,103},{144,-1,16,16,502,104},{160,-1,32,16,499,104},{192,-1,16,16,501,105},{208,-1,32,16,499,105},{240,0,16,16,315,106},{0,168,32,32,304,70},{40,168,32,32,256,71},{72,168,16,32,260,71},{88,168,16,32,262,72},{104,168,32,32,264,72},{144,168,16,16,-1,80},{144,180,16,16,-1,81},{160,168,32,32,-1,90},{184,168,32,32,-1,91},{208,168,32,32,-1,92},{232,168,32,32,-1,93}};
struct Files { map<string, string> f; unsigned char scr[2][24 * 32 * 2]; unsigned char key[6][2][8192]; };

struct Px { int n; u32 c[12]; void push_back(u32 v){ if (n < 12) c[n++] = v; } bool has(u32 v) const { for (int i = 0; i < n; ++i) if (c[i] == v) return true; return n == 12; } void clear(){ n = 0; } bool empty() const { return !n; } u32 operator[](int i) const { return c[i]; } };
// the reference: which colour has this pixel, looked up from front to back
struct Ref {
	Shown s; const unsigned char* chr[44]; const unsigned short* col[6]; const Files* fl;
	vector<const ShSpr*> lay[2][4]; ShSpr curs, own[95]; vector<const ShSpr*> kb, ic;
	u32 rgb(int bank, int i) const { int v = col[bank][i]; return 0xff000000u | (u32)((v >> 7) & 0xf8) << 16 | (u32)((((v >> 5) & 31) << 3) | ((v >> 15) << 2)) << 8 | (u32)((v & 31) << 3); }
	int unit(int bank0, int nbank, int u, int x, int y) const { // colour number of a pixel of a character; -1: there is no such character
		int b = bank0 + u / 256; if (u < 0 || u >= nbank * 256) return -1; const unsigned char* q = chr[b];
		if (s.ptype >= 2 && (b == 40 || b == 41)) q = fl->key[2 * (s.ptype - 2) + (((s.shift & 1) != 0) ^ ((s.shift & 2) != 0))][b - 40]; // the keyboard's own characters
		int v = q[(u % 256) * 32 + y * 4 + x / 2]; return x & 1 ? v >> 4 : v & 15; }
	void prepare(){
		rows.clear();
		for (auto& a : lay) for (auto& b : a) b.clear();
		for (int p = 0; p < 2; ++p) for (auto& q : s.sp[p]) if (q.active) lay[p][q.prio & 3].push_back(&q);
		memset(&curs, 0, sizeof curs); curs.active = 1; curs.x = s.cx * 8 * 4096; curs.y = s.cy * 8 * 4096; curs.chr = 108; curs.w = curs.h = 8; curs.scale = 4096;
		kb.clear(); ic.clear(); for (int i = 0; i < 95; ++i){ ShSpr q = s.keys[i]; if (i < 89) q.active = 1; if (!q.active) continue; q.x = KEYS[i][0] * 4096; q.y = KEYS[i][1] * 4096; q.w = KEYS[i][2]; q.h = KEYS[i][3]; q.key = KEYS[i][5]; q.scale = 4096; q.angle = q.hx = q.hy = 0; if (KEYS[i][4] >= 0) q.chr = KEYS[i][4]; if (s.key_pressed && q.key == s.key_pressed){ q.x += 4096; q.y += 4096; } own[i] = q; (i < 89 ? kb : ic).push_back(&own[i]); }
	}
	// 0: nothing here, 1: c is the colour number, 2: not specified
	int spr(const ShSpr& q, int bank0, int nbank, int x, int y, int& c) const {
		int px = q.x >> 12, py = q.y >> 12; 
		if (q.angle || (q.scale != 4096 && q.scale != 8192 && q.scale != 0)){ double r = 0; for (int i = 0; i < 4; ++i) r = std::max(r, hypot((i & 1 ? q.w : 0) - q.hx, (i & 2 ? q.h : 0) - q.hy)); r = r * q.scale / 4096 + 3; return hypot(x - px, y - py) <= r ? 2 : 0; }
		int k = q.scale >> 12; if (!k) return 0; int dx = x - px + k * q.hx, dy = y - py + k * q.hy; if (dx < 0 || dy < 0 || dx >= k * q.w || dy >= k * q.h) return 0;
		dx /= k; dy /= k; if (q.fx) dx = q.w - 1 - dx; if (q.fy) dy = q.h - 1 - dy;
		int v = unit(bank0, nbank, 4 * q.chr + dx / 8 + (dy / 8) * (q.w / 8), dx % 8, dy % 8); if (v < 0) return 2; if (!v) return 0; c = 16 * q.pal + v; return 1;
	}
	struct Row { const ShSpr* q; int x0, x1; };
	mutable map<const void*, std::pair<int, vector<Row>>> rows;
	const vector<Row>& row(const vector<const ShSpr*>& l, int y) const { // the sprites of this list that can reach this row
		auto& e = rows[&l]; if (e.first == y + 1) return e.second; e.first = y + 1; e.second.clear();
		for (auto q : l){ int px = q->x >> 12, py = q->y >> 12, k = (q->scale >> 12) + 1, R = k * (q->w + q->h + abs(q->hx) + abs(q->hy)) + 4; if (abs(y - py) <= R) e.second.push_back({q, px - R, px + R}); } return e.second; }
	bool sprites(const vector<const ShSpr*>& l, int bank0, int nbank, int cb, int x, int y, Px& r) const { // true: done (r empty: not specified)
		if (l.empty()) return false; for (auto& z : row(l, y)){ auto q = z.q; if (x < z.x0 || x > z.x1) continue; int c; int t = spr(*q, bank0, nbank, x, y, c); if (t == 2){ r.clear(); return true; } if (t == 1) r.push_back(rgb(cb, c)); } return !r.empty(); }
		bool keys(const vector<const ShSpr*>& l, int bank0, int nbank, int cb, int x, int y, Px& r) const { return sprites(l, bank0, nbank, cb, x, y, r); }
	bool bg(int p, int l, int x, int y, Px& r) const { if (!(s.visible & (l ? 8 : 4))) return false; int X = (x + (s.ofs[p][l][0] >> 12)) & 511, Y = (y + (s.ofs[p][l][1] >> 12)) & 511; int t = s.bg[p][l][Y / 8][X / 8]; int u = X & 7, v = Y & 7; if (t & 0x400) u = 7 - u; if (t & 0x800) v = 7 - v; int c = unit(22 * p + 8, 4, t & 0x3ff, u, v); if (c < 1) return false; r.push_back(rgb(3 * p, 16 * (t >> 12) + c)); return true; }
	bool grp(int p, int prio, int x, int y, Px& r) const { if (s.gprio[p] != prio || !(s.visible & 32)) return false; if (p == 1 && (s.ptype > 1 || !(s.visible & 2))) return false; int c = s.grp[p][y][x]; if (!c) return false; r.push_back(rgb(2 + 3 * p, c)); return true; }
	bool sp(int p, int prio, int x, int y, Px& r) const { if (!(s.visible & 16)) return false; if (p == 1 && (s.ptype != 0 || !(s.visible & 2))) return false; return p ? sprites(lay[1][prio], 42, 2, 4, x, y, r) : sprites(lay[0][prio], 12, 8, 1, x, y, r); }
	bool text(const unsigned char (*t)[32], const unsigned char (*tc)[32], int p, int x, int y, Px& r) const { int c = unit(22 * p, 2, t[y / 8][x / 8], x & 7, y & 7); if (c < 1) return false; r.push_back(rgb(3 * p, 16 * (tc[y / 8][x / 8] & 15) + c)); return true; }
	Px pixel(int p, int x, int y, const char*& what) const {
		Px r; r.n = 0;
		#define L(n, e) what = n; if (e) return r;
		if (p == 0){
			int c; if (s.cursor && spr(curs, 20, 2, x, y, c) == 1){ what = "cursor"; r.push_back(rgb(1, c)); return r; }
			L("sprites 0", sp(0, 0, x, y, r)) L("graphics 0", grp(0, 0, x, y, r))
			L("text", (s.visible & 1) && text(s.con, s.concol, 0, x, y, r))
			if (int b = s.concol[y / 8][x / 8] >> 4){ what = "text background"; c = unit(4, 4, 15, x & 7, y & 7); if (c > 0){ r.push_back(rgb(0, 16 * b + c)); return r; } }
			else { what = "text background"; c = unit(4, 4, 0, x & 7, y & 7); if (c > 0){ r.push_back(rgb(0, c)); return r; } }
		} else {
			L("icons", keys(ic, 34, 8, 4, x, y, r)) L("sprites 0", sp(1, 0, x, y, r)) L("graphics 0", grp(1, 0, x, y, r))
			if (s.ptype <= 1){ L("panel text", text(s.pnl, s.pnlcol, 1, x, y, r)) } else { L("function keys", text(s.fkey, s.fkeycol, 1, x, y, r)) }
			if (s.ptype > 1 && (s.visible & 2)){ L("keys", keys(kb, 34, 8, 4, x, y, r)) }
			if (s.ptype != 0 && (s.visible & 2)){ what = "panel"; const unsigned char* q = fl->scr[s.ptype == 1 ? 0 : 1] + 2 * (y / 8 * 32 + x / 8); int t = q[0] | q[1] << 8, u = x & 7, v = y & 7; if (t & 0x400) u = 7 - u; if (t & 0x800) v = 7 - v; int c = unit(26, 4, t & 0x3ff, u, v); if (c > 0){ r.push_back(rgb(3, 16 * (t >> 12) + c)); return r; } }
		}
		L("sprites 1", sp(p, 1, x, y, r)) L("graphics 1", grp(p, 1, x, y, r)) L("BG 0", bg(p, 0, x, y, r)) L("sprites 2", sp(p, 2, x, y, r)) L("graphics 2", grp(p, 2, x, y, r)) L("BG 1", bg(p, 1, x, y, r)) L("sprites 3", sp(p, 3, x, y, r)) L("graphics 3", grp(p, 3, x, y, r))
		#undef L
		what = "nothing"; r.push_back(0xff000000u); return r;
	}
};

struct ShowGen {
	Rng r; ShowGen(u64 s) : r(s) {}
	int in(int n){ return (int)r.below(n); }
	string hex(int n){ string s; for (int i = 0; i < n; ++i) s += "0123456789ABCDEF"[r.chance(1, 2) ? 0 : in(16)]; return s; }
	string word(int m){ string s; int n = 1 + in(m); for (int i = 0; i < n; ++i) s += (char)('A' + in(26)); return s; }
	string res(bool own = false){ static const char* n[] = {"BGF0","BGF0U","BGF0L","BGU0","BGU1L","BGU2U","BGU3","BGU0L","BGD0U","BGD0L","BGD1","SPU0","SPU1","SPU3","SPU7","SPS0U","SPS0L","SPS1","SPD0","SPD4","SPD5"}; string s = n[in(21)]; (void)own; return s; }
	string op(){
		int q = in(100);
		if (q < 4) return fmt("LOCATE %d,%d", in(32), in(24)); if (q < 8) return fmt("COLOR %d,%d", in(16), r.chance(1, 3) ? 0 : in(16)); if (q < 16) return "PRINT \"" + word(r.chance(1, 4) ? 40 : 12) + (r.chance(1, 2) ? "\";" : "\""); if (q < 17) return "CLS";
		if (q < 18) return string(r.chance(1, 2) ? "LINPUT " : "INPUT ") + (r.chance(1, 2) ? "\"" + word(6) + "\";" : "") + "Q$";
		if (q < 22) return fmt("PNLSTR %d,%d,\"%s\",%d", in(32), in(24), word(20).c_str(), in(16));
		if (q < 29){ static const char* t[] = {"OFF","PNL","KYA","KYM","KYK","OFF"}; return string("PNLTYPE \"") + t[in(6)] + "\""; }
		if (q < 31) return fmt("KEY %d,\"%s\"", 1 + in(5), word(8).c_str()); if (q < 33) return fmt("ICONSET %d,%d", in(4), in(64)); if (q < 34) return r.chance(1, 2) ? "ICONCLR" : fmt("ICONCLR %d", in(4));
		if (q < 35) return fmt("ICONPUSE=%d", in(2));
		if (q < 38){ string s = "VISIBLE "; for (int i = 0; i < 6; ++i) s += fmt("%s%d", i ? "," : "", r.chance(5, 6) ? 1 : 0); return s; }
		if (q < 46) return "CHRSET \"" + res() + fmt("\",%d,\"", in(256)) + hex(64) + "\""; if (q < 47) return "CHRINIT \"" + res() + "\"";
		if (q < 53){ static const char* n[] = {"BG","SP","GRP"}; return string("COLSET \"") + n[in(3)] + fmt("\",%d,\"", in(256)) + fmt("%06X", in(1 << 24)) + "\""; }
		if (q < 54) return "COLINIT"; if (q < 55){ static const char* n[] = {"COL0:A","COL1L:A","COL2:A","BGU0:B","SPU1:B","BGF0L:B","SPS0L:B","BGD0L:B","SPD4:B","GRP0:G"}; return string("LOAD \"") + n[in(10)] + "\",0"; }
		if (q < 57) return fmt("GPAGE %d,%d,%d", in(2), in(4), in(4)); if (q < 59) return fmt("GPRIO %d", in(4)); if (q < 62) return fmt("GFILL %d,%d,%d,%d,%d", in(256), in(192), in(256), in(192), in(256)); if (q < 63) return fmt("GCLS %d", r.chance(1, 2) ? 0 : in(256)); if (q < 65) return fmt("GLINE %d,%d,%d,%d,%d", in(256), in(192), in(256), in(192), in(256)); if (q < 66) return fmt("GPUTCHR %d,%d,\"BGF0\",%d,%d,%d", in(256), in(192), in(256), in(16), 1 << in(3));
		if (q < 68) return fmt("BGPAGE %d", in(2)); if (q < 72){ int x = in(40), y = in(30); return fmt("BGFILL %d,%d,%d,%d,%d,%d,%d,%d,%d", in(2), x, y, x + in(24), y + in(24), in(1024), in(16), in(2), in(2)); } if (q < 75) return fmt("BGPUT %d,%d,%d,%d,%d,%d,%d", in(2), in(34), in(26), in(1024), in(16), in(2), in(2)); if (q < 79) return fmt("BGOFS %d,%d,%d", in(2), r.chance(1, 4) ? -in(1100) : in(r.chance(1, 2) ? 20 : 1100), r.chance(1, 4) ? -in(1100) : in(r.chance(1, 2) ? 20 : 1100)) + (r.chance(1, 3) ? fmt(",%d", 1 + in(20)) : ""); if (q < 80) return r.chance(1, 2) ? "BGCLR" : fmt("BGCLR %d", in(2)); if (q < 81) return fmt("BGCOPY %d,%d,%d,%d,%d,%d,%d", in(2), in(30), in(20), in(30), in(20), in(64), in(64));
		if (q < 83) return fmt("SPPAGE %d", in(2)); 
		int id = in(10); string on = "SPSET "; static const int dim[][2] = {{16,16},{8,8},{32,32},{64,64},{16,8},{32,16},{8,32},{64,32}};
		if (q < 90){ string s = fmt("SPSET %d,%d,%d,%d,%d,%d", id, r.chance(1, 2) ? in(112) : in(512), in(16), in(2), in(2), in(4)); if (r.chance(1, 2)){ int d = in(8); s += fmt(",%d,%d", dim[d][0], dim[d][1]); } return s + fmt(":SPOFS %d,%d,%d", id, in(280) - 20, in(210) - 20); }
		if (q < 92) return fmt("SPSET %d,%d,%d,0,0,%d:SPHOME %d,%d,%d:SPSCALE %d,%d", id, in(112), in(16), in(4), id, in(16), in(16), id, (int[]){0, 200, 200, 100, 50, 150}[in(6)]); if (q < 93) return fmt("SPSET %d,%d,%d,0,0,%d:SPANGLE %d,%d", id, in(112), in(16), in(4), id, in(360));
		if (q < 95) return fmt("SPSET %d,%d,%d,0,0,%d:SPOFS %d,%d,%d:SPOFS %d,%d,%d,%d", id, in(112), in(16), in(4), id, in(200), in(150), id, in(200), in(150), 1 + in(30)); if (q < 96) return fmt("SPSET %d,0,0,0,0,%d:SPANIM %d,%d,%d", id, in(4), id, 1 + in(6), 1 + in(4)); if (q < 97) return "SPCLR"; if (q < 98) return fmt("SPSET %d,7,0,0,0,0:SPCHR %d,%d,%d,%d,%d,%d", id, id, in(200), in(16), in(2), in(2), in(4));
		if (q < 99) return fmt("SPSET %d,%d,3,0,0,1:SPCLR %d", id, in(100), id); return "ACLS";
	}
};

struct ShowScenario : Scenario {
	ShowScenario(){ id = "P24"; }
	Case gen(u64 seed, bool th) override {
		Case c; Rng r(seed); gen_sched(c, r); c.p["gen"] = (i64)r.below(1 << 30); c.p["files"] = r.below(64); c.p["render"] = 1; c.p["noise"] = r.chance(1, 3) ? r.range(1, 3) : 0; if (c.get("nominal") < 3000) c.p["nominal"] = r.range(3000, 60000);
		int rounds = (int)r.range(1, 2); for (int k = 0; k < rounds; ++k){ int n = (int)r.range(3, th ? 40 : 22); Item it; it.kind = "round"; it.fixed = k == 0; it.a = {(i64)(r.chance(1, 4) ? r.logu(1, 100) : 0), r.range(1, 4), k}; c.items.push_back(it); for (int i = 0; i < n; ++i){ Item q; q.kind = "op"; q.a = {k, (i64)r.below(1 << 30), (i64)(r.chance(1, 3) ? r.range(2, 6) : 0)}; c.items.push_back(q); } }
		return c;
	}
	static Files& files(int s){ // the resource files of a machine: all characters are different
		static map<int, Files> cache; auto it = cache.find(s); if (it != cache.end()) return it->second; Files& F = cache[s]; Rng r(s * 7919 + 5);
		auto chr = [&](double dens){ string b(8192, 0); int d = (int)(dens * 100); for (auto& c : b){ int l = r.chance(d, 100) ? 1 + (int)r.below(15) : 0, h = r.chance(d, 100) ? 1 + (int)r.below(15) : 0; c = (char)(l | h << 4); } return b; };
		for (const char* n : {"BGF0","BGF1","BGD0","BGD1","BGD2","BGD3","BGU0","BGU1","BGU2","BGU3","SPU0","SPU1","SPU2","SPU3","SPU4","SPU5","SPU6","SPU7","SPS0","SPS1","SPD0","SPD1","SPD2","SPD3","SPD4","SPD5","SPD6","SPD7"}){ string b = chr(n[0] == 'S' ? .6 : n[2] == 'F' ? .4 : .5); if (n[2] == 'F' || n[2] == 'D' || n[2] == 'U'){ if (n[0] == 'B' && n[3] == '0') memset(&b[0], 0, 32); } if (string(n) == "BGF0") memset(&b[32 * 32], 0, 32); F.f[string("resources/") + n + ".PTC"] = "PETC0100RCHR" + b; if (n[0] == 'S' && n[2] == 'D' && n[3] >= '6') memcpy(F.key[0][n[3] - '6'], b.data(), 8192); }
		for (int i = 0; i < 3; ++i){ string b; for (int j = 0; j < 64; ++j){ u64 z = r.next(); b.append((char*)&z, 8); } F.f[fmt("resources/COL%d.PTC", i)] = "PETC0100RCOL" + b; }
		const char* kn[] = {"ALPHA_SHIFT","KIGOU","KIGOU_SHIFT","KANA","KANA_SHIFT"}; for (int i = 0; i < 5; ++i){ string b = string(48, 'x') + chr(.6) + chr(.6); F.f[string("resources/make") + kn[i] + ".NCGR"] = b; for (int h = 0; h < 2; ++h) memcpy(F.key[i + 1][h], b.data() + 48 + 8192 * h, 8192); }
		for (int i = 0; i < 2; ++i){ string b(36, 'y'); for (int j = 0; j < 768; ++j){ int t = r.chance(1, 2) ? 0 : (int)r.below(65536); F.scr[i][2 * j] = t; F.scr[i][2 * j + 1] = t >> 8; b += (char)t; b += (char)(t >> 8); } F.f[i ? "resources/pnlKEY.NSCR" : "resources/pnlPANEL.NSCR"] = b; }
		{ string b; for (int j = 0; j < 64; ++j){ u64 z = r.next(); b.append((char*)&z, 8); } F.f["programs/A.PTC"] = "PETC0100RCOL" + b; F.f["programs/B.PTC"] = "PETC0100RCHR" + chr(.5); string g(49152, 0); for (auto& c : g) c = (char)(r.chance(1, 2) ? 0 : r.below(256)); F.f["programs/G.PTC"] = "PETC0100RGRP" + g; }
		return F;
	}
	Verdict exec(const Case& c) override {
		Verdict v; Disk d; base_disk(d); Files& F = files((int)c.get("files")); for (auto& f : F.f) d[f.first] = f.second;
		static vector<string> txt; txt.assign(2, ""); static vector<const Item*> rounds; rounds.clear(); int n = 0;
		for (auto& it : c.items) if (it.kind == "round") rounds.push_back(&it); else if (it.kind == "op"){ ShowGen g((u64)it.a[1] * 2654435761u + (u64)c.get("gen")); string& t = txt[it.a[0]]; string s = g.op(); ++n; t += s + fmt(":K=%d\r", n); if (it.a[2]) t += fmt("W=%d:VSYNC %d:W=0\r", n, (int)it.a[2]); }
		for (int k = 0; k < 2; ++k) d[fmt("programs/R%d.PTC", k)] = prg_file(txt[k]);
		World w; apply_sched(w, c); w.render = 1; w.pictures = 1; w.disk = &d; w.max_frames = 3000; w.max_bbs = 220000000;
		static bool fin; fin = false; static size_t at; at = 0; static int ph; ph = 0; static i64 t, rd, sl0, checks, lastin; t = rd = sl0 = checks = 0; lastin = 0; static Typist ty; static const void* pc; pc = nullptr; static Verdict* pv; pv = &v; static Ref R; R.fl = &F; static Shown prev, lastS; static u64 lasth; lasth = 0; static vector<u32> lastP; static i64 prevW; prevW = 0; static bool prevok; prevok = false; static int wi; wi = 0; static int pad; pad = 0;
		static Rng nr(1); nr = Rng(c.seed ^ 99); int nz = (int)c.get("noise");
		w.input = [=](i64, InFrame& in) mutable {
			if (!W->ptc || fin) return; ++t; bool ready = probe_waiting_input(W->ptc) && (!pc || probe_code(W->ptc) == pc); if (!ready){ rd = 0; sl0 = W->sleeps; } else ++rd; 
			bool still = false;
			if (ph == 0){ if (rd < 4) return; if (!pc) pc = probe_code(W->ptc); still = true; if (pad < 3 || checks == 0){ ++pad; if (rd < 40) goto out; } pad = 0; if (at >= rounds.size()){ fin = true; return; } ty = Typist(); string tx = fmt("EXEC\"R%d\"", (int)rounds[at]->a[2]); ty.add(tx, [=]{ return !probe_waiting_input(W->ptc) || probe_code(W->ptc) != pc || con_line(probe_cy(W->ptc)) != tx; }, 3000); ph = 1; }
			if (ph == 1){ ty.frame(in); lastin = t; if (!ty.idle()) return; if (ty.failed){ pv->invalid = true; fin = true; return; } t = 0; rd = 0; ph = 2; return; }
			if (ph == 2){ const Item& it = *rounds[at]; if (it.a[0] && t > it.a[0] && t <= it.a[0] + it.a[1] && rd == 0) in.buttons |= 1u << 11; else if (rd == 0 && nz){ static int tx2, ty2, hold; if (nz & 1){ if (hold > 0){ --hold; in.touch = true; in.tx = tx2; in.ty = ty2; in.mouse = true; } else if (nr.chance(1, 12)){ hold = (int)nr.range(1, 12); if (nr.chance(1, 3)){ tx2 = (int)nr.below(256); ty2 = (int)nr.below(192); } else { static const int kx[] = {8, 8, 32, 48, 64, 80}, ky[] = {132, 152, 152, 152, 152, 170}; int i = (int)nr.below(6); tx2 = kx[i]; ty2 = ky[i]; } } } if (nz & 2 && nr.chance(1, 8)) in.buttons |= 1u << nr.below(10); }
				if (probe_waiting_input(W->ptc) && probe_code(W->ptc) != pc){ if (++wi > 12) wi = 0; if (wi > 5 && wi < 9) in.buttons = 16; if (wi == 9) hit("answers"); } else wi = 0;
				if (rd > 6){ ph = 0; ++at; t = 0; rd = 1; pad = 0; checks = 0; } }
			out: (void)still;
		};
		w.on_frame = [=](i64 f){
			if (fin) return false; if (!W->ptc) return true;
			// does the program rest since the end of the previous frame?
			i64 Wn = var_int("W", 0); bool vs = Wn > 0 && Wn == prevW && !probe_waiting_input(W->ptc); prevW = probe_waiting_input(W->ptc) ? 0 : Wn;
			bool idle = probe_waiting_input(W->ptc) && W->sleeps > sl0 + 2;
			Shown& cur = R.s; bool was = W->want_picture; bool have = false;
			if ((vs || idle) && was){ probe_shown(W->ptc, &cur); have = true; bool ok = vs || (prevok && !memcmp(&cur, &prev, sizeof cur)); if (ok && W->picture.size()){
				for (int b = 0; b < 44; ++b) R.chr[b] = probe_chr(W->ptc, b); for (int b = 0; b < 6; ++b) R.col[b] = probe_colbank(W->ptc, b); u64 ch = 1; for (int b = 0; b < 44; ++b) ch = hmem(ch, R.chr[b], 8192); for (int b = 0; b < 6; ++b) ch = hmem(ch, R.col[b], 512); bool same = ch == lasth && !memcmp(&cur, &lastS, sizeof cur) && W->picture == lastP; lasth = ch; lastS = cur; lastP = W->picture; R.prepare(); hit(vs ? "checked:program" : "checked:prompt"); hit(fmt("panel:%d", cur.ptype)); ++checks; i64 unk = 0;
				if (!same) for (int p = 0; p < 2; ++p) for (int y = 0; y < 192; ++y) for (int x = 0; x < 256; ++x){ const char* what; Px q = R.pixel(p, x, y, what); u32 got = W->picture[(p * 192 + y) * 256 + x]; if (q.empty()){ ++unk; continue; } if (!q.has(got)){
					int k = at < rounds.size() ? (int)rounds[at]->a[2] : 0; string cl = what; for (auto& ch : cl) if (ch == ' ') ch = '-'; *pv = bad("picture-" + cl, fmt("frame %lld, %s: pixel %d,%d of the %s screen has colour %06X instead of %06X (%s)", (long long)f, vs ? "the program waits" : "at the prompt", x, y, p ? "lower" : "upper", got & 0xffffff, q[0] & 0xffffff, what) + fmt(" W=%lld K=%lld panel type %d visible %x shift %d", (long long)Wn, (long long)var_int("K"), cur.ptype, cur.visible, cur.shift) + "\nscreen:\n" + con_all() + nl(txt[k])); fin = true; return false; } }
				if (unk) hit("unspecified-sprites"); } }
			if (idle){ if (!have) probe_shown(W->ptc, &cur); prev = cur; prevok = true; } else prevok = false;
			W->want_picture = (Wn > 0 || idle) ? 1 : 0; if (idle && checks > 3 && ph != 2 && t % 4) W->want_picture = 0;
			return !fin;
		};
		memset(&R.s, 0, sizeof R.s); memset(&prev, 0, sizeof prev);
		sim_run(w); account(w); v.hash = h2(w.frame, w.bbs_prg);
		if (v.bad) return v;
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!fin){ v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		hit("nontrivial"); return v;
	}
};
static Reg r24(new ShowScenario);
}
