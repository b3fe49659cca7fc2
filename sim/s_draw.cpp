// P25: graphics, background, character and colour commands change exactly what they name,
// under every schedule, break and read fault of the resource files.
#include "lang.h"
extern "C" const void* probe_code(void* ptc);
extern "C" { int probe_grp(void*, int page, int x, int y); int probe_tile(void*, int page, int layer, int x, int y); const unsigned char* probe_chr(void*, int bank); const unsigned short* probe_colbank(void*, int bank); void probe_gset(void*, int* o); }
extern "C" void probe_pages_c(void*, int*);
static void probe_pages(int* o){ probe_pages_c(W->ptc, o); }
static string nl(string s){ for (auto& c : s) if (c == '\r') c = '\n'; return s; }

namespace {
struct Op { string k; vector<int> a; string s, res; bool bad = false; };
struct GState {
	unsigned char grp[4][192][256]; unsigned short bg[2][2][64][64]; unsigned short col[6][256]; unsigned char chr[44][8192];
	int screen = 0, color = 0, xm = 0, draw[2] = {0, 1}, disp[2] = {0, 1}, prio[2] = {3, 3}, bgpage = 0, sppage = 0;
	map<int, int> R; map<int, string> S; std::set<std::pair<int,int>> skip; bool fuzzy = false; vector<vector<signed char>> fz; int fzp = 0, fzc = 0; bool deep = false;
	GState(){ memset(grp, 0, sizeof grp); memset(bg, 0, sizeof bg); memset(col, 0, sizeof col); memset(chr, 0, sizeof chr); }
	unsigned char (*page())[256] { return grp[draw[screen]]; }
	void px(int x, int y, int c){ if (x < 0 || y < 0 || x > 255 || y > 191) return; auto& q = page()[y][x]; if (xm) q ^= c; else q = c; }
	void line(int x1, int y1, int x2, int y2, int c){
		int dx = x2 - x1, dy = y2 - y1; if (!dx && !dy){ px(x1, y1, c); return; }
		bool hor = abs(dx) >= abs(dy); i64 num = hor ? dy : dx, den = hor ? dx : dy; i64 q = num * (1ll << 32), d = q / den; i64 sl = d >> 20; // slope in 1/4096
		if (hor ? x1 > x2 : y1 > y2){ std::swap(x1, x2); std::swap(y1, y2); }
		if (hor) for (int x = x1; x <= x2; ++x) px(x, (int)((sl * (x - x1) + 2048) >> 12) + y1, c); else for (int y = y1; y <= y2; ++y) px((int)((sl * (y - y1) + 2048) >> 12) + x1, y, c);
	}
	int chrbank(const string& r, int* page = nullptr) const { // e.g. BGU, BGU1, BGU1L
		int b = r.size() > 3 ? r[3] - '0' : 0, scr = r.size() > 4 ? r[4] == 'L' : -1; string t = r.substr(0, 3); int base = t == "BGF" ? 0 : t == "BGD" ? 4 : t == "BGU" ? 8 : t == "SPS" ? 20 : 12;
		if (t == "SPU") scr = 0; else if (t == "SPD") scr = 1; else if (scr < 0) scr = t == "SPS" ? sppage : bgpage; if (page) *page = scr; return base + b + 22 * scr; }
	int colbank(const string& n) const { return n == "BG" ? 3 * bgpage : n == "SP" ? 1 + 3 * sppage : 2 + 3 * screen; }
	bool bgok(int x, int y){ return x >= 0 && y >= 0 && x < 64 && y < 64; }
	// carries the operation out; false: refused with an error, nothing changed
	bool step(const Op& o, int n, map<string, string>& files){
		if (o.bad) return false; auto& a = o.a; const string& k = o.k; size_t m = a.size(); auto C = [&](size_t i){ return m > i ? a[i] : color; };
		if (k == "GPAGE"){ screen = a[0]; if (m > 1){ draw[screen] = a[1]; disp[screen] = a[2]; } }
		else if (k == "GCOLOR") color = a[0]; else if (k == "GDRAWMD") xm = a[0]; else if (k == "GPRIO") prio[screen] = a[0];
		else if (k == "GCLS"){ memset(page(), C(0), 256 * 192); }
		else if (k == "GPSET") px(a[0], a[1], C(2));
		else if (k == "GLINE") line(a[0], a[1], a[2], a[3], C(4));
		else if (k == "GFILL"){ for (int y = std::max(0, std::min(a[1], a[3])); y <= std::min(191, std::max(a[1], a[3])); ++y) for (int x = std::max(0, std::min(a[0], a[2])); x <= std::min(255, std::max(a[0], a[2])); ++x) px(x, y, C(4)); }
		else if (k == "GBOX"){ int s = xm; auto B = [&](int x, int y){ px(x, y, C(4)); }; int x1 = std::min(a[0], a[2]), x2 = std::max(a[0], a[2]), y1 = std::min(a[1], a[3]), y2 = std::max(a[1], a[3]); xm = 0; for (int x = x1; x <= x2; ++x){ B(x, y1); B(x, y2); } for (int y = y1; y <= y2; ++y){ B(x1, y); B(x2, y); } xm = s; }
		else if (k == "GCIRCLE"){ fuzzy = true; fzp = draw[screen]; fzc = C(3); fz.assign(192, vector<signed char>(256, 0)); int x = a[0], y = a[1], r = a[2]; for (int v = 0; v < 192; ++v) for (int u = 0; u < 256; ++u){ double d = sqrt((double)(u - x) * (u - x) + (double)(v - y) * (v - y)); if (fabs(d - r) <= 2.0) fz[v][u] = 1; } }
		else if (k == "GPAINT"){ int x = a[0], y = a[1]; if (x < 0 || y < 0 || x > 255 || y > 191) return true; auto P = page(); int c = C(2), st = P[y][x]; auto in = [&](int u, int v){ return u >= 0 && v >= 0 && u < 256 && v < 192 && P[v][u] != c && (m > 3 ? P[v][u] != a[3] : P[v][u] == st); };
			if (in(x, y)){ vector<std::pair<int,int>> q = {{x, y}}; P[y][x] = c; i64 cnt = 0; while (!q.empty()){ auto [u, v] = q.back(); q.pop_back(); ++cnt; int D[4][2] = {{1,0},{-1,0},{0,1},{0,-1}}; for (auto& e : D) if (in(u + e[0], v + e[1])){ P[v + e[1]][u + e[0]] = c; q.push_back({u + e[0], v + e[1]}); } } hit("painted", cnt); } }
		else if (k == "GPUTCHR"){ int pg; int b = chrbank(o.res, &pg), cb; string t = o.res.substr(0, 3); int src = t[0] == 'B' ? 0 : 1; int scr = o.res.size() > 4 ? o.res[4] == 'L' : src == 0 ? bgpage : sppage; cb = src + 3 * scr; memmove(&col[2 + 3 * screen][16 * a[3]], &col[cb][16 * a[3]], 32);
			for (int y = 0; y < 8; ++y) for (int x = 0; x < 8; ++x){ int u = chr[b][32 * a[2] + 4 * y + x / 2]; u = x & 1 ? u >> 4 : u & 15; if (u) for (int i = 0; i < a[4]; ++i) for (int j = 0; j < a[4]; ++j) px(a[0] + x * a[4] + j, a[1] + y * a[4] + i, 16 * a[3] + u); } }
		else if (k == "GCOPY"){ int i = m == 8; auto& sp = grp[i ? a[0] : draw[screen]]; static unsigned char t[192][256]; memcpy(t, sp, sizeof t); int x1 = std::min(a[i], a[i + 2]), x2 = std::max(a[i], a[i + 2]), y1 = std::min(a[i + 1], a[i + 3]), y2 = std::max(a[i + 1], a[i + 3]);
			auto P = page(); for (int dy = std::max(0, a[i + 5]); dy < 192 && dy - a[i + 5] + y1 <= y2; ++dy) for (int dx = std::max(0, a[i + 4]); dx < 256 && dx - a[i + 4] + x1 <= x2; ++dx){ int x = dx - a[i + 4] + x1, y = dy - a[i + 5] + y1; int c = x >= 0 && y >= 0 && x < 256 && y < 192 ? t[y][x] : 0; if (c || a[i + 6]) P[dy][dx] = c; } }
		else if (k == "GSPOIT"){ int i = m == 3; int p = i ? a[0] : draw[screen], x = a[i], y = a[i + 1]; R[n] = x < 0 || y < 0 || x > 255 || y > 191 ? -1 : grp[p][y][x]; }
		else if (k == "BGPAGE") bgpage = a[0]; else if (k == "SPPAGE") sppage = a[0];
		else if (k == "BGCLR"){ for (int l = 0; l < 2; ++l) if (!m || a[0] == l) memset(bg[bgpage][l], 0, sizeof bg[0][0]); }
		else if (k == "BGPUT"){ bg[bgpage][a[0]][a[2] & 63][a[1] & 63] = a[3]; }
		else if (k == "BGFILL"){ for (int y = std::max(0, std::min(a[2], a[4])); y <= std::min(63, std::max(a[2], a[4])); ++y) for (int x = std::max(0, std::min(a[1], a[3])); x <= std::min(63, std::max(a[1], a[3])); ++x) bg[bgpage][a[0]][y][x] = a[5]; }
		else if (k == "BGREAD"){ R[n] = bg[bgpage][a[0]][a[2] & 63][a[1] & 63]; if (o.s == "$") S[n] = fmt("%04X", R[n]), R.erase(n); }
		else if (k == "BGCOPY"){ static unsigned short t[64][64]; auto& L = bg[bgpage][a[0]]; memcpy(t, L, sizeof t); auto lim = [](int q){ return std::max(0, std::min(63, q)); }; int x1 = lim(std::min(a[1], a[3])), x2 = lim(std::max(a[1], a[3])), y1 = lim(std::min(a[2], a[4])), y2 = lim(std::max(a[2], a[4])); for (int y = y1; y <= y2; ++y) for (int x = x1; x <= x2; ++x) if (bgok(x - x1 + a[5], y - y1 + a[6])) L[y - y1 + a[6]][x - x1 + a[5]] = t[y][x]; }
		else if (k == "CHRSET"){ int b = chrbank(o.res); for (int i = 0; i < 32; ++i){ auto h = [&](char c){ return c <= '9' ? c - '0' : c - 'A' + 10; }; chr[b][32 * a[0] + i] = h(o.s[2 * i]) | h(o.s[2 * i + 1]) << 4; } }
		else if (k == "CHRREAD"){ int b = chrbank(o.res); string s; for (int i = 0; i < 32; ++i){ s += "0123456789ABCDEF"[chr[b][32 * a[0] + i] & 15]; s += "0123456789ABCDEF"[chr[b][32 * a[0] + i] >> 4]; } S[n] = s; }
		else if (k == "CHRINIT"){ string f = "resources/" + o.res.substr(0, 3) + (o.res.size() > 3 ? o.res[3] : '0') + ".PTC"; if (!files.count(f)) return false; memcpy(chr[chrbank(o.res)], files[f].data() + 12, 8192); }
		else if (k == "COLSET"){ auto v = [&](int i){ return (int)strtol(o.s.substr(i, 2).c_str(), 0, 16); }; int r = v(0) >> 3, g = v(2) >> 2, b = v(4) >> 3; col[colbank(o.res)][a[0]] = r | (g >> 1) << 5 | b << 10 | (g & 1) << 15; }
		else if (k == "COLREAD"){ int c = col[colbank(o.res)][a[0]]; int r = (c & 31) << 3, g = ((c >> 4 & 62) | c >> 15) << 2, b = (c >> 10 & 31) << 3; R[n] = (r + (r >> 5)) + (g + (g >> 6)) * 256 + ((b + (b >> 5)) & 0xf8) * 1024 ; }
		else if (k == "COLINIT"){ // a palette whose file is missing or unreadable keeps its colours
			for (int b = 0; b < 6; ++b){ if (!o.res.empty() && b != colbank(o.res)) continue; string f = fmt("resources/COL%d.PTC", b % 3); if (!files.count(f) || skip.count({n, b})) continue; const char* src = files[f].data() + 12; if (m) memcpy(&col[b][a[0]], src + 2 * a[0], 2); else memcpy(col[b], src, 512); } }
		return true;
	}
};

struct DrawGen {
	Rng r; bool lastgrp = false; bool circle = false; int usedbox = 0, used, lx, ly; DrawGen(u64 s, u64 g) : r(s) { Rng q(g * 77 + 5); used = (int)q.below(256); lx = (int)q.below(256); ly = (int)q.range(1, 191); } // a colour and a place that the operations of one run share
	int co(int w){ switch (r.below(10)){ case 0: return 0; case 1: return w - 1; case 2: return (int)r.range(-20, -1); case 3: return (int)r.range(w, w + 20); case 4: return (int)r.range(-600, 600); case 5: return 64 * (int)r.below(4) + (int)r.range(-1, 1); default: return (int)r.below(w); } }
	int in(int w){ return r.chance(1, 6) ? (r.chance(1, 2) ? 0 : w - 1) : (int)r.below(w); }
	string chrres(bool sp = true){ static const char* t[] = {"BGU", "BGF", "BGD", "SPS", "SPU", "SPD"}; int i = (int)r.below(6); int mx[] = {4, 1, 2, 2, 8, 4}; string s = t[i]; if (r.chance(1, 8)) return s; s += (char)('0' + r.below(mx[i])); if (r.chance(1, 2)) s += i == 4 ? 'U' : i == 5 ? 'L' : r.chance(1, 2) ? 'U' : 'L'; return s; }
	string hex(int n){ string s; for (int i = 0; i < n; ++i) s += r.chance(1, 3) ? '0' : "0123456789ABCDEF"[r.below(16)]; return s; }
	string text(Op& o){ // the operation as a statement
		auto num = [&](int v){ if (r.chance(1, 14)) return fmt("%d.%d", v, 5) ; return fmt("%d", v); }; (void)num;
		string t; auto args = [&](size_t from){ string s; for (size_t i = from; i < o.a.size(); ++i) s += (i > from || t.back() != ' ' ? "," : "") + fmt("%d", o.a[i]); return s; };
		const string& k = o.k;
		if (k == "GSPOIT") return "R(@N)=GSPOIT(" + [&]{ string s; for (size_t i = 0; i < o.a.size(); ++i) s += (i ? "," : "") + fmt("%d", o.a[i]); return s; }() + ")";
		if (k == "BGREAD") return fmt("BGREAD %d,%d,%d,", o.a[0], o.a[1], o.a[2]) + (o.s == "$" ? "S$(@N)" : o.s == "4" ? "RC,RP,RH,RV:R(@N)=RC+RP*4096+RH*1024+RV*2048" : "R(@N)");
		if (k == "BGPUT" || k == "BGFILL"){ int n = k == "BGPUT" ? 3 : 5; string s = k + " "; for (int i = 0; i < n; ++i) s += fmt("%d,", o.a[i]); int td = o.a[n]; if (o.s == "$") return s + fmt("\"%04X\"", td & 65535); if (o.s == "4") return s + fmt("%d,%d,%d,%d", td & 1023, td >> 12, td >> 10 & 1, td >> 11 & 1) ; return s + fmt("%d", td); }
		if (k == "GPUTCHR") return fmt("GPUTCHR %d,%d,\"%s\",%d,%d,%d", o.a[0], o.a[1], o.res.c_str(), o.a[2], o.a[3], o.a[4]);
		if (k == "CHRSET") return fmt("CHRSET\"%s\",%d,\"%s\"", o.res.c_str(), o.a[0], o.s.c_str());
		if (k == "CHRREAD") return fmt("CHRREAD \"%s\",%d,S$(@N)", o.res.c_str(), o.a[0]);
		if (k == "CHRINIT") return "CHRINIT \"" + o.res + "\"";
		if (k == "COLSET") return fmt("COLSET \"%s\",%d,\"%s\"", o.res.c_str(), o.a[0], o.s.c_str());
		if (k == "COLREAD") return fmt("COLREAD \"%s\",%d,RR,RG,RB:R(@N)=RR+RG*256+FLOOR(RB/8)*8192", o.res.c_str(), o.a[0]);
		if (k == "COLINIT"){ if (o.res.empty()) return k; t = "COLINIT \"" + o.res + "\""; return t + args(0); }
		t = k + " "; string s = args(0); return s.empty() ? k : t + s;
	}
	Op gen(){
		Op o; auto A = [&](std::initializer_list<int> l){ o.a = l; }; auto optc = [&]{ if (r.chance(2, 3)){ o.a.push_back(r.chance(1, 8) ? (r.chance(1, 2) ? 0 : 255) : (int)r.below(256)); if (r.chance(1, 4)) o.a.back() = used; } }; auto td = [&]{ int v = (int)r.below(65536); o.s = r.chance(1, 3) ? "$" : r.chance(1, 2) ? "4" : ""; return v; };
		int q = (int)r.below(100);
		if (q < 6){ o.k = "GPAGE"; A({(int)r.below(2)}); if (r.chance(2, 3)){ o.a.push_back((int)r.below(4)); o.a.push_back((int)r.below(4)); } }
		else if (q < 9){ o.k = "GCOLOR"; A({(int)r.below(256)}); } else if (q < 12){ o.k = "GDRAWMD"; A({(int)r.below(2)}); } else if (q < 14){ o.k = "GPRIO"; A({(int)r.below(4)}); }
		else if (q < 17){ o.k = "GCLS"; optc(); } else if (q < 21){ o.k = "GPSET"; A({co(256), co(192)}); optc(); } else if (q < 28){ o.k = "GLINE"; A({co(256), co(192), co(256), co(192)}); if (r.chance(1, 4)) o.a[2] = o.a[0]; else if (r.chance(1, 4)) o.a[3] = o.a[1]; optc(); }
		else if (q < 35){ o.k = "GFILL"; A({co(256), co(192), co(256), co(192)}); if (r.chance(1, 2)){ o.a[2] = o.a[0] + (int)r.range(-40, 40); o.a[3] = o.a[1] + (int)r.range(-40, 40); } optc(); } else if (q < 39){ o.k = "GBOX"; A({in(256), in(192), in(256), in(192)}); optc(); }
		else if (q < 43){ o.k = "GPAINT"; A({co(256), co(192)}); if (r.chance(1, 3)) A({lx, ly}); int u = used; optc(); if (o.a.size() == 3){ if (r.chance(1, 4)) o.a[2] = u; if (r.chance(1, 2)) o.a.push_back(r.chance(1, 2) ? u : (int)r.below(256)); } }
		else if (q < 49){ o.k = "GPUTCHR"; o.res = chrres(); A({co(256), co(192), in(256), in(16), 1 << r.below(4)}); }
		else if (q < 56){ o.k = "GCOPY"; if (r.chance(1, 2)) A({(int)r.below(4), co(256), co(192), co(256), co(192), co(256), co(192), (int)r.below(2)}); else A({co(256), co(192), co(256), co(192), co(256), co(192), (int)r.below(2)}); if (r.chance(1, 2)){ size_t i = o.a.size() == 8; o.a[i + 4] = o.a[i] + (int)r.range(-9, 9); o.a[i + 5] = o.a[i + 1] + (int)r.range(-9, 9); } }
		else if (q < 62){ o.k = "GSPOIT"; if (r.chance(1, 2)) A({co(256), co(192)}); else A({(int)r.below(4), co(256), co(192)}); }
		else if (q < 64){ o.k = "BGPAGE"; A({(int)r.below(2)}); } else if (q < 65){ o.k = "SPPAGE"; A({(int)r.below(2)}); } else if (q < 67){ o.k = "BGCLR"; if (r.chance(2, 3)) A({(int)r.below(2)}); }
		else if (q < 72){ o.k = "BGPUT"; A({(int)r.below(2), r.chance(1, 5) ? (int)r.range(-200, 200) : in(64), r.chance(1, 5) ? (int)r.range(-200, 200) : in(64), td()}); }
		else if (q < 76){ o.k = "BGFILL"; int x = in(64), y = in(64); A({(int)r.below(2), x, y, r.chance(1, 4) ? (int)r.range(-90, 90) : in(64), r.chance(1, 4) ? (int)r.range(-90, 90) : in(64), td()}); }
		else if (q < 80){ o.k = "BGREAD"; A({(int)r.below(2), r.chance(1, 5) ? (int)r.range(-200, 200) : in(64), r.chance(1, 5) ? (int)r.range(-200, 200) : in(64)}); o.s = r.chance(1, 3) ? "$" : r.chance(1, 2) ? "4" : ""; }
		else if (q < 85){ o.k = "BGCOPY"; int x = in(64), y = in(64); A({(int)r.below(2), x, y, in(64), in(64), in(64), in(64)}); if (r.chance(1, 4)){ int i = (int)r.range(1, 4); o.a[i] = r.chance(1, 2) ? -(int)r.range(1, 90) : (int)r.range(64, 160); } x = o.a[1]; y = o.a[2]; if (r.chance(1, 2)){ o.a[5] = std::max(0, std::min(63, x + (int)r.range(-5, 5))); o.a[6] = std::max(0, std::min(63, y + (int)r.range(-5, 5))); } }
		else if (q < 89){ o.k = "CHRSET"; o.res = chrres(); A({in(256)}); o.s = hex(64); } else if (q < 91){ o.k = "CHRREAD"; o.res = chrres(); A({in(256)}); } else if (q < 93){ o.k = "CHRINIT"; o.res = chrres(); }
		else { static const char* n[] = {"BG", "SP", "GRP"}; o.res = n[r.below(3)]; if (q < 96){ o.k = "COLSET"; A({in(256)}); o.s = hex(6); } else if (q < 98){ o.k = "COLREAD"; A({in(256)}); } else { o.k = "COLINIT"; if (r.chance(1, 3)) o.res = ""; else if (r.chance(1, 2)) A({in(256)}); } }
		if ((o.k == "GFILL" || o.k == "GBOX" || o.k == "GLINE" || o.k == "GPSET") && r.chance(1, 4)){ o.a[0] = lx; o.a[1] = ly; if (o.k == "GFILL" || o.k == "GBOX"){ if (r.chance(1, 2)) o.a[3] = std::min(191, ly + in(60)); } }
		if (o.k == "GFILL") for (int i = 0; i < 2; ++i) if (std::max(o.a[i], o.a[i + 2]) < 0) o.a[i] = -o.a[i]; // rectangles wholly outside are not specified: they are moved to the edge
		if (r.chance(1, 40)) spoil(o);
		return o;
	}
	void spoil(Op& o){ // an argument that cannot be carried out
		auto& a = o.a; const string& k = o.k; int big = r.chance(1, 2) ? -1 - (int)r.below(5) : 256 + (int)r.below(9);
		if (k == "GPAGE"){ size_t i = r.below(a.size()); a[i] = r.chance(1, 2) ? -1 : i ? 4 : 2; } else if (k == "GCOLOR") a[0] = big; else if (k == "GDRAWMD") a[0] = 2; else if (k == "GPRIO") a[0] = r.chance(1, 2) ? -1 : 4; else if ((k == "GLINE" || k == "GFILL" || k == "GBOX") && a.size() == 5) a[4] = big; else if (k == "GPAINT" && a.size() > 2){ a[0] = 5; a[1] = 5; a[r.range(2, a.size() - 1)] = big; } else if (k == "GCLS" && a.size()) a[0] = big;
		else if (k == "GPUTCHR"){ switch (r.below(4)){ case 0: a[2] = big; break; case 1: a[3] = r.chance(1, 2) ? -1 : 16; break; case 2: a[4] = 3; break; default: o.res = "GRP0"; } }
		else if (k == "GCOPY" && a.size() == 8) a[0] = 4; else if (k == "GSPOIT" && a.size() == 3) a[0] = r.chance(1, 2) ? -1 : 4; else if (k == "BGPAGE" || k == "BGPUT" || k == "BGFILL" || k == "BGREAD" || k == "BGCOPY" || (k == "BGCLR" && a.size())) a[0] = r.chance(1, 2) ? -1 : 2;
		else if (k == "CHRSET"){ switch (r.below(4)){ case 0: a[0] = big; break; case 1: o.s.pop_back(); break; case 2: o.s[r.below(64)] = "GZ a-"[r.below(5)]; break; default: o.res = r.chance(1, 2) ? "BGU4" : "COL0"; } } else if (k == "CHRREAD"){ if (r.chance(1, 2)) a[0] = big; else o.res = "SPU8"; } else if (k == "CHRINIT") o.res = r.chance(1, 2) ? "BGU4" : "GRP1";
		else if (k == "COLSET"){ switch (r.below(4)){ case 0: a[0] = big; break; case 1: o.s.pop_back(); break; case 2: o.s[r.below(6)] = "GZ a-"[r.below(5)]; break; default: o.res = r.chance(1, 2) ? "BGU" : ""; } } else if (k == "COLREAD"){ if (r.chance(1, 2)) a[0] = big; else o.res = "XX"; } else if (k == "COLINIT" && a.size()) a[0] = big; else return;
		o.bad = true;
	}
};

struct DrawScenario : Scenario {
	DrawScenario(){ id = "P25"; }
	Case gen(u64 seed, bool th) override {
		Case c; Rng r(seed); gen_sched(c, r); c.p["gen"] = (i64)r.below(1 << 30); c.p["files"] = r.below(1 << 30); c.p["nfile"] = r.range(0, 10); if (r.chance(1, 6)) c.p["render"] = r.range(1, 9); if (c.get("nominal") < 3000) c.p["nominal"] = r.range(3000, 60000);
		int rounds = (int)r.range(1, 3); for (int k = 0; k < rounds; ++k){ int n = (int)r.range(4, th ? 60 : 30); Item it; it.kind = "round"; it.fixed = k == 0; it.a = {(i64)r.chance(1, 2) ? r.logu(1, 200) : 0, r.range(1, 5), k}; c.items.push_back(it); for (int i = 0; i < n; ++i){ Item q; q.kind = "op"; q.a = {k, (i64)r.below(1 << 30)}; c.items.push_back(q); } if (r.chance(1, 6)){ Item q; q.kind = "circle"; q.a = {k, r.range(-50, 300), r.range(-50, 240), r.logu(1, 200), (i64)r.below(256)}; c.items.push_back(q); } }
		if (r.chance(1, 2)){ int n = (int)r.range(1, 3); for (int i = 0; i < n; ++i){ Item q; q.kind = "fault"; q.a = {(i64)r.below(rounds), r.chance(1, 2) ? OP_READ : r.chance(1, 2) ? OP_OPEN : OP_SEEK, (i64)r.below(3), (i64)(r.chance(1, 2) ? FK_ERR : r.chance(1, 2) ? FK_EOF : FK_SHORT), (i64)r.below(4000), (i64)r.below(1 << 20)}; c.items.push_back(q); } }
		return c;
	}
	static string differs(GState& m, int upto){ // "" if the machine is in this state
		void* p = W->ptc; int g[9]; probe_gset(p, g); int w[9] = {m.screen, m.color, m.xm, m.draw[0], m.disp[0], m.prio[0], m.draw[1], m.disp[1], m.prio[1]}; static const char* nm[] = {"GPAGE screen", "GCOLOR", "GDRAWMD", "draw page 0", "display page 0", "GPRIO 0", "draw page 1", "display page 1", "GPRIO 1"}; for (int i = 0; i < 9; ++i) if (g[i] != w[i]) return fmt("%s is %d instead of %d", nm[i], g[i], w[i]);
		for (int b = 0; b < 6; ++b){ auto q = probe_colbank(p, b); for (int i = 0; i < 256; ++i) if (q[i] != m.col[b][i]) return fmt("colour %d of COL%d%c is %04X instead of %04X", i, b % 3, "UL"[b / 3], q[i], m.col[b][i]); }
		for (int b = 0; b < 44; ++b){ if (b >= 38 && b < 42) continue; auto q = probe_chr(p, b); if (memcmp(q, m.chr[b], 8192)) for (int i = 0; i < 8192; ++i) if (q[i] != m.chr[b][i]) return fmt("byte %d of character %d in character bank %d is %02X instead of %02X", i % 32, i / 32, b, q[i], m.chr[b][i]); }
		for (int pg = 0; pg < 2; ++pg) for (int l = 0; l < 2; ++l) for (int y = 0; y < 64; ++y) for (int x = 0; x < 64; ++x){ int t = probe_tile(p, pg, l, x, y); if (t != m.bg[pg][l][y][x]) return fmt("tile %d,%d of layer %d on screen %d is %04X instead of %04X", x, y, l, pg, t, m.bg[pg][l][y][x]); }
		for (int q = 0; q < 4; ++q) for (int y = 0; y < 192; ++y) for (int x = 0; x < 256; ++x){ int t = probe_grp(p, q, x, y); if (t != m.grp[q][y][x]){ if (m.fuzzy && q == m.fzp && m.fz[y][x] && (t == m.fzc || (m.xm && t == (m.grp[q][y][x] ^ m.fzc)))) continue; return fmt("pixel %d,%d of page %d is %d instead of %d", x, y, q, t, m.grp[q][y][x]); } }
		for (auto& x : m.R) if (x.first <= upto){ int v = 0; if (!probe_arr(p, "R", x.first, &v) || v != x.second * 4096) return fmt("R(%d) is %s instead of %d", x.first, Lang::numstr(v).c_str(), x.second); }
		for (auto& x : m.S) if (x.first <= upto){ unsigned char b[300]; int n = probe_sarr(p, "S", x.first, b); if (n < 0 || string((char*)b, n) != x.second) return fmt("S$(%d) is \"%s\" instead of \"%s\"", x.first, n < 0 ? "?" : string((char*)b, n).c_str(), x.second.c_str()); }
		return "";
	}
	static string whole(GState& m, const Op& o){ // a circle: every part of it that lies on the page is there
		int x = o.a[0], y = o.a[1], r = o.a[2]; for (int i = 0; i < 64; ++i){ double u = x + r * cos(i * 0.0981747704), v = y + r * sin(i * 0.0981747704); if (u < 3 || v < 3 || u > 252 || v > 188) continue; bool ok = false; for (int dy = -3; dy <= 3; ++dy) for (int dx = -3; dx <= 3; ++dx){ int px = (int)u + dx, py = (int)v + dy; if (m.fz[py][px]){ int t = probe_grp(W->ptc, m.fzp, px, py); ok |= t == m.fzc || (m.xm && m.fzc); } } if (!ok) return fmt("the circle is missing at %d,%d", (int)u, (int)v); } return ""; }
	Verdict exec(const Case& c) override {
		Verdict v; Disk d; base_disk(d); Rng fr((u64)c.get("files")); static map<string, string> files; files.clear();
		{ static const char* names[] = {"BGF0","BGF1","BGD0","BGD1","BGU0","BGU1","BGU2","BGU3","SPU0","SPU1","SPU5","SPU7","SPS0","SPS1","SPD0","SPD3"}; for (int i = 0; i < c.get("nfile"); ++i){ string n = names[fr.below(16)]; u64 s = fr.next(); string b; Rng q(s); for (int j = 0; j < 1024; ++j){ u64 z = q.next(); if (j % 4 == 3) z = 0; b.append((char*)&z, 8); } files["resources/" + n + ".PTC"] = "PETC0100RCHR" + b; } for (int i = 0; i < 3; ++i) if (fr.chance(2, 3)){ string b; for (int j = 0; j < 64; ++j){ u64 z = fr.next(); b.append((char*)&z, 8); } files[fmt("resources/COL%d.PTC", i)] = "PETC0100RCOL" + b; } for (auto& f : files) d[f.first] = f.second; }
		static vector<vector<Op>> ops; ops.assign(3, {}); static vector<string> txt; txt.assign(3, ""); vector<vector<string>> lines(3); static int nr; nr = 0; static vector<const Item*> rounds; rounds.clear();
		for (auto& it : c.items) if (it.kind == "round"){ rounds.push_back(&it); nr = std::max(nr, (int)it.a[2] + 1); }
		for (auto& it : c.items) if (it.kind == "op"){ DrawGen g((u64)it.a[1] * 2654435761u + (u64)c.get("gen"), (u64)c.get("gen")); Op o = g.gen(); string s = g.text(o); int k = (int)it.a[0]; ops[k].push_back(o); lines[k].push_back(s); } else if (it.kind == "circle"){ Op o; o.k = "GCIRCLE"; o.a = {(int)it.a[1], (int)it.a[2], (int)it.a[3], (int)it.a[4]}; int k = (int)it.a[0]; ops[k].push_back(o); lines[k].push_back(fmt("GCIRCLE %d,%d,%d,%d", o.a[0], o.a[1], o.a[2], o.a[3])); }
		// GBOX with exclusive or would draw the corners twice: not specified
		for (int k = 0; k < 3; ++k){ string t = "CLEAR:DIM R(99),S$(99)\r"; for (size_t i = 0; i < lines[k].size(); ++i){ string s = lines[k][i]; size_t p; while ((p = s.find("@N")) != string::npos) s.replace(p, 2, fmt("%zu", i + 1)); if (ops[k][i].k == "GBOX" || ops[k][i].k == "GCIRCLE") { s = "GDRAWMD 0:" + s; } t += fmt("I=%zu:", i + 1) + s + "\r"; } t += "I=900\r"; txt[k] = t; d[fmt("programs/R%d.PTC", k)] = prg_file(t); }
		if (getenv("SIM_DUMP")) for (int k = 0; k < 3; ++k) fprintf(stderr, "%s\n", nl(txt[k]).c_str());
		static GState base; base = GState(); for (auto& f : files){ string n = f.first.substr(10, 4); if (n.compare(0, 3, "COL") == 0){ for (int l = 0; l < 2; ++l) memcpy(base.col[3 * l + n[3] - '0'], f.second.data() + 12, 512); } else { string t = n.substr(0, 3); int b = n[3] - '0'; auto put = [&](int bank){ memcpy(base.chr[bank], f.second.data() + 12, 8192); }; for (int l = 0; l < 2; ++l){ if (t == "BGF"){ put(22 * l + b); put(22 * l + b + 2); } if (t == "BGD") put(22 * l + 4 + b); if (t == "BGU") put(22 * l + 8 + b); if (t == "SPS") put(22 * l + 20 + b); } if (t == "SPU") put(12 + b); if (t == "SPD") put(34 + b); } }
		World w; apply_sched(w, c); w.disk = &d; w.max_frames = 60000; w.max_bbs = 220000000;
		static bool fin; fin = false; static size_t at; at = 0; static int ph; ph = 0; static i64 t, rd; t = rd = 0; static Typist ty; static const void* pc; pc = nullptr; static bool pressed; static Verdict* pv; pv = &v; static i64 bb0; bb0 = 0;
		auto fail = [=](const string& cls, const string& m){ int k = (int)rounds[at]->a[2]; *pv = bad(cls, fmt("program R%d: ", k) + m + "\nscreen:\n" + con_all() + nl(txt[k])); fin = true; };
		auto check = [=]{ // round `at` has stopped
			int k = (int)rounds[at]->a[2]; int I = (int)var_int("I"); auto& O = ops[k]; int done = I == 900 ? (int)O.size() : I < 0 ? 0 : I - 1; string all; for (int y = 0; y < 24; ++y){ string l = con_line(y); l.resize(32, ' '); all += l; } bool err = I != 900 && !pressed;
			static GState m; m = base; map<string, string> fl = files; int stop = -1;
			// a colour file may have been unreadable for any of the statements that use it
			vector<std::pair<int,int>> cand; int nf = 0; for (auto& q : W->faults) if (q.fired && q.path.find("COL") != string::npos){ ++nf; }
			static GState m0; m0 = base; if (nf) for (int i = 0; i < (int)O.size() && i <= done; ++i){ if (O[i].k == "COLINIT") for (int b = 0; b < 6; ++b){ if (!O[i].res.empty() && b != (O[i].res == "BG" ? 0 : O[i].res == "SP" ? 1 : 2) && b != 3 + (O[i].res == "BG" ? 0 : O[i].res == "SP" ? 1 : 2)) continue; for (auto& q : W->faults) if (q.fired && q.path == fmt("resources/COL%d.PTC", b % 3)){ cand.push_back({i + 1, b}); break; } } }
			vector<int> stk; for (auto& q : W->faults) if (q.fired && q.path.find("COL") != string::npos) stk.push_back(q.kind == FK_EOF ? q.path[13] - '0' : -1);
			i64 tot = 1; for (int i = 0; i < nf; ++i) tot *= cand.size() + 1; if (tot > 3000) return; string df;
			for (i64 z = tot - 1; z >= 0; --z){ m = base; stop = -1; m.skip.clear(); i64 y = z; for (int i = 0; i < nf; ++i){ size_t q = y % (cand.size() + 1); y /= cand.size() + 1; if (q < cand.size()) m.skip.insert(cand[q]); if (stk[i] >= 0) for (++q; q < cand.size(); ++q) if (cand[q].second % 3 == stk[i]) m.skip.insert(cand[q]); }
				for (int i = 0; i < done; ++i){ if (O[i].k == "GBOX" || O[i].k == "GCIRCLE") m.xm = 0; if (!m.step(O[i], i + 1, fl)){ stop = i; break; } }
				if (stop >= 0) break; df = differs(m, done); if (df.empty()) break; if (I != 900 && tot > 1 && done < (int)O.size()){ static GState m3; m3 = m; if (O[done].k == "GBOX" || O[done].k == "GCIRCLE") m3.xm = 0; m3.step(O[done], I, fl); if (differs(m3, done).empty()) break; } }
			for (int i = 0; i < done; ++i) hit("op:" + O[i].k);
			if (stop >= 0){ fail("not-refused", fmt("statement %d (%s) cannot be carried out, but the program went on", stop + 1, O[stop].k.c_str())); return; }
			hit(I == 900 ? "completed" : pressed ? "broken" : "error");
			if (df.empty() && done == (int)O.size() && m.fuzzy) df = whole(m, O.back());
			if (I == 900){ if (!df.empty()) fail("state", df); return; }
			const Op* o = I >= 1 && I <= (int)O.size() ? &O[I - 1] : nullptr; bool fired = false; for (auto& q : W->faults) fired |= q.fired; fired &= o && (o->k == "CHRINIT" || o->k == "COLINIT");
			static GState m2; m2 = m; if (o && (o->k == "GBOX" || o->k == "GCIRCLE")){ m.xm = 0; m2.xm = 0; } bool can = o ? m2.step(*o, I, fl) : true;
			if (err && o && o->k == "GPAINT" && can && all.find("stack overflow") != string::npos){ hit("paint_overflow"); return; } // adopted
			bool nofile = o && o->k == "COLINIT" && (!files.count("resources/COL0.PTC") || !files.count("resources/COL1.PTC") || !files.count("resources/COL2.PTC"));
			if (err && can && !fired && !nofile){ fail("refused", fmt("statement %d (%s) ended the program, but it can be carried out", I, o ? o->k.c_str() : "?")); return; }
			if (df.empty()) return; if (o && (o->k == "GBOX" || o->k == "GCIRCLE")) { df = differs(m, done); if (df.empty()) return; }
			if (err){ fail("state", "after the refused statement " + fmt("%d (%s) ", I, o ? o->k.c_str() : "?") + df); return; }
			string d2 = differs(m2, done); if (d2.empty()) return; fail("state", fmt("stopped in statement %d (%s): ", I, o ? o->k.c_str() : "?") + d2 + "; or, if it had not been carried out, " + df); };
		auto adopt = [=]{ void* p = W->ptc; int g[9]; probe_gset(p, g); base.screen = g[0]; base.color = g[1]; base.xm = g[2]; for (int i = 0; i < 2; ++i){ base.draw[i] = g[3 + 3 * i]; base.disp[i] = g[4 + 3 * i]; base.prio[i] = g[5 + 3 * i]; } for (int b = 0; b < 6; ++b) memcpy(base.col[b], probe_colbank(p, b), 512); for (int b = 0; b < 44; ++b) memcpy(base.chr[b], probe_chr(p, b), 8192); for (int pg = 0; pg < 2; ++pg) for (int l = 0; l < 2; ++l) for (int y = 0; y < 64; ++y) for (int x = 0; x < 64; ++x) base.bg[pg][l][y][x] = probe_tile(p, pg, l, x, y); for (int q = 0; q < 4; ++q) for (int y = 0; y < 192; ++y) for (int x = 0; x < 256; ++x) base.grp[q][y][x] = probe_grp(p, q, x, y); int b[3]; probe_gset(p, g); probe_pages(b); base.bgpage = b[0]; base.sppage = b[1]; };
		w.input = [=](i64, InFrame& in){
			if (!W->ptc || fin) return; ++t; bool ready = probe_waiting_input(W->ptc) && (!pc || probe_code(W->ptc) == pc); rd = ready ? rd + 1 : 0;
			if (ph == 0){ if (rd < 4) return; if (!pc) pc = probe_code(W->ptc); if (at >= rounds.size()){ fin = true; return; } ty = Typist(); string tx = fmt("EXEC\"R%d\"", (int)rounds[at]->a[2]); ty.add("I=-1", [=]{ return probe_waiting_input(W->ptc) && probe_code(W->ptc) == pc && var_is("I", -1) && con_line(probe_cy(W->ptc)) == ""; }, 3000); ty.add(tx, [=]{ return !probe_waiting_input(W->ptc) || probe_code(W->ptc) != pc || con_line(probe_cy(W->ptc)) != tx; }, 3000); ph = 1; pressed = false; W->faults.clear(); for (auto& q : W->c->items) if (q.kind == "fault" && q.a[0] == rounds[at]->a[2] && !files.empty()){ Fault x; x.op = (int)q.a[1]; x.nth = q.a[2]; x.kind = (int)q.a[3]; x.arg = q.a[4]; auto f = files.begin(); std::advance(f, q.a[5] % files.size()); x.path = f->first; W->faults.push_back(x); } }
			if (ph == 1){ ty.frame(in); if (!ty.idle()) return; if (ty.failed){ fail("prompt", ty.fail_at); return; } t = 0; rd = 0; ph = 2; bb0 = W->bbs_prg; return; }
			if (ph == 2){ const Item& it = *rounds[at]; if (it.a[0] && t > it.a[0] && t <= it.a[0] + it.a[1] && rd == 0){ in.buttons |= 1u << 11; pressed = true; } if (it.a[0] && pressed && t > it.a[0] + it.a[1] + 400) { pressed = true; }
				if (rd > 6){ check(); if (fin) return; adopt(); ph = 0; ++at; t = 0; rd = 0; } return; } };
		w.on_frame = [](i64){ return !fin; };
		sim_run(w); account(w); v.hash = h2(w.frame, w.bbs_prg);
		if (v.bad) return v;
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!fin){ v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		hit("nontrivial"); return v;
	}
};
static Reg r25(new DrawScenario);
}
