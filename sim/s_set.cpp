// P27: sprite settings, sprite variables, panel text, function keys, icons and visibility hold
// exactly what the program set, under every schedule and break; a refused statement changes nothing.
#include "lang.h"
extern "C" const void* probe_code(void* ptc);
extern "C" { void probe_set_spr(void*, int, int, int*); void probe_set_misc(void*, int*); int probe_fkey(void*, int, unsigned char*); void probe_pnl(void*, int, int, int*); }
static string nl(string s){ for (auto& c : s) if (c == '\r') c = '\n'; return s; }

namespace {
struct Op { string k; vector<int> a; string s; bool bad = false; };
static const char* SPN[30] = {"active", "palette", "priority", "horizontal flip", "vertical flip", "width", "height", "home x", "home y", "x", "y", "scale", "angle", "character", "hit x", "hit y", "hit width", "hit height", "hit scale flag", "hit group", "hit dx", "hit dy", "variable 0", "variable 1", "variable 2", "variable 3", "variable 4", "variable 5", "variable 6", "variable 7"};
static const char* PT[5] = {"OFF", "PNL", "KYA", "KYM", "KYK"};
struct SetState {
	int sp[2][100][30]; int misc[37]; unsigned char t[24][32], tc[24][32], k[32], kc[32]; string key[5]; bool ptknown = true;
	map<int, i64> R;
	void read(){ void* p = W->ptc; for (int g = 0; g < 2; ++g) for (int i = 0; i < 100; ++i) probe_set_spr(p, g, i, sp[g][i]); probe_set_misc(p, misc); for (int y = 0; y < 24; ++y) for (int x = 0; x < 32; ++x){ int o[4]; probe_pnl(p, x, y, o); t[y][x] = o[0]; tc[y][x] = o[1]; if (!y){ k[x] = o[2]; kc[x] = o[3]; } } for (int i = 0; i < 5; ++i){ unsigned char b[256]; int n = probe_fkey(p, i, b); key[i] = string((char*)b, std::min(n, 256)); } }
	int* S(int id){ return sp[misc[0]][id]; }
	bool step(const Op& o, int n){ // false: refused with an error, nothing changed
		if (o.bad) return false; auto& a = o.a; const string& q = o.k; size_t m = a.size();
		auto act = [&](int id){ return S(id)[0] != 0; };
		if (q == "SPPAGE") misc[0] = a[0]; else if (q == "BGPAGE") misc[1] = a[0];
		else if (q == "SPSET"){ if (a[1] > (misc[0] ? 117 : 511)) return false; int* s = S(a[0]); memset(s, 0, 30 * sizeof(int)); s[0] = 1; s[13] = a[1]; s[1] = a[2]; s[3] = a[3] != 0; s[4] = a[4] != 0; s[2] = a[5]; s[5] = m > 6 ? a[6] : 16; s[6] = m > 6 ? a[7] : 16; s[11] = 4096; s[16] = s[5] * 4096; s[17] = s[6] * 4096; s[19] = 255; }
		else if (q == "SPCLR"){ for (int i = 0; i < 100; ++i) if (!m || a[0] == i) S(i)[0] = 0; }
		else if (q == "SPGETV"){ if (!act(a[0])) return false; R[n] = S(a[0])[22 + a[1]]; }
		else if (q == "SPREAD"){ if (!act(a[0])) return true; int* s = S(a[0]); i64 v[5] = {s[9] & -4096, s[10] & -4096, s[12], s[11], s[13] * 4096}; R[n] = v[a[1]]; }
		else if (q == "SPCHR"){ if (a[1] > (misc[0] ? 117 : 511)) return false; int* s = S(a[0]); s[13] = a[1]; if (m > 2){ s[1] = a[2]; s[3] = a[3]; s[4] = a[4]; s[2] = a[5]; } }
		else if (q.compare(0, 2, "SP") == 0){ if (!act(a[0])) return false; int* s = S(a[0]);
			if (q == "SPOFS"){ s[9] = a[1] * 4096; s[10] = a[2] * 4096; } else if (q == "SPSETV") s[22 + a[1]] = a[2]; else if (q == "SPHOME"){ s[7] = a[1]; s[8] = a[2]; } else if (q == "SPSCALE") s[11] = a[1] * 4096 / 100; else if (q == "SPANGLE") s[12] = a[1] % 360 * 4096; else if (q == "SPCOLVEC"){ s[20] = a[1] * 4096; s[21] = a[2] * 4096; } else if (q == "SPCOL"){ for (int i = 0; i < 4; ++i) s[14 + i] = a[1 + i] * 4096; s[18] = a[5]; s[19] = m > 6 ? a[6] : 255; } else abort(); }
		else if (q == "PNLTYPE"){ misc[3] = a[0]; ptknown = true; }
		else if (q == "PNLSTR"){ int x = a[0], y = a[1]; if (x < 0 || x > 31 || y < 0 || y > 23) return true; for (char c : o.s){ if (x > 31) break; t[y][x] = c; tc[y][x] = m > 2 ? a[2] : 0; ++x; } }
		else if (q == "KEY"){ key[a[0] - 1] = o.s; for (int i = 0; i < 5; ++i){ int x = 1 + 6 * (a[0] - 1) + i; k[x] = i == 4 && o.s.size() > 4 ? '.' : i < (int)o.s.size() ? o.s[i] : ' '; } }
		else if (q == "ICONSET") misc[9 + a[0]] = 4 * a[1]; else if (q == "ICONCLR"){ for (int i = 0; i < 4; ++i) if (!m || a[0] == i) misc[9 + i] = -1; if (!m) misc[7] = misc[8] = -9; }
		else if (q == "ICONPUSE"){ misc[4] = a[0] ? 4096 : 0; misc[7] = misc[8] = a[0] != 0; } else if (q == "ICONPMAX") misc[5] = std::max(0, a[0]) & -4096; else if (q == "ICONPAGE"){ misc[6] = std::max(0, std::min(a[0], misc[5])) & -4096; }
		else if (q == "ICONREAD"){ i64 v[3] = {misc[4], misc[5], -1}; if (a[0] < 2) R[n] = v[a[0]]; else if (misc[6] <= misc[5]) R[n] = misc[6]; }
		else if (q == "VISIBLE"){ for (int i = 0; i < 6; ++i) if (a[i] >= 0) misc[2] = (misc[2] & ~(1 << i)) | a[i] << i; }
		else if (q == "BREPEAT"){ if (a[0] < 12){ misc[13 + 2 * a[0]] = m > 1 ? a[1] : 0; misc[14 + 2 * a[0]] = m > 1 ? a[2] : 0; } }
		else if (q == "CHK"){ int x = a[0], y = a[1]; R[n] = x < 0 || y < 0 || x > 31 || y > 23 ? -4096 : (unsigned char)o.s[0] * 4096; }
		return true;
	}
	string differs(const SetState& g, int upto, int shown) const { // g: what the machine has; shown: the panel type at the end of the program, -1: not known
		for (int p = 0; p < 2; ++p) for (int i = 0; i < 100; ++i){ auto a = sp[p][i], b = g.sp[p][i]; if (!a[0] && !b[0]) continue; for (int j = 0; j < 30; ++j) if (a[j] != b[j]) return fmt("%s of sprite %d on screen %d is %d instead of %d", SPN[j], i, p, b[j], a[j]); if (!a[0]) break; }
		static const char* nm[13] = {"SPPAGE", "BGPAGE", "VISIBLE", "PNLTYPE", "ICONPUSE", "ICONPMAX", "ICONPAGE", "the page up icon", "the page down icon", "icon 0", "icon 1", "icon 2", "icon 3"};
		for (int i = 13; i < 37; ++i) if (g.misc[i] != misc[i]) return fmt("%s of button %d is %d instead of %d", i & 1 ? "BREPEAT start" : "BREPEAT interval", (i - 13) / 2, g.misc[i], misc[i]);
		for (int i = 0; i < 13; ++i){ int h = i == 3 ? shown : g.misc[i]; if (i == 3 && shown < 0) continue; if (misc[i] == -9 || (i == 6 && misc[6] > misc[5])) continue; if (h != misc[i]) return fmt("%s is %d instead of %d", nm[i], h, misc[i]); }
		for (int y = 0; y < 24; ++y) for (int x = 0; x < 32; ++x){ if (t[y][x] != g.t[y][x]) return fmt("panel text at %d,%d is character %d instead of %d", x, y, g.t[y][x], t[y][x]); if (tc[y][x] != g.tc[y][x]) return fmt("panel colour at %d,%d is %d instead of %d", x, y, g.tc[y][x], tc[y][x]); }
		for (int x = 0; x < 32; ++x) if (k[x] != g.k[x] || kc[x] != g.kc[x]) return fmt("the function key label at column %d is character %d, colour %d instead of %d, %d", x, g.k[x], g.kc[x], k[x], kc[x]);
		for (int i = 0; i < 5; ++i) if (key[i] != g.key[i]) return fmt("function key %d is \"%s\" instead of \"%s\"", i + 1, g.key[i].c_str(), key[i].c_str());
		for (auto& x : R) if (x.first <= upto){ int v = 0; if (!probe_arr(W->ptc, "R", x.first, &v) || v != x.second) return fmt("R(%d) is %s instead of %s", x.first, Lang::numstr(v).c_str(), Lang::numstr((int)x.second).c_str()); }
		return "";
	}
};

struct SetGen {
	Rng r; int idn = 6; SetGen(u64 s) : r(s) {}
	int in(int n){ return (int)r.below(n); }
	int id(){ return r.chance(1, 8) ? (r.chance(1, 2) ? 99 : in(100)) : r.chance(1, 6) ? 31 : in(5); }
	int edge(int lo, int hi){ return r.chance(1, 4) ? (r.chance(1, 2) ? lo : hi) : (int)r.range(lo, hi); }
	string word(int m){ string s; int n = in(m + 1); for (int i = 0; i < n; ++i){ char c = (char)(33 + in(94)); if (c == '"' || c == '@') c = '_'; s += c; } return s; }
	Op gen(){
		Op o; auto A = [&](std::initializer_list<int> l){ o.a = l; }; int q = in(100); static const int dim[4] = {8, 16, 32, 64};
		if (q < 4){ o.k = "SPPAGE"; A({in(2)}); } else if (q < 5){ o.k = "BGPAGE"; A({in(2)}); }
		else if (q < 24){ o.k = "SPSET"; A({id(), r.chance(1, 8) ? 117 : r.chance(1, 8) ? in(512) : r.chance(1, 20) ? 511 : in(118), edge(0, 15), in(2), in(2), in(4)}); if (r.chance(1, 10)) o.a[3 + in(2)] = in(9) - 4; if (r.chance(1, 2)){ o.a.push_back(dim[in(4)]); o.a.push_back(dim[in(4)]); } }
		else if (q < 27){ o.k = "SPCLR"; if (r.chance(3, 4)) A({id()}); }
		else if (q < 34){ o.k = "SPOFS"; A({id(), r.chance(1, 5) ? (int)r.range(-3000, 3000) : (int)r.range(-20, 260), (int)r.range(-20, 200)}); }
		else if (q < 40){ o.k = "SPSETV"; A({id(), edge(0, 7), (int)r.range(-40000, 40000) * 2048}); if (r.chance(1, 3)) o.a[2] = (int)r.range(-9, 9) * 4096; }
		else if (q < 43){ o.k = "SPGETV"; A({id(), in(8)}); } else if (q < 46){ o.k = "SPREAD"; A({id(), in(5)}); }
		else if (q < 50){ o.k = "SPCHR"; A({id(), r.chance(1, 10) ? edge(0, 511) : edge(0, 117)}); if (r.chance(1, 2)){ o.a.push_back(edge(0, 15)); o.a.push_back(in(2)); o.a.push_back(in(2)); o.a.push_back(in(4)); } }
		else if (q < 53){ o.k = "SPHOME"; A({id(), edge(-128, 127), edge(-128, 127)}); } else if (q < 56){ o.k = "SPSCALE"; A({in(6), edge(0, 200)}); if (r.chance(1, 6)) o.a[0] = 31; } else if (q < 59){ o.k = "SPANGLE"; A({in(6), in(800)}); }
		else if (q < 62){ o.k = "SPCOLVEC"; A({id(), edge(-128, 127), edge(-128, 127)}); } else if (q < 66){ o.k = "SPCOL"; A({id(), edge(-128, 127), edge(-128, 127), edge(0, 255), edge(0, 255), in(2)}); if (r.chance(1, 2)) o.a.push_back(in(256)); }
		else if (q < 70){ o.k = "PNLTYPE"; A({in(5)}); } else if (q < 78){ o.k = "PNLSTR"; A({r.chance(1, 8) ? (int)r.range(-3, 40) : in(32), r.chance(1, 8) ? (int)r.range(-3, 30) : in(24)}); if (r.chance(1, 4)) o.a[1] = r.chance(1, 2) ? 0 : 23; if (r.chance(2, 3)) o.a.push_back(in(16)); o.s = word(r.chance(1, 4) ? 50 : 9); }
		else if (q < 82){ o.k = "KEY"; A({1 + in(5)}); o.s = word(r.chance(1, 4) ? 60 : 7); }
		else if (q < 85){ o.k = "ICONSET"; A({in(4), in(64)}); } else if (q < 87){ o.k = "ICONCLR"; if (r.chance(3, 4)) A({in(4)}); }
		else if (q < 88){ o.k = "ICONPUSE"; A({in(4) - 1}); } else if (q < 90){ o.k = "ICONPMAX"; A({(int)r.range(-3, 20) * 2048}); } else if (q < 92){ o.k = "ICONPAGE"; A({(int)r.range(-3, 20) * 2048}); } else if (q < 94){ o.k = "ICONREAD"; A({in(3)}); }
		else if (q < 95){ o.k = "BREPEAT"; A({in(13)}); if (r.chance(3, 4)){ o.a.push_back(edge(0, 60)); o.a.push_back(edge(0, 60)); } } else if (q < 97){ o.k = "VISIBLE"; for (int i = 0; i < 6; ++i) o.a.push_back(r.chance(1, 4) ? -1 : in(2)); if (o.a[5] < 0) o.a[5] = in(2); }
		else { o.k = "CHK"; A({r.chance(1, 3) ? (r.chance(1, 2) ? -1 - in(3) : 32 + in(3)) : in(31), r.chance(1, 3) ? (r.chance(1, 2) ? -1 - in(3) : 24 + in(3)) : in(24)}); if (r.chance(1, 2)) o.a[1] = in(24); o.s = string(1, (char)('A' + in(26))); }
		if (r.chance(1, 25)) spoil(o);
		if (r.chance(1, 150)){ // statements without any effect here, as an argument of theirs cannot be carried out
			int i = in(5), w = r.chance(1, 2) ? -1 - in(3) : 100 + in(3), l = r.chance(1, 2) ? -1 : 2, m = -1 - in(3); o = Op(); o.k = "REFUSE"; o.bad = true;
			switch (in(15)){ case 0: o.s = fmt("BGOFS %d,%d,%d", l, in(300), in(300)); break; case 1: o.s = fmt("BGOFS %d,%d,%d,%d", in(2), in(300), in(300), m); break; case 2: o.s = fmt("SPOFS %d,%d,%d,%d", i, in(200), in(200), m); break; case 3: o.s = fmt("SPOFS %d,%d,%d,%d", w, in(200), in(200), in(9)); break; case 4: o.s = fmt("SPANGLE %d,%d,%d", i, in(360), m); break; case 5: o.s = fmt("SPANIM %d,%d,%d", i, m, 1 + in(9)); break; case 6: o.s = fmt("SPANIM %d,%d,%d", i, 1 + in(9), m); break; case 7: o.s = fmt("SPANIM %d,%d,%d,%d", i, 1 + in(9), 1 + in(9), m); break; case 8: o.s = fmt("SPANIM %d,%d,%d", w, 1 + in(9), 1 + in(9)); break; case 9: o.s = fmt("RV=BGCHK(%d)", l); break; case 10: o.s = fmt("RV=SPCHK(%d)", w); break; case 11: o.s = fmt("RV=SPHIT(%d)", w); break; case 12: o.s = fmt("RV=SPHIT(%d,%d)", i, w); break; case 13: o.s = fmt("RV=SPHITSP(%d,%d)", i, w); break; default: o.s = fmt("RV=SPHITSP(%d,%d)", w, i); } }
		return o;
	}
	void spoil(Op& o){ // an operation that must be refused
		auto& a = o.a; const string& k = o.k; int over = r.chance(1, 2) ? -1 : 100; size_t n = a.size();
		if (k == "SPSET"){ switch (in(6)){ case 0: a[0] = over; break; case 1: a[1] = r.chance(1, 2) ? -1 : 512; break; case 2: a[2] = r.chance(1, 2) ? -1 : 16; break; case 3: a[5] = r.chance(1, 2) ? -1 : 4; break; default: if (n > 6) a[6 + in(2)] = 24; else a[0] = over; } }
		else if (k == "SPCOL"){ switch (in(5)){ case 0: a[1 + in(2)] = r.chance(1, 2) ? -129 : 128; break; case 1: a[3 + in(2)] = r.chance(1, 2) ? -1 : 256; break; case 2: a[5] = 2; break; case 3: if (n > 6){ a[6] = r.chance(1, 2) ? -1 : 256; break; } [[fallthrough]]; default: a[0] = over; } }
		else if (k == "SPCOLVEC"){ if (r.chance(1, 2)) a[0] = over; else a[1 + in(2)] = r.chance(1, 2) ? -129 : 128; }
		else if (k == "SPCHR"){ if (n > 2 && r.chance(1, 2)){ int i = 2 + in(4); a[i] = i == 2 ? 16 : i == 5 ? 4 : 2; } else if (r.chance(1, 2)) a[1] = r.chance(1, 2) ? -1 : 512; else a[0] = over; }
		else if (k == "SPSCALE"){ if (r.chance(1, 2)) a[0] = r.chance(1, 2) ? -1 : 32; else a[1] = r.chance(1, 2) ? -1 : 201; }
		else if (k == "SPSETV" || k == "SPGETV"){ if (r.chance(1, 2)) a[0] = over; else a[1] = r.chance(1, 2) ? -1 : 8; }
		else if (k == "SPCLR" || k == "SPOFS" || k == "SPHOME" || k == "SPANGLE" || k == "SPREAD"){ if (!n) return; a[0] = over; }
		else if (k == "SPPAGE" || k == "BGPAGE") a[0] = r.chance(1, 2) ? -1 : 2; else if (k == "PNLTYPE") a[0] = 5; else if (k == "PNLSTR"){ if (n < 3) return; a[2] = r.chance(1, 2) ? -1 : 16; a[0] &= 31; a[1] = in(24); }
		else if (k == "KEY") a[0] = r.chance(1, 2) ? 0 : 6; else if (k == "ICONSET"){ if (r.chance(1, 2)) a[0] = r.chance(1, 2) ? -1 : 4; else a[1] = r.chance(1, 2) ? -1 : 65 + in(100); } else if (k == "ICONCLR"){ if (!n) return; a[0] = r.chance(1, 2) ? -1 : 4; }
		else if (k == "BREPEAT"){ if (n > 1 && r.chance(2, 3)){ a[0] = std::min(a[0], 11); a[1 + in(2)] = -1 - in(5); } else a[0] = r.chance(1, 2) ? -1 : 13; } else if (k == "VISIBLE"){ a[in(6)] = 2; } else return;
		o.bad = true;
	}
	static string num(int v){ return Lang::numstr(v); }
	string text(const Op& o){ auto& a = o.a; const string& k = o.k; string t;
		if (k == "REFUSE") return o.s;
		if (k == "SPGETV") return fmt("R(@N)=SPGETV(%d,%d)", a[0], a[1]);
		if (k == "SPREAD"){ static const char* v[] = {"RV", "RW,RV", "RW,RW,RV", "RW,RW,RW,RV", "RW,RW,RW,RW,RV"}; return fmt("SPREAD %d,%s:R(@N)=RV", a[0], v[a[1]]); }
		if (k == "SPSETV") return fmt("SPSETV %d,%d,%s", a[0], a[1], num(a[2]).c_str());
		if (k == "PNLTYPE") return string("PNLTYPE \"") + (a[0] == 5 ? "KYB" : PT[a[0]]) + "\""; if (k == "PNLSTR") return fmt("PNLSTR %d,%d,\"%s\"", a[0], a[1], o.s.c_str()) + (a.size() > 2 ? fmt(",%d", a[2]) : ""); if (k == "KEY") return fmt("KEY %d,\"%s\"", a[0], o.s.c_str());
		if (k == "ICONPUSE") return fmt("ICONPUSE=%d", a[0]); if (k == "ICONPMAX" || k == "ICONPAGE") return k + "=" + num(a[0]); if (k == "ICONREAD"){ static const char* v[] = {"ICONPUSE", "ICONPMAX", "ICONPAGE"}; return string("R(@N)=") + v[a[0]]; }
		if (k == "VISIBLE"){ t = "VISIBLE "; for (int i = 0; i < 6; ++i){ if (i) t += ","; if (a[i] >= 0) t += fmt("%d", a[i]); } return t; }
		if (k == "CHK"){ bool in = a[0] >= 0 && a[1] >= 0 && a[0] < 32 && a[1] < 24; return (in ? fmt("LOCATE %d,%d:PRINT \"%s\";:", a[0], a[1], o.s.c_str()) : "") + fmt("R(@N)=CHKCHR(%d,%d)", a[0], a[1]); }
		t = k; for (size_t i = 0; i < a.size(); ++i) t += (i ? "," : " ") + fmt("%d", a[i]); return t; }
};

struct SetScenario : Scenario {
	SetScenario(){ id = "P27"; }
	Case gen(u64 seed, bool th) override {
		Case c; Rng r(seed); gen_sched(c, r); c.p["gen"] = (i64)r.below(1 << 30); if (r.chance(1, 8)) c.p["render"] = r.range(1, 9); if (c.get("nominal") < 1000) c.p["nominal"] = r.range(1000, 30000);
		int rounds = (int)r.range(1, 3); for (int k = 0; k < rounds; ++k){ int n = (int)r.range(6, th ? 80 : 45); Item it; it.kind = "round"; it.fixed = k == 0; it.a = {(i64)r.chance(1, 2) ? r.logu(1, 60) : 0, r.range(1, 5), k}; c.items.push_back(it); for (int i = 0; i < n; ++i){ Item q; q.kind = "op"; q.a = {k, (i64)r.below(1 << 30)}; c.items.push_back(q); } }
		return c;
	}
	Verdict exec(const Case& c) override {
		Verdict v; Disk d; base_disk(d); static vector<vector<Op>> ops; ops.assign(3, {}); static vector<string> txt; txt.assign(3, ""); static vector<const Item*> rounds; rounds.clear(); vector<vector<string>> lines(3);
		for (auto& it : c.items) if (it.kind == "round") rounds.push_back(&it);
		// sprites that are not there: most statements are refused, so mostly use sprites that are
		{ for (int k = 0; k < 3; ++k){ static bool on[2][100]; if (!k) memset(on, 0, sizeof on); int pg = 0; if (!k) pg = 0; static int cur; if (!k) cur = 0; (void)pg;
			for (auto& it : c.items) if (it.kind == "op" && it.a[0] == k){ SetGen g((u64)it.a[1] * 2654435761u + (u64)c.get("gen")); Op o = g.gen(); bool sp = o.k.compare(0, 2, "SP") == 0 && o.k != "SPPAGE" && o.k != "SPSET" && o.k != "SPCLR"; if (sp && !o.bad && !on[cur][o.a[0]] && (o.k == "SPCHR" || o.k == "SPREAD" || !g.r.chance(1, 12))){ int z = -1; int lim = o.k == "SPSCALE" ? 32 : 100; for (int j = 0; j < lim; ++j) if (on[cur][j] && (z < 0 || g.r.chance(1, 2))) z = j; if (z < 0){ o = Op(); o.k = "SPSET"; o.a = {g.in(5), g.in(118), g.in(16), g.in(2), g.in(2), g.in(4)}; } else o.a[0] = z; }
				if (!o.bad){ if (o.k == "SPSET") on[cur][o.a[0]] = true; else if (o.k == "SPPAGE") cur = o.a[0]; else if (o.k == "SPCLR") for (int j = 0; j < 100; ++j) if (o.a.empty() || o.a[0] == j) on[cur][j] = false; }
				ops[k].push_back(o); lines[k].push_back(g.text(o)); } } }
		for (int k = 0; k < 3; ++k){ string t = "CLEAR:DIM R(99)\r"; for (size_t i = 0; i < lines[k].size(); ++i){ string s = lines[k][i]; size_t p; while ((p = s.find("@N")) != string::npos) s.replace(p, 2, fmt("%zu", i + 1)); t += fmt("I=%zu:", i + 1) + s + "\r"; } t += "I=900\rWAIT 3\r"; txt[k] = t; d[fmt("programs/R%d.PTC", k)] = prg_file(t); }
		static SetState base; static bool first; first = true;
		World w; apply_sched(w, c); w.disk = &d; w.max_frames = 30000; w.max_bbs = 120000000;
		static bool fin; fin = false; static size_t at; at = 0; static int ph; ph = 0; static i64 t, rd; t = rd = 0; static Typist ty; static const void* pc; pc = nullptr; static bool pressed; static Verdict* pv; pv = &v; static int shown; shown = -1;
		auto fail = [=](const string& cls, const string& m){ int k = (int)rounds[at]->a[2]; *pv = bad(cls, fmt("program R%d: ", k) + m + "\nscreen:\n" + con_all() + nl(txt[k])); fin = true; };
		auto check = [=]{
			int k = (int)rounds[at]->a[2]; int I = (int)var_int("I"); auto& O = ops[k]; int done = I == 900 ? (int)O.size() : I < 0 ? 0 : I - 1; bool err = I != 900 && !pressed; static SetState m, g; m = base; m.R.clear(); g.read();
			for (int i = 0; i < done; ++i){ hit("op:" + O[i].k); if (!m.step(O[i], i + 1)){ fail("not-refused", fmt("statement %d (%s) cannot be carried out, but the program went on", i + 1, O[i].k.c_str())); return; } }
			int sh = I == 900 && shown >= 0 && m.ptknown ? shown : -1; string df = m.differs(g, done, sh); hit(I == 900 ? "completed" : pressed ? "broken" : "error"); int pt = m.misc[3]; bool ptk = m.ptknown;
			if (I == 900){ if (!df.empty()){ fail("state", df); return; } }
			else { const Op* o = I >= 1 && I <= (int)O.size() ? &O[I - 1] : nullptr; static SetState m2; m2 = m; m2.R.clear(); bool can = o ? m2.step(*o, I) : true; if (m2.misc[3] != pt) ptk = false; if (!err && o && o->k.compare(0, 5, "ICONP") == 0) for (int i = 4; i < 9; ++i) m2.misc[i] = g.misc[i]; // the range of a system variable is applied after the assignment
				if (err && can){ fail("refused", fmt("statement %d (%s) ended the program, but it can be carried out", I, o ? o->k.c_str() : "?")); return; }
				if (!df.empty()){ if (err){ fail("state", "after the refused statement " + fmt("%d (%s) ", I, o ? o->k.c_str() : "?") + df); return; } string d2 = m2.differs(g, done, -1); if (!d2.empty()){ fail("state", fmt("stopped in statement %d (%s): ", I, o ? o->k.c_str() : "?") + d2 + "; or, if it had not been carried out, " + df); return; } } }
			base.read(); base.misc[3] = pt; base.ptknown = ptk; };
		w.input = [=](i64, InFrame& in){
			if (!W->ptc || fin) return; ++t; bool ready = probe_waiting_input(W->ptc) && (!pc || probe_code(W->ptc) == pc); rd = ready ? rd + 1 : 0;
			if (ph == 0){ if (rd < 4) return; if (!pc) pc = probe_code(W->ptc); if (at >= rounds.size()){ fin = true; return; } if (first){ base.read(); base.ptknown = false; first = false; } ty = Typist(); string tx = fmt("EXEC\"R%d\"", (int)rounds[at]->a[2]); ty.add("I=-1", [=]{ return probe_waiting_input(W->ptc) && probe_code(W->ptc) == pc && var_is("I", -1) && con_line(probe_cy(W->ptc)) == ""; }, 3000); ty.add(tx, [=]{ return !probe_waiting_input(W->ptc) || probe_code(W->ptc) != pc || con_line(probe_cy(W->ptc)) != tx; }, 3000); ph = 1; pressed = false; shown = -1; }
			if (ph == 1){ ty.frame(in); if (!ty.idle()) return; if (ty.failed){ fail("prompt", ty.fail_at); return; } t = 0; rd = 0; ph = 2; return; }
			if (ph == 2){ const Item& it = *rounds[at]; if (it.a[0] && t > it.a[0] && t <= it.a[0] + it.a[1] && rd == 0){ in.buttons |= 1u << 11; pressed = true; }
				if (shown < 0 && probe_code(W->ptc) != pc && var_is("I", 900) && !probe_waiting_input(W->ptc)){ int o[37]; probe_set_misc(W->ptc, o); if (probe_code(W->ptc) != pc && !probe_waiting_input(W->ptc)){ shown = o[3]; hit("type_seen"); } }
				if (rd > 6){ check(); if (fin) return; ph = 0; ++at; t = 0; rd = 0; } return; } };
		w.on_frame = [](i64){ return !fin; };
		sim_run(w); account(w); v.hash = h2(w.frame, w.bbs_prg);
		if (v.bad) return v;
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!fin){ v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		hit("nontrivial"); return v;
	}
};
static Reg r27(new SetScenario);
}
