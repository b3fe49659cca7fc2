// P28: PEEK, POKE, MEMCOPY and MEMFILL act on exactly the bytes ADDR names, and nothing else.
#include "lang.h"
extern "C" const void* probe_code(void* ptc);
extern "C" unsigned char* probe_res(void*, int kind, int i);
static string nl(string s){ for (auto& c : s) if (c == '\r') c = '\n'; return s; }

namespace {
// what ADDR can name: the graphics pages, character banks, palettes, tile pages, and a variable
struct Reg_ { string name; int kind, idx, size; };
static const vector<Reg_>& regs(){ static vector<Reg_> v; if (v.empty()){ for (int i = 0; i < 4; ++i) v.push_back({fmt("GRP%d", i), 0, i, 49152}); for (int i = 0; i < 8; ++i) v.push_back({fmt("SPU%d", i), 1, 12 + i, 8192}); for (int u = 0; u < 2; ++u){ for (int i = 0; i < 4; ++i) v.push_back({fmt("BGU%d%c", i, "UL"[u]), 1, 8 + i + 22 * u, 8192}); v.push_back({fmt("BGF0%c", "UL"[u]), 1, 22 * u, 8192}); for (int i = 0; i < 3; ++i) v.push_back({fmt("COL%d%c", i, "UL"[u]), 2, i + 3 * u, 512}); } v.push_back({"&V", 4, 0, 4}); } return v; }
struct Op { string k; int r = 0, o = 0, r2 = 0, o2 = 0, v = 0, n = 0; string s; int bad = 0; };
struct MemState {
	unsigned char grp[4][49152], chr[44][8192], col[6][512], var[4], arr[80]; map<int, i64> R; map<int, string> S;
	unsigned char* at(int r, int o){ auto& g = regs()[r]; switch (g.kind){ case 0: return grp[g.idx] + o; case 1: return chr[g.idx] + o; case 2: return col[g.idx] + o; case 4: return var + o; default: return arr + o; } }
	void read(){ void* p = W->ptc; for (int i = 0; i < 4; ++i) memcpy(grp[i], probe_res(p, 0, i), 49152); for (int i = 0; i < 44; ++i) memcpy(chr[i], probe_res(p, 1, i), 8192); for (int i = 0; i < 6; ++i) memcpy(col[i], probe_res(p, 2, i), 512); int v = 0; probe_num(p, "V", &v); memcpy(var, &v, 4); for (int i = 0; i < 20; ++i){ v = 0; probe_arr(p, "Q", i, &v); memcpy(arr + 4 * i, &v, 4); } }
	bool step(const Op& o, int n){ if (o.bad) return false; const string& k = o.k; auto d = at(o.r, o.o);
		if (k == "POKE") memcpy(d, &o.v, 4); else if (k == "POKEH"){ unsigned short v = (unsigned short)(o.v >> 12); memcpy(d, &v, 2); } else if (k == "POKEB") *d = (unsigned char)(o.v >> 12);
		else if (k == "PEEK"){ int v; memcpy(&v, d, 4); R[n] = v; } else if (k == "PEEKH"){ unsigned short v; memcpy(&v, d, 2); R[n] = v << 12; } else if (k == "PEEKB") R[n] = *d << 12;
		else if (k == "FILL") memset(d, o.v, o.n); else if (k == "COPY") memcpy(d, at(o.r2, o.o2), o.n); else if (k == "DIFF") R[n] = o.o; else if (k == "PTR") S[n] = fmt("0x%08X", o.v); else if (k == "STR") R[n] = (unsigned char)o.s[o.o] << 12;
		else if (k == "V") memcpy(var, &o.v, 4); else if (k == "Q") memcpy(arr + 4 * o.o, &o.v, 4); else if (k == "RV"){ int v; memcpy(&v, var, 4); R[n] = v; } else if (k == "RQ"){ int v; memcpy(&v, arr + 4 * o.o, 4); R[n] = v; } else abort();
		return true; }
	string differs(const MemState& g, int upto) const {
		auto cmp = [&](const char* what, int i, const unsigned char* a, const unsigned char* b, int n){ if (!memcmp(a, b, n)) return string(); for (int j = 0; ; ++j) if (a[j] != b[j]) return fmt("byte %d of %s %d is %02X instead of %02X", j, what, i, b[j], a[j]); }; string s;
		for (int i = 0; i < 4; ++i) if (!(s = cmp("GRP", i, grp[i], g.grp[i], 49152)).empty()) return s;
		for (int i = 0; i < 44; ++i) if ((i < 38 || i > 41) && !(s = cmp("character bank", i, chr[i], g.chr[i], 8192)).empty()) return s; // 38 - 41: the keyboard's
		for (int i = 0; i < 6; ++i) if (!(s = cmp("palette", i, col[i], g.col[i], 512)).empty()) return s;
		if (!(s = cmp("variable", 0, var, g.var, 4)).empty()) return s; if (!(s = cmp("array", 0, arr, g.arr, 80)).empty()) return s;
		for (auto& x : R) if (x.first <= upto){ int v = 0; if (!probe_arr(W->ptc, "R", x.first, &v) || v != x.second) return fmt("R(%d) is %s instead of %s", x.first, Lang::numstr(v).c_str(), Lang::numstr((int)x.second).c_str()); }
		for (auto& x : S) if (x.first <= upto){ unsigned char b[300]; int n = probe_sarr(W->ptc, "S", x.first, b); if (n < 0 || string((char*)b, n) != x.second) return fmt("S$(%d) is \"%s\" instead of \"%s\"", x.first, n < 0 ? "?" : string((char*)b, n).c_str(), x.second.c_str()); }
		return "";
	}
};
struct MemGen {
	Rng r; MemGen(u64 s) : r(s) {}
	int reg(){ auto& v = regs(); return r.chance(1, 8) ? (int)v.size() - 1 : (int)r.below(v.size()); }
	int off(int R, int n){ int m = regs()[R].size - n; if (m < 0) return 0; switch (r.below(5)){ case 0: return 0; case 1: return m; case 2: return (int)r.below(std::min(m, 9) + 1); default: return (int)r.below(m + 1); } }
	Op gen(){ Op o; static const char* k[] = {"POKE", "POKEH", "POKEB", "PEEK", "PEEKH", "PEEKB"}; static const int sz[] = {4, 2, 1, 4, 2, 1}; int q = (int)r.below(100);
		if (q < 60){ int i = (int)r.below(6); o.k = k[i]; o.r = reg(); o.o = off(o.r, sz[i]); o.v = r.chance(1, 4) ? (int)r.range(-2000000000, 2000000000) : (int)r.range(-300, i == 1 ? 70000 : 700) * 4096 + (r.chance(1, 5) ? (int)r.below(4096) : 0); }
		else if (q < 68){ o.k = "FILL"; o.r = reg(); int s = regs()[o.r].size; o.n = r.chance(1, 8) ? 0 : r.chance(1, 6) ? s : (int)r.logu(1, s); o.o = off(o.r, o.n); if (o.o == s) o.o = 0; o.v = (int)r.range(-5, 300); }
		else if (q < 80){ o.k = "COPY"; o.r = reg(); o.r2 = reg(); int s = std::min(regs()[o.r].size, regs()[o.r2].size); if (o.r == o.r2) s = s / 2 - 2; if (s < 1) s = 1; o.n = (int)r.logu(1, s); o.o = off(o.r, o.n); o.o2 = off(o.r2, o.n); if (o.r == o.r2 && abs(o.o - o.o2) <= o.n){ if (o.o == o.o2 || abs(o.o - o.o2) < o.n) o.bad = 1; else { o.k = "PEEKB"; o.bad = 0; } } }
		else if (q < 83){ o.k = "DIFF"; o.r = reg(); o.o = off(o.r, 1); } else if (q < 86){ o.k = "PTR"; o.v = (int)r.range(-2000000000, 2000000000); } else if (q < 89){ o.k = "STR"; int n = 1 + (int)r.below(20); for (int i = 0; i < n; ++i) o.s += (char)('A' + r.below(26)); o.o = (int)r.below(n); }
		else if (q < 92){ o.k = "V"; o.v = (int)r.range(-2000000000, 2000000000); } else if (q < 95){ o.k = "Q"; o.o = (int)r.below(20); o.v = (int)r.range(-2000000000, 2000000000); } else if (q < 97) o.k = "RV"; else { o.k = "RQ"; o.o = (int)r.below(20); }
		o.v &= o.k == "FILL" ? -1 : ~511; // written with three digits
		if (o.k == "COPY" && o.r != o.r2 && ((!o.o && o.o2 + o.n == regs()[o.r2].size) || (!o.o2 && o.o + o.n == regs()[o.r].size))){ if (o.n > 1) --o.n; else o.k = "PEEKB"; } // two neighbours in memory: not specified
		if (o.k == "COPY" && o.bad){ if (!r.chance(1, 12)){ o.bad = 0; o.k = "POKEB"; o.v = o.n * 4096; } } // overlapping: refused
		else if (r.chance(1, 30) && (q < 83)) o.bad = o.k == "DIFF" ? 8 + (int)r.below(2) : 2 + (int)r.below(8);
		return o; }
	static string num(int v){ return Lang::numstr(v); }
	string addr(int R, int o, int bad){ // the address as an expression
		switch (bad){ case 2: return "0"; case 3: return "5"; case 4: return "8191.5"; case 5: return "10240"; case 6: return "10300.25"; case 7: return "-8192"; case 8: return fmt("ADDR(\"%s\",%d)", r.chance(1, 2) ? "GRP0" : "COL1U", r.chance(1, 2) ? -1 : 49152); case 9: return r.chance(1, 2) ? "ADDR(\"GRP4\")" : "ADDR(\"\")"; }
		auto& g = regs()[R]; if (!o && r.chance(1, 2)) return "ADDR(\"" + g.name + "\")"; return fmt("ADDR(\"%s\",%d)", g.name.c_str(), o); }
	string text(const Op& o){ const string& k = o.k; bool sec = k == "COPY" && o.bad > 1 && r.chance(1, 2); string A = addr(o.r, o.o, sec ? 0 : o.bad);
		if (k.compare(0, 4, "POKE") == 0) return k + " " + A + "," + num(o.v); if (k.compare(0, 4, "PEEK") == 0) return "R(@N)=" + k + "(" + A + ")";
		if (k == "FILL") return "MEMFILL " + A + fmt(",%d,%d", o.v, o.n); if (k == "COPY"){ return "MEMCOPY " + A + "," + addr(o.r2, o.o2, sec ? o.bad : 0) + fmt(",%d", o.n); }
		if (k == "DIFF") return "R(@N)=" + A + "-ADDR(\"" + regs()[o.r].name + "\")"; if (k == "PTR") return "S$(@N)=PTR$(" + num(o.v) + ")"; if (k == "STR") return "T$=\"" + o.s + "\":R(@N)=PEEKB(ADDR(\"&T$\"" + fmt(",%d))", o.o);
		if (k == "V") return "V=" + num(o.v); if (k == "Q") return fmt("Q(%d)=", o.o) + num(o.v); if (k == "RV") return "R(@N)=V"; return fmt("R(@N)=Q(%d)", o.o); }
};

struct MemScenario : Scenario {
	MemScenario(){ id = "P28"; }
	Case gen(u64 seed, bool th) override {
		Case c; Rng r(seed); gen_sched(c, r); c.p["gen"] = (i64)r.below(1 << 30); c.p["fill"] = (i64)r.below(1 << 30); if (c.get("nominal") < 1000) c.p["nominal"] = r.range(1000, 30000);
		int rounds = (int)r.range(1, 3); for (int k = 0; k < rounds; ++k){ int n = (int)r.range(6, th ? 80 : 45); Item it; it.kind = "round"; it.fixed = k == 0; it.a = {(i64)r.chance(1, 2) ? r.logu(1, 60) : 0, r.range(1, 5), k}; c.items.push_back(it); for (int i = 0; i < n; ++i){ Item q; q.kind = "op"; q.a = {k, (i64)r.below(1 << 30)}; c.items.push_back(q); } }
		return c;
	}
	Verdict exec(const Case& c) override {
		Verdict v; Disk d; base_disk(d); static vector<vector<Op>> ops; ops.assign(3, {}); static vector<string> txt; txt.assign(3, ""); static vector<const Item*> rounds; rounds.clear(); vector<vector<string>> lines(3);
		for (auto& it : c.items) if (it.kind == "round") rounds.push_back(&it); else if (it.kind == "op"){ MemGen g((u64)it.a[1] * 2654435761u + (u64)c.get("gen")); Op o = g.gen(); int k = (int)it.a[0]; string s = g.text(o); ops[k].push_back(o); lines[k].push_back(s); }
		for (int k = 0; k < 3; ++k){ string t = "CLEAR:DIM R(99),S$(99),Q(20):V=0\rMEMSAFE=1:I=0\r"; for (size_t i = 0; i < lines[k].size(); ++i){ string s = lines[k][i]; size_t p; while ((p = s.find("@N")) != string::npos) s.replace(p, 2, fmt("%zu", i + 1)); t += fmt("I=%zu:", i + 1) + s + "\r"; } t += "I=900\r"; txt[k] = t; d[fmt("programs/R%d.PTC", k)] = prg_file(t); }
		static MemState base; static bool first; first = true;
		World w; apply_sched(w, c); w.disk = &d; w.max_frames = 30000; w.max_bbs = 120000000;
		static bool fin; fin = false; static size_t at; at = 0; static int ph; ph = 0; static i64 t, rd; t = rd = 0; static Typist ty; static const void* pc; pc = nullptr; static bool pressed; static Verdict* pv; pv = &v; static u64 fill; fill = (u64)c.get("fill");
		auto fail = [=](const string& cls, const string& m){ int k = (int)rounds[at]->a[2]; *pv = bad(cls, fmt("program R%d: ", k) + m + "\nscreen:\n" + con_all() + nl(txt[k])); fin = true; };
		auto check = [=]{
			int k = (int)rounds[at]->a[2]; int I = (int)var_int("I"); auto& O = ops[k]; int done = I == 900 ? (int)O.size() : I < 0 ? 0 : I - 1; if (done < 0) done = 0; bool err = I != 900 && !pressed; static MemState m, g; m = base; m.R.clear(); m.S.clear(); if (I >= 0){ memset(m.var, 0, 4); memset(m.arr, 0, 80); } g.read();
			for (int i = 0; i < done; ++i){ hit("op:" + O[i].k); if (!m.step(O[i], i + 1)){ fail("not-refused", fmt("statement %d (%s) cannot be carried out, but the program went on", i + 1, O[i].k.c_str())); return; } }
			if (I < 0){ memcpy(m.var, g.var, 4); memcpy(m.arr, g.arr, 80); }
			string df = m.differs(g, done); hit(I == 900 ? "completed" : pressed ? "broken" : "error");
			if (I == 900){ if (!df.empty()){ fail("state", df); return; } }
			else { const Op* o = I >= 1 && I <= (int)O.size() ? &O[I - 1] : nullptr; static MemState m2; m2 = m; m2.R.clear(); m2.S.clear(); bool can = o ? m2.step(*o, I) : true;
				if (err && can){ fail("refused", fmt("statement %d (%s) ended the program, but it can be carried out", I, o ? o->k.c_str() : "?")); return; }
				if (!df.empty()){ if (err){ fail("state", "after the refused statement " + fmt("%d (%s) ", I, o ? o->k.c_str() : "?") + df); return; } string d2 = m2.differs(g, done); if (!d2.empty()){ fail("state", fmt("stopped in statement %d (%s): ", I, o ? o->k.c_str() : "?") + d2 + "; or, if it had not been carried out, " + df); return; } } }
			base.read(); };
		w.input = [=](i64, InFrame& in){
			if (!W->ptc || fin) return; ++t; bool ready = probe_waiting_input(W->ptc) && (!pc || probe_code(W->ptc) == pc); rd = ready ? rd + 1 : 0;
			if (ph == 0){ if (rd < 4) return; if (!pc) pc = probe_code(W->ptc); if (at >= rounds.size()){ fin = true; return; }
				if (first){ Rng r(fill); for (int k = 0; k < 3; ++k) for (int i = 0; i < (k == 0 ? 4 : k == 1 ? 44 : 6); ++i) if (k != 1 || i < 38 || i > 41){ auto q = probe_res(W->ptc, k, i); for (int j = 0; j < (k == 0 ? 49152 : k == 1 ? 8192 : 512); j += 8){ u64 z = r.next(); memcpy(q + j, &z, 8); } } base.read(); first = false; } // every byte is different from its neighbours
				ty = Typist(); string tx = fmt("EXEC\"R%d\"", (int)rounds[at]->a[2]); ty.add("I=-1", [=]{ return probe_waiting_input(W->ptc) && probe_code(W->ptc) == pc && var_is("I", -1) && con_line(probe_cy(W->ptc)) == ""; }, 3000); ty.add(tx, [=]{ return !probe_waiting_input(W->ptc) || probe_code(W->ptc) != pc || con_line(probe_cy(W->ptc)) != tx; }, 3000); ph = 1; pressed = false; }
			if (ph == 1){ ty.frame(in); if (!ty.idle()) return; if (ty.failed){ fail("prompt", ty.fail_at); return; } t = 0; rd = 0; ph = 2; return; }
			if (ph == 2){ const Item& it = *rounds[at]; if (it.a[0] && t > it.a[0] && t <= it.a[0] + it.a[1] && rd == 0){ in.buttons |= 1u << 11; pressed = true; }
				if (rd > 6){ check(); if (fin) return; ph = 0; ++at; t = 0; rd = 0; } return; } };
		w.on_frame = [](i64){ return !fin; };
		sim_run(w); account(w); v.hash = h2(w.frame, w.bbs_prg);
		if (v.bad) return v;
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!fin){ v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		hit("nontrivial"); return v;
	}
};
static Reg r28(new MemScenario);
}
