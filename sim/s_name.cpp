// P30: a name is one variable, for as long as the session lasts and up to the limits of the memory.
// Names that are easily confused are used as numbers, strings and arrays, from typed lines and from a
// program with up to thousands of names, in a machine with little memory; all of them are compared.
#include "sim.h"
extern "C" int probe_exists(void* p, const char* name, int t); extern "C" int probe_sarr2(void* p, const char* name, int i, int j, unsigned char* out);
namespace {
static const int NT = 10; // names used by typed lines; the program's names follow
string vname(int i){
	if (i < 6) return string(1, "QXZWVJ"[i]);
	string e; for (int k = 0, n = ((i & 3) == 2 ? i - 1 : i) * 37 % 4096; k < 4; ++k, n /= 8) e += "QXZWVJ_7"[n & 7]; // 37 is odd: no two alike
	switch (i & 3){ case 0: return "Z" + e; case 1: return string("QXZWVJQXZWV") + e; case 2: return string("QXZWVJQXZWV") + e + "JZMT"[i >> 2 & 3]; // sixteen characters, the first fifteen are those of the name before
		 default: return "W" + e + "_9"; }
}
enum { LETN, LETS, DIM1, DIM2, ARRN, ARRS, GET, GETA, SWAP, CLEAR, FREE, RUN, INC, GETS, OPS };
struct A { bool dim = false; int d1 = 0, d2 = -1; map<std::pair<int,int>, int> n; map<std::pair<int,int>, string> s; };
struct Model {
	map<string, int> num; map<string, string> str; map<string, A> arr; set<string> names; size_t cap = 2048; i64 total = 0, used = 0; bool fuzzy = false, either = false;
	bool need(const string& key){ if (names.count(key)) return true; if (fuzzy && names.size() + 1 >= cap) either = true; if (names.size() >= cap) return false; names.insert(key); return true; }
	bool room(i64 n){ if (used + n + 2 >= total - 3 && used + n + 2 <= total + 1) either = true; return used + n + 2 < total; }
	string take(A& a, int d1, int d2){ i64 n = (i64)d1 * (d2 < 0 ? 1 : d2); if (!room(n)) return "Out of memory"; used += n + 2; a = A(); a.dim = true; a.d1 = d1; a.d2 = d2; return ""; }
	string dim(const string& key, int d1, int d2){ bool had = names.count(key); if (had && arr[key].dim) return "Duplicate definition"; if (!had && names.size() >= cap){ if (fuzzy) either = true; return "Out of memory"; } A a; string e = take(a, d1, d2); if (!e.empty()) return e; need(key); arr[key] = a; return ""; }
	string at(const string& key, int i, int j){ if (!need(key)) return "Out of memory"; A& a = arr[key]; if (!a.dim){ string e = take(a, 10, j == -9 ? -1 : 10); if (!e.empty()) return e; } if (i < 0 || i >= a.d1) return "Subscript out of range"; if (j != -9 && (a.d2 < 0 || j < 0 || j >= a.d2)) return "Subscript out of range"; return ""; }
	void clear(){ for (auto& x : num) x.second = 0; for (auto& x : str) x.second = ""; for (auto& x : arr) x.second = A(); used = 0; }
};
struct NameScenario : Scenario {
	NameScenario(){ id = "P30"; }
	Case gen(u64 seed, bool th) override {
		Case c; Rng r(seed); gen_sched(c, r); int k = (int)r.below(4); c.p["vars"] = k == 0 ? 0 : 1 << r.range(4, 6); c.p["arrs"] = k == 0 ? (r.chance(1, 2) ? 0 : r.range(200, 3000)) : k == 1 ? 0 : r.range(1, 150);
		int cap = c.get("vars") ? (int)c.get("vars") : 2048; c.p["prog"] = k == 0 ? (r.chance(1, 3) ? r.range(2030, 2060) : r.chance(1, 2) ? r.range(1, 2000) : 0) : r.chance(1, 2) ? r.range(0, cap + 2) : 0; c.p["fill"] = k != 0 && r.chance(2, 3);
		int n = (int)r.range(4, th ? 60 : 26); for (int i = 0; i < n; ++i){ Item it; it.kind = "line"; static const int w[] = {LETN, LETN, LETS, LETS, DIM1, DIM1, DIM2, ARRN, ARRN, ARRS, ARRS, GET, GETS, GETA, GETA, SWAP, FREE, INC, INC, RUN};
			int op = w[r.below(20)]; if (r.chance(1, 20)) op = CLEAR; if (k > 1 && r.chance(1, 4)) op = r.chance(2, 3) ? DIM1 : DIM2; int pool = c.get("prog") && r.chance(1, 4) ? NT + (int)r.below(c.get("prog")) : (int)r.below(NT + 4); int big = c.get("arrs") ? (int)c.get("arrs") : 1000;
			it.a = {op, pool, (i64)r.below(NT), r.chance(1, 12) ? (i64)r.range(-2, 40) : (i64)r.below(10), r.chance(1, 2) ? -9 : r.chance(1, 8) ? (i64)r.range(-1, 14) : (i64)r.below(4), r.range(0, 5000), (i64)r.below(16), r.chance(1, 8) ? r.range(0, 2 * big) : (i64)r.range(1, 12)}; if (op == RUN) it.a[5] = r.chance(1, 2) ? r.logu(1, 40) : 0; c.items.push_back(it); }
		return c;
	}
	Verdict exec(const Case& c) override {
		Verdict v; static Model M; M = Model(); M.cap = c.get("vars") ? (size_t)c.get("vars") : 2048; i64 AL = c.get("arrs"); M.total = (AL ? AL : 262144) + 2 * (i64)M.cap; static int PN; PN = (int)c.get("prog"); static const i64 MUL = 2200;
		string src = "GOTO \"@L\"+STR$(D)\r@L0\rCLS:RR=RR:RR$=RR$:K=K\rKM=KM+1\r", line; auto pname = [](int i){ return vname(NT + i); }; auto pstr = [](int i){ return i % 3 == 1; };
		for (int i = 0; i < PN; ++i){ string s = pstr(i) ? pname(i) + fmt("$=\"S%d\"", i) : pname(i) + fmt("=KM*%lld+%d", (long long)MUL, i); if (line.size() + s.size() + 1 > 98){ src += line + "\r"; line.clear(); } line += (line.empty() ? "" : ":") + s; } if (!line.empty()) src += line + "\r";
		static vector<const Item*> L; L.clear(); for (auto& it : c.items) if (it.kind == "line" && it.a.size() > 7) L.push_back(&it); if (L.empty()){ v.invalid = true; return v; }
		static bool fin, pressed, runit; fin = pressed = runit = false; static size_t at; at = 0; static int ph; ph = 0; static i64 t, rd, bb0, K, KM, t1, fills; t = rd = bb0 = K = KM = t1 = fills = 0; static Typist ty; ty = Typist(); static Verdict* pv; pv = &v; static string text, want, hist; text = want = hist = ""; static bool filling; filling = c.get("fill"); static i64 brk; brk = 0;
		auto fail = [=](const string& cls, const string& m){ *pv = bad(cls, fmt("line %zu: ", at) + m + "\nscreen: " + con_line(0) + "\n" + hist); fin = true; };
		auto cmp = [=]() -> string { unsigned char b[300]; int x;
			for (auto& q : M.num){ if (!M.names.count(q.first)) continue; if (!probe_exists(W->ptc, q.first.c_str(), 0)) return q.first + " does not exist"; probe_num(W->ptc, q.first.c_str(), &x); if (x != q.second * 4096) return q.first + fmt(" is %g instead of %d", x / 4096.0, q.second); }
			for (auto& q : M.str){ if (!M.names.count(q.first + "$")) continue; int n = probe_exists(W->ptc, q.first.c_str(), 1) ? probe_str(W->ptc, q.first.c_str(), b) : -9; string s = n > 0 ? string((char*)b, n) : ""; if (n == -9 || s != q.second) return q.first + "$ is \"" + s + "\" instead of \"" + q.second + "\""; }
			for (auto& q : M.arr) if (q.second.dim){ bool st = q.first.find('$') != string::npos; string n = q.first.substr(0, q.first.find_first_of("$(")); auto& a = q.second; set<std::pair<int,int>> look; int y1 = a.d2 < 0 ? 1 : a.d2; for (int i : {0, 1, a.d1 - 1}) for (int j : {0, 1, y1 - 1}) if (i >= 0 && i < a.d1 && j >= 0 && j < y1) look.insert({i, j}); for (auto& e : a.n) look.insert(e.first); for (auto& e : a.s) look.insert(e.first);
				for (auto& e : look){ string nm = n + (st ? "$" : "") + (a.d2 < 0 ? fmt("(%d)", e.first) : fmt("(%d,%d)", e.first, e.second)); if (st){ int l = a.d2 < 0 ? probe_sarr(W->ptc, n.c_str(), e.first, b) : probe_sarr2(W->ptc, n.c_str(), e.first, e.second, b); string g = l > 0 ? string((char*)b, l) : "", wn = a.s.count(e) ? a.s.at(e) : ""; if (l < 0 || g != wn) return nm + (l < 0 ? " does not exist" : " is \"" + g + "\" instead of \"" + wn + "\""); }
					else { int ok = a.d2 < 0 ? probe_arr(W->ptc, n.c_str(), e.first, &x) : probe_arr2(W->ptc, n.c_str(), e.first, e.second, &x), wn = a.n.count(e) ? a.n.at(e) : 0; if (!ok || x != wn * 4096) return nm + (!ok ? " does not exist" : fmt(" is %g instead of %d", x / 4096.0, wn)); } } }
			for (int i = 0; i < NT + 4; ++i){ string n = vname(i); static const char* sf[4] = {"", "$", "()", "$()"}; for (int k = 0; k < 4; ++k) if (!M.fuzzy && !M.names.count(n + sf[k]) && probe_exists(W->ptc, n.c_str(), k)) return n + sf[k] + " exists although it was never used"; }
			return ""; };
		auto ran = [=](bool stopped) { // what the program did
			++KM; int p = PN; bool full = false; if (!M.need("KM")){ M.num.erase("KM"); want = "Out of memory"; return string(); } M.num["KM"] = (int)KM;
			if (stopped){ p = 0; for (int i = 0; i < PN; ++i){ int x = 0; string n = pname(i); unsigned char b[300]; bool nw; if (pstr(i)){ int l = probe_exists(W->ptc, n.c_str(), 1) ? probe_str(W->ptc, n.c_str(), b) : -9; string nv = fmt("S%d", i); nw = l > 0 && string((char*)b, l) == nv && !(M.str.count(n) && M.str[n] == nv); } else { int nv = (int)(KM * MUL + i); probe_num(W->ptc, n.c_str(), &x); nw = x == nv * 4096 && !(M.num.count(n) && M.num[n] == nv); } if (nw) p = i + 1; } M.fuzzy = true; }
			for (int i = 0; i < p; ++i){ string n = pname(i); if (!M.need(n + (pstr(i) ? "$" : ""))){ full = true; break; } if (pstr(i)) M.str[n] = fmt("S%d", i); else M.num[n] = (int)(KM * MUL + i); }
			if (full) want = "Out of memory"; return string(); };
		auto model = [=](const Item& it) -> string { // the text of the line; the model carries it out
			int op = (int)it.a[0] % OPS; string n = vname((int)it.a[1] % 4000), m = vname((int)it.a[2]); int x = (int)it.a[3], y = (int)it.a[4], val = (int)it.a[5], fl = (int)it.a[6], sz = (int)it.a[7]; bool st = fl & 1; string d = st ? "$" : "", sv = fmt("\"T%d\"", val), ix = fl & 2 ? "[" : "(", iy = fl & 2 ? "]" : ")"; auto N = [](int q){ return fmt("%d", q); }; string idx = ix + N(x) + (y == -9 ? "" : "," + N(y)) + iy;
			auto rd1 = [&](const string& key){ return M.need(key); };
			switch (op){
				case LETN: want = M.need(n) ? "OK" : "Out of memory"; if (want == "OK") M.num[n] = val; return n + "=" + N(val);
				case LETS: want = M.need(n + "$") ? "OK" : "Out of memory"; if (want == "OK") M.str[n] = fmt("T%d", val); return n + "$=" + sv;
				case INC: want = M.need(n) ? "OK" : "Out of memory"; if (want == "OK") M.num[n] += 1; return n + "=" + n + "+1";
				case DIM1: case DIM2: { int d2 = y == -9 || op == DIM1 ? -1 : std::max(1, std::abs(y)); string e = M.dim(n + d + "()", sz, d2), s = "DIM " + n + d + ix + N(sz) + (d2 < 0 ? "" : "," + N(d2)) + iy; if (e.empty() && op == DIM2 && fl & 4){ e = M.dim(m + "()", 3, -1); s += "," + m + "(3)"; } else if (op == DIM2 && fl & 4) s += "," + m + "(3)"; want = e.empty() ? "OK" : e; return s; }
				case ARRN: case ARRS: { bool t = op == ARRS; string e = M.at(n + (t ? "$()" : "()"), x, y); want = e.empty() ? "OK" : e; if (e.empty()){ A& a = M.arr[n + (t ? "$()" : "()")]; if (t) a.s[{x, y == -9 ? 0 : y}] = fmt("T%d", val); else a.n[{x, y == -9 ? 0 : y}] = val; } return n + (t ? "$" : "") + idx + "=" + (t ? sv : N(val)); }
				case GET: want = rd1(n) ? "OK" : "Out of memory"; if (want == "OK"){ if (!M.num.count(n)) M.num[n] = 0; M.num["RR"] = M.num[n]; } return "RR=" + n;
				case GETS: want = rd1(n + "$") ? "OK" : "Out of memory"; if (want == "OK"){ if (!M.str.count(n)) M.str[n] = ""; M.str["RR"] = M.str[n]; } return "RR$=" + n + "$";
				case GETA: { string key = n + d + "()", e = M.at(key, x, y); want = e.empty() ? "OK" : e; if (e.empty()){ A& a = M.arr[key]; std::pair<int,int> q{x, y == -9 ? 0 : y}; if (st) M.str["RR"] = a.s.count(q) ? a.s[q] : ""; else M.num["RR"] = a.n.count(q) ? a.n[q] : 0; } return "RR" + d + "=" + n + d + idx; }
				case SWAP: { if (!M.names.count(n + d) && !M.names.count(m + d) && M.names.size() + 1 >= M.cap) M.either = true; want = M.need(n + d) && M.need(m + d) ? "OK" : "Out of memory"; if (want == "OK"){ if (st) std::swap(M.str[n], M.str[m]); else std::swap(M.num[n], M.num[m]); } return "SWAP " + n + d + "," + m + d; }
				case CLEAR: M.clear(); KM = 0; want = "OK"; return "CLEAR";
				case FREE: want = M.fuzzy ? "*" : N((int)M.cap - (int)M.names.size()); return "?FREEVAR"; default: return "RR=RR"; } };
		src += "END\r"; for (size_t i = 0; i < L.size(); ++i) if (L[i]->a[0] != RUN){ string x = model(*L[i]); src += fmt("@L%zu\rCLS:", i + 1) + (x == "CLEAR" ? fmt("CLEAR:K=%zu", i + 1) : fmt("K=%zu:", i + 1) + x) + "\rEND\r"; }
		for (int i = 0; filling && i < 70; ++i) src += fmt("@L%zu\rCLS:K=%zu:", L.size() + 1 + i, L.size() + 1 + i) + vname(3000 + i) + "=7\rEND\r";
		M = Model(); M.cap = c.get("vars") ? (size_t)c.get("vars") : 2048; M.total = (AL ? AL : 262144) + 2 * (i64)M.cap; KM = 0; want = ""; if (getenv("SIM_DUMP")) fprintf(stderr, "%s\n", src.c_str());
		Disk d; base_disk(d); d["programs/MAIN.PTC"] = prg_file(src); World w; apply_sched(w, c); w.nominal = std::max<i64>(w.nominal, 300 + PN * 20); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 60000; w.max_bbs = 300000000; w.var_limit = (int)c.get("vars"); if (AL) w.arr_limit = (int)AL;
		w.input = [=](i64, InFrame& in){
			if (!W->ptc || fin) return; ++t; bool ready = probe_waiting_input(W->ptc); rd = ready ? rd + 1 : 0;
			if (ph == 0){ if (rd > 4 && W->sleeps > 3 && t > 10){ want = "OK"; for (auto n : {"D", "RR", "RR$", "K"}) M.need(n); M.num["D"] = M.num["K"] = M.num["RR"] = 0; M.str["RR"] = ""; ran(false); M.need("CODE$"); string row = con_line(0); if (row.compare(0, want.size(), want)) fail("answer", "the program ends with \"" + row + "\" instead of \"" + want + "\""); string s = cmp(); if (!s.empty()) fail("variable", "after the program " + s); ph = 2; } return; }
			if (ph == 2){ if (rd <= 4) return; if (at >= L.size() && (!filling || M.fuzzy || fills >= 70)){ fin = true; return; } runit = false; string cmd;
				if (at >= L.size()){ string n = vname(3000 + (int)fills++); want = M.need(n) ? "OK" : "Out of memory"; if (want == "OK"){ M.num[n] = 7; } else { fills = 100; hit("filled"); } text = n + "=7"; }
				else { const Item& it = *L[at]; if (it.a[0] == RUN){ text = "RUN"; runit = true; brk = it.a[5]; want = "OK"; } else text = model(it); }
				++at; if (M.either) M.fuzzy = true; K = (i64)at; hist += text + "\n"; if (getenv("SIM_DUMP")) fprintf(stderr, "%s -> %s\n", text.c_str(), want.c_str());
				string direct = "CLS:" + (text == "CLEAR" ? fmt("CLEAR:K=%lld", (long long)K) : fmt("K=%lld:", (long long)K) + text); cmd = runit ? fmt("CLS:K=-%lld:D=0:RUN", (long long)K) : direct.size() < 32 && at <= L.size() && (L[at - 1]->a[6] & 8) ? direct : fmt("CLS:D=%lld:RUN", (long long)K); if (runit) K = -K; if (cmd[4] == 'D' || runit) M.num["D"] = runit ? 0 : (int)K; else hit("typed"); M.num["K"] = (int)K; hit(runit ? "runs" : "lines"); if (text == "CLEAR") M.num["D"] = 0;
				ty = Typist(); ty.per_frame = 4; i64 k = K, km = KM; pressed = false; t1 = 0; if (runit) ty.add(cmd, [k, km]{ return var_is("K", k) && (var_is("KM", km + 1) || con_line(0) == "Out of memory"); }, 12000); else ty.add(cmd, [k]{ return var_is("K", k); }, 12000); ph = 3; bb0 = W->bbs_prg; return; }
			if (ph == 3){ if (!ty.idle()){ ty.frame(in); if (ty.failed){ fail("prompt", "the line \"" + text + "\" does not work: " + ty.fail_at); return; } if (!ty.idle()) return; } if (runit && brk && ++t1 >= brk && t1 < brk + 3 && !ready){ in.buttons |= 1u << 11; pressed = true; }
				if (W->bbs_prg - bb0 > 60000000){ fail("stuck", "\"" + text + "\" never ends"); return; } if (rd <= 5) return;
				string row = con_line(0); if (runit){ bool oom = row == "Out of memory"; ran(pressed && !oom); if (pressed && !oom){ hit("broken"); want = "*"; } }
				bool e = M.either; M.either = false; if (!e && want != "*" && row.compare(0, want.size(), want)){ fail("answer", "\"" + text + "\" gives \"" + row + "\" instead of \"" + want + "\""); return; }
				if (e){ M.fuzzy = true; if (row.compare(0, want.size(), want)){ hit("either"); fin = true; return; } } if (want != "OK" && want != "*") hit("refused:" + (isdigit(want[0]) ? string("FREEVAR") : want));
				string s = cmp(); if (!s.empty()){ fail("variable", "after \"" + text + "\" " + s); return; } ph = 2; return; } };
		w.on_frame = [](i64){ return !fin; };
		sim_run(w); account(w); v.hash = h2(w.frame, w.bbs_prg); if (v.bad) return v;
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!fin){ v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		hit("nontrivial"); hit("names", (i64)M.names.size()); return v;
	}
};
}
static Reg r30(new NameScenario);
