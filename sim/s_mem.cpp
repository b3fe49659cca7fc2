// P20: strings keep their exact values and their memory, however statements end.
// P21: running out of memory is an ordinary error that leaves a usable machine.
#include "lang.h"
extern "C" const void* probe_code(void* ptc);
static string nl(string s){ for (auto& c : s) if (c == '\r') c = '\n'; return s; }

// every value a variable may have while the step after K=k is executed
struct Window { map<string, vector<Val>> ok; bool fuzzy = false, ended = false; int live = 0, strops = 0, vars = 0; i64 elems = 0; };
static void add_state(Window& w, Lang& L){
	auto num = [](int n){ Val v; v.n = n; return v; }; auto str = [](const string& s){ Val v; v.isstr = true; v.s = s; return v; };
	for (auto& x : L.nv) w.ok[x.first].push_back(num(x.second)); for (auto& x : L.sv) w.ok[x.first + "$"].push_back(str(x.second));
	for (auto& x : L.na) for (auto& y : x.second) w.ok[Lang::key("a", x.first, y.first)].push_back(num(y.second)); for (auto& x : L.sa) for (auto& y : x.second) w.ok[Lang::key("a$", x.first, y.first)].push_back(str(y.second));
	int n = (int)L.sv.size(); for (auto& x : L.sa) n += (int)x.second.size(); w.live = std::max(w.live, n); w.vars = std::max(w.vars, (int)(L.nv.size() + L.sv.size() + L.dim.size())); i64 el = 0; for (auto& d : L.dim) el += 2 + (i64)d.second.first * std::max(1, d.second.second); w.elems = std::max(w.elems, el);
}
struct StepReached {};

struct MemScenario : Scenario {
	bool tight; MemScenario(const string& i, bool t) : tight(t) { id = i; }
	Case gen(u64 seed, bool th) override {
		Case c; Rng r(seed); gen_sched(c, r); c.p["gen"] = (i64)r.below(1 << 30); c.p["lo"] = r.range(3, 8); c.p["hi"] = c.get("lo") + r.range(0, th ? 20 : 8); c.p["depth"] = r.range(1, 3); c.p["errs"] = r.chance(1, 3);
		int n = (int)r.range(1, th ? 6 : 4); for (int i = 0; i < n; ++i){ Item it; it.kind = "round"; it.a = {r.chance(tight ? 1 : 2, 3) ? r.logu(1, 400) : 0, r.range(1, 6), (i64)r.below(4)}; it.fixed = i == 0; c.items.push_back(it); }
		if (tight){ int k = (int)r.below(4); c.p["strs"] = k != 1 ? r.range(2, 24) : r.range(40, 80); c.p["vars"] = k == 1 ? (1 << r.range(4, 6)) : k == 2 ? 64 : 0; c.p["arrs"] = k == 2 ? r.range(1, 120) : 0; }
		else c.p["strs"] = r.range(60, 90);
		Lang L; build(c, L, nullptr); for (size_t i = 0; i < L.top.size(); ++i){ Item it; it.kind = "stmt"; it.a = {(i64)i}; c.items.push_back(it); }
		return c;
	}
	static void build(const Case& c, Lang& L, const Case* filter){
		LangGen g(L, (u64)c.get("gen")); g.errs = c.get("errs"); g.clears = false; L.trace = true; L.minpar = c.get("gen") & 2; L.merge = c.get("gen") & 4; g.generate((int)c.get("lo"), (int)c.get("hi"), (int)c.get("depth"));
		if (filter){ vector<SP> keep; for (auto& it : filter->items) if (it.kind == "stmt" && it.a[0] < (i64)L.top.size()) keep.push_back(L.top[it.a[0]]); L.top = keep; }
	}
	static Window window(Lang& L, int k){ // k: steps done
		Window w; L.cls(); L.color = 0; L.tabstep = 4; L.tabraw = 16384; L.nv.clear(); L.sv.clear(); L.na.clear(); L.sa.clear(); L.dim.clear(); L.alog.clear(); L.fuzzy = false; L.strops = 0; L.logging = k == 0;
		L.on_k = [&]{ int n = L.nv["K"] >> 12; if (n == k){ add_state(w, L); L.alog.clear(); L.strops = 0; L.fuzzy = false; L.logging = true; } else if (n == k + 1) throw StepReached(); };
		try { L.start(); w.ended = true; } catch (StepReached&){}
		add_state(w, L); for (auto& x : L.alog) w.ok[x.first].push_back(x.second); w.fuzzy = L.fuzzy; w.strops = L.strops; L.logging = false; L.on_k = nullptr; return w;
	}
	static string cmp(Window& w, bool final_){ // the machine's variables against the window
		for (auto& x : w.ok){ const string& n = x.first; size_t par = n.find('('); string base = n.substr(0, n.find_first_of("$(")); bool isstr = n.find('$') != string::npos; if (base == "K") continue;
			string got, want; bool hit_ = false; auto& ok = x.second; bool may_miss = !final_; // not assigned before the step
			if (!isstr){ int v = 0; bool there = true; if (par == string::npos) probe_num(W->ptc, base.c_str(), &v); else { int i = atoi(n.c_str() + par + 1); if (base == "W") there = probe_arr2(W->ptc, "W", i % 10, i / 10, &v); else there = probe_arr(W->ptc, base.c_str(), i, &v); }
				if (!there && !may_miss) return n + " does not exist"; for (auto& o : ok) hit_ |= o.n == v; if (v == 0) hit_ |= may_miss; got = Lang::numstr(v); for (auto& o : ok) want += (want.empty() ? "" : " or ") + Lang::numstr(o.n); if (w.fuzzy && (base == "V" || base == "Y" || base == "SI")) continue; }
			else { unsigned char b[300]; int l; if (par == string::npos) l = probe_str(W->ptc, base.c_str(), b); else l = probe_sarr(W->ptc, base.c_str(), atoi(n.c_str() + par + 1), b); if (l < 0){ if (l == -3 && may_miss) continue; if (l == -3) return n + " does not exist"; } string s = l > 0 ? string((char*)b, l) : ""; for (auto& o : ok) hit_ |= o.s == s; if (s.empty()) hit_ |= may_miss; if (w.fuzzy && base == "T") continue; got = "\"" + s + "\""; for (auto& o : ok) want += (want.empty() ? "\"" : " or \"") + o.s + "\""; }
			if (!hit_) return n + " is " + got + " instead of " + want; }
		return "";
	}
	Verdict exec(const Case& c) override {
		Verdict v; static Lang L; L = Lang(); build(c, L, &c); string src = "CLEAR\rCOLOR 0:TABSTEP=4:X9=1:CLS\r" + L.program(); if (getenv("SIM_DUMP")) fprintf(stderr, "%s\n", nl(src).c_str());
		Window fw = window(L, -1); if (L.capped){ v.invalid = true; hit("model_capped"); return v; } int kfin = L.nv["K"] >> 12; string ferr = L.err; static int maxvars; maxvars = fw.vars; static i64 maxel; maxel = fw.elems; (void)maxel;
		Disk d; base_disk(d); d["programs/MAIN.PTC"] = prg_file(src);
		int SL = (int)c.get("strs"), VL = (int)c.get("vars"), AL = (int)c.get("arrs");
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 60000; w.max_bbs = 160000000; w.str_limit = SL; w.var_limit = VL; if (AL) w.arr_limit = AL;
		static vector<const Item*> rounds; rounds.clear(); for (auto& it : c.items) if (it.kind == "round") rounds.push_back(&it);
		static bool fin; fin = false; static size_t round; round = 0; static int ph; ph = 0; static i64 t, rd; t = rd = 0; static Typist ty; static const void* pc; pc = nullptr; static bool pressed; pressed = false; static Verdict* pv; pv = &v; static i64 bb0; bb0 = 0; static i64 sl0; sl0 = -100; static int live; live = 0;
		static int fills; fills = 0; static bool cleaned; cleaned = false; int arrtotal = (AL ? AL : 262144) + 2 * (VL ? VL : 2048); bool fillable = arrtotal > maxel + 110 && (VL == 0 || maxvars + 12 < VL);
		auto fail = [=](const string& cls, const string& m){ *pv = bad(cls, fmt("round %zu: ", round) + m + "\nscreen:\n" + con_all() + nl(src)); fin = true; };
		auto check = [=]{ // the program has stopped
			int kv = 0; probe_num(W->ptc, "K", &kv); int k = kv >> 12; bool done = k >= kfin; Window wi = window(L, done ? kfin : k); if (L.capped) return; live = wi.live;
			bool oom = false, brk = pressed; string all; for (int y = 0; y < 24; ++y){ string l = con_line(y); l.resize(32, ' '); if (l == "RUN" + string(29, ' ')) all.clear(); /* what is above belongs to earlier lines: SELECT may have come before the program's CLS */ all += l; } if (all.find("Out of memory") != string::npos || all.find("Failed to create variable") != string::npos) oom = true;
			if (k > kfin) { fail("state", fmt("%d steps were executed, the program has %d", k, kfin)); return; }
			if (oom) hit("out_of_memory"); if (brk) hit("broken"); if (done) hit("completed");
			if (oom){ bool can = wi.live + wi.strops + 4 > SL || (VL && wi.vars + 4 > VL) || (AL && wi.elems + 20 >= arrtotal); if (!can){ fail("oom", fmt("out of memory after %d steps, but at most %d strings of %d, %d variables and %lld array elements of %d are in use", k, wi.live + wi.strops + 4, SL, wi.vars, (long long)wi.elems, arrtotal)); return; } }
			else if (!brk && !done){ fail("state", fmt("the program ended after %d of %d steps without a reason", k, kfin)); return; }
			string s = cmp(wi, done && !oom && !brk); if (!s.empty()) fail("state", s + fmt(" after %d of %d steps", k, kfin)); };
		auto type = [=](const string& l, std::function<bool()> dn){ ty = Typist(); ty.per_frame = 4; ty.add(l, dn, 2500); };
		auto enter = [=](const string& l){ type(l, [l]{ return !probe_waiting_input(W->ptc) || con_line(probe_cy(W->ptc)).compare(0, l.size(), l) != 0; }); };
		auto ready_ = [=]{ return rd > 4; };
		w.input = [=, &w](i64, InFrame& in){
			if (!w.ptc || fin) return; ++t; bool ready = probe_waiting_input(w.ptc); rd = ready ? rd + 1 : 0; const Item& it = *rounds[round];
			if (ph == 0){ // the program starts
				if (var_is("X9", 1)){ ph = 1; t = 0; bb0 = w.bbs_prg; pressed = false; } else if (rd > 10 && round == 0 && w.bbs_prg > 400000 && con_line(0).empty() == false){ ph = 1; t = 0; } return; }
			if (ph == 1){ if (rd > 4 && w.sleeps > sl0 + 5){ check(); ph = 2; t = 0; return; } if (it.a[0] && t > it.a[0] && t <= it.a[0] + it.a[1]){ in.buttons |= 1u << 11; pressed = true; sl0 = w.sleeps; } if (w.bbs_prg - bb0 > 60000000){ fail("stuck", "the program never ends"); } return; }
			// afterwards: 0 next round, 1 fill the string memory, 2 CLEAR and fill, 3 CLEAR
			auto next = [=]{ ++round; if (round >= rounds.size()){ fin = true; return; } ph = 20; };
			if (ph == 2){ if (!ready_()) return; int a = (int)it.a[2]; if (!fillable && (a == 1 || a == 2)) a = 3; if (a == 0){ hit("rounds"); next(); return; } if (a == 1){ enter("DIM Q$(99)"); ph = 5; return; } enter("CLEAR"); ph = 4; return; }
			if (ph == 4 || ph == 5 || ph == 20 || ph == 21){ if (!ty.idle()){ ty.frame(in); if (!ty.idle()) return; } if (ty.failed){ fail("prompt", "the prompt does not work afterwards: " + ty.fail_at); return; } if (!ready_()) return; }
			if (ph == 4){ hit("cleared"); live = 0; if (it.a[2] == 3 || !fillable){ next(); return; } enter("DIM Q$(99)"); ph = 5; t = 0; return; }
			if (ph == 5){ enter("FOR X=0 TO 98:Q$(X)=\"A\"*2:NEXT"); ph = 7; bb0 = w.bbs_prg; return; }
			if (ph == 7){ ty.frame(in); if (!ty.idle()) return; if (ty.failed){ if (live + 4 >= SL){ hit("fill_nothing_left"); next(); return; } fail("leak", "no string can be created although only " + fmt("%d of %d", live, SL) + " are in use"); return; } if (rd <= 4) { if (w.bbs_prg - bb0 > 30000000) fail("stuck", "the fill never ends"); return; }
				int n = (int)var_int("X"); hit("fills"); int want = std::min(99, SL - live - 4); if (n < want){ fail("leak", fmt("only %d more strings fit into the memory for %d strings although just %d are in use", n, SL, live)); return; } hit("fill_ok"); if (n < 98 && it.a[1] % 2){ enter("CLS:LINPUT QZ$"); ph = 8; return; } next(); return; }
			if (ph == 8 || ph == 9){ // a line is read while the string memory is full
				ty.frame(in); if (!ty.idle()) return; if (ty.failed){ fail("prompt", "the prompt does not work with full memory: " + ty.fail_at); return; } if (!ready_()) return; if (ph == 8){ enter("HELLO"); ph = 9; return; }
				string all; for (int y = 0; y < 24; ++y) all += con_line(y) + "\n"; unsigned char b[300]; int l = probe_str(W->ptc, "QZ", b); string z = l > 0 ? string((char*)b, l) : ""; bool err = all.find("memory") != string::npos; hit(z == "HELLO" ? "line_read" : "line_refused");
				if (z != "HELLO" && !err){ fail("line-lost", "with full string memory LINPUT accepted a line, but its variable is \"" + z + "\""); return; } next(); return; }
			if (ph == 20 && !tight && it.a[1] % 3 == 0 && !cleaned){ if (!ready_()) return; cleaned = true; enter("FOR X=0 TO 19:ACLS:NEXT"); hit("acls_loops"); return; }
			if (ph == 20){ if (!ready_()) return; cleaned = false; enter("X9=0"); ph = 21; return; }
			if (ph == 21){ if (!var_is("X9", 0)){ fail("prompt", "a variable cannot be set any more"); return; } enter("RUN"); ph = 22; return; }
			if (ph == 22){ ty.frame(in); if (!ty.idle()) return; if (ty.failed){ fail("prompt", "RUN does not start the program: " + ty.fail_at); return; } ph = 0; t = 0; return; } };
		w.on_frame = [](i64){ return !fin; };
		sim_run(w); account(w); v.hash = h2(w.frame, w.bbs_prg); if (v.bad) return v;
		{ string m = blocks_verdict(); if (!m.empty()) return bad("blocks", m); }
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!fin){ v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		hit("nontrivial"); return v;
	}
};
static Reg r20(new MemScenario("P20", false)); static Reg r21(new MemScenario("P21", true));
