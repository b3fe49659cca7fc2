#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
// P19: programs compute what the language says, under every schedule.
#include "lang.h"
extern "C" const void* probe_code(void* ptc);

// compares the machine's variables with the model; "" if equal
static string cmp_state(Lang& m){
	for (auto& x : m.nv){ int v = 0; probe_num(W->ptc, x.first.c_str(), &v); if (v != x.second) return fmt("%s is %s instead of %s", x.first.c_str(), Lang::numstr(v).c_str(), Lang::numstr(x.second).c_str()); }
	for (auto& x : m.sv){ unsigned char b[300]; int n = probe_str(W->ptc, x.first.c_str(), b); string s = n > 0 ? string((char*)b, n) : ""; if (s != x.second) return fmt("%s$ is \"%s\" instead of \"%s\"", x.first.c_str(), s.c_str(), x.second.c_str()); }
	for (auto& x : m.na) for (auto& y : x.second){
		int v = 0, d1 = m.dim[x.first].first, d2 = m.dim[x.first].second; bool ok = d2 < 0 ? probe_arr(W->ptc, x.first.c_str(), y.first, &v) : probe_arr2(W->ptc, x.first.c_str(), y.first % d1, y.first / d1, &v);
		if (!ok) return fmt("element %d of %s does not exist", y.first, x.first.c_str()); if (v != y.second) return fmt("element %d of %s is %s instead of %s", y.first, x.first.c_str(), Lang::numstr(v).c_str(), Lang::numstr(y.second).c_str()); }
	for (auto& x : m.sa) for (auto& y : x.second){ unsigned char b[300]; int n = probe_sarr(W->ptc, x.first.c_str(), y.first, b); if (n < 0) return fmt("%s$(%d) does not exist", x.first.c_str(), y.first); string s((char*)b, n); if (s != y.second) return fmt("%s$(%d) is \"%s\" instead of \"%s\"", x.first.c_str(), y.first, s.c_str(), y.second.c_str()); }
	return "";
}
static string nl(string s){ for (auto& c : s) if (c == '\r') c = '\n'; return s; }

struct LangScenario : Scenario {
	LangScenario(){ id = "P19"; }
	Case gen(u64 seed, bool th) override {
		Case c; Rng r(seed); gen_sched(c, r); c.p["gen"] = (i64)r.below(1 << 30); c.p["lo"] = r.range(3, 8); c.p["hi"] = c.get("lo") + r.range(0, th ? 30 : 12); c.p["depth"] = r.range(1, 3); c.p["errs"] = r.chance(1, 2); c.p["keys"] = r.chance(1, 2);
		Lang L; build(c, L, nullptr); for (size_t i = 0; i < L.top.size(); ++i){ Item it; it.kind = "stmt"; it.a = {(i64)i}; c.items.push_back(it); }
		return c;
	}
	static void build(const Case& c, Lang& L, const Case* filter){
		LangGen g(L, (u64)c.get("gen")); g.errs = c.get("errs"); L.trace = c.get("gen") & 1; L.minpar = c.get("gen") & 2; L.merge = c.get("gen") & 4; L.extra = c.get("gen") & 8; g.generate((int)c.get("lo"), (int)c.get("hi"), (int)c.get("depth"));
		if (filter){ vector<SP> keep; for (auto& it : filter->items) if (it.kind == "stmt" && it.a[0] < (i64)L.top.size()) keep.push_back(L.top[it.a[0]]); L.top = keep; }
	}
	Verdict exec(const Case& c) override {
		Verdict v; static Lang L; L = Lang(); build(c, L, &c); string src = "CLS\r" + L.program(); if (getenv("SIM_DUMP")){ long fd = syscall(SYS_open, "/tmp/dd.txt", O_WRONLY|O_CREAT|O_APPEND, 0644); string q = nl(src); (void)!syscall(SYS_write, fd, q.data(), q.size()); syscall(SYS_close, fd); }
		L.cls(); L.start(); if (L.capped){ v.invalid = true; hit("model_capped"); return v; }
		L.puts(L.err.empty() ? "OK" : L.err); L.newline(); L.scroll(); L.put('?'); if (L.cx) L.newline(); L.scroll(); L.con[L.cy] = string(32, '\0'); // the line to type on
		Disk d; base_disk(d); d["programs/MAIN.PTC"] = prg_file(src);
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 30000; w.max_bbs = 120000000;
		static bool fin; fin = false; static i64 rd; rd = 0; static Rng kr(1); kr = Rng(c.seed); bool keys = c.get("keys");
		w.input = [=](i64, InFrame& in){ if (keys && kr.chance(1, 4)) in.buttons = (u32)kr.below(1 << 4); };
		w.on_frame = [&](i64){ if (!W->ptc) return true; bool ready = probe_waiting_input(W->ptc); rd = ready ? rd + 1 : 0; if (rd > 3){ fin = true; return false; } return true; };
		sim_run(w); account(w); v.hash = h2(w.frame, w.bbs_prg);
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!fin){ if (w.bbs_prg > 60000000) return bad("stuck", "the program never ends, but it consists of " + fmt("%lld", (long long)L.steps) + " steps\n" + nl(src)); v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		hit("nontrivial"); hit("end:" + (L.err.empty() ? string("OK") : L.err)); hit("steps", L.steps);
		string got, want; auto vis = [](int ch){ return ch == 0 ? string(" ") : ch >= 32 && ch < 127 ? string(1, (char)ch) : fmt("<%02X>", ch); };
		for (int y = 0; y < 24; ++y){ string a, b; for (int x = 0; x < 32; ++x){ a += vis((unsigned char)L.con[y][x]); b += vis(probe_con(w.ptc, x, y)); } for (auto l : {&a, &b}) while (!l->empty() && l->back() == ' ') l->pop_back(); want += a + "\n"; got += b + "\n"; }
		string sd = cmp_state(L);
		if (!sd.empty()) return bad("state", sd + "\nerror by the model: " + L.err + "\nscreen:\n" + got + nl(src));
		if (got != want) return bad("screen", "the screen shows\n" + got + "instead of\n" + want + nl(src));
		for (int y = 0; y < 24; ++y) for (int x = 0; x < 32; ++x) if (probe_col(w.ptc, x, y) != (unsigned char)L.col[y][x]) return bad("colour", fmt("the character at %d,%d has colour %d instead of %d\n", x, y, probe_col(w.ptc, x, y), (unsigned char)L.col[y][x]) + nl(src));
		v.hash = hstr(v.hash, got); return v;
	}
};
static Reg r19(new LangScenario);
