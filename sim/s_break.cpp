// P01: a break request always stops the program.  P02: closing the window always ends the process.
#include "sim.h"

static const char* frag[] = {
	"A=A+1", "FOR I=1 TO 20\rA=A+I\rNEXT", "FOR I=1 TO 3\rFOR J=1 TO 3\rA=A+J\rNEXT J\rNEXT I", "GOSUB @S", "A$=STR$(C)+\"X\"",
	"WAIT 1", "VSYNC 1", "WAIT 100000", "VSYNC 90000", "INPUT A", "LINPUT B$", "INPUT \"N\";A,B$", "ACLS", "CLS", "PRINT C;A",
	"SAVE \"MEM:QQ\"", "LOAD \"MEM:QQ\",0", "SAVE \"GRP0:QG\"", "LOAD \"GRP0:QG\",0", "LOAD \"PRG:NONE\",0", "A$=INKEY$()", "B=BUTTON()", "SPSET 0,10,0,0,0,0\rSPOFS 0,A%200,50,5",
	"GBOX 0,0,20,20,3\rGPAINT 5,5,A%15", "GFILL 0,0,200,150,A%15", "BGFILL 0,0,0,20,20,A%99", "IF A%2 THEN A=A+1 ELSE A=A+3", "DIM Z(9)", "ON A%2 GOSUB @S,@S", "READ D\rRESTORE @D",
	"RUN", "EXEC \"MAIN\"", "EXEC \"NONE\"", "CHRINIT \"BGU0\"", "COLINIT \"BG\"", "FOR I=0 TO 40\rNEXT:A=A+1", "SORT 0,10,Q", "SWAP A,B", "FILES", "CLEAR"
};
static const int NFRAG = sizeof frag / sizeof *frag;
static string loop_prog(const Case& c){
	string s = "R=1\r@L\rR=1:C=C+1\r";
	bool dim = false;
	for (auto& it : c.items) if (it.kind == "stmt"){ string f = frag[it.a[0] % NFRAG]; if (f.compare(0, 4, "SORT") == 0 && !dim) { s = "DIM Q(10)\r" + s; dim = true; } s += f + "\r"; }
	s += "GOTO @L\r@S\rA=A+1\rRETURN\r@D\rDATA 5,6,7\r";
	return s;
}
static const i64 BOUND = 3000000; // program basic blocks

struct BreakScenario : Scenario {
	BreakScenario(){ id = "P01"; }
	Case gen(u64 seed, bool) override {
		Case c; Rng r(seed); gen_sched(c, r);
		int n = (int)r.range(1, 4);
		for (int i = 0; i < n; ++i){ Item it; it.kind = "stmt"; it.a = {(i64)r.below(NFRAG)}; c.items.push_back(it); }
		int rounds = (int)r.range(1, 3);
		for (int i = 0; i < rounds; ++i){ Item it; it.kind = "press"; it.a = {(i64)r.below(3) == 0, r.range(0, 40), r.range(1, 8)}; it.fixed = i == 0; c.items.push_back(it); }
		return c;
	}
	Verdict exec(const Case& c) override {
		Disk d; base_disk(d);
		d["programs/MAIN.PTC"] = prg_file(loop_prog(c));
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 60000; w.max_bbs = 200000000;
		vector<const Item*> press; for (auto& it : c.items) if (it.kind == "press") press.push_back(&it);
		size_t round = 0; int phase = 0; i64 t = 0, bb0 = 0, f0 = 0; Typist ty; int mark = 0; Verdict v; i64 errprog = 0;
		bool finished = false;
		w.input = [&](i64 f, InFrame& in){
			if (!w.ptc) return;
			const Item& p = *press[round];
			if (phase == 0){ // wait until the program runs
				if (var_is("R", 1)){ ++t; if (t > p.a[1]){ phase = 1; t = 0; bb0 = w.bbs_prg; hit(p.a[0] ? "press_touch" : "press_select"); } }
				else if (w.bbs_prg > 40 * BOUND || f > 20000){ phase = 9; }
			}
			if (phase == 1){
				if (t < p.a[2]){ if (p.a[0]){ in.touch = true; in.tx = 8; in.ty = 56; } else in.buttons |= 1u << 11; ++t; return; }
				phase = 2; f0 = f; bb0 = w.bbs_prg;
			}
			if (phase == 2){ // give the program its bounded amount of work
				if (w.bbs_prg - bb0 > BOUND || f - f0 > 400){ phase = 3; mark = 100 + (int)round; ty = Typist(); int m = mark; ty.add(fmt("X7=%d:R=0", m), [m]{ return var_is("X7", m); }, 1500); hit("nontrivial"); }
			}
			if (phase == 3){
				ty.frame(in);
				if (ty.idle()){
					if (ty.failed){ v = bad("break-lost", fmt("break round %zu (%s): the prompt did not answer afterwards: %s; loop counter C=%lld", round, p.a[0] ? "on-screen ESC" : "SELECT", ty.fail_at.c_str(), (long long)var_int("C"))); finished = true; return; }
					++round; if (round >= press.size()){ finished = true; return; }
					phase = 4; ty = Typist(); ty.add("RUN", []{ return var_is("R", 1); }, 1500); return;
				}
			}
			if (phase == 4){ ty.frame(in); if (ty.idle()){ if (ty.failed){ hit("rerun_failed"); finished = true; return; } phase = 0; t = 0; } }
			if (phase == 9){ finished = true; hit("never_ran"); }
		};
		w.on_frame = [&](i64){ return !finished; };
		sim_run(w); account(w);
		if (v.bad){ v.hash = w.frame; return v; }
		if (!finished && w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!finished){ v.invalid = true; hit("capped:" + w.stop_reason); }
		v.hash = h2(w.frame, round);
		return v;
	}
};
static Reg r1(new BreakScenario);

struct CloseScenario : Scenario {
	CloseScenario(){ id = "P02"; }
	Case gen(u64 seed, bool) override {
		Case c; Rng r(seed); gen_sched(c, r); if (r.chance(1, 4)) c.p["win"] = 2;
		int n = (int)r.range(0, 4);
		for (int i = 0; i < n; ++i){ Item it; it.kind = "stmt"; it.a = {(i64)r.below(NFRAG)}; c.items.push_back(it); }
		c.p["autoload"] = r.chance(4, 5); c.p["close"] = r.chance(1, 3) ? r.range(0, 6) : r.range(0, 80); c.p["loop"] = r.chance(4,5);
		c.p["noise"] = r.below(4); c.p["render"] = r.chance(1,4) ? 7 : 0; c.p["autoinput"] = r.chance(1,5);
		return c;
	}
	Verdict exec(const Case& c) override {
		Disk d; base_disk(d);
		string prog = loop_prog(c); if (!c.get("loop")) { size_t k = prog.find("GOTO @L"); prog = prog.substr(0, k) + "END\r" + prog.substr(k + 8); }
		d["programs/MAIN.PTC"] = prg_file(prog);
		d["keys.txt"] = "A=1";
		World w; apply_sched(w, c); w.disk = &d; if (c.get("autoload")) w.argv = {"MAIN"}; if (c.get("autoload") && c.get("autoinput")) w.argv.push_back("keys.txt");
		w.max_frames = 4000; w.max_bbs = 60000000; w.render = (int)c.get("render");
		i64 cf = c.get("close"); i64 bb_close = -1; int noise = (int)c.get("noise");
		Rng nr(c.seed ^ 77);
		w.input = [&](i64 f, InFrame& in){
			if (noise & 1) if (nr.chance(1, 4)) in.text.push_back('A' + nr.below(26));
			if (noise & 2) if (nr.chance(1, 6)) { in.touch = true; in.tx = (int)nr.below(256); in.ty = (int)nr.below(192); }
			if (f == cf){ in.close = true; }
			if (f > cf) in.close = false;
		};
		Verdict v;
		w.on_switch = [&]{ if (w.close_frame >= 0 && bb_close < 0 && w.counters["window_destroyed"]) bb_close = w.bbs_prg;
			extern void sim_stop(const char*); if (bb_close >= 0 && w.bbs_prg - bb_close > BOUND) sim_stop("close-bound"); };
		sim_run(w); account(w); hit("nontrivial");
		v.hash = h2(w.frame, w.main_returned);
		if (w.main_returned){ hit("closed_clean");
			if (!w.prg_done) return bad("thread-left", "main returned while the program thread was still running");
			return v; }
		if (w.deadlock) return bad("deadlock", "window closed but all threads are blocked forever");
		if (w.close_frame < 0){ v.invalid = true; return v; }
		if (w.counters["window_destroyed"] == 0 && w.frame > cf + 3) return bad("window-open", "frames continue after the window was closed");
		return bad("close-ignored", fmt("window closed in frame %lld, but the process was still running after %lld further program blocks (%s)", (long long)cf, (long long)(w.bbs_prg - bb_close), w.stop_reason.c_str()));
	}
};
static Reg r2(new CloseScenario);
