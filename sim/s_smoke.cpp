#include "sim.h"
void account(World& w);
struct Smoke : Scenario {
	Smoke(){ id = "SMOKE"; }
	Case gen(u64 seed, bool) override { Case c; Rng r(seed); gen_sched(c, r); return c; }
	Verdict exec(const Case& c) override {
		Disk d; base_disk(d);
		d["programs/MAIN.PTC"] = prg_file("A=0\rFOR I=1 TO 50\rA=A+I\rNEXT\r?\"HI\";A\rWAIT 10\rDONE=1\r");
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 400; w.render = 10;
		i64 donef = -1;
		w.on_frame = [&](i64 f){ int v; if (donef < 0 && probe_num(w.ptc, "DONE", &v) && v) donef = f; return donef < 0 || f < donef + 5; };
		sim_run(w); account(w); hit("nontrivial");
		int a = -1; probe_num(w.ptc, "A", &a);
		if (getenv("SMOKE_V")) { string s = con_all() + fmt("frames %lld done %lld bbs %lld prg %lld stop %s A=%d\n", (long long)w.frame, (long long)donef, (long long)w.bbs_total, (long long)w.bbs_prg, w.stop_reason.c_str(), a); FILE* f = fdopen(1, "w"); fputs(s.c_str(), f); fflush(f); }
		Verdict v; v.hash = a; 
		if (a != 1275*4096) return bad("sum", fmt("A=%d", a));
		return v;
	}
};
static Reg r(new Smoke);
