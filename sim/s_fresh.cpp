// P03: every run starts from the same fresh state, however the runs before it ended.
#include "sim.h"
extern "C" const void* probe_code(void* ptc);

static string hist_prog(const Item& it, int k){
	Rng r((u64)it.a[0]); string s; if (r.chance(1, 12) && it.a[1] != 21) s += "CLEAR\r"; s += fmt("HK=%d\r", k); if (r.chance(1, 2)) s += "CLS\r"; int depth = (int)r.below(5), lab = 0;
	for (int i = 0; i < depth; ++i) switch (r.below(9)){
		case 0: case 1: s += fmt("FOR H%c=%d TO 9\r", 'A' + i, (int)r.range(1, 3)); break;
		case 2: case 3: s += fmt("GOSUB @G%d\rEND\r@G%d\r", lab, lab); ++lab; break;
		case 4: s += "READ HX\r"; break; case 5: s += "READ HX,HS$\r"; break; case 6: s += "RESTORE @HD2\r"; break;
		case 7: s += "FOR HN=1 TO 5\rHX=HX+1\rNEXT\r"; break; case 8: s += fmt("FOR H%c=9 TO 1 STEP -1:GOSUB @G%d\r@G%d\r", 'A' + i, lab, lab); ++lab; break; }
	switch (it.a[1]){
		case 0: s += "END\r"; break; case 1: break; case 2: s += "?1/0\r"; break; case 3: s += "HS$=\"A\"*3+STR$(1/0)\r"; break; case 4: s += "HX=HQ(2,1/0)\r"; break; case 5: s += "DIM HZ(3)\rDIM HZ(4)\r"; break;
		case 6: s += "GOTO @NONE\r"; break; case 7: s += "NEXT HX\r"; break; case 8: s += "RETURN\r"; break; case 9: s += "STOP\r"; break;
		case 10: s += fmt("@HL\rHW=%d\rGOTO @HL\r", k); break; case 11: s += fmt("HW=%d\rWAIT 300000\r", k); break; case 12: s += fmt("HW=%d\rINPUT HI\r", k); break; case 13: s += fmt("HW=%d\rLINPUT \"ABC\";HI$\r", k); break;
		case 14: s += "EXEC \"HE\"\r"; break; case 15: s += "EXEC \"BADSYN\"\r"; break; case 16: s += "EXEC \"NONE\"\r"; break; case 17: s += "@HR\rREAD HX\rGOTO @HR\r"; break; case 18: s += "RESTORE @NONE\r"; break;
		case 19: s += "@HG\rGOSUB @HG\r"; break; case 20: s += "@HG\rFOR HM=1 TO 3\rGOTO @HG\r"; break; case 21: s += fmt("IF HR!=%d THEN HR=%d:RUN\r", k, k); break; case 22: s += "DIM HZ(262144,2)\r"; break;
		case 23: s += "HX=HY(10)\r"; break; case 24: s += "GOTO \"@N\"+STR$(1)\r"; break; case 25: s += "LOAD \"PRG:HE\",0\r"; break; case 26: s += "RESTORE \"@\"+\"X\"*30\r"; break; case 27: s += "READ HX,HS$,HX,HS$,HX,HX,HX,HX,HX\r"; break;
		case 28: s += "GOSUB \"\"\r"; break; case 29: s += fmt("@HL\rFOR HN=1 TO 8\rHW=%d\rHX=HQ(HN)+HN:HS$=\"A\"+STR$(HN)\rNEXT\rGOTO @HL\r", k); break; case 30: s += "ON 7 GOTO @HD2\rON 0 GOSUB @NONE\r"; break; case 31: s += "HX=VAL(1)\r"; break;
		case 32: s += "IF 1 THEN FOR HN=1 TO 3:?1/0:NEXT\r"; break; case 33: s += "LINPUT HQ$(1)\r"; s.insert(s.find("LINPUT"), fmt("HW=%d\r", k)); break; }
	s += "END\rDATA 101,\"a\",102\r@HD2\rDATA \"103\",\"b\"\r"; return s;
}
static const int NTERM = 34;
static bool breaks(const Item& it){ return it.kind == "hist" && ((it.a[1] >= 10 && it.a[1] <= 13) || it.a[1] == 29 || it.a[1] == 33); }
static const char* lines_[] = {"FOR HI=1 TO 9:HX=HX+1", "READ HX", "NEXT", "RETURN", "GOTO @X", "FOR HI=1 TO 2:STOP", "?1/0", "EXEC\"NONE\"", "EXEC\"BADSYN\"", "HX=HQ(2,1/0)", "RESTORE @X", "GOSUB @X", "DIM HZ(2):DIM HZ(3)", "LOAD\"PRG:HE\",0", "?\"A\"+STR$(1/0)", "NEW", "?HQ(3,HQ(99))", "FOR HI=1 TO 9:EXEC\"HE\"", "FOR HI=1 TO 3:NEXT:NEXT", "ON 1 GOTO @X"};
static const int NLINE = sizeof lines_ / sizeof *lines_;

static string probe_prog(u64 seed, int mode, int* selfruns){
	Rng r(seed); string s; if (Rng(seed ^ 99).chance(1, 3)) s += "DATA 31,32,33\r"; int sr = mode == 5 ? (int)r.range(1, 3) : 0; *selfruns = sr;
	if (sr){ s += fmt("PF=PF+1\rIF PF>%d THEN GOTO @GO\r", sr); int d = (int)r.range(1, 3); for (int i = 0; i < d; ++i) switch (r.below(4)){ case 0: s += fmt("FOR H%c=1 TO 9\r", 'A' + i); break; case 1: s += fmt("GOSUB @Y%d\rEND\r@Y%d\r", i, i); break; case 2: s += "READ PA\r"; break; case 3: s += "RESTORE @PD1\r"; break; }
		s += r.chance(1, 3) ? "HX=PZ(3,PF)\rRUN\r" : "RUN\r"; s += "@GO\r"; }
	vector<string> seg; int n = (int)r.range(1, 6), sub = 0; string subs; bool dim = false;
	for (int i = 0; i < n; ++i) switch (r.below(10)){
		case 0: case 1: seg.push_back("READ PA:?PA"); break;
		case 2: seg.push_back(fmt("FOR PK=1 TO %d\r?PK*%d;\rNEXT\r?", (int)r.range(1, 5), (int)r.range(1, 9))); break;
		case 3: seg.push_back(fmt("GOSUB @P%d:?\"back\"", sub)); subs += fmt("@P%d\r?\"sub%d\"\rFOR PJ=1 TO 3\rNEXT\rRETURN\r", sub, sub); ++sub; break;
		case 4: if (!dim){ dim = true; seg.push_back("DIM PX(7,2)\rPX(6,1)=5\r?PX(6,1);PX(0,0)"); } break;
		case 5: seg.push_back("RESTORE @PD1\rREAD PA:?\"r\";PA"); break;
		case 6: seg.push_back("FOR PK=1 TO 2\rFOR PJ=1 TO 2\r?PK;PJ;\rNEXT PJ\rNEXT PK\r?"); break;
		case 7: seg.push_back("PV(3)=4:?PV(3);PV(2)"); break; case 8: seg.push_back("PS$=\"\"\rFOR PK=1 TO 4:PS$=PS$+STR$(PK):NEXT\r?PS$;LEN(PS$)"); break;
		case 9: seg.push_back("PC=PC+0:?\"x\";PQ"); break; }
	s += "CLS\r"; size_t at = r.below(seg.size() + 1); for (size_t i = 0; i <= seg.size(); ++i){ if (i == at) s += "PD=1\r"; if (i < seg.size()) s += seg[i] + "\r"; }
	switch (r.below(9)){ case 0: s += "END\r"; break; case 1: s += "RETURN\r"; break; case 2: s += "NEXT\r"; break; case 3: s += "@PE\rREAD PA:?PA;\rGOTO @PE\r"; break; case 4: s += "STOP\r"; break; case 5: s += "NEXT HI\r"; break; case 6: s += "?PX(\r"; s = s.substr(0, s.size() - 5) + "?\"end\"\rEND\r"; break; case 7: s += "GOTO @HL\r"; break; case 8: s += "FOR PK=1 TO 3:?PK:NEXT\rRETURN\r"; break; }
	s += "END\r" + subs + "DATA 11,12,13\r@PD1\rDATA 21,22\r"; return s;
}

struct FreshScenario : Scenario {
	FreshScenario(){ id = "P03"; }
	Case gen(u64 seed, bool th) override {
		Case c; Rng r(seed); gen_sched(c, r); int n = (int)r.range(1, th ? 7 : 4);
		for (int i = 0; i < n; ++i){ Item it; if (r.chance(2, 3)){ it.kind = "hist"; it.a = {(i64)r.below(1 << 30), (i64)r.below(NTERM), r.range(0, 30), r.range(1, 6), (i64)r.below(3)}; } else { it.kind = "line"; it.a = {(i64)r.below(NLINE)}; } c.items.push_back(it); }
		c.p["probe"] = r.below(1 << 30); c.p["pmode"] = r.below(6); c.p["hnest"] = r.below(1 << 30);
		return c;
	}
	struct Out { bool ok = false; string con, why; };
	void drive(World& w, const Case& c, const string* cmds, bool reference, Out& o){
		// what to type: (line, marker to wait for, item)
		struct Step { string text; int mark; const Item* it; }; static vector<Step> st; st.clear(); int k = 0, mode = (int)c.get("pmode");
		if (reference){ st.push_back({"PF=99", -2, nullptr}); st.push_back({"EXEC\"PROBE\"", -1, nullptr}); }
		else { for (auto& it : c.items){ ++k; if (it.kind == "hist") st.push_back({it.a[4] == 0 ? fmt("EXEC\"H%d\"", k) : it.a[4] == 1 ? fmt("HL=1:FOR HX=1 TO 3:EXEC\"H%d\"", k) : fmt("LOAD\"PRG:H%d\",0:RUN", k), k, &it}); else st.push_back({fmt("HK=%d:", k) + lines_[it.a[0] % NLINE], k, &it}); }
			switch (mode){ case 1: st.push_back({"PL=1:LOAD\"PRG:PROBE\",0", -3, nullptr}); st.push_back({"RUN", -1, nullptr}); break; case 2: st.push_back({"EXEC\"HN\"", -1, nullptr}); break; case 3: st.push_back({"FOR HI=1 TO 3:EXEC\"PROBE\"", -1, nullptr}); break; case 4: st.push_back({"HX=HQ(1):EXEC\"PROBE\":?1/0", -1, nullptr}); break; default: st.push_back({"EXEC\"PROBE\"", -1, nullptr}); } }
		(void)cmds; static size_t at; static int ph; static i64 t, rd; static const void* pc; static Typist ty; at = 0; ph = 0; t = 0; rd = 0; pc = nullptr; static int tries; tries = 0; static i64 bb0; bb0 = 0; static bool fin; fin = false;
		Out* po = &o;
		auto done = [](int m){ return m == -1 ? var_is("PD", 1) : m == -2 ? var_is("PF", 99) : m == -3 ? var_is("PL", 1) : var_is("HK", m); };
		w.input = [=, &w](i64, InFrame& in){
			if (!w.ptc || fin) return; ++t; bool ready = probe_waiting_input(w.ptc) && (!pc || probe_code(w.ptc) == pc); rd = ready ? rd + 1 : 0;
			if (ph == 0){ if (rd < 4) { if (t > 20000){ po->why = "no prompt"; fin = true; } return; }
				if (!pc) pc = probe_code(w.ptc);
				if (at >= st.size()){ po->ok = true; for (int y = 0; y < 24; ++y) po->con += con_line(y) + "\n"; po->con += fmt("cursor %d,%d", probe_cx(w.ptc), probe_cy(w.ptc)); fin = true; return; }
				ty = Typist(); string tx = st[at].text; ty.add(tx, [=]{ return !probe_waiting_input(W->ptc) || probe_code(W->ptc) != pc || con_line(probe_cy(W->ptc)) != tx; }, 3000); ph = 1; }
			if (ph == 1){ ty.frame(in); if (!ty.idle()) return; if (ty.failed){ po->why = fmt("step %zu: ", at) + ty.fail_at + "\n" + con_all(); fin = true; return; } t = 0; rd = 0; bb0 = w.bbs_prg; tries = 0; ph = 5; return; }
			if (ph == 5){ if (done(st[at].mark)){ ph = st[at].it && breaks(*st[at].it) ? 2 : 4; rd = 0; t = 0; } else if (rd > 30 && w.bbs_prg - bb0 > 100000){ po->why = fmt("step %zu (%s) did not run\n", at, st[at].text.c_str()) + con_all(); fin = true; } else if (w.bbs_prg - bb0 > 40000000){ po->why = fmt("step %zu (%s) did not start\n", at, st[at].text.c_str()) + con_all(); fin = true; } return; }
			if (ph == 2){ if (var_is("HW", st[at].mark)){ ph = 3; t = 0; } else if (rd > 4 || t > 3000){ ph = 4; } return; } // may end with an error before it gets there
			if (ph == 3){ const Item& it = *st[at].it; if (t <= it.a[2]) return; if (t <= it.a[2] + it.a[3]){ in.buttons |= 1u << 11; bb0 = w.bbs_prg; return; } if (rd > 4){ ph = 4; hit("broken"); return; } if (w.bbs_prg - bb0 > 2000000 || t > 3000){ t = it.a[2]; if (++tries > 6){ po->why = "break"; fin = true; } } return; }
			if (ph == 4){ if (rd > 4){ ph = 0; ++at; t = 0; rd = 0; } else if (w.bbs_prg - bb0 > 40000000 || t > 20000){ po->why = fmt("step %zu (%s) never returned to the prompt", at, st[at].text.c_str()); fin = true; } } };
		w.on_frame = [](i64){ return !fin; };
	}
	Verdict exec(const Case& c) override {
		Verdict v; Disk d; base_disk(d); int k = 0, sr; string pt = probe_prog((u64)c.get("probe"), (int)c.get("pmode"), &sr);
		for (auto& it : c.items){ ++k; if (it.kind == "hist") d[fmt("programs/H%d.PTC", k)] = prg_file(hist_prog(it, k)); }
		d["programs/HE.PTC"] = prg_file("HX=7\rGOSUB @HQ\rEND\r@HQ\rREAD HX\rFOR HI=1 TO 3\rDATA 77,78\r"); d["programs/BADSYN.PTC"] = prg_file("@HL\rDATA 5\rHX=1\rFOR )(\r?\r"); d["programs/PROBE.PTC"] = prg_file(pt);
		{ Item n; n.kind = "hist"; n.a = {c.get("hnest"), 1, 0, 0, 0}; string h = hist_prog(n, 99); size_t e = h.rfind("END\rDATA 101"); h = h.substr(0, e) + "EXEC \"PROBE\"\rEND\rDATA 1,2,3,4,5,6,7,8,9,10\r@HD2\rDATA 1,2,3,4,5,6,7,8,9,10\r"; // no END in the nest may come first
			d["programs/HN.PTC"] = prg_file(h); }
		Out ref, got; 
		BootResult b = run_boot(d, [&](Disk& dd) -> string { World w; w.aux = true; w.disk = &dd; w.max_frames = 60000; w.max_bbs = 100000000; Out o; drive(w, c, nullptr, true, o); sim_run(w); return o.ok ? "1" + o.con : "0" + o.why; });
		if (!b.ok || b.blob.empty() || b.blob[0] != '1'){ v.invalid = true; hit("no_reference"); if (b.blob.size()) hit("ref:" + b.blob.substr(0, 60)); return v; }
		ref.con = b.blob.substr(1);
		World w; apply_sched(w, c); w.disk = &d; w.max_frames = 80000; w.max_bbs = 300000000; drive(w, c, nullptr, false, got); sim_run(w); account(w); v.hash = hstr(h2(w.frame, w.bbs_prg), got.con);
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!got.ok && got.why.empty()){ v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		if (!got.ok && got.why == "break"){ v.invalid = true; hit("break_failed"); return v; }
		hit("nontrivial"); hit(fmt("start_mode_%d", (int)c.get("pmode"))); for (auto& it : c.items) hit(it.kind == "hist" ? fmt("end_%02d", (int)it.a[1]) : fmt("line_%02d", (int)it.a[0]));
		if (!got.ok) return bad("not-started", "the prompt did not start or finish the step: " + got.why + [&]{ string q; int kk = 0; for (auto& it : c.items){ ++kk; if (it.kind == "hist"){ q += fmt("\nH%d:\n", kk) + hist_prog(it, kk); } } for (auto& ch : q) if (ch == 13) ch = 10; return q; }());
		if (got.con != ref.con) return bad("differs", "the same program started as the first one of a session shows\n" + ref.con + "\nbut after this history it shows\n" + got.con + "\nprogram:\n" + [&]{ string q = pt; for (auto& ch : q) if (ch == '\r') ch = '\n'; return q; }());
		return v;
	}
};
static Reg r3(new FreshScenario);
