// P04: WAIT/VSYNC.  P05: frame counters.  P06: TIME$/DATE$ against the simulated wall clock.
#include "sim.h"
#include <ctime>

// input noise that no program may notice: typing, buttons other than SELECT, touches outside the keys
static void noise(Rng& r, int kind, InFrame& in){
	if (!kind) return;
	if (kind & 1) if (r.chance(1, 3)) in.text.push_back('A' + r.below(26));
	if (kind & 2) if (r.chance(1, 3)) in.buttons |= (u32)r.below(1 << 11);
	if (kind & 4) if (r.chance(1, 3)){ in.touch = true; in.tx = (int)r.below(256); in.ty = 17 + (int)r.below(30); }
	if (kind & 8) if (r.chance(1, 9)) in.modekey = true;
}
static const i64 FORWARD[] = { 0, 0, (1 << 19) - 20, (1 << 20) - 25, (1ll << 31) - 30, (1ll << 32) - 15, (1ll << 36) - 20, 123456789, (1ll << 40) - 9, 3 * (1ll << 20) - 10 };

struct WaitScenario : Scenario {
	WaitScenario(){ id = "P04"; }
	Case gen(u64 seed, bool) override {
		Case c; Rng r(seed); gen_sched(c, r);
		int n = (int)r.range(1, 7);
		for (int i = 0; i < n; ++i){ Item it; it.kind = "wait"; i64 fr = r.chance(1, 8) ? -r.below(5) : r.chance(1, 10) ? r.range(100, 260) : r.chance(1, 3) ? r.range(1, 3) : r.range(1, 45);
			it.a = {(i64)r.below(2), fr, (i64)r.below(4), r.chance(1, 4) ? (i64)r.range(1, 300) : 0}; c.items.push_back(it); }
		if (r.chance(1, 6)){ Item it; it.kind = "wait"; static const i64 big[] = {256, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524287}; i64 b = big[r.below(10)]; it.a = {(i64)r.below(2), r.chance(1, 4) ? r.range(1000, 524287) : std::min<i64>(524287, b + r.range(-1, 30)), r.chance(1, 2) ? 2 : 0, 0}; c.items.push_back(it); } // only the beginning of it is watched
		c.p["noise"] = r.below(16); c.p["fwd"] = FORWARD[r.below(sizeof FORWARD / sizeof *FORWARD)]; c.p["clk"] = r.below(3); c.p["how"] = r.below(3);
		return c;
	}
	Verdict exec(const Case& c) override {
		Disk d; base_disk(d);
		vector<const Item*> op; for (auto& it : c.items) if (it.kind == "wait") op.push_back(&it);
		string s = "A=0:E=0:K=0\r"; int how = (int)c.get("how");
		if (how == 1) s += "GOTO @M\r@S\r"; int k = 0;
		auto stmt = [&](const Item& o){ string a = fmt("%lld", (long long)o.a[1]); if (o.a[1] < 0) a = "0-" + fmt("%lld", (long long)-o.a[1]); if (o.a[2] == 1) a += ".5"; if (o.a[2] == 2){ a = "V"; } return string(o.a[0] ? "WAIT " : "VSYNC ") + a; };
		if (how == 1) s += "RETURN\r@M\r";
		for (auto* o : op){ ++k; if (o->a[3]) s += fmt("FOR I=1 TO %lld\rA=A+I\rNEXT\r", (long long)o->a[3]); if (o->a[2] == 2) s += fmt("V=%lld\r", (long long)o->a[1]);
			if (how == 2) s += fmt("FOR I=1 TO 1:K=%d:%s:E=%d:NEXT\r", k, stmt(*o).c_str(), k); else s += fmt("K=%d\r%s\rE=%d\r", k, stmt(*o).c_str(), k); if (how == 1) s += "GOSUB @S\r"; }
		s += "F=1\r@Z\rWAIT 60\rGOTO @Z\r";
		d["programs/MAIN.PTC"] = prg_file(s);
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 6000; w.max_bbs = 60000000;
		Rng cr(c.seed ^ 5); int clk = (int)c.get("clk"); if (clk) w.clock = [&](i64, i64 nom){ return clk == 1 ? nom - 100000 : (i64)(nom + cr.range(-100000, 100000)); };
		Rng nr(c.seed ^ 9); bool fwd = false, fin = false, longw = false; Verdict v; i64 lastK = 0, lastE = 0, fK = 0, pK = 0, stuckf = 0; bool slop = c.get("w_preempt") != 0; i64 fdone = -1;
		i64 lastbb = 0, pbb = 0, mx = 0, ppK = 0, curp = 0;
		w.input = [&](i64 f, InFrame& in){ if (w.ptc && !fwd && lastK == 0){ fwd = true; if (c.get("fwd")) probe_time_forward(w.ptc, c.get("fwd")); } noise(nr, (int)c.get("noise"), in);
			if (w.ptc && f - stuckf > 700 && lastK != lastE){ i64 n = op[lastK - 1]->a[1]; if (f - fK > n + 600 && w.bbs_prg - lastbb > 100 * 600 && !v.bad){ v = bad("wait-stuck", fmt("%s %lld did not return within %lld frames", op[lastK-1]->a[0] ? "WAIT" : "VSYNC", (long long)n, (long long)(f - fK))); fin = true; } } };
		w.on_switch = [&]{
			ppK = curp; curp = w.preempt_p; i64 ds = w.bbs_prg - pbb; pbb = w.bbs_prg; if (lastK == lastE) mx = ds; else mx = std::max(mx, ds);
			if (!w.ptc || fin) return;
			i64 K = var_int("K", 0), E = var_int("E", 0);
			if (K != lastK){ if (K < 0 || K > (i64)op.size()) return; if (lastK && lastE != lastK){ /* both changed in one slice */ check(op[lastK-1], w.frame - fK, w.preempt_p - pK, slop, mx > w.nominal / 4, c, v); }
				lastK = K; fK = w.frame; pK = ppK; stuckf = w.frame; lastbb = w.bbs_prg; }
			if (E != lastE){ lastE = E; if (E == lastK && E){ check(op[E-1], w.frame - fK, w.preempt_p - pK, slop, mx > w.nominal / 4, c, v); hit("nontrivial"); } }
			if (lastK > lastE && lastK <= (i64)op.size() && op[lastK-1]->a[1] > 1000 && w.frame - fK > 120){ hit("long_waits"); longw = fin = true; }
			if (v.bad || var_is("F", 1)) fin = true;
		};
		w.on_frame = [&](i64){ return !fin; };
		sim_run(w); account(w);
		if (v.bad){ v.hash = w.frame; return v; }
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!longw && !var_is("F", 1)) { v.invalid = true; hit("capped:" + w.stop_reason); }
		v.hash = w.frame; return v;
	}
	static void check(const Item* o, i64 el, i64 pre, bool slop, bool coarse, const Case& c, Verdict& v){
		if (v.bad) return; i64 n = std::max<i64>(0, o->a[1]); const char* nm = o->a[0] ? "WAIT" : "VSYNC";
		if (el + (slop ? 1 : 0) < n) v = bad("wait-early", fmt("%s %lld returned after only %lld frames", nm, (long long)o->a[1], (long long)el));
		i64 hi = n + (coarse || pre) + pre + (c.get("jitter") ? 4 : 0) + (slop ? 1 : 0); if (c.explicit_sched) hi = n + 6 + pre;
		if (el > hi) v = bad("wait-late", fmt("%s %lld returned after %lld frames although the program was only held up in %lld turns", nm, (long long)o->a[1], (long long)el, (long long)pre));
		hit("waits"); if (!coarse && !pre && !slop && !c.get("jitter")) hit("exact_waits"); if (pre) hit("waits_preempted");
	}
};
static Reg r4(new WaitScenario);

struct CountScenario : Scenario {
	CountScenario(){ id = "P05"; }
	Case gen(u64 seed, bool) override {
		Case c; Rng r(seed); gen_sched(c, r);
		int n = (int)r.range(3, 14);
		for (int i = 0; i < n; ++i){ Item it; it.kind = "read"; it.a = {(i64)r.below(4), r.chance(1, 3) ? 0 : r.range(1, 12), r.chance(1, 5) ? (i64)r.range(1, 200) : 0}; c.items.push_back(it); }
		c.p["noise"] = r.below(16); i64 b[] = { 0, (1 << 19), (1 << 20), 2 * (1 << 20), 5 * (1 << 20), (1ll << 31), (1ll << 32), (1ll << 35), (1ll << 36), 77777777 }; i64 f = b[r.below(10)];
		c.p["fwd"] = std::max<i64>(0, f - r.range(0, 40)); c.p["clk"] = r.below(3);
		return c;
	}
	Verdict exec(const Case& c) override {
		Disk d; base_disk(d);
		vector<const Item*> op; for (auto& it : c.items) if (it.kind == "read") op.push_back(&it);
		string s = "A=0:E=0:K=0\rVSYNC 2\r"; int k = 0;
		static const char* frm[] = { "L=MAINCNTL\rH=MAINCNTH\r", "H=MAINCNTH\rL=MAINCNTL\r", "L=MAINCNTL+0:H=0+MAINCNTH\r", "L=MAINCNTL:H=MAINCNTH\r" };
		for (auto* o : op){ ++k; if (o->a[2]) s += fmt("FOR I=1 TO %lld\rA=A+I\rNEXT\r", (long long)o->a[2]); s += fmt("K=%d\r%sE=%d\rWAIT 1\r", k, frm[o->a[0] & 3], k); if (o->a[1]) s += fmt("WAIT %lld\r", (long long)o->a[1]); }
		s += "F=1\r@Z\rWAIT 60\rGOTO @Z\r";
		d["programs/MAIN.PTC"] = prg_file(s);
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 6000; w.max_bbs = 60000000;
		Rng cr(c.seed ^ 5); int clk = (int)c.get("clk"); if (clk) w.clock = [&](i64, i64 nom){ return clk == 1 ? nom - 100000 : (i64)(nom + cr.range(-100000, 100000)); };
		Rng nr(c.seed ^ 9); i64 fwd = -1; bool fin = false; Verdict v; i64 lastK = 0, lastE = 0, pf = 0, fK = 0; bool slop = c.get("w_preempt") != 0 || c.explicit_sched;
		w.input = [&](i64, InFrame& in){ if (w.ptc && fwd < 0 && !var_is("K", 1)){ fwd = c.get("fwd"); probe_time_forward(w.ptc, fwd); } noise(nr, (int)c.get("noise"), in); };
		w.on_switch = [&]{
			if (!w.ptc || fin || fwd < 0){ pf = w.frame; return; }
			i64 K = var_int("K", 0), E = var_int("E", 0);
			if (K != lastK){ lastK = K; fK = pf; }
			if (E != lastE && E){ lastE = E; i64 lo = fK + fwd, hi = w.frame + (slop ? 1 : 0) + fwd; int L = 0, H = 0; probe_num(w.ptc, "L", &L); probe_num(w.ptc, "H", &H);
				i64 l = (L >> 12) & 0xfffff, h = (H >> 12) & 0xffff; bool okl = false, okh = false;
				if (hi - lo > 2000) { hit("window_large"); }
				else { for (i64 t = lo; t <= hi; ++t){ if ((t & 0xfffff) == l) okl = true; if (((t >> 20) & 0xffff) == h) okh = true; }
				if (L & 0xfff || H & 0xfff) v = bad("fraction", "a frame counter reading is not a whole number");
				else if (!okl) v = bad("maincntl", fmt("MAINCNTL read %lld, but frames %lld..%lld had been displayed (mod 2^20: %lld..%lld)", (long long)l, (long long)lo, (long long)hi, (long long)(lo & 0xfffff), (long long)(hi & 0xfffff)));
				else if (!okh) v = bad("maincnth", fmt("MAINCNTH read %lld after %lld..%lld frames", (long long)h, (long long)lo, (long long)hi));
				hit("nontrivial"); hit("counter_reads"); if (lo == hi) hit("exact_reads"); if ((lo >> 20) != ((fwd) >> 20)) hit("carry_crossed"); } }
			if (v.bad || var_is("F", 1)) fin = true;
			pf = w.frame;
		};
		w.on_frame = [&](i64){ return !fin; };
		sim_run(w); account(w);
		if (v.bad){ v.hash = w.frame; return v; }
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!var_is("F", 1)) { v.invalid = true; hit("capped:" + w.stop_reason); }
		v.hash = w.frame; return v;
	}
};
static Reg r5(new CountScenario);

static const char* TZS[] = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "JST-9", "NPT-5:45", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-1130>11:30", "LHST-10:30LHDT-11,M10.1.0,M4.1.0" };
// civil date from days, independent of libc
static void civil(i64 z, i64& y, int& m, int& d){ z += 719468; i64 era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097); unsigned yoe = (doe - doe/1460 + doe/36524 - doe/146096) / 365; y = (i64)yoe + era * 400; unsigned doy = doe - (365*yoe + yoe/4 - yoe/100); unsigned mp = (5*doy + 2)/153; d = (int)(doy - (153*mp+2)/5 + 1); m = (int)(mp < 10 ? mp + 3 : mp - 9); y += m <= 2; }
struct ClockScenario : Scenario {
	ClockScenario(){ id = "P06"; }
	Case gen(u64 seed, bool) override {
		Case c; Rng r(seed); gen_sched(c, r);
		int n = (int)r.range(2, 10);
		for (int i = 0; i < n; ++i){ Item it; it.kind = "read"; it.a = {(i64)r.below(6), r.range(0, 10)}; c.items.push_back(it); }
		c.p["tz"] = r.below(7); c.p["clk"] = r.below(8); c.p["noise"] = r.below(16); c.p["loops"] = r.chance(1, 6) ? r.range(200, 600) : 0; c.p["strs"] = r.chance(1, 3) ? 16 : 0;
		return c;
	}
	Verdict exec(const Case& c) override {
		setenv("TZ", TZS[c.get("tz") % 7], 1); tzset();
		Disk d; base_disk(d);
		vector<const Item*> op; for (auto& it : c.items) if (it.kind == "read") op.push_back(&it);
		string s = "A=0:E=0:K=0\rT$=\"\":D$=\"\"\r"; int k = 0;
		if (c.get("loops")) s += fmt("FOR I=1 TO %lld\rT$=TIME$:D$=DATE$\rNEXT\r", (long long)c.get("loops"));
		static const char* frm[] = { "T$=TIME$\rD$=DATE$\r", "D$=DATE$\rT$=TIME$\r", "T$=TIME$+\"\":D$=\"\"+DATE$\r", "T$=MID$(TIME$,0,8):D$=LEFT$(DATE$,10)\r", "PRINT TIME$;DATE$\rT$=TIME$:D$=DATE$\r", "T$=TIME$+\"|\"+DATE$\rD$=RIGHT$(T$,10):T$=LEFT$(T$,8)\r" };
		for (auto* o : op){ ++k; s += fmt("WAIT 2\rK=%d\r%sE=%d\rWAIT 2\r", k, frm[o->a[0] % 6], k); if (o->a[1]) s += fmt("WAIT %lld\r", (long long)o->a[1]); }
		s += "F=1\r@Z\rWAIT 60\rGOTO @Z\r";
		d["programs/MAIN.PTC"] = prg_file(s);
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 6000; w.max_bbs = 60000000; if (c.get("strs")) w.str_limit = (int)c.get("strs");
		Rng cr(c.seed ^ 5); int clk = (int)c.get("clk"); i64 cur = w.clock0; Rng br(c.seed ^ 0xb);
		i64 base[] = { 1709164797, 951782397, 1735689597, 1710054000 - 5, 1730613600 - 5, 4102444797, 1, 2147483640, 68169597, 946684797 };
		i64 b0 = base[br.below(10)] + (br.chance(1, 2) ? br.range(-14, 14) * 1800 : 0);
		w.clock = [&](i64 reads, i64 nom) -> i64 {
			switch (clk){ case 0: return nom; case 1: return b0 + (nom - w.clock0); case 2: return b0 + reads; case 3: cur += cr.range(-90000, 90000); return cur; case 4: return (i64)(cr.next() % 4294967295ull); case 5: return b0 + reads * 3599; case 6: return b0 + (reads & 1); default: return b0 + reads * 43200; } };
		Rng nr(c.seed ^ 9); bool fin = false; Verdict v; i64 lastK = 0, lastE = 0, pr = 0, rK = 0;
		w.input = [&](i64, InFrame& in){ noise(nr, (int)c.get("noise"), in); };
		w.on_switch = [&]{
			if (!w.ptc || fin) { pr = w.time_reads; return; }
			i64 K = var_int("K", 0), E = var_int("E", 0);
			if (K != lastK){ lastK = K; rK = pr; }
			if (E != lastE && E){ lastE = E; unsigned char b[300]; int n = probe_str(w.ptc, "T", b); string T = n >= 0 ? string((char*)b, n) : "?"; n = probe_str(w.ptc, "D", b); string D = n >= 0 ? string((char*)b, n) : "?";
				bool ot = false, od = false; string want;
				for (i64 i = rK; i < w.time_reads && i < (i64)w.time_values.size(); ++i){ time_t t = w.time_values[i]; struct tm m; localtime_r(&t, &m); i64 loc = w.time_values[i] + m.tm_gmtoff; i64 days = loc >= 0 ? loc / 86400 : -((-loc + 86399) / 86400); i64 sec = loc - days * 86400; i64 y; int mo, dd; civil(days, y, mo, dd);
					string ts = fmt("%02d:%02d:%02d", (int)(sec / 3600), (int)(sec / 60 % 60), (int)(sec % 60)), ds = fmt("%04d/%02d/%02d", (int)y, mo, dd);
					if (ts == T) ot = true; if (ds == D) od = true; want += ds + " " + ts + " "; }
				if (w.time_reads > (i64)w.time_values.size()) { hit("reads_overflow"); }
				else if (!ot) v = bad("time", fmt("TIME$ gave \"%s\", the clock was read as [%s]", T.c_str(), want.c_str()));
				else if (!od) v = bad("date", fmt("DATE$ gave \"%s\", the clock was read as [%s]", D.c_str(), want.c_str()));
				hit("nontrivial"); hit("clock_reads"); }
			if (v.bad || var_is("F", 1)) fin = true;
			pr = w.time_reads;
		};
		w.on_frame = [&](i64){ return !fin; };
		sim_run(w); account(w);
		if (v.bad){ v.hash = w.frame; return v; }
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!var_is("F", 1)) { if (w.stop_reason == "frame-cap" && w.ptc && probe_waiting_input(w.ptc)) return bad("stopped", "the clock program stopped with an error: " + con_all()); v.invalid = true; hit("capped:" + w.stop_reason); }
		v.hash = w.frame; return v;
	}
};
static Reg r6(new ClockScenario);
