// P23: no input, file, fault or interleaving makes the machine access memory wrongly.
// Runs the histories of all other scenarios (own seeds) in the build with the address sanitizer;
// only the end of the process by a signal counts here.
#include "sim.h"
static const char* subs[] = { "P01","P02","P03","P04","P05","P06","P07","P08","P09","P10","P11","P12","P13","P14","P15","P16","P17","P18","P19","P20","P21","P22","P25","P26","P27","P28","P29","P30","P24" };
struct AllScenario : Scenario {
	AllScenario(){ id = "P23"; }
	Case gen(u64 seed, bool th) override {
		Rng r(seed); int n = sizeof subs / sizeof *subs, k = (int)r.below(n); if (k == n - 1 && r.chance(3, 4)) k = (int)r.below(n - 1); u64 s2 = r.next();
		Case c = find_scenario(subs[k])->gen(s2, th); c.p["sub"] = k; if (!c.p.count("render") && r.chance(1, 4)) c.p["render"] = 1; if (r.chance(1, 4)) c.p["win"] = 2; c.p["editor"] = r.chance(1, 10) ? r.range(1, 7) : 0; c.p["edseed"] = r.below(1000); return c;
	}
	// any EDITOR.PTC: many lines or labels, one long line, damaged
	static string editor(int k, u64 s){
		Rng r(s); string b; int n = (int)(r.chance(1, 2) ? r.range(60000, 262000) : r.logu(1, 60000));
		switch (k){ case 1: for (int i = 0; i < n; ++i) b += "@\r"; break; case 2: for (int i = 0; i < n; ++i) b += "L\r"; break; case 3: for (int i = 0; i < n; ++i) b += " \r"; break; case 4: for (int i = 0; i < 3000 && i < n; ++i) b += fmt("@L%d\r", i); break;
			case 5: b = string(n, r.chance(1, 2) ? 'A' : ' '); break; case 6: for (int i = 0; i < n && i < 4000; ++i) b += (char)r.below(256); break; case 7: b = "@A\rPRINT 1\rGOTO @A"; break; }
		string f = px_file("PETC0300RPRG", string(8, 0) + le32((u32)b.size()) + b, "EDITOR"); if (r.chance(1, 5)) f.resize(r.below(f.size() + 1)); if (r.chance(1, 8) && f.size() >= 60) f.replace(56, 4, le32((u32)r.next())); return f;
	}
	Verdict exec(const Case& c) override {
		extra_editor = c.get("editor") ? editor((int)c.get("editor"), (u64)c.get("edseed")) : "";
		const char* sub = subs[c.get("sub")]; hit(string("histories_of_") + sub);
		Verdict v = find_scenario(sub)->exec(c); { string m = blocks_verdict(); if (!m.empty()) return bad("blocks", m); }
		if (v.bad && v.cls == "restart-crash") return v;
		if (v.bad){ hit("other_verdict"); v.bad = false; v.invalid = true; v.cls = v.msg = ""; }
		return v;
	}
};
static Reg r23(new AllScenario);
