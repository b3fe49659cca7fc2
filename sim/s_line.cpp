// P11: INPUT and LINPUT deliver the edited line.
#include "sim.h"
#include <regex>
int fakesf_mode();
struct LineScenario : Scenario {
	LineScenario(){ id = "P11"; }
	Case gen(u64 seed, bool) override {
		Case c; Rng r(seed); gen_sched(c, r); int n = (int)r.range(1, 5);
		for (int i = 0; i < n; ++i){
			Item p; p.kind = "prompt"; p.a = {(i64)r.below(6), (i64)r.below(8), (i64)r.below(4), (i64)r.below(2), (i64)r.chance(1, 3), (i64)r.range(1, 12)}; p.fixed = i == 0; c.items.push_back(p);
			int e = r.chance(1, 8) ? 0 : (int)r.range(1, 12);
			for (int j = 0; j < e; ++j){ Item it; it.kind = "edit"; i64 k; if (r.chance(1, 2)) k = 0; else if (p.a[0] >= 2 && p.a[0] != 4) k = r.chance(1, 2) ? 1 + (i64)r.below(2) : 9; else k = r.range(1, 9);
				it.a = {k, r.chance(1, 5) ? r.range(1, 40) : r.range(1, 5), (i64)r.below(1 << 30), r.range(1, 6)}; c.items.push_back(it); }
			if (r.chance(1, 4)){ Item it; it.kind = "edit"; it.a = {2 + (i64)r.below(2), 1, (i64)r.below(1 << 30), r.range(1, 6)}; c.items.push_back(it); } }
		c.p["ptype"] = r.below(5); c.p["colour"] = r.below(16); c.p["leave"] = r.chance(1, 4);
		return c;
	}
	static constexpr const char* KIND[6] = {"$", "$", "N", "N$", "$N", "NM"};
	static const int* keypos(int k){ static int o[2]; // middle of a key's row
		struct Q { int k, x, y; }; static const Q q[] = {{15, 244, 58}, {67, 224, 152}, {66, 208, 152}, {60, 240, 130}, {47, 14, 130}}; for (auto& e : q) if (e.k == k){ o[0] = e.x; o[1] = e.y; return o; } return nullptr; }
	Verdict exec(const Case& c) override {
		struct P { const Item* it; vector<const Item*> ed; string name; }; vector<P> ps; for (auto& it : c.items){ if (it.kind == "prompt") ps.push_back({&it, {}, ""}); else if (!ps.empty()) ps.back().ed.push_back(&it); }
		Verdict v; if (ps.empty()){ v.invalid = true; return v; }
		static const char* TN[] = {"OFF", "PNL", "KYA", "KYM", "KYK"}; int ptype = (int)c.get("ptype") % 5;
		Disk d; base_disk(d); string s = fmt("K=0:Z=0:F=0\rPNLTYPE \"%s\"\rCOLOR %lld\r", TN[ptype], (long long)c.get("colour")); int k = 0;
		for (auto& p : ps){ ++k; switch (p.it->a[1]){ case 1: s += "CLS\r"; break; case 2: s += "FOR I=1 TO 30\r?I\rNEXT\r"; break; case 3: s += "CLS\rLOCATE 0,23\r?\"12345678901234567890123456789012\";\r"; break; case 5: s += "CLS:LOCATE 0,23\r"; break; case 6: s += "CLS\rLOCATE 5,10\r"; break; case 7: s += "LOCATE 3,7:?\"left 1,2\"\rLOCATE 20,8:?\"5,6\"\rLOCATE 1,9:?\"12\"\rLOCATE 0,6\r"; break; case 4: if (k > 1) s += "FOR I=0 TO 23:LOCATE I,I:?\"x,1\";:NEXT\rLOCATE 0,11\r"; break; }
			string pr; switch (p.it->a[2]){ case 1: pr = "\"Name\";"; break; case 2: pr = "\"1234567890123456789012345678901\";"; break; case 3: pr = "\"A\"+\"B\";"; break; }
			if (p.it->a[0] != 2 && p.it->a[0] != 5 && p.it->a[5] % 3 == 0) s += fmt("A%d$=\"old\"+STR$(%d):B%d$=A%d$\r", k, k, k, k); // B$ keeps the string
			static const char* form[] = {"LINPUT %sA%d$", "INPUT %sA%d$", "INPUT %sN%d", "INPUT %sN%d,A%d$", "INPUT %sA%d$,N%d", "INPUT %sN%d,M%d"}; s += fmt("K=%d\r", k) + fmt(form[p.it->a[0] % 6], pr.c_str(), k, k) + "\r"; }
		s += fmt("K=%d\rF=1\r@L\rC$=INKEY$()\rIF C$!=\"\" THEN Z=ASC(C$)\rB=B+1\rGOTO @L\r", k + 1);
		d["programs/MAIN.PTC"] = prg_file(s);
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 40000; w.max_bbs = 250000000;
		bool exact_sched = (c.get("mode") == SM_NOMINAL) && !c.explicit_sched; (void)exact_sched;
		// the line as the user sees it
		vector<int> line; size_t cur = 0; bool full = false, insert = true, shift = false; size_t pi = 0, ei = 0;
		enum { READY, ACT, EFFECT, END, ENDWAIT, REDO, FINAL, LEAVE, DONE } ph = READY; i64 t = 0, bb0 = 0, sl0 = -1; bool pre_same = false; vector<int> pre; size_t precur = 0; int tries = 0; bool isbutton = false; u32 btn = 0; int key = 0; int kx = 0, ky = 0; i64 hold = 0; vector<u32> text; bool fin = false; bool ahead = false; i64 missed = 0; bool want_redo = false; i64 stalls = 0;
		vector<map<string,string>> expect(ps.size()); vector<double> num(ps.size(), 0), num2(ps.size(), 0); vector<string> str(ps.size()); vector<char> hasnum(ps.size(), 0), hasstr(ps.size(), 0), hasnum2(ps.size(), 0); int zwant = 0; bool left = false;
		auto shown = [&](const vector<int>& l, size_t cu){ int y = probe_cy(w.ptc); if (probe_cx(w.ptc) != (int)cu || y < 0 || y > 23) return false; for (int x = 0; x < 32; ++x) if (probe_con(w.ptc, x, y) != (x < (int)l.size() ? l[x] : 0)) return false; return true; };
		auto desc = [&](const vector<int>& l, size_t cu){ string o; for (int ch : l) o += ch >= 32 && ch < 127 ? string(1, (char)ch) : fmt("<%02x>", ch); return "\"" + o + fmt("\" cursor %zu", cu); };
		auto put = [&](int ch){ if (!insert && cur < line.size()) line[cur++] = ch; else if (line.size() < 32){ line.insert(line.begin() + cur, ch); ++cur; } else full = true; };
		auto fail = [&](const string& cls, const string& m){ if (!v.bad) v = bad(cls, fmt("prompt %zu (%s), edit %zu: ", pi + 1, (const char*[]){"LINPUT A$", "INPUT A$", "INPUT N", "INPUT N,A$", "INPUT A$,N", "INPUT N,M"}[ps[pi].it->a[0] % 6], ei) + m); fin = true; };
		auto settled = [&](i64 fr, i64 bb){ return t > fr && w.bbs_prg - bb0 > bb; };
		auto classify = [&](bool& redo, bool& amb){ string l; for (int ch : line) l += (char)ch; int ty = (int)ps[pi].it->a[0] % 6; redo = amb = false; size_t nc = std::count(l.begin(), l.end(), ',');
			hasstr[pi] = hasnum[pi] = hasnum2[pi] = 0; if (ty == 0){ str[pi] = l; hasstr[pi] = 1; return; }
			if (nc != (ty >= 3 ? 1u : 0u)){ redo = true; return; }
			for (int f = 0; f < (ty >= 3 ? 2 : 1); ++f){ string n = ty < 3 ? l : f ? l.substr(l.find(',') + 1) : l.substr(0, l.find(','));
				if (KIND[ty][f] == '$'){ str[pi] = n; hasstr[pi] = 1; continue; }
				static const std::regex okr("-?[0-9]{1,5}(\\.(5|25|75|0|125))?"); bool alpha = false; for (unsigned char ch : n) if (isalpha(ch)) alpha = true; size_t sp = n.find(' ');
				if (std::regex_match(n, okr)){ if (KIND[ty][f] == 'M'){ num2[pi] = atof(n.c_str()); hasnum2[pi] = 1; } else { num[pi] = atof(n.c_str()); hasnum[pi] = 1; } } else if (n.empty() || (alpha && sp == string::npos)) redo = true; else amb = true; }
			if (redo) amb = false; };
		// an answer that is asked again has changed nothing
		auto unchanged = [&](const char* why = "the answer was refused (?Redo from start)"){ size_t i = pi; string o = ps[i].it->a[0] != 2 && ps[i].it->a[0] != 5 && ps[i].it->a[5] % 3 == 0 ? fmt("old%zu", i + 1) : ""; unsigned char b[300]; int n = probe_str(w.ptc, fmt("A%zu", i + 1).c_str(), b); string g = n >= 0 ? string((char*)b, n) : ""; int x = 0, y = 0; probe_num(w.ptc, fmt("N%zu", i + 1).c_str(), &x); probe_num(w.ptc, fmt("M%zu", i + 1).c_str(), &y);
			if (g != o || x || y){ fail("refused-answer", fmt("%s, but the variables now are A$=\"%s\" N=%g M=%g (before: \"%s\" 0 0)", why, g.c_str(), x / 4096.0, y / 4096.0, o.c_str())); return false; } hit("refused_checked"); return true; };
		w.input = [&](i64, InFrame& in){
			if (!w.ptc || fin) return; ++t; for (int guard = 0; guard < 2; ++guard){
			if (ph == READY){
				if (var_int("K", 0) > (i64)pi + 1){ fail("answered-itself", fmt("the prompt ended although nothing was entered (K=%lld)", (long long)var_int("K"))); return; }
				bool up = var_int("K", 0) == (i64)pi + 1 && probe_waiting_input(w.ptc);
				if (!up) sl0 = -1; else if (sl0 < 0) sl0 = w.sleeps; 
				if (up && w.sleeps >= sl0 + 3 && t > 3){ if (ahead){ for (size_t q = 0; q < text.size(); ++q) put((int)text[q]); text.clear(); ahead = false; ph = EFFECT; ei = (size_t)-1; hold = 0; full = false; btn = 0; key = 0; pre_same = false; t = 0; bb0 = w.bbs_prg; pre.clear(); precur = 0; isbutton = false; } else if (!shown(line, cur)){ if (t > 600 && w.bbs_prg - bb0 > 400000) fail("start", "the prompt does not start with an empty line: shown row is \"" + con_line(probe_cy(w.ptc)) + "\""); return; } else { ph = ACT; t = 0; } }
				else { if (t > 3000 && w.bbs_prg - bb0 > 2000000) fail("no-prompt", "the prompt never appeared: " + con_all()); return; } }
			if (ph == ACT){
				if (ei >= ps[pi].ed.size()){ ph = END; t = 0; continue; }
				const Item& e = *ps[pi].ed[ei]; Rng er(e.a[2] ^ c.seed); pre = line; precur = cur; isbutton = false; full = false; btn = 0; key = 0; hold = e.a[3]; text.clear(); int ty = (int)ps[pi].it->a[0] % 6;
				switch (e.a[0]){
					case 0: { for (i64 q = 0; q < e.a[1]; ++q){ int ch; size_t nf = std::count(line.begin(), line.end(), (int)','); bool innum = nf < 2 && KIND[ty][nf] && KIND[ty][nf] != '$'; size_t fl = line.size(); for (size_t z = 0; z < line.size(); ++z) if (line[z] == ',') fl = line.size() - 1 - z; bool open = ty >= 3 && nf == 0;
						if (innum){ static const char* dig = "0123456789"; ch = fl >= 5 ? (open ? ',' : 'A' + (int)er.below(26)) : dig[er.below(10)]; if (!fl && er.chance(1, 5)) ch = '-'; else if (er.chance(1, 25)) ch = 'A' + (int)er.below(26); else if (open && fl >= 2 && er.chance(1, 3)) ch = ','; }
						else if (ty >= 1 && er.chance(1, open ? 5 : 25)) ch = ','; else ch = er.chance(1, 12) ? (int)er.range(0xa1, 0xdf) : (int)er.range(32, 126); text.push_back(ch); put(ch); } break; }
					case 1: btn = 1u << 7; isbutton = true; goto bs; case 2: key = 15; bs: if (cur > 0){ line.erase(line.begin() + --cur); } break;
					case 3: key = 67; if (cur < line.size()) line.erase(line.begin() + cur); break;
					case 4: btn = 1u << 2; isbutton = true; if (cur) --cur; break; case 5: btn = 1u << 3; isbutton = true; if (cur < line.size()) ++cur; break;
					case 6: key = 66; insert = !insert; break;
					case 7: { int q = (int)er.below(10); key = 1000 + q; put(shift ? "qwertyuiop"[q] : "QWERTYUIOP"[q]); shift = false; break; }
					case 8: key = 47; shift = !shift; break;
					default: break; }
				pre_same = pre == line && precur == cur; t = 0; tries = 0; ph = EFFECT; bb0 = w.bbs_prg; 
				if (key >= 1000){ kx = 32 + 16 * (key - 1000) + 7; ky = 80; } else if (key){ const int* q = keypos(key); kx = q[0]; ky = q[1]; }
				hit("edits"); }
			break; }
			if (ph == EFFECT){
				if (!text.empty()){ size_t n = std::min<size_t>(text.size(), 7); extern u32 kana_of(int); for (size_t q = 0; q < n; ++q) in.text.push_back(kana_of((int)text[q])); text.erase(text.begin(), text.begin() + n); bb0 = w.bbs_prg; t = 0; return; }
				bool pressing = t <= hold && (btn || key); if (pressing){ in.buttons = btn; if (key){ in.touch = true; in.tx = kx; in.ty = ky; } bb0 = w.bbs_prg; return; }
				// characters that found the line full are read (and dropped) while it looks the same
				if (full ? settled(hold + 40, 40000) && shown(line, cur) : pre_same ? settled(hold + 6, 3000) && shown(line, cur) : t > hold + 1 && shown(line, cur)){ ph = ACT; t = 0; ++ei; return; }
				if (settled(hold + 60, 60000)){
					if (isbutton && shown(pre, precur)){ ++missed; if (exact_sched) { fail("button-lost", fmt("a press of button %d had no effect", __builtin_ctz(btn))); return; } if (++tries > 30){ fail("button-lost", "30 presses had no effect"); return; } t = 0; bb0 = w.bbs_prg; return; }
					fail("line", "line should be " + desc(line, cur) + fmt(", but row %d shows \"%s\" with the cursor at %d (before: %s)", probe_cy(w.ptc), con_line(probe_cy(w.ptc)).c_str(), probe_cx(w.ptc), desc(pre, precur).c_str())); }
				return; }
			if (ph == END && c.get("leave") && pi + 1 == ps.size()){ ph = LEAVE; t = 0; hasstr[pi] = hasnum[pi] = hasnum2[pi] = 0; bb0 = w.bbs_prg; hold = ps[pi].it->a[5]; hit("left"); if (!line.empty()) hit("left_with_text"); }
			if (ph == LEAVE){ // SELECT stops the program in the middle of the line: nothing is assigned
				if (t <= hold){ in.buttons = 1u << 11; bb0 = w.bbs_prg; return; }
				if (settled(hold + 40, 60000) && probe_waiting_input(w.ptc)){ if (!unchanged("the prompt was left with SELECT")) return; if (var_is("F", 1) || var_int("K", 0) != (i64)pi + 1){ fail("left", "the program went on although SELECT stopped it"); return; } left = true; fin = true; }
				else if (t > 6000) fail("left", "no prompt appears after SELECT stopped the program: " + con_all());
				return; }
			if (ph == END){
				bool amb; classify(want_redo, amb); if (amb){ fin = true; v.invalid = true; hit("ambiguous_number"); return; }
				ph = ENDWAIT; t = 0; bb0 = w.bbs_prg; tries = 0; hold = ps[pi].it->a[5]; btn = ps[pi].it->a[3] ? 0 : 1u << 4; key = ps[pi].it->a[3] ? 60 : 0; kx = 240; ky = 130; hit(key ? "end_enter" : "end_a"); if (want_redo) hit("redo"); }
			if (ph == ENDWAIT){
				if (t == 0) t = 1;
				if (t <= hold){ in.buttons = btn; if (key){ in.touch = true; in.tx = kx; in.ty = ky; } bb0 = w.bbs_prg; if (key && t == 1 && shift) shift = false; return; }
				if (want_redo){ bool empty = line.empty(); bool moved = shown({}, 0) && probe_waiting_input(w.ptc);
					if (empty ? settled(hold + 12, 30000) : moved && t > hold + 3){ if (!unchanged()) return; line.clear(); cur = 0; if (ei >= ps[pi].ed.size() && ps[pi].ed.size() < 100){ // give a valid answer
							static vector<Item> ok; if (ok.empty()) ok.reserve(4); int ty = (int)ps[pi].it->a[0] % 6; string good = ty == 1 ? "ok" : ty == 2 ? "17" : ty == 3 ? "5,yes" : ty == 4 ? "no,8" : "3,-4"; insert_text(good, text, line, cur); ps[pi].ed.clear(); ei = 0; pre.clear(); precur = 0; pre_same = false; btn = 0; key = 0; hold = 0; ph = EFFECT; ei = (size_t)-1; t = 0; bb0 = w.bbs_prg; }
						else fin = true; return; } }
				else if (var_int("K") > (i64)pi + 1){
					if (var_int("K") > (i64)pi + 2 && !ahead){ fail("answered-itself", fmt("one press ended more than one prompt (K=%lld)", (long long)var_int("K"))); return; }
					line.clear(); cur = 0; ++pi; ei = 0; if (pi >= ps.size()){ --pi; ph = FINAL; t = 0; bb0 = w.bbs_prg; return; } ph = READY; if (ps[pi].it->a[4]){ Rng ar(c.seed ^ (pi * 977 + 5)); int ty = (int)ps[pi].it->a[0] % 6; extern u32 kana_of(int); ahead = true; text.clear(); for (i64 q = ar.range(1, 5); q > 0; --q){ int ch = ty >= 2 && ty != 4 ? '1' + (int)ar.below(9) : ar.chance(1, 8) ? (int)ar.range(0xa1, 0xdf) : 'a' + (int)ar.below(26); text.push_back(ch); in.text.push_back(kana_of(ch)); } hit("typed_ahead"); } sl0 = -1; t = 0; bb0 = w.bbs_prg; hit("lines"); return; }
				if (settled(hold + 60, 100000)){ if (btn && shown(line, cur) && probe_waiting_input(w.ptc)){ ++missed; if (exact_sched){ fail("button-lost", "a press of button A did not end the line"); return; } if (++tries > 30){ fail("button-lost", "30 presses of button A did not end the line"); return; } t = 0; bb0 = w.bbs_prg; return; }
					if (t > 400) fail("end", fmt("%s did not end the line %s; row shows \"%s\", K=%lld", key ? "Enter" : "A", desc(line, cur).c_str(), con_line(probe_cy(w.ptc)).c_str(), (long long)var_int("K"))); }
				return; }
			if (ph == FINAL){ // the panel is as the program left it
				if (!var_is("F", 1)){ if (t > 600) fail("end", "the program did not continue after the last prompt: " + con_all()); return; }
				if (t < 10) { bb0 = w.bbs_prg; return; }
				if (t < 13){ in.touch = true; in.tx = 40 + 7 + 32; in.ty = 80; return; } // third key of the second row
				if (settled(30, 20000)){ fin = true; zwant = 1; } }
		};
		w.on_frame = [&](i64){ return !fin; };
		sim_run(w); account(w);
		v.hash = h2(w.frame, missed); if (v.bad) return v; if (v.invalid) return v;
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!zwant && !left){ v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		hit("nontrivial"); hit("lines"); if (missed) hit("button_presses_missed", missed);
		for (size_t i = 0; i < ps.size(); ++i){
			if (hasstr[i]){ unsigned char b[300]; if (ps[i].it->a[5] % 3 == 0){ int m = probe_str(w.ptc, fmt("B%zu", i + 1).c_str(), b); string g = m >= 0 ? string((char*)b, m) : "?", e = fmt("old%zu", i + 1); hit("shared"); if (g != e){ pi = i; return bad("other-string", fmt("prompt %zu changed B%zu$ from %s to %s", i + 1, i + 1, e.c_str(), g.c_str())); } }
				int n = probe_str(w.ptc, fmt("A%zu", i + 1).c_str(), b); string g = n >= 0 ? string((char*)b, n) : "?"; if (g != str[i]){ vector<int> a, e; for (unsigned char ch : g) a.push_back(ch); for (unsigned char ch : str[i]) e.push_back(ch); pi = i; return bad("string", fmt("prompt %zu: the entered line was %s, but the variable holds %s", i + 1, desc(e, e.size()).c_str(), desc(a, a.size()).c_str())); } }
			if (hasnum[i]){ int x = 0; probe_num(w.ptc, fmt("N%zu", i + 1).c_str(), &x); if (x != (int)(num[i] * 4096)) return bad("number", fmt("prompt %zu: entered %g, the variable holds %g", i + 1, num[i], x / 4096.0)); }
			if (hasnum2[i]){ int x = 0; probe_num(w.ptc, fmt("M%zu", i + 1).c_str(), &x); if (x != (int)(num2[i] * 4096)) return bad("number", fmt("prompt %zu: entered %g as second number, the variable holds %g", i + 1, num2[i], x / 4096.0)); } }
		if (left) return v;
		int z = (int)var_int("Z", 0); bool types = ptype >= 2; if (types != (z != 0)) return bad("panel", fmt("after the prompts the on-screen keyboard %s although PNLTYPE is %s", z ? "types" : "does not type", TN[ptype]));
		return v;
	}
	static void insert_text(const string& g, vector<u32>& text, vector<int>& line, size_t& cur){ text.clear(); for (unsigned char ch : g){ text.push_back(ch); line.push_back(ch); } cur = line.size(); }
};
static Reg r11(new LineScenario);
