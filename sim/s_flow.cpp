// P29: loops, subroutines and jumps nest in any order.  Programs of FOR, NEXT, GOSUB, RETURN, GOTO, ON
// and IF in arbitrary order keep a trace of the statements carried out; the trace, the variables and the
// error must be those of a stack machine, whatever moment SELECT stops the program at.
#include "sim.h"
extern "C" const void* probe_code(void* ptc);
static string nl(string s){ for (auto& c : s) if (c == '\r') c = '\n'; return s; }
namespace {
enum { FOR, NEXT, NEXTV, GOSUB, RET, GOTO, IFGOTO, IFGOSUB, IFELSE, IFRET, IFNEXT, ONGOTO, ONGOSUB, INC, SET, STRGO, WAIT_, ENDP, NOLABEL, KINDS };
struct M { int k, v, a, b, c, form; int l[3]; bool join; };
static const char* VN[4] = {"VA", "LOOPCOUNT", "V_C3", "NAMEOFSIXTEENCHR"};
typedef std::array<i64, 4> Vars;
struct Flow {
	vector<string> name; int more = 0; // labels, and labels nothing goes to
	void names(i64 seed, int extra){ // names of up to 16 characters, alike at the beginning or at the end
		name.clear(); more = 0; if (!seed){ for (size_t i = 0; i < m.size(); ++i) name.push_back(fmt("L%zu", i)); return; }
		Rng r((u64)seed); std::set<string> used{"NONE"}; vector<string> stems; static const char C[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"; auto word = [&](int n){ string s; while (n-- > 0) s += C[r.below(37)]; return s; };
		for (int i = 0; i < 3; ++i) stems.push_back(word((int)r.range(1, 15)));
		for (size_t i = 0; i < m.size() + extra; ++i){ string s; for (;;){ const string& q = stems[r.below(3)]; int room = 16 - (int)q.size(); s = i >= m.size() ? word((int)r.range(3, 8)) : r.chance(1, 4) ? word((int)r.range(1, 16)) : r.chance(1, 2) ? q + word((int)r.range(r.chance(1, 2) ? room : 0, room)) : word((int)r.range(0, room)) + q; if (used.insert(s).second) break; if (r.chance(1, 4)) stems[r.below(3)] = word((int)r.range(1, 15)); } name.push_back(s); }
		more = extra; }
	vector<M> m; int cap = 100; vector<int> trace; vector<Vars> snap; Vars v; string err; bool ambiguous = false, capped = false; int deepest = 0, left = 0, skips = 0;
	static string num(int h){ string s = h < 0 ? "(0-" : ""; int q = std::abs(h); s += fmt("%d", q / 2); if (q & 1) s += ".5"; if (h < 0) s += ")"; return s; }
	string cond(const M& x) const { switch (x.c % 4){ case 0: return fmt("%s<%d", VN[x.b & 3], x.a); case 1: return fmt("T%%%d==%d", 2 + x.a % 3, x.b % 2); case 2: return fmt("%s%%2", VN[x.b & 3]); default: return fmt("%s!=%d", VN[x.b & 3], x.a); } }
	i64 val(int h) const { return (i64)h * 2048; }
	bool truth(const M& x) const { i64 y = v[x.b & 3]; switch (x.c % 4){ case 0: return y < (i64)x.a * 4096; case 1: return (int)trace.size() % (2 + x.a % 3) == x.b % 2; case 2: return y % 8192 != 0; default: return y != (i64)x.a * 4096; } }
	// FOR: form bit 0: the end is a variable, bit 1: STEP, bit 2: the step is a variable, bit 3: the start is a variable
	string text(const M& x) const { const char* V = VN[x.v & 3]; auto L = [&](int i){ return "@" + name[x.l[i]]; };
		switch (x.k){
			case FOR: { string s = string("FOR ") + V + "=" + (x.form & 8 ? string(VN[(x.v + 1) & 3]) : num(x.a * 2)) + " TO " + (x.form & 1 ? VN[(x.v + 2) & 3] + string("%5") : num(x.b * 2)); if (x.form & 2) s += " STEP " + (x.form & 4 ? string(VN[(x.v + 3) & 3]) + "%3" : num(x.c)); return s; }
			case NEXT: return "NEXT"; case NEXTV: return string("NEXT ") + V; case GOSUB: return "GOSUB " + L(0); case RET: return "RETURN"; case GOTO: return "GOTO " + L(0);
			case IFGOTO: return "IF " + cond(x) + (x.form & 1 ? " THEN " : " GOTO ") + L(0); case IFGOSUB: return "IF " + cond(x) + " THEN GOSUB " + L(0); case IFELSE: return "IF " + cond(x) + " THEN GOSUB " + L(0) + " ELSE " + (x.form & 1 ? "GOSUB " + L(1) : x.form & 2 ? "GOTO " + L(1) : L(1));
			case IFRET: return "IF " + cond(x) + " THEN RETURN"; case IFNEXT: return "IF " + cond(x) + " THEN NEXT" + (x.form & 1 ? string(" ") + V : "");
			case ONGOTO: case ONGOSUB: return string("ON ") + VN[x.b & 3] + (x.k == ONGOTO ? "%4 GOTO " : "%4 GOSUB ") + L(0) + "," + L(1) + "," + L(2);
			case INC: return string(V) + "=" + V + "+" + num(x.a); case SET: return string(V) + "=" + num(x.a); case STRGO: return string(x.form & 1 ? "GOSUB " : "GOTO ") + spelled(name[x.l[0]]); case WAIT_: return "WAIT 1"; case ENDP: return "END"; case NOLABEL: return string(x.form & 1 ? "GOSUB " : "GOTO ") + "@NONE"; }
		return ""; }
	static string spelled(const string& n){ size_t k = n.size(); while (k && isdigit((unsigned char)n[k - 1])) --k; if (k < n.size() && n.size() - k < 5 && n[k] != '0') return "\"@" + n.substr(0, k) + "\"+STR$(" + n.substr(k) + ")"; return "\"@" + n.substr(0, n.size() / 2) + "\"+\"" + n.substr(n.size() / 2) + "\""; }
	bool lineonly(int k) const { return k == IFGOTO || k == IFGOSUB || k == IFELSE || k == IFRET || k == IFNEXT; }
	string program() const {
		string s = "X9=0:CLEAR\rCLS\rDIM R(1000)\r"; for (int i = 0; i < 4; ++i) s += fmt("%s=0\r", VN[i]); s += "T=0\rX9=1\r";
		for (int i = 0; i < more; ++i) if (i & 1) s += "@" + name[m.size() + i] + "\r";
		for (size_t i = 0; i < m.size(); ++i){ bool j = m[i].join; s += "@" + name[i] + fmt("\rIF T>=%d THEN END\r", cap) + fmt("R(T)=%zu:T=T+1", i) + (j ? ":" : "\r") + text(m[i]) + "\r"; }
		if (more) s += "END\r"; for (int i = 0; i < more; i += 2) s += "@" + name[m.size() + i] + "\r";
		return s; }
	struct E { bool loop; int at, v; };
	void run(){
		vector<E> st; v = Vars{{0, 0, 0, 0}}; size_t pc = 0; const size_t SIZE = 255; auto fail = [&](const char* e){ err = e; };
		while (pc < m.size() && err.empty()){
			if ((int)trace.size() >= cap){ capped = true; break; } const M& x = m[pc]; trace.push_back((int)pc); snap.push_back(v); ++pc; deepest = std::max(deepest, (int)st.size());
			auto end = [&](const M& f){ return f.form & 1 ? v[(f.v + 2) & 3] % (5 * 4096) : val(f.b * 2); }; auto step = [&](const M& f){ return !(f.form & 2) ? (i64)4096 : f.form & 4 ? v[(f.v + 3) & 3] % (3 * 4096) : val(f.c); };
			auto out = [&](const M& f){ i64 s = step(f), e = end(f), y = v[f.v & 3]; return s < 0 ? e > y : e < y; };
			auto gosub = [&](int l){ if (st.size() == SIZE) return fail("Out of memory"); st.push_back({false, (int)pc, 0}); pc = l; };
			auto next = [&](int var){ int i = (int)st.size() - 1; while (i >= 0 && !(st[i].loop && (var < 0 || st[i].v == var))) --i; if (i < 0) return fail("Can't find a matching FOR for this NEXT");
				const M& f = m[st[i].at]; v[f.v & 3] += step(f); if (i + 1 < (int)st.size()) ++left; if (out(f)) st.erase(st.begin() + i); else pc = st[i].at + 1; };
			auto ret = [&]{ int i = (int)st.size() - 1; while (i >= 0 && st[i].loop) --i; if (i < 0) return fail("RETURN without GOSUB"); if (i + 1 < (int)st.size()) ++left; pc = st[i].at; st.resize(i); };
			switch (x.k){
				case FOR: { v[x.v & 3] = x.form & 8 ? v[(x.v + 1) & 3] : val(x.a * 2); if (st.size() == SIZE){ fail("Out of memory"); break; } st.push_back({true, (int)pc - 1, x.v & 3});
					if (out(x)){ st.pop_back(); ++skips; vector<int> open{x.v & 3}; size_t i = pc; // the loop's own NEXT
						for (; i < m.size() && !open.empty(); ++i){ if (m[i].k == FOR) open.push_back(m[i].v & 3); else if (m[i].k == NEXT) open.pop_back(); else if (m[i].k == NEXTV){ if (open.back() == (m[i].v & 3) && (open.size() == 1 || (x.v & 3) != (m[i].v & 3))) open.pop_back(); else { ambiguous = true; return; } } else if (m[i].k == IFNEXT){ ambiguous = true; return; } }
						if (!open.empty()) fail("Can't find a matching NEXT for this FOR"); else pc = i; } break; }
				case NEXT: next(-1); break; case NEXTV: next(x.v & 3); break; case GOSUB: gosub(x.l[0]); break; case RET: ret(); break; case GOTO: pc = x.l[0]; break;
				case IFGOTO: if (truth(x)) pc = x.l[0]; break; case IFGOSUB: if (truth(x)) gosub(x.l[0]); break; case IFELSE: if (truth(x)) gosub(x.l[0]); else if (x.form & 1) gosub(x.l[1]); else pc = x.l[1]; break;
				case IFRET: if (truth(x)) ret(); break; case IFNEXT: if (truth(x)) next(x.form & 1 ? x.v & 3 : -1); break;
				case ONGOTO: case ONGOSUB: { i64 i = (v[x.b & 3] % (4 * 4096)) >> 12; if (i >= 0 && i < 3){ if (x.k == ONGOTO) pc = x.l[i]; else gosub(x.l[i]); } break; }
				case INC: v[x.v & 3] += val(x.a); break; case SET: v[x.v & 3] = val(x.a); break; case STRGO: if (x.form & 1) gosub(x.l[0]); else pc = x.l[0]; break; case ENDP: pc = m.size(); break; case NOLABEL: fail("Label not found"); break; default: break; } }
		if (err.empty()) err = "OK"; }
};
struct FlowScenario : Scenario {
	FlowScenario(){ id = "P29"; }
	// subroutines with loops that are left early, by RETURN, NEXT of an outer loop or a jump
	static void nests(Case& c, Rng& r){
		struct S { vector<i64> a; int sub, rel; }; vector<S> o; vector<int> start; int subs = (int)r.range(1, 4); vector<int> open; int cur = 0;
		auto put = [&](int k, int v, i64 a, i64 b, i64 cc, i64 form, int sub = -1, int rel = 0){ o.push_back({{k, v, a, b, cc, form, 0, 0, 0, (i64)r.chance(1, 3)}, sub, rel}); };
		std::function<void(int)> block = [&](int depth){ int n = (int)r.range(1, depth ? 3 : 4);
			for (int i = 0; i < n && o.size() < 60; ++i){ int q = (int)r.below(12), fresh = open.empty() ? (int)r.below(4) : (open.back() + (int)r.range(1, 4)) & 3;
				if (q < 4 && depth < 4){ put(FOR, fresh, r.range(0, 2), r.range(1, 5), r.pick(vector<int>{1, 2, 4, 3}), r.chance(1, 3) ? 2 : 0); open.push_back(fresh); block(depth + 1); put(r.chance(1, 2) ? NEXT : NEXTV, fresh, 0, 0, 0, 0); open.pop_back(); }
				else if (q < 6){ int s = (int)r.below(subs); if (s >= cur || r.chance(1, 6)) put(r.chance(1, 3) ? IFGOSUB : GOSUB, 0, r.range(0, 4), r.below(4), r.below(4), 0, s); }
				else if (q == 6 && cur) put(r.chance(1, 4) ? RET : IFRET, 0, r.range(0, 3), r.below(4), r.below(4), 0);
				else if (q == 7 && !open.empty()) put(r.chance(1, 5) ? NEXTV : IFNEXT, open[r.below(open.size())], r.range(0, 3), r.below(4), r.below(4), 1);
				else if (q == 8) put(IFGOTO, 0, r.range(0, 4), r.below(4), r.below(4), 0, -1, (int)r.range(1, 5));
				else if (q == 9) put(INC, (int)r.below(4), r.range(0, 2), 0, 0, 0);
				else if (q == 10) put(r.chance(1, 2) ? ONGOSUB : IFELSE, 0, r.range(0, 3), r.below(4), r.below(4), 1, (int)r.below(subs));
				else put(WAIT_, 0, r.below(3), 0, 0, 0); } };
		block(0); put(ENDP, 0, 0, 0, 0, 0);
		for (cur = 1; cur <= subs; ++cur){ start.push_back((int)o.size()); open.clear(); block(0); if (cur > 1 && r.chance(1, 8)) continue; put(RET, 0, 0, 0, 0, 0); }
		for (size_t i = 0; i < o.size(); ++i){ Item it; it.kind = "stmt"; it.a = o[i].a; int t = o[i].sub >= 0 ? start[o[i].sub] : std::min((int)o.size() - 1, (int)i + o[i].rel); for (int j = 6; j < 9; ++j) it.a[j] = o[i].sub >= 0 && j > 6 ? start[r.below(subs)] : t; c.items.push_back(it); }
	}
	Case gen(u64 seed, bool th) override {
		Case c; Rng r(seed); gen_sched(c, r); int style = (int)r.below(4), n = (int)r.range(4, th ? 40 : 22), live = 1 + (int)r.below(4); c.p["cap"] = style == 3 ? 900 : r.range(20, 220); c.p["keys"] = r.below(2); c.p["names"] = r.chance(2, 3) ? (i64)r.range(1, 1 << 30) : 0; c.p["more"] = r.chance(1, 25) ? (r.chance(1, 2) ? 9999 : (i64)r.below(2000)) : r.chance(1, 5) ? (i64)r.below(30) : 0;
		vector<int> open; // mostly sensible nests, then jumps anywhere
		if (r.chance(2, 5)) nests(c, r), n = 0;
		for (int i = 0; i < n; ++i){ Item it; it.kind = "stmt"; int k; static const int w0[] = {FOR, FOR, FOR, NEXT, NEXTV, NEXT, GOSUB, GOSUB, RET, GOTO, IFGOTO, IFGOTO, IFGOSUB, IFELSE, IFRET, IFNEXT, ONGOTO, ONGOSUB, INC, SET, STRGO, WAIT_}; k = w0[r.below(22)]; if (r.chance(1, 60)) k = r.chance(1, 2) ? ENDP : NOLABEL;
			if (style == 1 && r.chance(1, 2)) k = r.chance(1, 2) ? FOR : r.chance(1, 2) ? NEXT : NEXTV; if (style == 3 && r.chance(1, 3)) k = r.chance(1, 2) ? FOR : GOSUB; int v = (int)r.below(live); if (k == NEXTV || k == IFNEXT){ if (!open.empty() && r.chance(3, 4)) v = open[r.chance(3, 4) ? open.size() - 1 : r.below(open.size())]; } if (k == FOR){ if (r.chance(2, 3)) v = (int)open.size() & 3; open.push_back(v); } else if ((k == NEXT || k == NEXTV) && !open.empty()) open.pop_back();
			int lab = (int)r.below(n), back = (int)std::max<i64>(0, i - r.range(0, 5)); auto target = [&]{ return (i64)(r.chance(1, 3) ? back : r.chance(1, 2) ? lab : std::min(n - 1, i + (int)r.range(1, 6))); };
			it.a = {k, v, k == FOR ? r.range(-1, 3) : r.range(0, 5), k == FOR ? r.range(-1, 5) : (i64)r.below(4), k == FOR ? (i64)r.pick(vector<int>{1, 2, 4, -2, -1, 3, 0}) : (i64)r.below(4), k == FOR ? (r.chance(1, 3) ? (i64)r.below(16) : r.chance(1, 2) ? 2 : 0) : (i64)r.below(4), target(), target(), target(), (i64)r.chance(1, 3)}; c.items.push_back(it); }
		int rounds = (int)r.range(1, 3); for (int i = 0; i < rounds; ++i){ Item it; it.kind = "round"; it.fixed = i == 0; it.a = {i + 1 < rounds || r.chance(1, 3) ? r.logu(1, 80) : 0, r.range(1, 5)}; c.items.push_back(it); }
		return c;
	}
	Verdict exec(const Case& c) override {
		Verdict v; static Flow F; F = Flow(); F.cap = (int)c.get("cap", 100); static vector<const Item*> rounds; rounds.clear(); int n = 0;
		for (auto& it : c.items) if (it.kind == "stmt") ++n; else if (it.kind == "round") rounds.push_back(&it);
		if (!n || rounds.empty()){ v.invalid = true; return v; }
		for (auto& it : c.items) if (it.kind == "stmt"){ M m; m.k = (int)(it.a[0] % KINDS); m.v = (int)it.a[1]; m.a = (int)it.a[2]; m.b = (int)it.a[3]; m.c = (int)it.a[4]; m.form = (int)it.a[5]; for (int i = 0; i < 3; ++i) m.l[i] = (int)(it.a[6 + i] % n); m.join = it.a[9] && !F.lineonly(m.k); F.m.push_back(m); }
		F.names(c.get("names"), (int)std::min<i64>(c.get("more"), 2048 - n)); if (F.more > 1000) hit("many_labels");
		string src = F.program(); if (getenv("SIM_DUMP")) fprintf(stderr, "%s\n", nl(src).c_str()); F.run(); F.snap.push_back(F.v);
		Disk d; base_disk(d); d["programs/MAIN.PTC"] = prg_file(src);
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 120000; w.max_bbs = 120000000;
		static bool fin; fin = false; static size_t round; round = 0; static int ph; ph = 0; static i64 t, rd, bb0; t = rd = bb0 = 0; static i64 t1; t1 = 0; static bool pressed; pressed = false; static Typist ty; ty = Typist(); static Verdict* pv; pv = &v; static Rng kr(1); kr = Rng(c.seed); bool keys = c.get("keys");
		auto fail = [=](const string& cls, const string& m){ *pv = bad(cls, fmt("run %zu: ", round + 1) + m + "\nscreen: " + con_line(0) + "\n" + nl(src)); fin = true; };
		auto check = [=]{
			if (!var_is("X9", 1)){ hit("stopped_early"); return; } i64 T = var_int("T", 0); i64 N = (i64)F.trace.size(); i64 know = N; // what the model knows
			for (i64 i = 0; i < T && i < know; ++i){ int x = 0; if (!probe_arr(W->ptc, "R", (int)i, &x)){ fail("trace", "the trace is gone"); return; } if (x >> 12 != F.trace[i]){ string h; for (i64 j = std::max<i64>(0, i - 5); j < i; ++j) h += fmt("%d ", F.trace[j]); fail("trace", fmt("statement %lld carried out is number %d instead of number %d (after %s)", (long long)i + 1, x >> 12, F.trace[i], h.c_str())); return; } }
			hit("traced", std::min(T, know)); if (F.ambiguous && T > know){ hit("beyond_model"); return; }
			string scr = con_line(0); scr.resize(32, ' '); scr += con_line(1); scr.resize(F.err.size()); if (F.err == "OK") scr = con_line(0); bool stopped = pressed && T <= N && !(scr == F.err);
			if (T > N){ fail("trace", fmt("%lld statements were carried out instead of %lld", (long long)T, (long long)N)); return; }
			if (!stopped && !F.ambiguous){ if (T != N){ fail("ended", fmt("the program ended after %lld of %lld statements", (long long)T, (long long)N)); return; } if (scr.compare(0, F.err.size(), F.err)){ fail("error", "the program ended with \"" + scr + "\" instead of \"" + F.err + "\""); return; } hit("end:" + F.err); }
			else { if (F.ambiguous && !pressed){ return; } hit("stopped"); }
			Vars o; for (int i = 0; i < 4; ++i){ int x = 0; probe_num(W->ptc, VN[i], &x); o[i] = x; } bool ok = false; size_t lo = stopped && T > 0 ? (size_t)T - 1 : (size_t)T, hi = (size_t)T; if (F.ambiguous && hi >= F.snap.size() - 1) return; if (F.err != "OK" && !stopped && T > 0) lo = (size_t)T - 1; for (size_t i = lo; i <= hi && i < F.snap.size(); ++i) if (F.snap[i] == o) ok = true;
			if (!ok){ const Vars& e = F.snap[std::min(hi, F.snap.size() - 1)]; string s; for (int i = 0; i < 4; ++i) s += fmt(" %s=%g (%g)", VN[i], o[i] / 4096.0, e[i] / 4096.0); fail("variables", fmt("after %lld statements:", (long long)T) + s); return; } };
		w.input = [=](i64, InFrame& in){
			if (!W->ptc || fin) return; ++t; bool ready = probe_waiting_input(W->ptc); rd = ready ? rd + 1 : 0; const Item& it = *rounds[round]; if (keys && ph == 0 && kr.chance(1, 4)) in.buttons = (u32)kr.below(1 << 4);
			if (ph == 0){ if (rd > 4 && t > 3 && W->sleeps > 3 && (round > 0 || W->bbs_prg > 20000)){ check(); hit("runs"); if (fin) return; if (++round >= rounds.size()){ fin = true; return; } ph = 1; t = 0; return; }
				if (W->bbs_prg - bb0 > 60000000){ fail("stuck", "the program never ends"); return; } if (it.a[0] && var_is("X9", 1)) ++t1; if (it.a[0] && t1 >= it.a[0] && t1 < it.a[0] + it.a[1]){ in.buttons |= 1u << 11; pressed = true; } return; }
			if (ph == 1){ if (t < 10 || rd <= 4) return; ty = Typist(); ty.per_frame = 4; ty.add("X9=2", []{ return var_is("X9", 2); }, 3000); ty.add(round & 1 ? "RUN" : "EXEC\"MAIN\"", []{ return !var_is("X9", 2); }, 3000); ph = 2; }
			if (ph == 2){ ty.frame(in); if (!ty.idle()) return; if (ty.failed){ fail("prompt", "the prompt does not work: " + ty.fail_at); return; } ph = 0; t = 0; rd = 0; t1 = 0; pressed = false; bb0 = W->bbs_prg; } };
		w.on_frame = [](i64){ return !fin; };
		sim_run(w); account(w); v.hash = h2(w.frame, w.bbs_prg); if (v.bad) return v;
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!fin){ v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		hit("nontrivial"); if (F.skips) hit("loops_skipped", F.skips); if (F.left) hit("left_open", F.left); if (F.deepest > 250) hit("stack_full"); return v;
	}
};
}
static Reg r29(new FlowScenario);
