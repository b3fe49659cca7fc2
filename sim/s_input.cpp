// P07: key queue.  P08: buttons.  P09: touch panel.  P10: on-screen keyboard.
#include "sim.h"
int fakesf_mode();

// the kana the host keyboard can produce: PTC character -> unicode
static const u32 KANA[] = { 0x3002,0x300c,0x300d,0x3001,0x30fb,0x30f2,0x30a1,0x30a3,0x30a5,0x30a7,0x30a9,0x30e3,0x30e5,0x30e7,0x30c3,0x30fc,0x30a2,0x30a4,0x30a6,0x30a8,0x30aa,0x30ab,0x30ad,0x30af,0x30b1,0x30b3,0x30b5,0x30b7,0x30b9,0x30bb,0x30bd,0x30bf,
 0x30c1,0x30c4,0x30c6,0x30c8,0x30ca,0x30cb,0x30cc,0x30cd,0x30ce,0x30cf,0x30d2,0x30d5,0x30d8,0x30db,0x30de,0x30df,0x30e0,0x30e1,0x30e2,0x30e4,0x30e6,0x30e8,0x30e9,0x30ea,0x30eb,0x30ec,0x30ed,0x30ef,0x30f3,0x309b,0x309c }; // 0xa1..0xdf
static const i64 QCAP = 256;

// ---------------------------------------------------------------- P07
struct KeyScenario : Scenario {
	KeyScenario(){ id = "P07"; }
	Case gen(u64 seed, bool) override {
		Case c; Rng r(seed); gen_sched(c, r);
		c.p["src"] = r.below(5);        // 0,1 typed; 2 typed with overflow; 3 auto-input file; 4 both
		c.p["reader"] = r.below(6); c.p["wait"] = r.chance(1, 2) ? r.range(1, 6) : 0; c.p["busy"] = r.chance(1, 3) ? r.logu(1, 120) : 0;
		c.p["modes"] = r.chance(1, 3); c.p["noise"] = r.below(8); c.p["flen"] = r.chance(1, 2) ? r.range(1, 300) : r.range(200, 900);
		int n = (int)r.range(1, 25);
		for (int i = 0; i < n; ++i){ Item it; it.kind = "type"; i64 k = c.p["src"] == 2 ? r.range(1, r.chance(1, 3) ? 300 : 60) : r.chance(1, 5) ? r.range(20, 128) : r.range(1, 6); it.a = {k, (i64)r.below(4) ? (i64)r.below(4) : (i64)r.range(0, 40), (i64)r.below(1u << 30), (i64)r.below(3)}; c.items.push_back(it); }
		return c;
	}
	Verdict exec(const Case& c) override {
		Disk d; base_disk(d);
		int src = (int)c.get("src"), rd = (int)c.get("reader"); bool file = src >= 3, typed = src != 3;
		string s = "DIM R[4000]\rN=0:B=0:A=0\r@L\r";
		if (rd == 3) s += "GOSUB @G\r"; else if (rd == 1) s += "C$=INKEY$()+INKEY$()\rFOR I=1 TO LEN(C$)\rR[N]=ASC(MID$(C$,I-1,1)):N=N+1\rNEXT\r";
		else if (rd == 2) s += "FOR I=1 TO 5\rC$=INKEY$()\rIF C$!=\"\" THEN R[N]=ASC(C$):N=N+1\rNEXT\r";
		else if (rd == 4) s += "C$=INKEY$():D$=INKEY$()\rIF C$!=\"\" THEN R[N]=ASC(C$):N=N+1\rIF D$!=\"\" THEN R[N]=ASC(D$):N=N+1\r";
		else if (rd == 5) s += "C$=\"\":C$=C$+INKEY$()\rIF LEN(C$) THEN R[N]=ASC(C$):N=N+1\r";
		else s += "C$=INKEY$()\rIF C$!=\"\" THEN R[N]=ASC(C$):N=N+1\r";
		s += "B=B+1\r";
		if (c.get("busy")) s += fmt("FOR J=1 TO %lld\rA=J*2\rNEXT\r", (long long)c.get("busy"));
		if (c.get("wait")) s += fmt("IF B%%7==0 THEN WAIT %lld\r", (long long)c.get("wait"));
		s += "GOTO @L\r@G\rC$=INKEY$()\rIF C$==\"\" THEN RETURN\rR[N]=ASC(C$):N=N+1\rRETURN\r";
		d["programs/MAIN.PTC"] = prg_file(s);
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 6000; w.max_bbs = 60000000;
		string fdata; Rng fr(c.seed ^ 77);
		if (file){ i64 n = c.get("flen"); for (i64 i = 0; i < n; ++i){ int ch; if (src == 4) ch = 'a' + (int)fr.below(26); else { ch = (int)fr.range(1, 255); } fdata += (char)ch; } d["auto.txt"] = fdata; w.argv.push_back("auto.txt"); }
		vector<const Item*> op; for (auto& it : c.items) if (it.kind == "type") op.push_back(&it);
		struct Sent { int ch; i64 lo, hi; }; vector<Sent> sent; vector<int> must; // typed characters and the program's count around them
		size_t at = 0; i64 gap = 0, idle = 0, lastN = -1, idlebb = 0; bool fin = false; Rng nr(c.seed ^ 9); i64 outstanding_max = 0; size_t framefirst = 0; bool started = false; i64 starve = 0;
		Verdict v;
		w.input = [&](i64 f, InFrame& in){
			if (!w.ptc || var_int("B", 0) < 1){ if (!started) return; }
			started = true;
			i64 N = var_int("N", 0);
			int nz = (int)c.get("noise"); if (nz & 1) if (nr.chance(1, 4)) in.buttons |= (u32)nr.below(1 << 11); if (nz & 2) if (nr.chance(1, 4)){ in.touch = true; in.tx = (int)nr.below(256); in.ty = 17 + (int)nr.below(30); }
			if (c.get("modes") && nr.chance(1, 6)) in.modekey = true;
			framefirst = sent.size();
			if (typed && at < op.size()){
				const Item& o = *op[at];
				if (gap < o.a[1]) { ++gap; }
				else {
					i64 out = (i64)sent.size() - N;
					if (src == 2 ? true : src == 4 ? true : out + o.a[0] <= QCAP || out == 0){
						Rng tr(o.a[2] ^ c.seed); ++at; gap = 0; starve = 0;
						for (i64 i = 0; i < o.a[0]; ++i){
							int kind = src == 4 ? 3 : o.a[3]; u32 u; int ch;
							if (kind == 1 || (kind == 2 && tr.chance(1, 2))){ ch = (int)tr.range(0xa1, 0xdf); u = KANA[ch - 0xa1]; }
							else { do ch = kind == 3 ? 'A' + (int)tr.below(26) : (int)tr.range(tr.chance(1, 10) ? 1 : 32, tr.chance(1, 20) ? 128 : 126); while (ch == 8 || ch == 13 || ch == 27); u = ch; }
							in.text.push_back(u);
							if (u <= 128 && fakesf_mode() == 1) { hit("typed_in_button_mode"); continue; } // not a character then
							sent.push_back({ch, N, N});
						}
						if (tr.chance(1, 10)){ static const u32 non[] = {8, 13, 27, 200, 0x2603, 0x3100, 0x3000, 0x3042, 0x30f4, 0x3064}; in.text.push_back(non[tr.below(10)]); hit("non_characters"); }
						outstanding_max = std::max(outstanding_max, (i64)sent.size() - N);
					} else if (++starve > 3000) fin = true;
				}
			}
			if (at >= op.size() || !typed){ i64 bb = var_int("B"); if (N != lastN){ lastN = N; idle = f; idlebb = bb; } else if (f - idle > 20 && bb - idlebb >= 4) fin = true; }
		};
		w.on_frame = [&](i64){ i64 N = var_int("N", 0); for (size_t i = framefirst; i < sent.size(); ++i) sent[i].hi = N + 2; framefirst = sent.size(); return !fin; };
		sim_run(w); account(w);
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!started){ v.invalid = true; hit("capped:nostart"); return v; }
		i64 N = var_int("N", 0); vector<int> got; for (i64 i = 0; i < N; ++i){ int x = 0; probe_arr(w.ptc, "R", (int)i, &x); got.push_back(x >> 12); }
		v.hash = h2(N, w.frame); for (int g : got) v.hash = h2(v.hash, g);
		if (!fin || starve > 3000){ if (probe_err(w.ptc) != probe_err_none() && probe_waiting_input(w.ptc)) return bad("stopped", "the reading program stopped: " + con_all()); v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		hit("nontrivial"); hit("keys_received", N); if (outstanding_max >= QCAP) hit("queue_overflowed");
		auto show = [&](const vector<int>& a, size_t i){ string o; for (size_t k = i > 4 ? i - 4 : 0; k < a.size() && k < i + 5; ++k) o += fmt(k == i ? "[%d] " : "%d ", a[k]); return o; };
		auto exact = [&](const vector<int>& want, const vector<int>& have, const char* what) -> bool {
			size_t i = 0; while (i < want.size() && i < have.size() && want[i] == have[i]) ++i;
			if (i == want.size() && i == have.size()) return true;
			v = bad(i < have.size() ? "wrong-key" : "lost-key", fmt("%s: %zu keys were sent, %zu received; they differ at key %zu: sent ...%s, received ...%s", what, want.size(), have.size(), i, show(want, i).c_str(), show(have, i).c_str())); return false; };
		vector<int> tw; for (auto& x : sent) tw.push_back(x.ch);
		if (src == 3){ vector<int> fw; for (unsigned char ch : fdata) fw.push_back(ch); exact(fw, got, "auto-input file"); if (v.bad) return v; hit("file_runs"); return v; }
		if (src == 4){ vector<int> g1, g2, fw; for (int g : got) (g >= 'a' && g <= 'z' ? g1 : g2).push_back(g); for (unsigned char ch : fdata) fw.push_back(ch); if (!exact(fw, g1, "auto-input file (while typing)")) return v; size_t j = 0; for (size_t i = 0; i < tw.size() && j < g2.size(); ++i) if (tw[i] == g2[j]) ++j; if (j < g2.size()) return bad("wrong-key", fmt("typed characters received while the auto-input file was read are not a subsequence of the typed ones, first bad one: %s", show(g2, j).c_str())); hit("both_runs"); return v; }
		if (src < 2){ exact(tw, got, "typed"); return v; }
		// overflow: reachable states (i typed, j accepted)
		size_t S = sent.size(), R = got.size(); vector<char> cur(R + 1, 0), nx(R + 1, 0); cur[0] = 1; size_t far = 0;
		for (size_t i = 0; i < S; ++i){ std::fill(nx.begin(), nx.end(), 0); bool any = false;
			for (size_t j = 0; j <= R; ++j) if (cur[j]){
				if (j < R && tw[i] == got[j] && (i64)j - sent[i].hi < QCAP){ nx[j+1] = 1; any = true; }
				if ((i64)j - sent[i].lo >= QCAP){ nx[j] = 1; any = true; } }
			if (!any){ far = i; size_t j = 0; for (size_t q = 0; q <= R; ++q) if (cur[q]) j = q; return bad("lost-key", fmt("typed key %zu (code %d) is not explained: about %zu keys had been accepted, the program had read %lld..%lld, the queue holds %lld; received there ...%s", far, tw[i], j, (long long)sent[i].lo, (long long)sent[i].hi, (long long)QCAP, show(got, std::min(j, R ? R-1 : 0)).c_str())); }
			cur.swap(nx); }
		if (!cur[R]) return bad("wrong-key", fmt("%zu keys typed, %zu received: no legal way to explain what was received", S, R));
		return v;
	}
};
static Reg r7(new KeyScenario);

// ---------------------------------------------------------------- windows of frames
// state[i+1] is what the program may see after frame i has been processed; state[0] at start
struct Window {
	World& w; bool slop; i64 lastK=0, lastE=0, pf=0, fK=0;
	Window(World& ww, const Case& c) : w(ww){ slop = c.get("w_preempt") != 0 || c.explicit_sched; }
	// calls f(k, lo, hi): read k happened when states lo..hi were current
	template<class F> void on_switch(F f){
		i64 K = var_int("K", 0), E = var_int("E", 0);
		if (K != lastK){ lastK = K; fK = pf; }
		if (E != lastE && E > 0){ lastE = E; f(E, fK, w.frame + (slop ? 1 : 0)); }
		pf = w.frame;
	}
};
static bool check_repeat_model(i64 t, i64 start, i64 rep){ if (rep > 0 && t > start) return (t - 1 - start) % (rep + 1) == 0; return t == 1; }
static void gen_gaps(Case& c, Rng& r, int lo, int hi, int kinds){
	int n = (int)r.range(lo, hi);
	for (int i = 0; i < n; ++i){ Item it; it.kind = "read"; it.a = {(i64)r.below(kinds), r.chance(1, 3) ? r.range(0, 30) : r.chance(1, 2) ? 1 : 0, r.chance(1, 5) ? (i64)r.range(1, 300) : 0, (i64)r.below(13), (i64)r.below(20), (i64)r.below(8)}; c.items.push_back(it); }
}
static string gap_src(const Item& o){ string s; if (o.a[2]) s += fmt("FOR I=1 TO %lld\rA=I*2\rNEXT\r", (long long)o.a[2]); if (o.a[1]) s += fmt("VSYNC %lld\r", (long long)o.a[1]); return s; }

// ---------------------------------------------------------------- P08
struct ButtonScenario : Scenario {
	ButtonScenario(){ id = "P08"; }
	Case gen(u64 seed, bool) override {
		Case c; Rng r(seed); gen_sched(c, r); gen_gaps(c, r, 4, 30, 8);
		c.p["style"] = r.below(5); c.p["modes"] = r.chance(1, 2); c.p["noise"] = r.below(4); c.p["clk"] = 0; if (r.chance(1, 8)){ c.p["long"] = r.range(100, 900); c.p["modes"] = 0; if (r.chance(3, 4)){ Item b; b.kind = "read"; b.a = {7, 0, 0, r.range(0, 11), r.range(0, 40), 1 + r.range(0, 30)}; c.items.insert(c.items.begin(), b); } }
		return c;
	}
	Verdict exec(const Case& c) override {
		Disk d; base_disk(d);
		vector<const Item*> op; for (auto& it : c.items) if (it.kind == "read") op.push_back(&it);
		string s = "A=0:E=0:K=0:V=0:U=0\rVSYNC 2\r"; int k = 0; i64 lng = c.get("long");
		static const char* frm[] = { "V=BUTTON()", "V=BUTTON(0)", "V=BUTTON(1)", "V=BTRIG()", "V=BUTTON(2)", "V=BUTTON(3)", "V=BUTTON():U=BTRIG()", "" };
		vector<i64> st(13, 0), rp(13, 0); struct R { int kind; vector<i64> st, rp; }; vector<R> rds;
		bool first = lng > 0; for (auto* o : op){ s += gap_src(*o); int kind = (int)o->a[0] & 7; if (first && kind != 7){ first = false; s += fmt("VSYNC %lld\r", (long long)lng); }
			if (kind == 7){ i64 b = o->a[3]; if (o->a[5] == 0){ s += fmt("BREPEAT %lld\r", (long long)b); st[b] = rp[b] = 0; } else { s += fmt("BREPEAT %lld,%lld,%lld\r", (long long)b, (long long)o->a[4], (long long)o->a[5] - 1); st[b] = o->a[4]; rp[b] = o->a[5] - 1; } continue; }
			++k; s += fmt("K=%d\r%s\rE=%d\rVSYNC 1\r", k, frm[kind], k); rds.push_back({kind, st, rp}); }
		s += "F=1\r@Z\rWAIT 60\rGOTO @Z\r";
		d["programs/MAIN.PTC"] = prg_file(s);
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 5000; w.max_bbs = 60000000;
		Rng nr(c.seed ^ 9); int style = (int)c.get("style"); u32 held = 0; vector<u32> bs(1, 0); vector<vector<i64>> tm(1, vector<i64>(12, 0)); vector<u32> olds(1, 0);
		Verdict v; bool fin = false; Window win(w, c);
		w.input = [&](i64, InFrame& in){
			if (lng){ for (int b = 0; b < 11; ++b) if (held >> b & 1 ? nr.chance(1, 3000) : nr.chance(1, 40)) held ^= 1u << b; } // buttons held for hundreds of frames
			else if (style == 4){ if (nr.chance(1, 6)) held = (u32)nr.below(1 << 11); } else for (int b = 0; b < 11; ++b){ int on[] = {3, 10, 30, 1}, off[] = {3, 2, 2, 12}; if (held >> b & 1){ if (nr.chance(1, off[style])) held &= ~(1u << b); } else if (nr.chance(1, on[style] * 3)) held |= 1u << b; }
			in.buttons = held; if (c.get("modes") && nr.chance(1, 12)) in.modekey = true;
			if ((c.get("noise") & 1) && nr.chance(1, 4)) in.text.push_back('a'); if ((c.get("noise") & 2) && nr.chance(1, 4)){ in.touch = true; in.tx = (int)nr.below(256); in.ty = 17 + (int)nr.below(30); }
			u32 eff = held; if (fakesf_mode() == 0) eff &= ~((1u << 5) | (1u << 6) | (1u << 10));
			vector<i64> t = tm.back(); for (int b = 0; b < 12; ++b) t[b] = (eff >> b & 1) ? t[b] + 1 : 0;
			olds.push_back(bs.back()); bs.push_back(eff); tm.push_back(t);
		};
		w.on_switch = [&]{
			if (!w.ptc || fin){ win.pf = w.frame; return; }
			win.on_switch([&](i64 e, i64 lo, i64 hi){
				if (e > (i64)rds.size()) return; const R& q = rds[e-1]; if (hi >= (i64)bs.size()) hi = bs.size() - 1; if (hi - lo > 400){ hit("window_large"); return; }
				auto one = [&](const char* var, int kind){
					int raw = 0; probe_num(w.ptc, var, &raw); i64 val = raw >> 12;
					// the value as a whole has to be what one single frame of the window gives
					i64 best = -1; int bestd = 99;
					for (i64 i = lo; i <= hi && bestd; ++i){ i64 x = 0;
						for (int b = 0; b < 12; ++b){ bool cur = bs[i] >> b & 1, old = olds[i] >> b & 1; bool on = kind <= 1 ? cur : kind <= 3 ? check_repeat_model(tm[i][b], q.st[b], q.rp[b]) : kind == 4 ? cur && !old : !cur && old; x |= (i64)on << b; }
						int dd = __builtin_popcountll((x ^ val) & 0xfff); if (dd < bestd){ bestd = dd; best = i; } }
					if (bestd > 0 && best >= 0){ string h; static const char* ex[] = {"BUTTON()","BUTTON(0)","BUTTON(1)","BTRIG()","BUTTON(2)","BUTTON(3)"};
						for (i64 i = std::max<i64>(0, lo - 3); i <= hi && i < lo + 12; ++i) h += fmt("%s%03x ", i == lo ? "|" : "", (unsigned)bs[i]);
						v = bad(kind <= 1 ? "held" : kind <= 3 ? "trigger" : "edge", fmt("%s gave %03x in frames %lld..%lld, which none of these frames gives (the nearest is frame %lld); the buttons held there: %s", ex[kind], (unsigned)val & 0xfff, (long long)lo, (long long)hi, (long long)best, h.c_str())); }
					if (val >> 12) v = bad("extra", fmt("button value %lld has bits that belong to no button", (long long)val));
				};
				if (q.kind == 6){ one("V", 0); one("U", 3); } else one("V", q.kind);
				hit("nontrivial"); hit("button_reads"); if (lo == hi) hit("exact_reads");
			});
			if (v.bad || var_is("F", 1)) fin = true;
		};
		w.on_frame = [&](i64){ return !fin; };
		sim_run(w); account(w);
		v.hash = w.frame; if (v.bad) return v;
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!var_is("F", 1)) { if (w.ptc && probe_waiting_input(w.ptc)) return bad("stopped", "the program stopped: " + con_all()); v.invalid = true; hit("capped:" + w.stop_reason); }
		return v;
	}
};
static Reg r8(new ButtonScenario);

// ---------------------------------------------------------------- P09
struct TouchScenario : Scenario {
	TouchScenario(){ id = "P09"; }
	Case gen(u64 seed, bool) override { Case c; Rng r(seed); gen_sched(c, r); gen_gaps(c, r, 4, 30, 6); c.p["style"] = r.below(4); c.p["noise"] = r.below(4); if (r.chance(1, 8)) c.p["long"] = r.range(100, 900); return c; }
	Verdict exec(const Case& c) override {
		Disk d; base_disk(d);
		vector<const Item*> op; for (auto& it : c.items) if (it.kind == "read") op.push_back(&it);
		string s = "A=0:E=0:K=0:V=0:X=0:Y=0:T=0\rPNLTYPE \"OFF\"\rVSYNC 2\r"; int k = 0; i64 lng = c.get("long"); if (lng) s += fmt("VSYNC %lld\r", (long long)lng);
		static const char* frm[] = { "S=TCHST:X=TCHX:Y=TCHY:T=TCHTIME", "T=TCHTIME:S=TCHST:Y=TCHY:X=TCHX", "IF TCHST THEN S=1:X=TCHX:Y=TCHY:T=TCHTIME ELSE S=0:X=TCHX:Y=TCHY:T=TCHTIME", "X=TCHX+0\rY=0+TCHY\rT=TCHTIME\rS=TCHST", "S=TCHST\rX=TCHX\rY=TCHY\rT=TCHTIME", "T=TCHTIME+TCHST*10000:S=FLOOR(T/10000):T=T%10000:X=TCHX:Y=TCHY" };
		for (auto* o : op){ ++k; s += gap_src(*o) + fmt("K=%d\r%s\rE=%d\rVSYNC 1\r", k, frm[o->a[0] % 6], k); }
		s += "F=1\r@Z\rWAIT 60\rGOTO @Z\r";
		d["programs/MAIN.PTC"] = prg_file(s);
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 5000; w.max_bbs = 60000000;
		struct T { int st, x, y; i64 t; }; vector<T> ts(1, T{0, 0, 0, 0}); Rng nr(c.seed ^ 9); int style = (int)c.get("style"); bool down = false; int px = 5, py = 20;
		Verdict v; bool fin = false; Window win(w, c);
		w.input = [&](i64, InFrame& in){
			if (nr.chance(1, lng ? (down ? 2000 : 30) : style == 0 ? 3 : style == 1 ? 20 : 8)) down = !down;
			if (nr.chance(1, 3)){ px += (int)nr.range(-20, 20); py += (int)nr.range(-20, 20); } if (nr.chance(1, 10)){ px = (int)nr.below(256); py = (int)nr.below(192); }
			bool off = false; if (style == 3 && nr.chance(1, 5)){ px = nr.chance(1, 2) ? (nr.chance(1, 2) ? -1 - (int)nr.below(30) : 256 + (int)nr.below(40)) : px; py = nr.chance(1, 2) ? (nr.chance(1, 2) ? -1 - (int)nr.below(200) : 192 + (int)nr.below(30)) : py; }
			if (style != 3){ px = std::max(0, std::min(255, px)); py = std::max(0, std::min(191, py)); }
			off = px < 0 || px > 255 || py < 0 || py > 191;
			if (px < -20000) px = 0;
			in.touch = down; in.tx = px; in.ty = py; if (style == 2 && nr.chance(1, 9)){ in.mouse = false; in.tx = (int)nr.below(256); in.ty = (int)nr.below(192); off = true; }
			if (!off && down && py >= 48 && px < 32 && py < 80){ in.touch = false; } // not onto the ESC key
			if (c.get("noise") & 1) if (nr.chance(1, 4)) in.buttons |= (u32)nr.below(1 << 11); if (c.get("noise") & 2) if (nr.chance(1, 4)) in.text.push_back('a');
			T t = ts.back(); if (in.touch && !off){ t.st = 1; t.t++; t.x = px; t.y = py; } else { t.st = 0; t.t = 0; } ts.push_back(t); if (off && down) hit("touch_outside");
		};
		w.on_switch = [&]{
			if (!w.ptc || fin){ win.pf = w.frame; return; }
			win.on_switch([&](i64 e, i64 lo, i64 hi){
				if (hi >= (i64)ts.size()) hi = ts.size() - 1; if (hi - lo > 400){ hit("window_large"); return; }
				int raw[4] = {0}; probe_num(w.ptc, "S", raw); probe_num(w.ptc, "X", raw+1); probe_num(w.ptc, "Y", raw+2); probe_num(w.ptc, "T", raw+3); i64 q[4]; bool ok[4] = {0,0,0,0}; string h;
				for (int j = 0; j < 4; ++j) q[j] = raw[j] / 4096.0 == (raw[j] >> 12) ? raw[j] >> 12 : -777;
				for (i64 i = lo; i <= hi; ++i){ i64 m[4] = {ts[i].st, ts[i].x, ts[i].y, ts[i].t}; for (int j = 0; j < 4; ++j) if (m[j] == q[j]) ok[j] = true; if (i < lo + 6) h += fmt("(%lld,%lld,%lld,%lld) ", (long long)m[0], (long long)m[1], (long long)m[2], (long long)m[3]); }
				static const char* nm[] = {"TCHST","TCHX","TCHY","TCHTIME"};
				for (int j = 0; j < 4 && !v.bad; ++j) if (!ok[j]) v = bad(nm[j], fmt("read %lld: %s gave %lld, the panel's (TCHST,TCHX,TCHY,TCHTIME) in frames %lld..%lld were %s", (long long)e, nm[j], (long long)q[j], (long long)lo, (long long)hi, h.c_str()));
				hit("nontrivial"); hit("touch_reads"); if (lo == hi) hit("exact_reads");
			});
			if (v.bad || var_is("F", 1)) fin = true;
		};
		w.on_frame = [&](i64){ return !fin; };
		sim_run(w); account(w);
		v.hash = w.frame; if (v.bad) return v;
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!var_is("F", 1)) { if (w.ptc && probe_waiting_input(w.ptc)) return bad("stopped", "the program stopped: " + con_all()); v.invalid = true; hit("capped:" + w.stop_reason); }
		return v;
	}
};
static Reg r9(new TouchScenario);

// ---------------------------------------------------------------- P10
// the keyboard as printed on the touch screen: place (x, y, width, height) and key code
struct KeyRect { int x, y, w, h, k; };
static vector<KeyRect> keyboard_layout(){
	vector<KeyRect> v;
	v.push_back({0, 48, 24, 24, 1}); for (int i = 0; i < 13; ++i) v.push_back({24 + 16*i, 48, 16, 24, 2 + i}); v.push_back({232, 48, 24, 24, 15});
	for (int i = 0; i < 16; ++i) v.push_back({16*i, 72, 16, 24, 16 + i});
	v.push_back({0, 96, 24, 24, 32}); for (int i = 0; i < 14; ++i) v.push_back({24 + 16*i, 96, 16, 24, 33 + i});
	v.push_back({0, 120, 32, 24, 47}); for (int i = 0; i < 12; ++i) v.push_back({32 + 16*i, 120, 16, 24, 48 + i}); v.push_back({224, 120, 32, 24, 60});
	v.push_back({0, 144, 16, 16, 61}); for (int i = 0; i < 3; ++i) v.push_back({24 + 16*i, 144, 16, 16, 62 + i}); v.push_back({80, 144, 112, 16, 65}); v.push_back({200, 144, 16, 16, 66}); v.push_back({216, 144, 16, 16, 67}); v.push_back({240, 144, 16, 16, 68});
	for (int i = 0; i < 5; ++i) v.push_back({48*i, 0, 48, 15, 101 + i}); v.push_back({240, 0, 16, 16, 106});
	v.push_back({0, 168, 32, 24, 70}); v.push_back({40, 168, 48, 24, 71}); v.push_back({88, 168, 48, 24, 72});
	v.push_back({144, 168, 16, 12, 80}); v.push_back({144, 180, 16, 12, 81}); for (int i = 0; i < 4; ++i) v.push_back({160 + 24*i, 168, 24, 24, 90 + i});
	return v;
}
// legends by key code, per layer: KYA, KYA shifted, KYM, KYM shifted, KYK, KYK shifted (two bytes per key)
static const unsigned char LEGEND[6][138] = {
	{0x00,0x00,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x30,0x2d,0x2b,0x3d,0x00,0x24,0x22,0x51,0x57,0x45,0x52,0x54,0x59,0x55,0x49,0x4f,0x50,0x40,0x2a,0x28,0x29,0x09,0x21,0x41,0x53,0x44,0x46,0x47,0x48,0x4a,0x4b,0x4c,0x3b,0x3a,0x3c,0x3e,0x00,0x27,0x5a,0x58,0x43,0x56,0x42,0x4e,0x4d,0x2c,0x2e,0x2f,0x25,0x0d,0x00,0x00,0x00,0x00,0x20,0x00,0x00,0x00},
	{0x00,0x00,0x00,0x00,0x23,0x00,0x00,0x26,0x00,0x5e,0x5c,0x7e,0x00,0x7f,0x7c,0x00,0x00,0x00,0x71,0x77,0x65,0x72,0x74,0x79,0x75,0x69,0x6f,0x70,0x60,0x00,0x5b,0x5d,0x09,0x00,0x61,0x73,0x64,0x66,0x67,0x68,0x6a,0x6b,0x6c,0x00,0x00,0x7b,0x7d,0x00,0x00,0x7a,0x78,0x63,0x76,0x62,0x6e,0x6d,0x00,0x00,0x3f,0x5f,0x0d,0x00,0x00,0x00,0x00,0x20,0x00,0x00,0x00},
	{0x00,0x00,0xf1,0xf2,0xf0,0xf3,0x0a,0xe5,0x1a,0xe4,0xe6,0xe7,0x10,0x07,0x14,0x00,0x03,0x96,0x98,0x91,0x99,0xec,0xee,0xef,0xed,0x0e,0x0f,0x05,0x06,0x04,0x0b,0x1b,0x09,0x95,0x92,0x93,0x94,0x15,0x17,0x16,0xf4,0xf6,0xf7,0xf5,0xeb,0xea,0xe8,0x00,0xff,0x9a,0x90,0x9b,0xfc,0xfd,0xfe,0x97,0x9c,0x9d,0x9e,0x9f,0x0d,0x00,0x00,0x00,0x00,0x20,0x00,0x00,0x00},
	{0x00,0x00,0x00,0x80,0x00,0x00,0x00,0xe1,0x00,0xe0,0xe2,0xe3,0x11,0x08,0x00,0x00,0x00,0x00,0xf8,0x1e,0xfa,0x01,0x02,0x18,0x19,0x0c,0x12,0x13,0x00,0x00,0xe9,0x00,0x09,0x00,0x1d,0x00,0x1c,0x00,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x00,0x00,0x00,0x00,0xf9,0x1f,0xfb,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x0d,0x00,0x00,0x00,0x00,0x20,0x00,0x00,0x00},
	{0x00,0x00,0xb1,0xb2,0xb3,0xb4,0xb5,0xc5,0xc6,0xc7,0xc8,0xc9,0x2d,0x2b,0x3d,0x00,0xa0,0xa5,0xb6,0xb7,0xb8,0xb9,0xba,0xca,0xcb,0xcc,0xcd,0xce,0xa2,0xa3,0xdd,0xa1,0x09,0xbb,0xbc,0xbd,0xbe,0xbf,0xcf,0xd0,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xa4,0x00,0xc0,0xc1,0xc2,0xc3,0xc4,0xd7,0xd8,0xd9,0xda,0xdb,0xdc,0xa6,0x0d,0x00,0x00,0x00,0x00,0x20,0x00,0x00,0x00},
	{0x00,0x20,0x00,0x20,0xa7,0x00,0xa8,0x00,0xa9,0x00,0xaa,0x00,0xab,0x00,0x00,0x20,0x00,0x20,0x00,0x20,0x00,0x20,0x00,0x20,0xca,0xdf,0xcb,0xdf,0xcc,0xdf,0x00,0x20,0xaf,0x00,0xb3,0xde,0xb6,0xde,0xb7,0xde,0xb8,0xde,0xb9,0xde,0xba,0xde,0xca,0xde,0xcb,0xde,0xcc,0xde,0xcd,0xde,0xce,0xde,0xcd,0xdf,0xce,0xdf,0x00,0x20,0x00,0x20,0x09,0x00,0xbb,0xde,0xbc,0xde,0xbd,0xde,0xbe,0xde,0xbf,0xde,0x31,0x00,0x32,0x00,0x33,0x00,0x34,0x00,0x35,0x00,0xac,0x00,0xad,0x00,0xae,0x00,0x00,0x20,0x00,0x20,0xc0,0xde,0xc1,0xde,0xc2,0xde,0xc3,0xde,0xc4,0xde,0x36,0x00,0x37,0x00,0x38,0x00,0x39,0x00,0x30,0x00,0x00,0x20,0x00,0x20,0x0d,0x00,0x00,0x20,0x00,0x20,0x00,0x20,0x00,0x20,0x20,0x00,0x00,0x20,0x00,0x20,0x00,0x20},
};

struct PanelModel {
	vector<KeyRect> L = keyboard_layout(); int type = 2; bool shift = false, caps = false, insert = false, puse = false; int pressed = 0; i64 time = 0; i64 page = 0, pmax = 0; int icons = 0;
	bool flips = false; vector<string> fn = {"FILES", "LOAD\"", "SAVE\"", "CONT", "RUN"}; int fired = 0; vector<int> out; bool brk = false;
	int key_at(int x, int y){ for (auto& r : L) if (x >= r.x && x < r.x + r.w && y >= r.y && y < r.y + r.h) { if (r.k == 81 && !puse) return 80; return r.k; } return 0; }
	void frame(bool t, int x, int y){
		fired = 0; if (!t){ pressed = 0; time = 0; return; }
		int k = key_at(x, y);
		if (pressed){ if (k != pressed) pressed = 0; else ++time; } else if (time == 0 && k){ pressed = k; time = 1; }
		if (pressed && check_repeat_model(time, 30, 4)) fired = pressed;
		k = fired; if (!k) return;
		if (k == 80 && page > 0) --page; if (k == 81 && page < pmax) ++page;
		if (type < 2) return;
		if (k == 1) brk = true; else if (k == 47) shift = !shift;
		else if (k <= 60 || k == 65){ int layer = 2 * (type - 2) + (shift != caps); int a = layer == 5 ? LEGEND[5][2*k] : LEGEND[layer][k], b = layer == 5 ? LEGEND[5][2*k+1] : 0;
			if (a){ out.push_back(a); if (b) out.push_back(b); shift = false; } }
		else if (k == 61) caps = !caps; else if (k >= 62 && k <= 64) type = k - 60; else if (k == 66) insert = !insert;
		else if (k == 101 && flips) for (int i = 0; i < 26; ++i) out.push_back(1000 + i); // one of two texts: the program changes it all the time
		else if (k >= 101 && k <= 105) for (unsigned char ch : fn[k - 101]) out.push_back(ch);
	}
};
struct PanelScenario : Scenario {
	PanelScenario(){ id = "P10"; }
	Case gen(u64 seed, bool) override {
		Case c; Rng r(seed); gen_sched(c, r); c.p["kind"] = r.below(3) == 0; vector<KeyRect> L = keyboard_layout();
		int n = (int)r.range(1, 30); vector<int> fav; for (int i = 0; i < 4; ++i) fav.push_back((int)r.below(L.size()));
		for (int i = 0; i < n; ++i){ Item it; if (!c.p["kind"] && r.chance(1, 12)){ it.kind = "type"; it.a = {(i64)r.below(5)}; c.items.push_back(it); continue; }
			it.kind = "tap"; auto key = [&]{ if (r.chance(1, 4)) return (i64)fav[r.below(4)]; if (r.chance(1, 4)){ int sp[] = {47, 61, 62, 63, 64, 66, 101, 102, 105, 80, 81, 90, 93}; int k = sp[r.below(13)]; for (size_t q = 0; q < L.size(); ++q) if (L[q].k == k) return (i64)q; } return (i64)r.below(L.size()); };
			it.a = {key(), r.chance(1, 4) ? r.range(20, 60) : r.range(1, 6), r.chance(1, 2) ? 1 : r.range(1, 5), r.chance(1, 5) ? key() : -1, (i64)r.below(1 << 30), (i64)r.below(6)}; c.items.push_back(it); }
		c.p["fn"] = r.below(5); c.p["puse"] = r.below(2); c.p["icons"] = r.below(16); c.p["pmax"] = r.below(4); c.p["ptype"] = r.below(5); if (c.p["fn"] == 4 && !c.p["kind"]) for (auto& it : c.items) if (it.kind == "tap" && r.chance(1, 3)) for (size_t q = 0; q < L.size(); ++q) if (L[q].k == 101) it.a[0] = (i64)q; c.p["busy"] = r.chance(1, 4) ? r.range(1, 40) : 0;
		if (c.p["kind"]) gen_gaps(c, r, 10, 100, 4);
		if (r.chance(1, 8)){ vector<size_t> tp; for (size_t i = 0; i < c.items.size(); ++i) if (c.items[i].kind == "tap") tp.push_back(i); // one key held for many seconds
			if (!tp.empty()){ Item& it = c.items[tp[r.below(tp.size())]]; int k = L[it.a[0]].k; if (k < 101){ it.a[1] = r.range(260, 400); it.a[3] = -1; } } }
		return c;
	}
	Verdict exec(const Case& c) override {
		Disk d; base_disk(d); PanelModel m; bool reads = c.get("kind") != 0;
		static const char* TN[] = {"OFF", "PNL", "KYA", "KYM", "KYK"};
		vector<const Item*> op, rd; for (auto& it : c.items) if (it.kind == "read") rd.push_back(&it); else op.push_back(&it);
		string s = "A=0:E=0:K=0:V=0:B=0:N=0:M=0\rDIM R[3000]\r"; m.type = (int)c.get("ptype") % 5; s += fmt("PNLTYPE \"%s\"\r", TN[m.type]);
		if (c.get("fn") == 1){ s += "KEY 1,\"x\"\rKEY 3,\"Hello, world\"\rKEY 5,\"\"\r"; m.fn[0] = "x"; m.fn[2] = "Hello, world"; m.fn[4] = ""; }
		if (c.get("fn") == 2){ s += "KEY 2,\"AB\"+\"cd\"\rK$=\"12345678901234567890\"\rKEY 4,K$\rK$=\"\"\r"; m.fn[1] = "ABcd"; m.fn[3] = "12345678901234567890"; }
		if (c.get("fn") == 3){ s += "KEY 1,\"a\"+CHR$(0)+\"b\"\rKEY 4,CHR$(255)+CHR$(128)\r"; m.fn[0] = "ab"; m.fn[3] = "\xff\x80"; } m.flips = c.get("fn") == 4 && !reads; if (m.flips) s += "A$=\"abcdefghijklmnopqrstuvwxyz\":B$=\"ABCDEFGHIJKLMNOPQRSTUVWXYZ\"\rKEY 1,A$\r"; // CHR$(0) types nothing
		m.pmax = c.get("pmax"); m.puse = c.get("puse") != 0; s += fmt("ICONPMAX=%lld\rICONPUSE=%d\r", (long long)m.pmax, m.puse ? 7 : 0); m.icons = (int)c.get("icons");
		for (int i = 0; i < 4; ++i) if (m.icons >> i & 1) s += fmt("ICONSET %d,%d\r", i, i * 5); 
		int k = 0; bool ok_f = false; (void)ok_f;
		if (reads){ s += "G=1\r"; static const char* ex[] = {"KEYBOARD", "FUNCNO", "ICONCHK()", "ICONPAGE"}; for (auto* o : rd){ ++k; s += gap_src(*o) + fmt("K=%d\rV=%s\rE=%d\rVSYNC 1\r", k, ex[o->a[0] & 3], k); } s += "F=1\r@Z\rWAIT 60\rGOTO @Z\r"; }
		else {
			s += "G=1\r@L\rC$=INKEY$()\rIF C$!=\"\" THEN R[N]=ASC(C$):N=N+1\rB=B+1\rIF BUTTON()==16 THEN GOSUB @P\r"; if (m.flips) s += "KEY 1,A$\rKEY 1,B$\r"; if (c.get("busy")) s += fmt("FOR J=1 TO %lld\rA=J*2\rNEXT\r", (long long)c.get("busy")); s += "GOTO @L\r@P\rON K GOSUB ";
			int nt = 0; string subs; for (auto* o : op) if (o->kind == "type"){ s += fmt("%s@P%d", nt ? "," : "", nt); subs += fmt("@P%d\rPNLTYPE \"%s\"\rRETURN\r", nt, TN[o->a[0] % 5]); ++nt; }
			if (!nt){ s += "@P0"; subs = "@P0\rRETURN\r"; } s += "\rK=K+1\r@W\rIF BUTTON()==16 GOTO @W\rRETURN\r" + subs; }
		d["programs/MAIN.PTC"] = prg_file(s);
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 8000; w.max_bbs = 80000000;
		struct St { int fired; i64 page; }; vector<St> st(1, St{0, 0}); Verdict v; bool fin = false; Window win(w, c); size_t at = 0; i64 ph = 0, t = 0; Rng tr(1); i64 idle = 0, lastN = -1, idleB = 0, types = 0; bool started = false;
		w.input = [&](i64 f, InFrame& in){
			bool tch = false; int x = 0, y = 0;
			if (w.ptc && (started || var_is("G", 1))){
				started = true; i64 N = var_int("N", 0);
				if (at < op.size()){
					const Item& o = *op[at];
					if (o.kind == "type"){ i64 B = var_int("B");
						if (ph == 0){ if (N == (i64)m.out.size()){ ph = 1; types++; } else if (++t > 3000) fin = true; }
						if (ph == 1){ if (var_int("K") < types){ in.buttons = 16; if (++t > 6000) fin = true; } else { m.type = (int)o.a[0] % 5; ph = 2; idleB = B; } }
						if (ph == 2 && B > idleB + 1){ ph = 0; t = 0; ++at; } }
					else {
						if (ph == 0){ if (reads || (i64)m.out.size() - N < 60){ ph = 1; t = 0; tr = Rng(o.a[4] ^ c.seed); } else if (++t > 3000) fin = true; }
						if (ph == 1){ ++t; const KeyRect& r = m.L[(o.a[3] >= 0 && t > o.a[1] / 2 ? o.a[3] : o.a[0]) % m.L.size()]; tch = true;
							x = r.x + (int)tr.range(1, r.w - 2); y = r.y + (int)tr.range(1, std::max(1, r.h - 2)); if (o.a[5] == 0 && o.a[3] >= 0 && t > o.a[1] / 2){ x = 128; y = 17 + (int)tr.below(30); } if (r.k == 106) x = r.x + (int)tr.range(1, 14);
							if (r.k == 1){ x = 128; y = 30; } // ESC would end the program
							if (t >= o.a[1]) { ph = 2; t = 0; } }
						else if (ph == 2){ if (++t >= o.a[2]){ ph = 0; t = 0; ++at; } } } }
				else if (!reads){ i64 B = var_int("B"); if (N != lastN){ lastN = N; idle = f; idleB = B; } else if (f - idle > 20 && B - idleB >= 4) fin = true; }
			}
			if (tch && o_off(c, f)) { in.mouse = false; in.tx = 10; in.ty = 10; in.touch = true; m.frame(false, 0, 0); }
			else { in.touch = tch; in.tx = x; in.ty = y; m.frame(tch, x, y); }
			st.push_back({m.fired, m.page});
		};
		w.on_switch = [&]{
			if (!w.ptc || fin || !reads){ win.pf = w.frame; return; }
			win.on_switch([&](i64 e, i64 lo, i64 hi){
				if (e > (i64)rd.size()) return; if (hi >= (i64)st.size()) hi = st.size() - 1; if (hi - lo > 400){ hit("window_large"); return; }
				int kind = (int)rd[e-1]->a[0] & 3, raw = 0; probe_num(w.ptc, "V", &raw); i64 got = raw >> 12; bool ok = false; string h;
				for (i64 i = lo; i <= hi; ++i){ int f = st[i].fired; i64 x = kind == 0 ? (f <= 69 ? f : 0) : kind == 1 ? (f >= 101 && f <= 105 ? f - 100 : 0) : kind == 2 ? (f >= 90 && f <= 93 && (m.icons >> (f - 90) & 1) ? f - 90 : -1) : st[i].page; if (x == got) ok = true; if (i < lo + 6) h += fmt("%lld ", (long long)x); if (x > 0) hit("reads_pressed"); }
				static const char* nm[] = {"KEYBOARD", "FUNCNO", "ICONCHK", "ICONPAGE"};
				if (!ok) v = bad(nm[kind], fmt("read %lld: %s gave %lld; in frames %lld..%lld it should have been %s", (long long)e, nm[kind], (long long)got, (long long)lo, (long long)hi, h.c_str()));
				hit("nontrivial"); hit("panel_reads"); if (lo == hi) hit("exact_reads");
			});
			if (v.bad || var_is("F", 1)) fin = true;
		};
		w.on_frame = [&](i64){ return !fin; };
		sim_run(w); account(w);
		v.hash = w.frame; if (v.bad) return v;
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (reads){ if (!var_is("F", 1)) { if (w.ptc && probe_waiting_input(w.ptc)) return bad("stopped", "the program stopped: " + con_all()); v.invalid = true; hit("capped:" + w.stop_reason); } return v; }
		if (!started || !fin || at < op.size()){ if (w.ptc && probe_waiting_input(w.ptc)) return bad("stopped", "the program stopped: " + con_all()); v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		i64 N = var_int("N", 0); vector<int> got; for (i64 i = 0; i < N; ++i){ int x = 0; probe_arr(w.ptc, "R", (int)i, &x); got.push_back(x >> 12); v.hash = h2(v.hash, x); }
		hit("nontrivial"); hit("panel_chars", N); if (types) hit("pnltype_changes", types);
		if (m.flips){ int b = 0; for (size_t i = 0; i < m.out.size(); ++i) if (m.out[i] >= 1000){ if (m.out[i] == 1000){ b = i < got.size() && got[i] == 'A' ? 'A' : 'a'; hit(b == 'A' ? "second_text" : "first_text"); } m.out[i] += b - 1000; } }
		if (got != m.out){ size_t i = 0; while (i < got.size() && i < m.out.size() && got[i] == m.out[i]) ++i; string a, b; for (size_t q = i > 3 ? i - 3 : 0; q < i + 5; ++q){ if (q < m.out.size()) a += fmt("%d ", m.out[q]); if (q < got.size()) b += fmt("%d ", got[q]); }
			return bad("typed", fmt("the touched keys type %zu characters, the program received %zu; first difference at character %zu: touched ...%s received ...%s", m.out.size(), got.size(), i, a.c_str(), b.c_str())); }
		return v;
	}
	// now and then the pointer slips off the touch screen for a frame
	static bool o_off(const Case& c, i64 f){ return h2(c.seed, f) % 97 == 0; }
};
static Reg r10(new PanelScenario);
u32 kana_of(int ch){ return ch >= 0xa1 && ch <= 0xdf ? KANA[ch - 0xa1] : (u32)ch; }
