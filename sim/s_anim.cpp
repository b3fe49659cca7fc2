// P12: sprite movement, scaling, rotation and animation.  P13: background scrolling.
// Every frame each component (position, scale, angle, animation of one sprite; offset of one layer) is compared with
// the set of states the commands issued so far allow (a command may take effect at any frame boundary it spanned).
#include "sim.h"
#include <cmath>
enum Kind { SPSET, SPCLR, SPCLRALL, SPOFS, SPSCALE, SPANGLE, SPANIM, SPCHR, SPCHK, SPREAD, BGOFS, BGCHK };
enum CT { POS, SCALE, ANGLE, ANIM, BG };
static const char* CN[] = {"position", "scale", "angle", "animation", "offset"};
struct Op { int kind, page, id; i64 a[6]; bool timed; string text; };
struct Hyp { size_t c = 0; bool active = false, moving = false; double x[2] = {0, 0}, x0[2] = {0, 0}, tx[2] = {0, 0}, turn = 0; i64 n = 0, k = 0; double tol = 0;
	i64 base = 0, chrs = 1, fpc = 1, loop = 0; map<size_t, std::pair<vector<double>, double>> exp; };
static i64 fl(double v){ return (i64)std::floor(v / 4096.0); }
struct Comp { int t, page, id; vector<Hyp> h;
	int dims() const { return t == POS || t == BG ? 2 : 1; }
	bool touches(const Op& o) const { if (t == BG) return (o.kind == BGOFS || o.kind == BGCHK) && o.page == page && o.id == id; if (o.page != page || o.kind >= BGOFS) return false; if (o.kind == SPCLRALL) return true; if (o.id != id) return false;
		switch (o.kind){ case SPSET: case SPCLR: case SPCHK: return true; case SPOFS: return t == POS; case SPSCALE: return t == SCALE; case SPANGLE: return t == ANGLE; case SPANIM: case SPCHR: return t == ANIM; case SPREAD: return true; } return false; }
	bool anim_on(const Hyp& h) const { return h.moving && (h.loop < 0 || h.k < h.loop * h.chrs * h.fpc); }
	void motion(Hyp& h, const double* tgt, i64 n, double turn) const { if (n <= 0){ for (int d = 0; d < dims(); ++d) h.x[d] = tgt[d]; h.moving = false; h.tol = 0; return; } for (int d = 0; d < 2; ++d){ h.x0[d] = h.x[d]; h.tx[d] = tgt[d]; } h.turn = turn; h.n = n; h.k = 0; h.moving = true; h.tol += n + 3; }
	void apply(const Op& o, Hyp& h, size_t idx) const {
		switch (o.kind){
			case SPSET: { h.active = true; h.moving = false; h.tol = 0; h.x[0] = h.x[1] = 0; if (t == SCALE) h.x[0] = 4096; if (t == ANIM){ h.base = o.a[0]; h.loop = 0; h.x[0] = o.a[0]; } break; }
			case SPCLR: case SPCLRALL: h.active = false; break;
			case SPOFS: case BGOFS: { double tg[2] = {(double)o.a[0], (double)o.a[1]}; motion(h, tg, o.timed ? o.a[2] : 0, 0); break; }
			case SPSCALE: { double tg[2] = {(double)(o.a[0] * 4096 / 100), 0}; motion(h, tg, o.timed ? o.a[2] : 0, 0); break; }
			case SPANGLE: { double tg[2] = {(double)((o.a[0] % 360) * 4096), 0}; double full = 360 * 4096, turn = std::fmod(tg[0] - h.x[0], full); if (o.a[3] > 0 && turn < 0) turn += full; if (o.a[3] < 0 && turn > 0) turn -= full; motion(h, tg, o.timed ? o.a[2] : 0, turn); break; }
			case SPANIM: h.moving = true; h.k = 0; h.chrs = o.a[0]; h.fpc = o.a[1]; h.loop = o.timed && o.a[2] ? o.a[2] : -1; h.x[0] = h.base; break;
			case SPCHR: if (anim_on(h)) h.x[0] += (double)(o.a[0] - h.base); else { h.moving = false; h.x[0] = o.a[0]; } h.base = o.a[0]; break;
			case SPCHK: case BGCHK: { bool m = t == ANIM ? anim_on(h) : h.moving; h.exp[idx] = {{m ? 1.0 : 0.0}, 0}; break; }
			case SPREAD: h.exp[idx] = {t == ANIM ? vector<double>{(double)h.base} : vector<double>{h.x[0], h.x[1]}, h.tol}; break;
		} }
	void step(Hyp& h, i64 chstep) const {
		if (t != BG && !h.active) return; if (!h.moving) return; ++h.k;
		if (t == ANIM){ if (h.loop >= 0 && h.k >= h.loop * h.chrs * h.fpc){ h.x[0] = h.base + (h.chrs - 1) * chstep; return; } h.x[0] = h.base + ((h.k / h.fpc) % h.chrs) * chstep; return; }
		if (h.k >= h.n){ for (int d = 0; d < dims(); ++d) h.x[d] = h.tx[d]; h.moving = false; h.tol = 0; }
		else for (int d = 0; d < dims(); ++d) h.x[d] = t == ANGLE ? h.x0[d] + h.turn * (double)h.k / h.n : h.x0[d] + (h.tx[d] - h.x0[d]) * (double)h.k / h.n; }
	double dist(double a, double b) const { double d = std::fabs(a - b); if (t == ANGLE){ d = std::fmod(d, 360.0 * 4096); if (d > 180.0 * 4096) d = 360.0 * 4096 - d; } return d; }
};
struct AnimScenario : Scenario {
	bool bg; AnimScenario(bool b) : bg(b) { id = b ? "P13" : "P12"; }
	Case gen(u64 seed, bool) override {
		Case c; Rng r(seed); gen_sched(c, r); int n = (int)r.range(3, 24), style = (int)r.below(4);
		vector<i64> ids; if (!bg){ static const i64 pool[] = {0, 1, 2, 5, 30, 31, 32, 50, 97, 98, 99}; int m = (int)r.range(1, 4); for (int i = 0; i < m; ++i) ids.push_back(pool[r.below(11)]); } else ids = {0, 1};
		if (!bg) for (i64 i : ids) for (int pg = 0; pg < (r.chance(1, 3) ? 2 : 1); ++pg){ Item it; it.kind = "op"; it.a = {SPSET, pg, i, r.range(0, 100), 0, 0, 0, 0, 0, (i64)r.below(4)}; c.items.push_back(it); }
		for (int i = 0; i < n; ++i){ Item it; it.kind = "op"; i64 t = r.chance(1, 10) ? 0 : r.chance(1, 4) ? r.range(1, 3) : r.chance(1, 8) ? r.range(60, 200) : r.range(2, 40); i64 k, a0 = 0, a1 = 0, a3 = r.chance(1, 2) ? 1 : -1, timed = r.chance(3, 4);
			if (bg) k = r.chance(2, 3) ? BGOFS : BGCHK; else { static const int ks[] = {SPOFS, SPOFS, SPOFS, SPSCALE, SPANGLE, SPANGLE, SPANIM, SPANIM, SPCHR, SPCHR, SPCHK, SPCHK, SPREAD, SPREAD, SPSET, SPCLR, SPCLRALL}; k = ks[r.below(r.chance(1, 4) ? 17 : 14)]; }
			switch (k){ case SPOFS: a0 = r.range(-300, 600); a1 = r.chance(1, 5) ? 0 : r.range(-300, 600); break; case BGOFS: a0 = r.range(-300, 600); a1 = r.range(-300, 600); if (r.chance(1, 4)){ a0 = a0 * 4096 + (i64)r.below(4) * 1024; a1 *= 4096; } else { a0 *= 4096; a1 *= 4096; } break; case SPSCALE: a0 = r.range(0, 200); break; case SPANGLE: a0 = r.chance(1, 6) ? 360 * r.range(0, 2) : r.range(0, 359); break;
				case SPANIM: a0 = r.range(1, 8); a1 = r.range(1, 12); t = r.range(1, 4); break; case SPSET: case SPCHR: a0 = r.range(0, 100); break; }
			i64 pg = (i64)r.chance(1, 4), sid = ids[r.below(ids.size())];
			if ((k == SPOFS || k == BGOFS || k == SPSCALE || k == SPANGLE) && r.chance(1, 5)) for (size_t j = c.items.size(); j--;) if (c.items[j].a[0] == k){ pg = c.items[j].a[1]; sid = c.items[j].a[2]; a0 = c.items[j].a[3]; a1 = c.items[j].a[4]; if (r.chance(1, 3)) (r.chance(1, 2) ? a0 : a1) += (r.chance(1, 2) ? 1 : -1) * (k == BGOFS ? 4096 : 1); if (k == SPSCALE) a0 = std::max<i64>(0, std::min<i64>(200, a0)); if (k == SPANGLE) a0 = std::max<i64>(0, std::min<i64>(720, a0)); break; } // again to the same place
			it.a = {k, pg, sid, a0, a1, t, a3, timed, style == 0 ? 0 : r.chance(1, 3) ? 0 : style == 1 ? r.range(1, 3) : r.range(1, 30), (i64)r.below(4), r.chance(1, 6) ? r.range(1, 200) : 0}; c.items.push_back(it); }
		c.p["noise"] = r.below(4);
		return c;
	}
	Verdict exec(const Case& c) override {
		vector<Op> ops; string src = "DIM R(400)\rK=0:E=0:F=0:X=0:Y=0:A=0:S=0:C=0\r"; Verdict v; set<std::pair<int,int>> act, animated; map<std::pair<int,int>, int> size; map<std::pair<int,int>, Rng> dummy; vector<std::pair<int,int>> subj; auto num = [](i64 n){ return n < 0 ? fmt("(0-%lld)", (long long)-n) : fmt("%lld", (long long)n); };
		auto fix = [&](i64 raw){ string s = raw < 0 ? "(0-" : ""; i64 q = std::llabs(raw); s += fmt("%lld", (long long)(q >> 12)); if (q & 4095) s += fmt(".%03lld", (long long)((q & 4095) * 1000 / 4096)); if (raw < 0) s += ")"; return s; };
		map<std::pair<int,int>, i64> animdur; i64 total = 0;
		for (auto& it : c.items) if (it.kind == "op" && ops.size() < 60){ Op o; o.kind = (int)it.a[0]; o.page = (int)it.a[1] & 1; o.id = (int)it.a[2]; for (int i = 0; i < 6; ++i) o.a[i] = 0; o.timed = it.a[7]; auto key = std::make_pair(o.page, o.id); string pre; i64 t = it.a[5]; int n = (int)ops.size() + 1; string pg = fmt(bg ? "BGPAGE %d:" : "SPPAGE %d:", o.page);
			if (!bg && o.kind != SPSET && o.kind != SPCLRALL && !act.count(key)) continue; i64 gap = it.a[8];
			switch (o.kind){
				case SPSET: { static const int wh[][2] = {{16, 16}, {8, 8}, {32, 32}, {64, 64}}; int sz = (int)it.a[9] & 3; o.a[0] = std::min<i64>(100, std::max<i64>(0, it.a[3])); act.insert(key); animated.erase(key); animdur.erase(key); size[key] = std::max(1, wh[sz][0] * wh[sz][1] / 256); bool seen = false; for (auto& q : subj) if (q == key) seen = true; if (!seen) subj.push_back(key);
					o.a[5] = size[key]; o.text = fmt("SPSET %d,%lld,2,0,0,0", o.id, (long long)o.a[0]); if (sz) o.text += fmt(",%d,%d", wh[sz][0], wh[sz][1]); break; }
				case SPCLR: act.erase(key); o.text = fmt("SPCLR %d", o.id); break;
				case SPCLRALL: for (auto i = act.begin(); i != act.end();) if (i->first == o.page) i = act.erase(i); else ++i; o.text = "SPCLR"; break;
				case SPOFS: o.a[0] = it.a[3] * 4096; o.a[1] = it.a[4] * 4096; o.a[2] = t; o.text = fmt("SPOFS %d,%s,%s", o.id, num(it.a[3]).c_str(), num(it.a[4]).c_str()); if (o.timed) o.text += fmt(",%lld", (long long)t); break;
				case SPSCALE: if (o.id > 31) continue; o.a[0] = it.a[3]; o.a[2] = t; o.text = fmt("SPSCALE %d,%lld", o.id, (long long)it.a[3]); if (o.timed) o.text += fmt(",%lld", (long long)t); break;
				case SPANGLE: if (o.id > 31) continue; o.a[0] = it.a[3]; o.a[2] = t; o.a[3] = it.a[6]; o.text = fmt("SPANGLE %d,%lld", o.id, (long long)it.a[3]); if (!o.timed) o.a[3] = 1; else { o.text += fmt(",%lld", (long long)t); if (it.a[6] < 0 || t % 2) o.text += "," + num(it.a[6]); else o.a[3] = 1; } break;
				case SPANIM: o.a[0] = std::max<i64>(1, it.a[3] & 15); o.a[1] = std::max<i64>(1, it.a[4] & 31); o.a[2] = t & 3; o.text = fmt("SPANIM %d,%lld,%lld", o.id, (long long)o.a[0], (long long)o.a[1]); if (o.timed) o.text += fmt(",%lld", (long long)o.a[2]); animated.insert(key); animdur[key] = o.timed && o.a[2] ? o.a[0] * o.a[1] * o.a[2] : -1; break;
				case SPCHR: o.a[0] = std::min<i64>(100, std::max<i64>(0, it.a[3])); o.text = fmt("SPCHR %d,%lld", o.id, (long long)o.a[0]); break;
				case SPCHK: o.text = fmt("R(%d)=SPCHK(%d)", n * 6, o.id); break;
				case SPREAD: o.text = fmt("SPREAD %d,X,Y,A,S,C\rR(%d)=X:R(%d)=Y:R(%d)=A:R(%d)=S:R(%d)=C", o.id, n * 6, n * 6 + 1, n * 6 + 2, n * 6 + 3, n * 6 + 4); break;
				case BGOFS: o.a[0] = it.a[3]; o.a[1] = it.a[4]; o.a[2] = t; if (o.id > 1) o.id &= 1; { string fx = fix(it.a[3]); o.a[0] = it.a[3]; if (it.a[3] & 4095) o.a[0] = -1; o.text = fmt("BGOFS %d,%s,%s", o.id, fx.c_str(), fix(it.a[4]).c_str()); } if (o.timed) o.text += fmt(",%lld", (long long)t); break;
				case BGCHK: o.text = fmt("R(%d)=BGCHK(%d)", n * 6, o.id); break; }
			if (o.kind == BGOFS && o.a[0] == -1 ) { o.a[0] = it.a[3]; }
			ops.push_back(o); total += gap; src += pre + fmt("K=%d\r", n) + pg + o.text + fmt("\rE=%d\r", n); if (gap) src += fmt("VSYNC %lld\r", (long long)gap); if (it.a.size() > 10 && it.a[10]) src += fmt("FOR I=1 TO %lld:J=I:NEXT\r", (long long)it.a[10]); }
		src += "VSYNC 45\rF=1\r@Z\rVSYNC 60\rGOTO @Z\r";
		Disk d; base_disk(d); d["programs/MAIN.PTC"] = prg_file(src);
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = total * 6 + 2500; w.max_bbs = 80000000; bool slop = c.get("w_preempt") != 0 || c.explicit_sched;
		vector<Comp> cs; if (bg) for (int p = 0; p < 2; ++p) for (int l = 0; l < 2; ++l) cs.push_back({BG, p, l, {Hyp()}}); else for (auto& s : subj) for (int t = POS; t <= ANIM; ++t) cs.push_back({t, s.first, s.second, {Hyp()}});
		Rng nr(c.seed ^ 77); bool fin = false; int nz = (int)c.get("noise"); i64 hypmax = 0;
		w.input = [&](i64, InFrame& in){ if (nz & 1 && nr.chance(1, 4)) in.text.push_back('A'); if (nz & 2 && nr.chance(1, 4)) in.buttons = (u32)nr.below(1 << 10); };
		w.on_frame = [&](i64 f){
			if (!w.ptc || fin) return !fin; i64 K = var_int("K", 0), E = var_int("E", 0); if (K < 0 || K > (i64)ops.size() || E > K) return true;
			for (auto& q : cs){
				auto closure = [&](bool exact){ for (size_t i = 0; i < q.h.size() && q.h.size() < 4000; ++i){ if ((i64)q.h[i].c >= K) continue; Hyp n = q.h[i]; const Op& o = ops[n.c]; bool tch = q.touches(o); if (tch){ if (!exact) n.tol += 0; q.apply(o, n, n.c); } ++n.c; if (!tch) q.h[i] = n, --i; else q.h.push_back(n); } };
				i64 chstep = 1; closure(true); 
				for (auto& h : q.h){ chstep = 1; if (q.t == ANIM) for (size_t j = 0; j < h.c; ++j) if (ops[j].kind == SPSET && ops[j].page == q.page && ops[j].id == q.id) chstep = ops[j].a[5]; q.step(h, chstep); }
				if (slop) closure(false);
				int o[6]; double obs[2] = {0, 0}; bool active = true; if (q.t == BG){ probe_bg(w.ptc, q.page, q.id, o); obs[0] = o[0]; obs[1] = o[1]; } else { probe_sprite(w.ptc, q.page, q.id, o); active = o[0]; if (q.t == POS){ obs[0] = o[1]; obs[1] = o[2]; } else if (q.t == SCALE) obs[0] = o[3]; else if (q.t == ANGLE) obs[0] = o[4]; else obs[0] = o[5]; }
				vector<Hyp> keep; string why;
				for (auto& h : q.h){ if ((i64)h.c < E) continue; bool ok = true; string m;
					for (auto i = h.exp.begin(); i != h.exp.end();){ if ((i64)i->first >= E){ ++i; continue; } const Op& ro = ops[i->first]; int b = ((int)i->first + 1) * 6, x = 0; double tol = i->second.second; auto rd = [&](int j){ probe_arr(w.ptc, "R", b + j, &x); return x; };
						if (ro.kind == BGCHK || ro.kind == SPCHK){ int val = rd(0); int bit = q.t == BG ? 0 : q.t == POS ? 0 : q.t == ANGLE ? 1 : q.t == SCALE ? 2 : 3; bool g = (val >> 12 >> bit) & 1; hit("reads"); if (g != (i->second.first[0] != 0)){ ok = false; m = fmt("%s gave %g, which says it is %smoving", ro.text.c_str(), val / 4096.0, g ? "" : "not "); } }
						else { hit("reads"); if (q.t == POS){ for (int k = 0; k < 2; ++k){ i64 g = rd(k); double want = i->second.first[k]; i64 lo = fl(want - tol), hi = fl(want + tol); if (!slop) lo = hi = fl(want); if ((g & 4095) || (g >> 12) < lo || (g >> 12) > hi){ ok = false; m = fmt("SPREAD gave %c=%g, expected %g", "XY"[k], g / 4096.0, want / 4096.0); } } }
							else if (q.t == ANIM){ if (rd(4) != i->second.first[0] * 4096){ ok = false; m = fmt("SPREAD gave character %g, expected %g", x / 4096.0, i->second.first[0]); } }
							else { int g = rd(q.t == ANGLE ? 2 : 3); if (q.dist(g, i->second.first[0]) > (slop ? tol : 0)){ ok = false; m = fmt("SPREAD gave %s %g, expected %g", CN[q.t], g / 4096.0, i->second.first[0] / 4096.0); } } }
						i = h.exp.erase(i); }
					if (q.t != BG && h.active != active){ ok = false; m = fmt("the sprite is %sshown", active ? "" : "not "); }
					if (ok && (q.t == BG || active)) for (int k = 0; k < q.dims(); ++k) if (q.dist(obs[k], h.x[k]) > h.tol){ ok = false; m = q.t == ANIM ? fmt("character %g is shown, expected %g", obs[k], h.x[k]) : fmt("%s %s is %.4f, expected %.4f%s", q.dims() > 1 ? (k ? "y" : "x") : "", CN[q.t], obs[k] / 4096, h.x[k] / 4096, h.moving ? fmt(" (frame %lld of %lld)", (long long)h.k, (long long)h.n).c_str() : ""); }
					if (!ok){ why = m; continue; }
					if (q.t != ANIM && (q.t == BG || active)){ for (int k = 0; k < q.dims(); ++k) h.x[k] = obs[k]; if (h.moving && h.k == 0) for (int k = 0; k < q.dims(); ++k) h.x0[k] = obs[k]; }
					keep.push_back(h); }
				if (keep.empty()){ string last; for (i64 i = K - 1; i >= 0; --i) if (q.touches(ops[i])){ last = ops[i].text; break; } v = bad(string("state-") + CN[q.t], fmt("frame %lld, %s of %s %d on screen %d after %s: %s", (long long)f, CN[q.t], bg ? "layer" : "sprite", q.id, q.page, last.c_str(), why.c_str())); fin = true; return false; }
				// drop duplicates
				if (keep.size() > 1){ vector<Hyp> u; for (auto& h : keep){ bool dup = false; for (auto& x : u) if (x.c == h.c && x.k == h.k && x.n == h.n && x.moving == h.moving && x.exp == h.exp && x.tx[0] == h.tx[0] && x.tx[1] == h.tx[1] && x.x[0] == h.x[0] && x.x[1] == h.x[1]) dup = true; if (!dup) u.push_back(h); } keep = u; }
				hypmax = std::max<i64>(hypmax, keep.size()); q.h = keep; hit("component_frames"); for (auto& h : keep) if (h.moving){ hit("moving_frames"); break; } }
			if (var_is("F", 1)) { fin = true; return false; } return true; };
		sim_run(w); account(w); v.hash = h2(w.frame, hypmax); if (v.bad) return v;
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!var_is("F", 1)){ int e = probe_err(w.ptc); if (e && e != probe_err_break()) return bad("error", fmt("the program stopped with %s after operation %lld", probe_errname(e), (long long)var_int("K", 0))); v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		hit("nontrivial"); hit("operations", ops.size()); return v;
	}
};
static Reg r12(new AnimScenario(false)); static Reg r13(new AnimScenario(true));
