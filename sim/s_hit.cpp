// P26: collision results are true of one moment - SPHIT and SPHITSP answer whether the areas of the
// sprites, along their way to the next frame, touch, for the sprites as they are between two steps.
#include "sim.h"
extern "C" void probe_hit(void* ptc, int page, int id, int* o);
namespace {
struct HS { i64 on, x, y, vx, vy, sc, hx, hy, hw, hh, dx, dy, mask, adj, t; };
struct Frac { i64 n, d; }; // d > 0
static bool lt(Frac a, Frac b){ return (__int128)a.n * b.d < (__int128)b.n * a.d; }
struct Snap { i64 C, D; map<int, HS> s; };
static bool touches(const HS& a, const HS& b){
	if (!a.on || !b.on || !(a.mask & b.mask)) return false;
	// the way of a relative to b within one frame
	i64 d[2] = {(a.dx || a.dy ? a.dx : a.vx) - (b.dx || b.dy ? b.dx : b.vx), (a.dx || a.dy ? a.dy : a.vy) - (b.dx || b.dy ? b.dy : b.vy)};
	auto lo = [](const HS& s, int k){ return (k ? s.y : s.x) + ((k ? s.hy : s.hx) >> 12) * s.sc; };
	auto hi = [](const HS& s, int k){ return (k ? s.y : s.x) + (((k ? s.hy : s.hx) + (k ? s.hh : s.hw)) >> 12) * s.sc; };
	Frac t0 = {0, 1}, t1 = {1, 1};
	for (int k = 0; k < 2; ++k){ i64 A = lo(b, k) - hi(a, k), B = hi(b, k) - lo(a, k); // A <= t*d <= B
		if (!d[k]){ if (A > 0 || B < 0) return false; continue; }
		Frac p = d[k] > 0 ? Frac{A, d[k]} : Frac{-B, -d[k]}, q = d[k] > 0 ? Frac{B, d[k]} : Frac{-A, -d[k]}; if (lt(t0, p)) t0 = p; if (lt(q, t1)) t1 = q; }
	return !lt(t1, t0);
}
struct HitScenario : Scenario {
	HitScenario(){ id = "P26"; }
	struct Query { int a, b, start, page; bool sp; string text; }; // sp: SPHITSP
	Case gen(u64 seed, bool th) override {
		Case c; Rng r(seed); gen_sched(c, r); c.p["gen"] = (i64)r.below(1 << 30); c.p["noise"] = r.below(4); c.p["brk"] = r.chance(1, 6) ? r.range(1, 200) : 0; int n = (int)r.range(1, th ? 6 : 4);
		for (int i = 0; i < n; ++i){ Item it; it.kind = "phase"; bool form = r.chance(1, 2); it.a = {(i64)r.below(1 << 30), form}; c.items.push_back(it); int m = (int)(form ? r.range(8, 40) : r.range(2, 14)); for (int j = 0; j < m; ++j){ Item q; q.kind = "query"; q.a = {(i64)r.below(1 << 30), (i64)(r.chance(form ? 7 : 1, form ? 8 : 2) ? 0 : r.range(1, 4))}; c.items.push_back(q); } }
		return c;
	}
	Verdict exec(const Case& c) override {
		Verdict v; string refuse; string src = "DIM R(800)\rC=0:D=0:F=0\r"; vector<Query> qs; static const int pool[] = {0, 1, 2, 7, 30, 31, 99}; Rng g((u64)c.get("gen") + 3); vector<int> ids; int ni = 2 + (int)g.below(4); for (int i = 0; i < ni; ++i){ int k = pool[g.below(7)]; if (std::find(ids.begin(), ids.end(), k) == ids.end()) ids.push_back(k); } if (ids.size() < 2) ids.push_back(ids[0] == 3 ? 4 : 3);
		int page = 0; bool any = false; set<std::pair<int,int>> act; i64 frames = 0;
		for (auto& it : c.items){
			if (it.kind == "phase" && it.a.size() > 1 && it.a[1]){ Rng r((u64)it.a[0] * 31 + 7); any = true; page = (int)r.chance(1, 6); src += fmt("SPPAGE %d\r", page); // in formation: all sprites take the same way, side by side or one pixel apart
				int x = (int)r.range(-40, 40), y = (int)r.range(-40, 40), sx = (int)r.below(5), mx = (int)r.range(-400, 400), my = (int)r.range(-400, 400), T = (int)r.range(20, 90), w = r.chance(1, 2) ? 16 : 8; string mv;
				for (int k : ids){ src += fmt("SPSET %d,%d,0,0,0,0,%d,%d\rSPOFS %d,%d,%d\r", k, (int)r.below(80), w, w, k, x, y); act.insert({page, k}); if (r.chance(1, 6)){ int e = (int)r.range(-30, 30); src += fmt("SPCOLVEC %d,%d,%d\r", k, r.chance(1, 2) ? e : 0, r.chance(1, 2) ? e : 0); } mv += fmt("SPOFS %d,%d,%d,%d\r", k, x + mx, y + my, T); int gap = (int)r.below(2); if (sx & 1) x += r.chance(1, 2) ? w + gap : -w - gap; else if (sx & 2) y += r.chance(1, 2) ? w + gap : -w - gap; else { x += w + gap; y += r.chance(1, 2) ? w : -w; } }
				src += mv + "WAIT 2\r"; frames += 10; }
			else if (it.kind == "phase"){ Rng r((u64)it.a[0] * 31 + 7); any = true; int span = r.chance(1, 2) ? 40 : 120; int npg = r.chance(1, 4) ? 2 : 1;
				for (int pg = 0; pg < npg; ++pg){ page = r.chance(1, 6) ? 1 : npg > 1 ? pg : 0; src += fmt("SPPAGE %d\r", page); static const int dim[] = {8, 16, 32, 64};
					for (int k : ids){ auto key = std::make_pair(page, k); bool a = act.count(key);
						if (a && r.chance(1, 8)){ src += fmt("SPCLR %d\r", k); act.erase(key); continue; }
						bool fresh = !a || r.chance(1, 3); if (fresh){ if (r.chance(1, 10) && !a) continue; int w = 16, h = 16; src += fmt("SPSET %d,%d,0,0,0,%d", k, (int)r.below(80), (int)r.below(4)); if (r.chance(1, 2)){ w = dim[r.below(4)]; h = dim[r.below(4)]; src += fmt(",%d,%d", w, h); } src += "\r"; act.insert(key); }
						bool adj = false; if (fresh ? r.chance(1, 2) : r.chance(1, 4)){ adj = r.chance(1, 2); src += fmt("SPCOL %d,%d,%d,%d,%d,%d", k, (int)r.range(-20, 20), (int)r.range(-20, 20), (int)r.below(r.chance(1, 4) ? 3 : 40), (int)r.below(r.chance(1, 4) ? 3 : 40), adj ? 1 : 0); if (r.chance(1, 2)) src += fmt(",%d", (int)(r.chance(1, 2) ? 1 << r.below(8) : r.below(256))); src += "\r"; }
						if (r.chance(1, 4)){ int dx = (int)r.range(-30, 30), dy = (int)r.range(-30, 30); if (r.chance(1, 4)) dx = 0; else if (r.chance(1, 3)) dy = 0; src += fmt("SPCOLVEC %d,%d,%d\r", k, dx, dy); }
						if (fresh || r.chance(1, 3)) src += fmt("SPOFS %d,%d,%d\r", k, (int)r.range(-span / 4, span), (int)r.range(-span / 4, span));
						if (adj && k < 32 && r.chance(1, 2)) src += fmt("SPSCALE %d,%d%s\r", k, (int)r.below(201), r.chance(1, 2) ? fmt(",%d", (int)r.range(2, 30)).c_str() : ""); else if (fresh){}
						if (r.chance(3, 4)) src += fmt("SPOFS %d,%d,%d,%d\r", k, (int)r.range(-span / 2, span + 20), (int)r.range(-span / 2, span + 20), (int)(r.chance(1, 2) ? r.range(1, 8) : r.range(5, 60))); 
						if (r.chance(1, 8)) src += fmt("SPOFS %d,%d,%d\r", k, (int)r.range(-span / 4, span), (int)r.range(-span / 4, span)); } }
				src += "WAIT 2\r"; frames += 10; }
			else if (it.kind == "query" && any && qs.size() < 90){ Rng r((u64)it.a[0] * 17 + 5); Query q; q.sp = r.chance(1, 3); q.page = r.chance(1, 8) ? (int)r.below(2) : page; q.a = ids[r.below(ids.size())]; do q.b = ids[r.below(ids.size())]; while (q.b == q.a); q.start = r.chance(1, 2) ? 0 : r.chance(1, 2) ? q.b : r.chance(1, 2) ? q.a : (int)r.below(100); if (it.a[1]){ src += fmt("WAIT %d\r", (int)it.a[1]); frames += it.a[1]; }
				if (q.page != page){ src += fmt("SPPAGE %d\r", q.page); page = q.page; }
				int k = (int)qs.size() + 1; q.text = q.sp ? fmt("SPHITSP(%d,%d)", q.a, q.b) : q.start ? fmt("SPHIT(%d,%d)", q.a, q.start) : fmt("SPHIT(%d)", q.a);
				src += fmt("C=%d:R(%d)=%s:R(%d)=SPHITNO:D=%d\r", k, 4 * k, q.text.c_str(), 4 * k + 1, k); qs.push_back(q); } }
		if (qs.empty()){ v.invalid = true; return v; }
		{ Rng r((u64)c.get("gen") * 5 + 11); if (r.chance(1, 6)){ int x = r.chance(1, 2) ? 100 + (int)r.below(3) : -1 - (int)r.below(3), y = (int)r.below(100); int z = (int)r.below(5); refuse = z == 0 ? fmt("SPHIT(%d)", x) : z == 1 ? fmt("SPHIT(%d,%d)", x, y) : z == 2 ? fmt("SPHIT(%d,%d)", y, x) : z == 3 ? fmt("SPHITSP(%d,%d)", x, y) : fmt("SPHITSP(%d,%d)", y, x); src += "G=1\rZ=" + refuse + "\rG=2\r"; } }
		src += "F=1\r@E:GOTO @E\r"; Disk d; base_disk(d); d["programs/MAIN.PTC"] = prg_file(src);
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = frames * 6 + 2500; w.max_bbs = 80000000;
		vector<Snap> sn; Rng nr(c.seed ^ 77); int nz = (int)c.get("noise"); i64 brk = c.get("brk"), t = 0; bool fin = false, broken = false;
		w.input = [&](i64, InFrame& in){ if (nz & 1 && nr.chance(1, 4)) in.text.push_back('A'); if (nz & 2 && nr.chance(1, 4)) in.buttons = (u32)nr.below(1 << 10); if (W->ptc && var_int("C", 0) > 0 && ++t >= brk && brk && t < brk + 4){ in.buttons |= 1u << 11; broken = true; } };
		w.on_frame = [&](i64){ if (!W->ptc || fin) return !fin; Snap s; s.D = var_int("D", 0); s.C = var_int("C", 0); if (s.C < 0) return true; for (int p = 0; p < 2; ++p) for (int k = 0; k < 100; ++k){ HS h; int o[15]; probe_hit(W->ptc, p, k, o); if (!o[0]) continue; i64* q = &h.on; for (int i = 0; i < 15; ++i) q[i] = o[i]; s.s[p * 100 + k] = h; } sn.push_back(s); if (var_is("F", 1) || ((broken || (!refuse.empty() && var_is("G", 1))) && probe_waiting_input(W->ptc))){ fin = true; return false; } return true; };
		sim_run(w); account(w);
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (!fin){ int e = probe_err(w.ptc); if (e && e != probe_err_break() && !(!refuse.empty() && var_is("G", 1))) return bad("error", fmt("the program stopped with %s after query %lld\n", probe_errname(e), (long long)var_int("D", 0)) + src); v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		if (!refuse.empty() && var_is("G", 2)) return bad("not-refused", refuse + ": there is no such sprite, but the program went on\n" + src); if (!refuse.empty() && var_is("G", 1)) hit("refused");
		i64 D = sn.back().D; size_t from = 0; u64 hs = w.frame;
		for (int k = 1; k <= (int)D && k <= (int)qs.size(); ++k){ const Query& q = qs[k - 1]; int x[4]; for (int j = 0; j < 4; ++j) probe_arr(w.ptc, "R", 4 * k + j, &x[j]); hs = h2(hs, x[0]);
			while (from + 1 < sn.size() && sn[from + 1].C < k) ++from; size_t to = from; while (to + 1 < sn.size() && sn[to].D < k) ++to; bool ok = false; string why; hit(q.sp ? "sphitsp" : "sphit"); if (x[0]) hit("hits"); if (to > from + 1) hit("spanning_frames");
			for (size_t i = from; i <= to && !ok; ++i){ auto get = [&](int id){ auto z = sn[i].s.find(q.page * 100 + id); if (z == sn[i].s.end()){ HS h; memset(&h, 0, sizeof h); return h; } return z->second; };
				HS a = get(q.a), b = get(q.b);  (void)b;
				if (q.sp){ bool m = touches(a, b); if (m != touches(b, a)) hit("asymmetric"); ok = x[0] == (m ? 4096 : 0); if (!ok && why.empty()) why = fmt("expected %d", m); }
				else { int n = -1; for (int j = q.start; j < 100 && n < 0; ++j) if (j != q.a && touches(a, get(j))) n = j; ok = x[0] == (n >= 0 ? 4096 : 0) && (n < 0 || x[1] == n * 4096); if (!ok && why.empty()) why = n < 0 ? "expected 0" : fmt("expected 1 with sprite %d", n); } }
			if (!ok){ string s; for (auto& z : sn[from].s) if (z.first / 100 == q.page){ const HS& h = z.second; s += fmt("\n sprite %d at %g,%g moving %g,%g (time %lld) area %g,%g %gx%g scale %g%s vector %g,%g group %lld", z.first % 100, h.x / 4096., h.y / 4096., h.vx / 4096., h.vy / 4096., (long long)h.t, h.hx / 4096., h.hy / 4096., h.hw / 4096., h.hh / 4096., h.sc / 4096., h.adj ? " adjusted" : "", h.dx / 4096., h.dy / 4096., (long long)h.mask); }
				return bad(q.sp ? "sphitsp" : "sphit", fmt("query %d: %s gave %g (SPHITNO %g), %s", k, q.text.c_str(), x[0] / 4096., x[1] / 4096., why.c_str()) + s + fmt("\n%d moments\n", (int)(to - from + 1)) + src); } }
		v.hash = hs; hit("nontrivial"); return v;
	}
};
static Reg r26(new HitScenario);
}
