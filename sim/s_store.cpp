// P14..P18: the storage commands (SAVE, LOAD, APPEND, EXEC, FILES, autoload) against a model of the
// disk and of the resources, under disk faults, damaged files, process kill and restart.
#include "sim.h"
#include <cmath>
void sim_stop(const char*);

static const char* RES[] = { "MEM","GRP0","GRP1","GRP2","GRP3","SCU0U","SCU1U","SCU0L","BGU0U","BGU3L","BGF0U","BGD1U","SPU0","SPU7","SPD0","SPD3","SPS0U","SPS1L","COL0U","COL1L","COL2U","PRG" };
static const int NRES = sizeof RES / sizeof *RES, R_PRG = NRES - 1;
static const char* NAMES[] = { "A","B1","LONGNAME","X_9","Z0Z0Z0Z0","7","AB","_" };
static const int NNAMES = 8;
static string rtype(const string& r){ return r.substr(0, 3); }
static const char* type12(const string& r){
	string t = rtype(r);
	if (t == "PRG") return "PETC0300RPRG"; if (t == "MEM") return "PETC0200RMEM"; if (t == "GRP") return "PETC0100RGRP";
	if (t == "SCU") return "PETC0100RSCR"; if (t == "COL") return "PETC0100RCOL"; return "PETC0100RCHR";
}
static size_t rsize(const string& r){ string t = rtype(r); if (t == "MEM") return 516; if (t == "GRP") return 49152; if (t == "COL") return 512; if (t == "PRG") return 0; return 8192; }
static const size_t MAXSRC = 524288;

// deterministic contents
static string body_of(const string& r, u64 cs){
	Rng g(cs ^ 0xb0d1e5); string t = rtype(r), b;
	if (t == "PRG"){
		size_t n = g.chance(1, 12) ? MAXSRC - g.below(40) : g.chance(1, 12) ? 0 : (size_t)g.logu(1, 5000);
		b.resize(n); u64 x = cs; for (size_t i = 0; i < n; ++i){ x = x * 6364136223846793005ull + 1442695040888963407ull; unsigned v = (unsigned)(x >> 40) % 70; b[i] = v == 0 ? '\r' : (char)(32 + v % 60); }
		return b;
	}
	b.resize(rsize(r)); u64 x = cs; int run = 0; char c = 0;
	for (size_t i = 0; i < b.size(); ++i){ if (run-- <= 0){ x = x * 6364136223846793005ull + 1442695040888963407ull; run = (x >> 50) % 9; c = (char)((x >> 40) & 15); } b[i] = c; }
	if (t == "MEM"){ u32 len = (u32)g.below(257); for (int i = 0; i < 4; ++i) b[512 + i] = (char)(len >> (8 * i)); }
	return b;
}
static string petc_file(const string& r, const string& body){ if (rtype(r) == "PRG") return prg_file(body); return string(type12(r)) + body; }
static string sbcc(const string& body, int bits){
	string o = "SBCC"; o += (char)bits; o += (char)(body.size() & 255); o += (char)((body.size() >> 8) & 255); o += (char)((body.size() >> 16) & 255);
	vector<int> cache(1 << bits); for (int i = 0; i < (1 << bits); ++i) cache[i] = i; int next = 0; int nb = 0; unsigned acc = 0; string d;
	auto put = [&](unsigned v, int n){ for (int k = n - 1; k >= 0; --k){ acc = acc * 2 + ((v >> k) & 1); if (++nb == 8){ d += (char)acc; acc = 0; nb = 0; } } };
	for (unsigned char c : body){ int at = -1; for (size_t i = 0; i < cache.size(); ++i) if (cache[i] == c){ at = (int)i; break; }
		if (at >= 0){ put(0, 1); put(at, bits); } else { put(1, 1); put(c, 8); cache[next] = c; next = (next + 1) % (int)cache.size(); } }
	if (nb) d += (char)(acc << (8 - nb));
	return o + d;
}
enum Damage { D_PX, D_PETC, D_TRUNC, D_TRUNCHDR, D_EMPTY, D_MISSING, D_TYPE, D_MAGIC, D_TAIL, D_MEMLEN, D_PRGSIZE, D_SBCC, D_SBCCCUT, D_KINDS };
enum Expect { E_OK, E_FAIL, E_ANY };
static string px_name(u64 cs){ return fmt("N%llu", (unsigned long long)(cs % 100000)); }
static string px_of(const string& r, const string& body, u64 cs){
	string b = body; if (rtype(r) == "PRG"){ b = string(8, '\0') + le32(body.size()) + body; b += string((4 - body.size() % 4) % 4, '\0'); }
	return px_file(type12(r), b, px_name(cs));
}
// builds a file image; returns what LOAD must do with it
static Expect make_file(const string& r, u64 cs, int dmg, string& img, string& body, bool& present){
	Rng g(cs ^ 0xdada); body = body_of(r, cs); present = true; string t = rtype(r); bool prg = t == "PRG";
	bool px = g.chance(1, 2);
	if (dmg == D_MEMLEN && t != "MEM") dmg = D_TRUNC;
	if (dmg == D_PRGSIZE && !prg) dmg = D_TYPE;
	if ((dmg == D_SBCC || dmg == D_SBCCCUT) && prg) dmg = dmg == D_SBCC ? D_PX : D_TRUNC;
	string full = px ? px_of(r, body, cs) : petc_file(r, body);
	size_t hdr = px ? 48 : 12; if (prg) hdr += 12;
	switch (dmg){
		case D_PX: img = px_of(r, body, cs); return E_OK;
		case D_PETC: img = petc_file(r, body); return E_OK;
		case D_TRUNC: { if (prg && body.empty()){ img = ""; return E_FAIL; } size_t n = g.chance(1, 3) ? body.size() - 1 : g.below(body.size()); img = full.substr(0, hdr + n); return E_FAIL; }
		case D_TRUNCHDR: img = full.substr(0, g.below(hdr)); return E_FAIL;
		case D_EMPTY: img = ""; return E_FAIL;
		case D_MISSING: present = false; return E_FAIL;
		case D_TYPE: { if (g.chance(1, 3)){ bool sd = g.chance(1, 2); img = sd ? px_of(r, body, cs) : petc_file(r, body); img[(sd ? 48 : 12) - 1 - g.below(4)] ^= (char)(1 << g.below(6)); return E_FAIL; } // one letter of the type
			string other = prg ? "GRP0" : t == "GRP" ? "SCU0U" : "GRP0"; if (g.chance(1, 3) && !prg) other = "PRG"; string ob = body_of(other, cs); if (other == "PRG") ob += string(60000, 'A'); img = px ? px_of(other, ob, cs) : petc_file(other, ob); return E_FAIL; }
		case D_MAGIC: img = full; img[g.below(4)] ^= 0x55; return E_FAIL;
		case D_TAIL: img = full + string(1 + g.below(5000), 'z'); return prg && !px ? E_OK : E_ANY;
		case D_MEMLEN: { u32 len = g.chance(1, 2) ? 257 : (u32)g.next(); if (len <= 256) len += 100000; for (int i = 0; i < 4; ++i) body[512 + i] = (char)(len >> (8 * i)); img = px ? px_of(r, body, cs) : petc_file(r, body); return E_FAIL; }
		case D_PRGSIZE: { u32 n = g.chance(1, 2) ? (u32)MAXSRC + 1 + (u32)g.below(1000) : (u32)g.next() | 0x80000000u; img = full; for (int i = 0; i < 4; ++i) img[hdr - 4 + i] = (char)(n >> (8 * i)); if (n < 2000000) img.resize(hdr + n, 'q'); return E_FAIL; }
		case D_SBCC: img = sbcc(body, 1 + (int)g.below(6)); return E_OK;
		case D_SBCCCUT: { img = sbcc(body, 1 + (int)g.below(6)); switch (g.below(4)){ case 0: img.resize(g.below(img.size())); break; case 1: img[4] = (char)(8 + g.below(200)); break; case 2: img[5] ^= 1; break; default: img.resize(img.size() - 2); } return E_FAIL; }
	}
	return E_ANY;
}
static const char* JUNK[] = { "NOEXT", "lower.PTC", "TOOLONGNM.PTC", ".HID", "A.TXT", "B.PTC.BAK", "sub/X.PTC", "X.Y.PTC", ".PTC", "SP CE.PTC", "Q.ptc", "C.TMP" };
static bool listed(const string& f, string& n){ // file name -> listed name
	size_t k = f.size(); if (k < 5 || f.substr(k - 4) != ".PTC") return false;
	n = f.substr(0, k - 4); if (n.empty() || n.size() > 8) return false;
	for (char ch : n) if (!((ch >= 'A' && ch <= 'Z') || (ch >= 'a' && ch <= 'z') || (ch >= '0' && ch <= '9') || ch == '_')) return false;
	return true;
}
static const char* BADNAME[] = { "MEM:../X", "MEM:A/B", "GRP0:", "MEM:TOOLONGNM", "../MAIN", "XYZ:A", "GRP9:A", "BGU0X:A", "MEM:A.B", "PRG:..", "", ":A", "MEM:A:B", "SPU8:A", "COL3:A", "SPD0U:A", "A B" };
static const int NBAD = sizeof BADNAME / sizeof *BADNAME;

// ops: kind "op", a = {opcode, res, name, damage}, cs derived from a[4]
enum Op { O_LOADSRC, O_SAVE, O_LOADNAME, O_APPEND, O_FILES, O_GFILL, O_EXEC, O_BADNAME, O_APPENDNAME, O_EXECNAME };

// package table in the order of the package bits
static const char* PKG[] = { "SPU0","SPU1","SPU2","SPU3","SPU4","SPU5","SPU6","SPU7","BGU0U","BGU1U","BGU2U","BGU3U","BGF0U","COL0U","COL1U","COL2U","SCU0U","SCU1U","GRP0","GRP1","GRP2","GRP3","MEM","SPD0","SPD1","SPD2","SPD3","BGU0L","BGU1L","BGU2L","BGU3L","BGF0L","COL0L","COL1L","COL2L","SCU0L","SCU1L","SPS0U","SPS1U","BGD0U","BGD1U","SPS0L","SPS1L","BGD0L","BGD1L" };

// another way to name the same resource: bank 0 and the current page may be left out
static string spell(const string& r, u64 cs, int pg){
	if (r == "MEM" || r == "PRG") return r; int how = (int)(cs >> 20 & 3); if (how < 2) return r;
	int page = r.compare(0, 3, "SPS") == 0 ? pg >> 1 & 1 : r[0] == 'C' ? (r[3] == '0' ? pg & 1 : r[3] == '1' ? pg >> 1 & 1 : pg >> 2 & 1) : pg & 1;
	string q = r; if (q.size() == 5){ if ((q[4] == 'L') != page) return r; q.resize(4); hit("page_omitted"); } if (how == 3 && q[3] == '0'){ q.resize(3); hit("bank_omitted"); } return q;
}
struct Store : Scenario {
	LateBoot* late = nullptr;
	Store(const char* i){ id = i; }
	Case gen(u64 seed, bool thorough) override {
		Case c; Rng r(seed); gen_sched(c, r);
		bool p14 = id == "P14", p15 = id == "P15", p16 = id == "P16", p17 = id == "P17", p18 = id == "P18";
		int n = (int)r.range(2, thorough ? 14 : 8);
		vector<int> rs; for (int i = 0; i < 3; ++i) rs.push_back((int)r.below(NRES)); if (r.chance(1, 3)) rs[0] = R_PRG; if (r.chance(1, 3)) rs[1] = 0;
		if (p17 && r.chance(2, 3)) rs[0] = R_PRG;
		for (int k = 0; k < n; ++k){
			Item it; it.kind = "op"; int op;
			int z = (int)r.below(100);
			if (p16 || p17) op = z < 45 ? O_LOADSRC : z < 65 ? O_SAVE : z < 80 ? O_LOADNAME : z < (p17 ? 95 : 83) ? O_APPEND : O_GFILL;
			else if (p18) op = z < 25 ? O_LOADSRC : z < 55 ? O_SAVE : z < 65 ? O_LOADNAME : z < 70 ? O_APPEND : z < 95 ? O_FILES : O_GFILL;
			else op = z < 30 ? O_LOADSRC : z < 75 ? O_SAVE : z < 92 ? O_LOADNAME : z < 96 ? O_APPEND : O_GFILL;
			int res = r.chance(4, 5) ? rs[r.below(rs.size())] : (int)r.below(NRES);
			if (p17 && op != O_GFILL && r.chance(1, 2)) res = R_PRG;
			int dmg = (int)(r.chance(p16 || p17 ? 1 : 3, 4) ? r.below(2) : r.below(D_KINDS));
			it.a = {op, res, (i64)r.below(4 + r.below(NNAMES - 3)), dmg, (i64)(r.next() >> 2)};
			c.items.push_back(it);
		}
		if (p17 && r.chance(1, 2)){ Item it; it.kind = "op"; it.a = {O_EXEC, R_PRG, 0, r.chance(1, 3) ? (i64)r.below(2) : (i64)r.below(D_SBCC), (i64)(r.next() >> 2), r.chance(1, 2) ? r.range(1, 4) : 0}; c.items.push_back(it); }
		if (p17 && r.chance(1, 4)) c.p["autoload"] = 1 + (i64)r.below(D_SBCC), c.p["acs"] = (i64)(r.next() >> 2);
		if (p18 && r.chance(1, 2)){ Item it; it.kind = "op"; it.a = {O_BADNAME, 0, (i64)r.below(NBAD), (i64)r.below(4), 0}; c.items.push_back(it); }
		int nops = (int)c.items.size();
		// faults: {op index, disk op, nth, kind, arg}
		int nf = p14 ? (int)r.below(2) : (int)r.below(4); if (p18) nf = (int)r.below(3);
		for (int i = 0; i < nf; ++i){
			Item it; it.kind = "fault"; int at = (int)r.below(nops); const Item& o = c.items[at];
			bool save = o.a[0] == O_SAVE; int dop, kind;
			if (save){ static const int so[] = {OP_OPEN, OP_WRITE, OP_WRITE, OP_WRITE, OP_CLOSE, OP_RENAME, OP_REMOVE}; dop = so[r.below(7)]; kind = dop == OP_WRITE ? (int)(r.chance(1, 2) ? FK_NOSPACE : r.below(2)) : FK_ERR; }
			else if (o.a[0] == O_FILES){ dop = r.chance(1, 2) ? OP_OPENDIR : OP_READDIR; kind = FK_ERR; }
			else { static const int lo[] = {OP_OPEN, OP_READ, OP_READ, OP_READ, OP_SEEK, OP_CLOSE}; dop = lo[r.below(6)]; kind = dop == OP_READ ? (int)r.below(3) : FK_ERR; }
			it.a = {at, dop, r.chance(1, 2) ? 0 : (i64)r.below(4), kind, r.chance(1, 2) ? (i64)r.below(64) : (i64)r.below(50000)};
			c.items.push_back(it);
		}
		if (p14 && r.chance(3, 4)){ Item it; it.kind = "crash"; int at = (int)r.below(nops); int dop = OP_WRITE; int z = (int)r.below(10);
			if (z < 4) dop = OP_WRITE; else if (z < 6) dop = OP_CLOSE; else if (z < 7) dop = OP_OPEN; else if (z < 9) dop = OP_RENAME; else dop = -1;
			if (r.chance(3, 4)) for (int t = 0; t < 20 && c.items[at].a[0] != O_SAVE; ++t) at = (int)r.below(nops);
			it.a = {at, dop, (i64)r.below(dop == OP_WRITE ? 4 : 2), r.chance(1, 2) ? (i64)r.below(40) : (i64)r.below(50000), (i64)r.below(4)}; c.items.push_back(it); }
		if (r.chance(1, 2)) c.p["pages"] = (i64)r.below(8);
		c.p["junk"] = p18 ? (i64)r.below(1 << 12) : 0;
		return c;
	}
	struct Vd { Verdict v; string own; void say(const char* prop, const string& cls, const string& msg){ if (!v.bad && own.find(prop) != string::npos) v = bad(cls, msg); else hit(string("other:") + prop); } };

	Verdict exec(const Case& c) override {
		Disk d; base_disk(d); Vd V; V.own = id;
		if (id == "P17" && c.get("autoload")) return autoload(c);
		vector<const Item*> ops, faults; const Item* crash = nullptr; vector<int> opidx; { int idx = 0; for (auto& it : c.items){ if (it.kind == "op"){ ops.push_back(&it); opidx.push_back(idx); } if (it.kind == "fault") faults.push_back(&it); if (it.kind == "crash") crash = &it; if (it.kind == "op") ++idx; } }
		// build the program and the source files
		int pg = (int)c.get("pages"); string src = "DIM R(40)\r"; int K = (int)ops.size();
		if (pg) src += fmt("BGPAGE %d:SPPAGE %d:GPAGE %d,%d,%d\r", pg & 1, pg >> 1 & 1, pg >> 2 & 1, pg >> 2 & 1, pg >> 2 & 1);
		struct Info { string res, name, img, body; Expect ex=E_ANY; bool present=false; u64 pkg=0; vector<string> pbody; string pxname; bool px=false; string target; };
		vector<Info> inf(K + 1);
		bool has_exec = false, has_bad = false;
		// observation: save everything that was used under fresh names
		vector<string> obs(PKG, PKG + 45); obs.push_back("PRG");
		string fin; for (size_t i = 0; i < obs.size(); ++i) fin += fmt("SAVE\"%s:O%zu\":Q=Q+RESULT\r", obs[i].c_str(), i);
		fin += "M$=MEM$:L=LEN(MEM$):G$=PRGNAME$:K$=PACKAGE$\r" + fmt("N=%d\r@E\rWAIT 60\rGOTO @E\r", K + 2);
		for (int k = 0; k < K; ++k){
			const Item& o = *ops[k]; Info& f = inf[k]; f.res = RES[o.a[1] % NRES]; u64 cs = (u64)o.a[4];
			src += fmt("N=%d:WAIT 2\r", k + 1); string q = "\"";
			string sn = fmt("S%d", k);
			switch (o.a[0]){
				case O_LOADSRC: f.ex = make_file(f.res, cs, (int)o.a[3], f.img, f.body, f.present); f.name = sn; f.px = f.img.compare(0, 4, "PX01") == 0; f.pxname = f.px ? px_name(cs) : sn; src += "LOAD\"" + spell(f.res, cs, pg) + ":" + sn + "\",0\r"; break;
				case O_SAVE: f.name = NAMES[o.a[2] % NNAMES]; src += "SAVE\"" + spell(f.res, cs, pg) + ":" + f.name + "\"\r"; break;
				case O_LOADNAME: f.name = NAMES[o.a[2] % NNAMES]; src += "LOAD\"" + spell(f.res, cs, pg) + ":" + f.name + "\",0\r"; break;
				case O_APPEND: f.res = "PRG"; f.ex = make_file("PRG", cs, (int)o.a[3], f.img, f.body, f.present); if (o.a[3] == D_PRGSIZE){ f.ex = E_ANY; f.body = f.img.substr(f.img.compare(0, 4, "PX01") == 0 ? 60 : 24); } f.name = sn; src += "APPEND\"" + sn + "\"\r"; break;
				case O_FILES: src += "CLS:FILES\r"; break;
				case O_GFILL: src += fmt("GFILL 0,0,255,191,%d\r", (int)(o.a[4] % 250)); break;
				case O_EXEC: { f.res = "PRG"; f.name = "TARGET"; has_exec = true;
					f.ex = make_exec(cs, (int)o.a[3], o.a.size() > 5 ? (int)o.a[5] : 0, K, fin, f.img, f.body, f.present, f.pkg, f.pbody); f.px = f.img.compare(0, 4, "PX01") == 0; f.pxname = f.px ? px_name(cs) : f.name;
					src += "EXEC\"TARGET\"\r"; break; }
				case O_BADNAME: { has_bad = true; static const char* cm[] = {"SAVE", "LOAD", "APPEND", "EXEC"}; string nm = BADNAME[o.a[2] % NBAD]; int w = (int)o.a[3] & 3; src += string(cm[w]) + "\"" + nm + "\"" + (w == 1 ? ",0" : "") + "\r"; break; }
			}
			src += fmt("R(%d)=RESULT\r", k + 1);
			if (f.present) d["programs/" + f.name + ".PTC"] = f.img;
		}
		src += fmt("N=%d:WAIT 2\r", K + 1);
		src += "Y=1\r" + fin;
		d["programs/MAIN.PTC"] = prg_file(src);
		for (int j = 0; j < 12; ++j) if (c.get("junk") >> j & 1) d["programs/" + string(JUNK[j])] = "junk";
		for (int k = 0; k < K; ++k) if (inf[k].target == "x") {}

		LateBoot* lb = nullptr; late = nullptr;
		if (crash && id == "P14"){ Case c2; c2.seed = c.seed ^ 0x2b007;
			late = lb = new LateBoot([c2](Disk& dd, const string&){ World w; w.aux = true; w.c = &c2; w.disk = &dd; w.argv = {"MAIN"}; w.nominal = 5000; w.max_frames = 1500; w.max_bbs = 30000000; w.on_frame = [&](i64){ return !var_is("N", 1); }; sim_run(w); account(w);
			string o; for (int k = 0; k < 31; ++k){ int x = 0; o += (char)(w.ptc && probe_arr(w.ptc, "R", k, &x) ? x / 4096 : 99); } if (!var_is("N", 1)) o = "X"; return o; }); }
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 4000; w.max_bbs = 60000000; w.nominal = std::max<i64>(w.nominal, 600);
		vector<map<string,string>> snap(K + 4); vector<bool> have(K + 4, false); vector<bool> faulted(K + 4, false); vector<i64> handles(K + 4, 0), dirs(K + 4, 0); vector<string> con(K + 4); vector<size_t> evat(K + 4, 0);
		int seen = 0; i64 lastN = 0, lastbb = 0, lastf = 0; bool finished = false, crashed = false; i64 crash_at = -1;
		auto countf = [&]{ i64 n = 0; for (auto& a : w.fired) for (i64 x : a) n += x; return n; }; i64 firedbase = 0;
		w.input = [&](i64 f, InFrame& in){
			if (!w.ptc) return;
			i64 N = var_int("N", 0);
			if (N != lastN){
				if (lastN >= 1 && lastN <= K) faulted[lastN] = countf() != firedbase;
				if (N < 1 || N > K + 2){ V.say(id.c_str(), "state", "program state damaged"); finished = true; return; }
				lastN = N; lastbb = w.bbs_prg; lastf = f; w.faults.clear(); firedbase = countf(); crash_at = -1;
				if (!have[N]){ have[N] = true; snap[N] = d.files; handles[N] = w.counters["open_handles"]; dirs[N] = w.counters["open_dirs"]; con[N] = con_all(); evat[N] = w.fev.size(); }
				if (N == K + 2){ finished = true; return; }
				if (N <= K){
					for (auto* q : faults) if (q->a[0] == N - 1){ Fault x; x.op = (int)q->a[1]; x.nth = w.ops[q->a[1]] + q->a[2]; x.kind = (int)q->a[3]; x.arg = q->a[4]; w.faults.push_back(x); }
					if (crash && crash->a[0] == N - 1){ if (crash->a[1] >= 0){ Fault x; x.op = (int)crash->a[1]; x.nth = w.ops[crash->a[1]] + crash->a[2]; x.kind = FK_CRASH; x.arg = crash->a[3]; w.faults.push_back(x); } else crash_at = f + 1 + crash->a[4]; }
				}
			} else if (f - lastf > 200 && (w.bbs_prg - lastbb > 4000000 || f - lastf > 2500)) { w.stop_reason = "stuck"; finished = true; }
			if (has_bad && N == K && f - lastf > 60) finished = true;
		};
		w.on_frame = [&](i64 f){ if (crash_at >= 0 && f >= crash_at){ crashed = true; hit("fault:process-kill-frame"); return false; } return !finished; };
		sim_run(w); account(w); hit("nontrivial");
		if (w.crashed_by_fault) crashed = true;
		i64 N = var_int("N", 0); i64 R[64]; for (int k = 0; k <= K + 1 && k < 40; ++k){ int x = 0; R[k] = w.ptc && probe_arr(w.ptc, "R", k, &x) ? x / 4096 : -1; }
		Verdict res; res.hash = h2(w.frame, N); bool stopped = false;
		if (w.stop_reason == "stuck" || (!finished && !crashed)){
			if (w.stop_reason == "step-cap" || w.stop_reason == "frame-cap"){ res.invalid = true; hit("capped"); return res; }
			if (w.stop_reason != "stuck" && w.stop_reason != "scenario") return bad("ended", "the run ended early: " + w.stop_reason);
			// APPEND of a damaged file and FILES without a directory stop the program with an error message
			bool legit = false; i64 aN = N;
			if (N >= 1 && N <= K && w.stop_reason == "stuck"){ bool fl = countf() != firedbase; int op = (int)ops[N - 1]->a[0];
				if (op == O_APPEND && (inf[N - 1].ex != E_OK || fl)) legit = true; if (op == O_FILES && fl) legit = true; }
			stopped = legit; (void)aN;
			if (!legit){
			const char* own = N >= 1 && N <= K ? owner(ops[N - 1]->a[0], faulted[N], inf[N - 1].res) : "P16";
			V.say(own, "session-aborted", fmt("the program stopped at operation %lld (%s): %s", (long long)N, N >= 1 && N <= K ? describe(*ops[N - 1]).c_str() : "end", con_line(probe_cy(w.ptc) > 2 ? probe_cy(w.ptc) - 2 : 0).c_str()));
			V.v.hash = res.hash; return V.v; }
			hit("stopped_with_error");
		}
		// ---- judge the history against the model
		map<string,string> mem; set<string> unknown; mem["PRG"] = src; for (auto& o : obs) if (o != "PRG") mem[o] = string(rsize(o), '\0'); // no resource files: everything starts empty
		
		string prgname = "MAIN"; bool name_known = true; u64 pkg = 0; bool pkg_known = !c.get("autoload"); // which resources came with the program that runs
		map<string,string> names; // expected disk content
		bool disk_any = false;
		for (int k = 0; k < K; ++k){
			if (!have[k + 1]) break;
			const Item& o = *ops[k]; Info& f = inf[k]; int op = (int)o.a[0];
			bool done = have[k + 2]; bool flt = faulted[k + 1]; i64 r = R[k + 1];
			string path = "programs/" + f.name + ".PTC"; auto& S = snap[k + 1]; bool existed = S.count(path);
			const map<string,string>& After = done ? snap[k + 2] : d.files;
			string what = fmt("operation %d (%s)%s", k + 1, describe(o).c_str(), flt ? " with an injected disk fault" : "");
			// --- P18: locality and handles
			if (op != O_BADNAME){
				for (auto& kv : After){ auto it = S.find(kv.first); bool ch = it == S.end() || it->second != kv.second; if (!ch) continue;
					if (op == O_SAVE && kv.first == path) continue;
					if (op == O_SAVE && (flt || crashed) && kv.first.size() > 4 && kv.first.substr(kv.first.size() - 4) != ".PTC" && kv.first.compare(0, 9, "programs/") == 0) continue; // temporary leftovers of a failed save
					if (has_exec && op == O_EXEC) continue;
					V.say("P18", "other-file-changed", what + " changed file " + kv.first); }
				for (auto& kv : S) if (!After.count(kv.first) && !(op == O_EXEC) && kv.first.substr(kv.first.size() - 4) == ".PTC" && !(op == O_SAVE && kv.first == path)) V.say("P18", "other-file-removed", what + " removed file " + kv.first);
				if (done && op != O_EXEC && handles[k + 2] > handles[1]) V.say("P18", "handle-leak", what + fmt(" left %lld file handles open", (long long)(handles[k + 2] - handles[1])));
				if (done && dirs[k + 2] > dirs[1]) V.say("P18", "dir-leak", what + " left a directory handle open");
				if (done) for (size_t e = evat[k + 1]; e < evat[k + 2]; ++e){ auto& x = w.fev[e]; if (op != O_SAVE && op != O_EXEC && (x.op == OP_WRITE || x.op == OP_REMOVE || x.op == OP_RENAME || (x.op == OP_OPEN && x.n))) V.say("P18", "unexpected-write", what + " wrote to " + x.path);
					if ((op == O_SAVE || op == O_LOADSRC || op == O_LOADNAME || op == O_APPEND) && x.op == OP_OPEN && x.path.compare(0, 9 + f.name.size(), "programs/" + f.name) != 0) V.say("P18", "unexpected-open", what + " opened " + x.path); }
			}
			if (op == O_BADNAME){
				for (size_t e = evat[k + 1]; e < (done ? evat[k + 2] : w.fev.size()); ++e){ auto& x = w.fev[e]; string b = x.path, bn; if (b.compare(0, 10, "resources/") == 0 || (b.compare(0, 9, "programs/") == 0 && listed(b.substr(9, b.rfind('.') - 9) + ".PTC", bn))) continue; V.say("P18", "bad-name-access", what + fmt(" accessed \"%s\"", b.c_str())); }
				if (After != S) V.say("P18", "bad-name-changed", what + " changed the disk");
				hit("bad_name"); continue;
			}
			if (op == O_FILES){
				if (done && !flt){
					set<string> want, got; for (auto& kv : S) if (kv.first.compare(0, 9, "programs/") == 0){ string n; if (listed(kv.first.substr(9), n)) want.insert(n); }
					size_t i = 0; string& t = con[k + 2]; vector<string> lines; while (i < t.size()){ size_t j = t.find('\n', i); lines.push_back(t.substr(i, j - i)); i = j + 1; }
					for (auto& l : lines) if (!l.empty()) { if (got.count(l)) V.say("P18", "files-duplicate", "FILES listed " + l + " twice"); got.insert(l); }
					if (want.size() <= 22){ hit("files_checked"); if (want != got){ string a, b; for (auto& x : want) a += x + " "; for (auto& x : got) b += x + " "; V.say("P18", "files-wrong", "FILES listed [" + b + "], loadable files are [" + a + "]"); } }
				}
				continue;
			}
			if (op == O_GFILL){ if (done || !done) { if (true){ string gp = c.get("pages") & 4 ? "GRP1" : "GRP0"; mem[gp] = string(49152, (char)(o.a[4] % 250)); } } continue; }
			if (op == O_SAVE){
				string want; bool known = !unknown.count(f.res) && mem.count(f.res); if (known) want = petc_file(f.res, mem[f.res]);
				bool now = After.count(path); const string cont = now ? After.at(path) : "";
				bool is_old = existed ? (now && cont == S.at(path)) : !now;
				bool is_new = now && (known ? cont == want : cont.size() == 12 + rsize(f.res) && cont.compare(0, 12, type12(f.res)) == 0);
				if (!done){ // crashed inside
					if (crashed && !is_old && !is_new){ V.say("P14", "torn-file", what + fmt(" was interrupted by the end of the process; file %s is neither the previous nor the new version (%zu bytes)", f.name.c_str(), cont.size())); }
					hit(is_new ? "crash_new" : "crash_old"); if (existed) hit("crash_over_existing"); continue; }
				if (r == 1 && !is_new) V.say(flt ? "P15" : "P14", "acknowledged-wrong", what + fmt(" set RESULT=1 but file %s does not hold the saved data (%zu bytes, expected %zu)", f.name.c_str(), cont.size(), known ? want.size() : rsize(f.res) + 12));
				if (r != 1 && !flt) V.say("P14", "save-failed", what + fmt(" set RESULT=%lld without any fault", (long long)r));
				if (r != 1 && !is_old) V.say("P15", "old-lost", what + fmt(" failed (RESULT=%lld) but file %s changed from %zu to %zu bytes%s", (long long)r, f.name.c_str(), existed ? S.at(path).size() : 0, cont.size(), existed ? "" : " (it did not exist before)"));
				if (flt) hit(r == 1 ? "fault_save_ok" : "fault_save_fail");
				if (r == 1 && is_new && !known){ unknown.erase(f.res); mem[f.res] = cont.substr(12); }
				continue;
			}
			// loading operations
			string img, body; Expect ex = f.ex; bool present = f.present;
			if (op == O_LOADNAME){ present = existed; img = existed ? S.at(path) : ""; ex = E_FAIL;
				if (present && img.compare(0, 12, type12(f.res)) == 0){ if (f.res == "PRG"){ if (img.size() >= 24){ body = img.substr(24); ex = E_OK; } } else if (img.size() == 12 + rsize(f.res)){ body = img.substr(12); ex = E_OK; } } }
			else { img = f.img; body = f.body; }
			const char* P = f.res == "PRG" ? "P17" : "P16";
			if (!done){ if (op == O_EXEC) goto exec_case; continue; }
			if (op == O_EXEC){
			exec_case:
				bool ran = var_is("E1", 1); // the target program ran
				if (N == K + 2 && !done && !ran) {}
				if (ran){
					if (ex == E_FAIL && !flt) V.say("P17", "exec-damaged", what + ": a damaged program was executed");
					mem["PRG"] = body; for (int i = 0, j = 0; i < 45; ++i) if (f.pkg >> i & 1){ mem[PKG[i]] = f.pbody[j++]; unknown.erase(PKG[i]); }
					prgname = f.pxname; name_known = true; pkg = f.pkg; pkg_known = true; hit("exec_ok");
				} else {
					if (ex == E_OK && !flt) V.say("P17", "exec-refused", what + fmt(": a complete program was not executed (RESULT=%lld)", (long long)r));
					if (r != 0) V.say("P17", "exec-result", what + fmt(" failed but RESULT=%lld", (long long)r));
					hit("exec_fail");
				}
				continue;
			}
			if (op == O_APPEND){
				if (r == 1){
					size_t h = img.compare(0, 4, "PX01") == 0 ? 60 : 24; string avail = img.size() > h ? img.substr(h) : "";
					if (ex == E_FAIL && mem["PRG"].size() + avail.size() >= MAXSRC){ string m = mem["PRG"] + avail; m.resize(MAXSRC); mem["PRG"] = m; } // only the missing part did not fit
					else if (ex == E_FAIL) V.say("P17", "append-damaged", what + " set RESULT=1 for an incomplete or wrong file");
					else { string m = mem["PRG"] + body; if (m.size() > MAXSRC) m.resize(MAXSRC); mem["PRG"] = m; hit("append_ok"); }
				} else { if (ex == E_OK && !flt) V.say("P17", "append-refused", what + fmt(" set RESULT=%lld for a complete program", (long long)r)); }
				continue;
			}
			if (r == 1){
				if (ex == E_FAIL) V.say(P, "load-damaged", what + " set RESULT=1 for an incomplete, wrong or missing file");
				else { unknown.erase(f.res); mem[f.res] = body; hit("load_ok"); if (f.res == "PRG"){ prgname = f.pxname; name_known = op == O_LOADSRC; pkg_known = false; } }
				if (ex == E_ANY) hit("load_any_ok");
			} else {
				if (ex == E_OK && !flt) V.say(P, "load-refused", what + fmt(" set RESULT=%lld for a complete file", (long long)r));
				hit("load_fail"); if (flt) hit("fault_load_fail");
			}
		}
		if (have[K + 2]){
			// final contents of everything used
			for (size_t i = 0; i < obs.size(); ++i){ string p = fmt("programs/O%zu.PTC", i); if (unknown.count(obs[i]) || !mem.count(obs[i])) continue;
				string want = petc_file(obs[i], mem[obs[i]]); string got = d.has(p) ? d.files[p] : "";
				if (got != want){ size_t q = 0; while (q < got.size() && q < want.size() && got[q] == want[q]) ++q;
					V.say(obs[i] == "PRG" || has_exec ? "P17" : "P16", "content", fmt("at the end %s differs from the model: %zu bytes, expected %zu, first difference at %zu", obs[i].c_str(), got.size(), want.size(), q)); } }
			{ i64 L = var_int("L", -1), want = 0; for (int i = 0; i < 4; ++i) want |= (i64)(unsigned char)mem["MEM"][512 + i] << (8 * i); hit("mem_text_checked");
				unsigned char mb[300]; int ml = probe_str(w.ptc, "M", mb);
				if (!unknown.count("MEM") && (L != want || ml != want)) V.say(has_exec ? "P17" : "P16", "mem-text", fmt("at the end MEM$ has %lld characters (a copy of it %d), the loaded text has %lld", (long long)L, ml, (long long)want)); }
			unsigned char b[300]; int n = probe_str(w.ptc, "G", b); n = n < 0 ? probe_str(w.ptc, "G$", b) : n;
			if (n >= 0 && name_known){ string g((char*)b, n); if (g != prgname) V.say("P17", "prgname", "PRGNAME$ is \"" + g + "\", expected \"" + prgname + "\""); else hit("prgname_checked"); }
			n = probe_str(w.ptc, "K", b); n = n < 0 ? probe_str(w.ptc, "K$", b) : n;
			if (n >= 0 && pkg_known){ string g((char*)b, n), e = fmt("%llX", (unsigned long long)pkg); if (g != e) V.say("P17", "package", "PACKAGE$ is \"" + g + "\", expected \"" + e + "\""); else hit(pkg ? "package_checked" : "no_package_checked"); }
		}
		if (stopped || (has_bad && !have[K + 2])){ // the program text is still as before
			string t(probe_prgdata(w.ptc), probe_prgsize(w.ptc)); if (t != mem["PRG"]) V.say("P17", "failed-append-content", fmt("after a failed operation the program text has %zu bytes, expected %zu unchanged", t.size(), mem["PRG"].size())); }
		if (crashed && !V.v.bad && id == "P14") reboot(c, d, K, ops.data(), V, mem);
		V.v.hash = res.hash; return V.v;
	}
	static const char* owner(int op, bool flt, const string& res){ if (op == O_SAVE) return flt ? "P15" : "P14"; if (op == O_FILES || op == O_BADNAME) return "P18"; if (op == O_APPEND || op == O_EXEC || res == "PRG") return "P17"; return "P16"; }
	static string describe(const Item& o){
		static const char* dn[] = {"complete SD file","complete internal file","file cut in its data","file cut in its header","empty file","missing file","file of another type","bad magic","extra trailing data","MEM length out of range","impossible program size","compressed","damaged compressed file"};
		string r = RES[o.a[1] % NRES];
		switch (o.a[0]){ case O_LOADSRC: return "LOAD " + r + ", " + dn[o.a[3] % D_KINDS]; case O_SAVE: return "SAVE " + r + ":" + NAMES[o.a[2] % NNAMES]; case O_LOADNAME: return "LOAD " + r + ":" + NAMES[o.a[2] % NNAMES]; case O_APPEND: return string("APPEND, ") + dn[o.a[3] % D_KINDS]; case O_FILES: return "FILES"; case O_GFILL: return "GFILL"; case O_EXEC: return string("EXEC, ") + dn[o.a[3] % D_KINDS]; case O_BADNAME: { static const char* cm[] = {"SAVE", "LOAD", "APPEND", "EXEC"}; return string(cm[o.a[3] & 3]) + " with name \"" + BADNAME[o.a[2] % NBAD] + "\""; } }
		return "?";
	}
	static u64 exec_pkg(u64 cs, int npkg){ Rng g(cs ^ 0x9a9a); u64 pkg = 0; for (int i = 0; i < npkg; ++i) pkg |= 1ull << g.below(45); return pkg; }
	// target of EXEC: a real program that records it ran, then performs the final observation
	static Expect make_exec(u64 cs, int dmg, int npkg, int K, const string& fin, string& img, string& body, bool& present, u64& pkg, vector<string>& pbody){
		Rng g(cs ^ 0xe8ec); present = true;
		body = fmt("E1=1:N=%d:WAIT 2\r", K + 1); int n = (int)g.below(40); for (int i = 0; i < n; ++i) body += fmt("REM %llu\r", (unsigned long long)g.below(100000));
		pkg = exec_pkg(cs, npkg); body += fin;
		for (int i = 0; i < 45; ++i) if (pkg >> i & 1) pbody.push_back(body_of(PKG[i], cs + i));
		string res; vector<size_t> starts; for (int i = 0, j = 0; i < 45; ++i) if (pkg >> i & 1){ res += type12(PKG[i]); starts.push_back(res.size() - 12); res += pbody[j++]; }
		auto build = [&](bool px, u32 size){ string inner = le32((u32)(pkg >> 32)) + le32((u32)pkg) + le32(size) + body + string((4 - body.size() % 4) % 4, '\0') + res; return px ? px_file("PETC0300RPRG", inner, px_name(cs)) : "PETC0300RPRG" + inner; };
		bool px = g.chance(1, 2); size_t hdr = (px ? 48 : 12) + 12; string full = build(px, body.size());
		switch (dmg){
			case D_PX: img = build(true, body.size()); return E_OK;
			case D_PETC: img = build(false, body.size()); return E_OK;
			case D_TRUNCHDR: img = full.substr(0, g.below(hdr)); return E_FAIL;
			case D_EMPTY: img = ""; return E_FAIL;
			case D_MISSING: present = false; return E_FAIL;
			case D_MAGIC: img = full; img[g.below(4)] ^= 0x55; return E_FAIL;
			case D_TYPE: img = full; if (!starts.empty() && g.chance(2, 3)){ size_t s = hdr + body.size() + (4 - body.size() % 4) % 4 + starts[g.below(starts.size())]; img[s + 9] ^= 1; } else img[hdr - 12 - 3] ^= 3; return E_FAIL;
			case D_PRGSIZE: img = build(px, 0x7fffffff - (u32)g.below(1000)); return E_FAIL;
			case D_TRUNC: { if (!res.empty() && g.chance(2, 3)) img = full.substr(0, full.size() - 1 - (g.chance(1, 2) ? 0 : g.below(res.size()))); else img = full.substr(0, hdr + g.below(body.size())); return E_FAIL; }
			default: img = full + string(100, 'x'); return E_ANY;
		}
	}
	// restart after a process kill: every file must load, and hold an old or new version (checked on the disk above)
	void reboot(const Case& c, Disk& d, int K, const Item* const* ops, Vd& V, map<string,string>&){
		Disk d2 = d; vector<std::pair<string,string>> files; // name, resource
		for (auto& kv : d.files) if (kv.first.compare(0, 9, "programs/") == 0){ string n; if (!listed(kv.first.substr(9), n)) continue; bool mine = false; for (int i = 0; i < NNAMES; ++i) if (n == NAMES[i]) mine = true; if (!mine) continue;
			string r; for (int i = 0; i < NRES; ++i) if (kv.second.compare(0, 12, type12(RES[i])) == 0){ r = RES[i]; break; } if (r.empty()){ V.say("P14", "unreadable", "after restart file " + n + " has no valid type"); return; } files.push_back({n, r}); }
		string s = "DIM R(40)\r"; int i = 0; for (auto& f : files){ s += fmt("LOAD\"%s:%s\",0\rR(%d)=RESULT\rSAVE\"%s:U%d\"\rR(%d)=R(%d)+2*RESULT\r", f.second.c_str(), f.first.c_str(), i, f.second.c_str(), i, i, i); ++i; }
		s += "SAVE\"MEM:A\"\rR(30)=RESULT\rN=1\r@E\rWAIT 60\rGOTO @E\r";
		d2["programs/MAIN.PTC"] = prg_file(s);
		BootResult b = late->go(d2, "");
		hit("restarts"); if (!b.ok){ V.say("P14", "restart-crash", fmt("the process died (signal %d) while reading the files left by the killed process", b.sig)); return; }
		if (b.blob == "X"){ V.say("P14", "restart-stuck", "reading the files back after the restart did not finish"); return; }
		i = 0; for (auto& f : files){ hit("restart_files"); if (b.blob[i] != 3) V.say("P14", "restart-load", fmt("after the restart LOAD of %s:%s gave status %d", f.second.c_str(), f.first.c_str(), b.blob[i])); else if (b.disk.files[fmt("programs/U%d.PTC", i)] != d.files["programs/" + f.first + ".PTC"]) V.say("P14", "restart-content", "after the restart " + f.first + " reads back differently"); ++i; }
		if (b.blob[30] != 1) V.say("P14", "restart-save", "after the restart SAVE fails");
	}
	// autoload of a complete or damaged program given on the command line
	Verdict autoload(const Case& c){
		Vd V; V.own = id; Disk d; base_disk(d); u64 cs = (u64)c.get("acs"); int dmg = (int)c.get("autoload") - 1; Rng g(cs ^ 3);
		string img, body; bool present; u64 pkg; vector<string> pb; Expect ex = make_exec(cs, dmg, (int)g.below(3), 0, "N=2\r@E\rWAIT 60\rGOTO @E\r", img, body, present, pkg, pb);
		if (present) d["programs/TARGET.PTC"] = img;
		bool editor = g.chance(2, 3); if (editor) d["programs/EDITOR.PTC"] = px_file("PETC0300RPRG", string(8, '\0') + le32(11) + "E2=1\r@A\rEND", "EDITOR");
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"TARGET"}; w.max_frames = 3000; w.max_bbs = 30000000;
		for (auto& it : c.items) if (it.kind == "fault" && it.a[1] <= OP_SEEK && it.a[1] != OP_WRITE){ Fault x; x.op = (int)it.a[1]; x.path = it.a[1] == OP_OPEN || 1 ? "programs/TARGET.PTC" : ""; x.nth = it.a[2]; x.kind = (int)it.a[3]; x.arg = it.a[4]; w.faults.push_back(x); }
		bool fin = false; Typist ty; ty.add("E3=1", []{ return var_is("E3", 1); }, 1500); i64 t = 0; 
		w.input = [&](i64, InFrame& in){ if (!w.ptc) return; if (var_is("N", 2)){ if (++t > 3) fin = true; return; } if (var_is("E1", 1)) return; if (probe_waiting_input(w.ptc)) ++t; if (t > 5){ ty.frame(in); if (ty.idle()) fin = true; } };
		w.on_frame = [&](i64){ return !fin; };
		sim_run(w); account(w); hit("nontrivial"); hit("autoload");
		bool flt = false; for (auto& a : w.fired) for (i64 x : a) if (x) flt = true;
		bool ran = var_is("E1", 1); Verdict v; v.hash = h2(w.frame, ran);
		if (!fin){ if (w.stop_reason == "step-cap" || w.stop_reason == "frame-cap"){ V.say("P17", "autoload-stuck", ran ? "the autoloaded program did not finish" : "no prompt after a failed autoload"); V.v.hash = v.hash; return V.v; } return bad("ended", "the run ended early: " + w.stop_reason); }
		if (ran && ex == E_FAIL) V.say("P17", "autoload-damaged", "a damaged autoload program was executed");
		if (!ran && ex == E_OK && !flt) V.say("P17", "autoload-refused", "a complete autoload program was not executed");
		if (!ran && ty.failed) V.say("P17", "autoload-prompt", "after a failed autoload the prompt does not work: " + ty.fail_at);
		if (var_is("E2", 1)) V.say("P17", "autoload-editor", "the EDITOR program ran instead of the requested program");
		hit(ran ? "autoload_ok" : "autoload_fail");
		V.v.hash = v.hash; return V.v;
	}
};
static Reg a14(new Store("P14")), a15(new Store("P15")), a16(new Store("P16")), a17(new Store("P17")), a18(new Store("P18"));
