// P22: any program text is run or refused; the machine never crashes and the prompt always comes back.
#include "lang.h"
#include <cctype>

// command and function forms, from the language's manual (N number, S string, n/s variables, A array name, L label)
static const char* cmds[] = {
	"LOCATE NN", "COLOR N", "COLOR NN", "VISIBLE NNNNNN", "VSYNC N", "WAIT N", "APPEND S", "BEEP", "BEEP NNNN", "BGCLIP NNNN", "BGCLR", "BGCLR N", "BGCOPY NNNNNNN",
	"BGFILL NNNNNN", "BGFILL NNNNNS", "BGFILL NNNNNNNNN", "BGMCLEAR N", "BGMPLAY N", "BGMPLAY S", "BGMSET NS", "BGMSTOP", "BGMVOL N", "BGOFS NNN", "BGOFS NNNN", "BGPAGE N",
	"BGPUT NNNN", "BGPUT NNNS", "BGPUT NNNNNNN", "BGREAD NNNn", "BGREAD NNNs", "BGREAD NNNnnnn", "BREPEAT N", "BREPEAT NNN", "CHRINIT S", "CHRREAD SNs", "CHRSET SNS", "CLEAR",
	"COLINIT", "COLINIT S", "COLINIT SN", "COLREAD SNnnn", "COLSET SNS", "CONT", "DELETE S", "DTREAD Snnn", "TMREAD Snnn", "EXEC S", "FILES", "FILES S", "GBOX NNNN", "GBOX NNNNN",
	"GCIRCLE NNN", "GCIRCLE NNNN", "GCIRCLE NNNNNN", "GCLS", "GCLS N", "GCOLOR N", "GCOPY NNNNNNN", "GCOPY NNNNNNNN", "GDRAWMD N", "GFILL NNNN", "GFILL NNNNN", "GLINE NNNN",
	"GLINE NNNNN", "GPAGE N", "GPAGE NNN", "GPAINT NN", "GPAINT NNN", "GPAINT NNNN", "GPSET NN", "GPSET NNN", "GPRIO N", "GPUTCHR NNSNNN", "ICONCLR", "ICONCLR N", "ICONSET NN",
	"KEY NS", "LIST", "LOAD S", "LOAD SN", "NEW", "PNLSTR NNS", "PNLSTR NNSN", "PNLTYPE S", "READ n", "READ s", "READ nsn", "RESTORE L", "RENAME SS", "RSORT NNA", "RSORT NNAA", "SORT NNA", "SORT NNAA",
	"SAVE S", "SAVE SS", "SPANGLE NN", "SPANGLE NNN", "SPANGLE NNNN", "SPANIM NNN", "SPANIM NNNN", "SPCHR NN", "SPCHR NNNNNN", "SPCLR", "SPCLR N", "SPCOL NNNNNN", "SPCOL NNNNNNN", "SPCOLVEC N", "SPCOLVEC NNN",
	"SPHOME NNN", "SPOFS NNN", "SPOFS NNNN", "SPPAGE N", "SPREAD NN", "SPREAD NNn", "SPREAD Nnn", "SPREAD Nnnnnn", "SPSCALE NN", "SPSCALE NNN", "SPSET NNNNNN", "SPSET NNNNNNNN", "SPSETV NNN",
	"SWAP nn", "SWAP ss", "TALK S", "TALKSTOP", "ACLS", "CLS", "STOP", "END", "RUN", "GOTO L", "GOSUB L", "RETURN", "NEXT", "NEXT n", "ON N GOTO L,L", "ON N GOSUB L,L", "INPUT n", "INPUT s", "LINPUT s", "INPUT n,s",
	"INPUT S;n", "LINPUT S;s", "IF N THEN L ELSE L", "IF N GOTO L", "IF N THEN c ELSE c", "FOR n=N TO N", "FOR n=N TO N STEP N:NEXT", "DIM A(N)", "DIM A(N,N)", "DIM A[N],A(N)", "n=N", "s=S", "?E;E,E", "PRINT E", "?E,", "a=N", "b=S",
	"TABSTEP=N", "MEM$=S", "ICONPAGE=N", "ICONPMAX=N", "ICONPUSE=N", "SPHITNO=N", "RESULT=N", "ERR=N", "MAINCNTL=N", "TIME$=S", "DATA E,E", "@L1", "@", "'E", "REM E", "FUNCNO=N", "VISIBLE N", "?", "GPRIO NN",
	"MEMFILL 1,N,N", "MEMCOPY 1,2,N", "POKE N9,N", "POKEH 0,N", "POKEB 3,N" };
static const char* nfn[] = { "ABS(N)", "ASC(S)", "ATAN(N)", "ATAN(N,N)", "BGCHK(N)", "BGMCHK()", "BGMCHK(N)", "BGMGETV(N)", "BTRIG()", "BUTTON()", "BUTTON(N)", "CHKCHR(N,N)", "COS(N)", "DEG(N)", "EXP(N)", "FLOOR(N)", "GSPOIT(N,N)", "GSPOIT(N,N,N)",
	"ICONCHK()", "INSTR(S,S)", "INSTR(N,S,S)", "INSTR(S,S,N)", "LEN(S)", "LOG(N)", "PI()", "POW(N,N)", "RAD(N)", "RND(N)", "SGN(N)", "SIN(N)", "SPCHK(N)", "SPGETV(N,N)", "SPHIT(N)", "SPHIT(N,N)", "SPHITRC(N,N,N,N)", "SPHITRC(N,N,N,N,N)", "SPHITSP(N,N)", "SQR(N)", "TAN(N)", "VAL(S)", "TALKCHK()",
	"ADDR(S)", "ADDR(S,N)", "PEEKB(ADDR(R))", "PEEK(N)", "PEEKH(N)", "TRUE", "FALSE", "CANCEL", "VERSION", "MAINCNTL", "MAINCNTH", "FREEVAR", "FREEMEM", "RESULT", "TCHST", "TCHX", "TCHY", "TCHTIME", "CSRX", "CSRY", "TABSTEP", "SPHITNO", "SPHITX", "SPHITY", "SPHITT", "KEYBOARD", "FUNCNO", "ICONPUSE", "ICONPAGE", "ICONPMAX", "ERL", "ERR", "MEMSAFE" };
static const char* sfn[] = { "CHR$(N)", "HEX$(N)", "HEX$(N,N)", "INKEY$()", "LEFT$(S,N)", "MID$(S,N,N)", "RIGHT$(S,N)", "STR$(N)", "SUBST$(S,N,N,S)", "SUBST$(S,N,S)", "PTR$(N)", "TIME$", "DATE$", "PRGNAME$", "PACKAGE$", "MEM$" };
static const char* strs_[] = { "", "A", "SCU0", "SCD1:FILE", "GRP0:QG", "GRP3:QG", "MEM:X", "PRG:MAIN", "MAIN", "BGU0", "BGD3", "SPU0", "SPU7", "SPS1", "BGF0", "BGF0U", "COL0", "COL1:A", "COL2", "BG", "SP", "GRP", "FFFF", "001F", "0123456789ABCDEF", "@L", "@L1", "@NOWHERE", "KYA", "KYM", "KYK", "PNL", "OFF", "12:34:56", "2026/02/30", "00000000", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", "-1.5", "&HFFFF", "GRP", "SC0", "SCU", "NONE", "MEM", "PRG", "!CONSOLE", ".A", "&A", "&A$", "&A$[]", "*", "X$", "[A]", "0000000000000000000000000000000000000000000000000000000000000000", "L", ":", "PRG:", ":A", "LONGFILENAME", "A B", "a", "BGU0U:X", "BGU9", "SPD0", "SPU8", "GRP4", "COL3", "SCU2", "GRP0:", "TXT" };
static const char* nums[] = { "0", "1", "2", "3", "-1", "4", "5", "7", "8", "9", "10", "11", "14", "15", "16", "23", "24", "31", "32", "47", "48", "63", "64", "95", "96", "99", "100", "101", "127", "128", "150", "191", "192", "193", "200", "255", "256", "257", "300", "360", "400", "511", "512", "1000", "1023", "1024", "2000", "4095", "4096", "8191", "32767", "32768", "65535", "65536", "131072", "262144", "524287", "524287.999", "-524288", "-524287.999", "-2", "-3", "-8", "-10", "-64", "-100", "-255", "-256", "-1000", "-1024", "-32768", "0.5", "-0.5", "0.001", "1.5", "&HFF", "&HFFFFF", "&B101", "" };
template<int N> static string pk(Rng& r, const char* (&a)[N]){ return a[r.below(N)]; }
struct Fz {
	Rng& r; int wild; Fz(Rng& q, int w) : r(q), wild(w) {}
	string nvar(){ return r.chance(1, 5) ? r.pick(vector<string>{"X(1)", "X(N)", "Y(2,3)", "X[0]", "X(-1)", "X(A)", "Y(A,B)"}) : string(1, (char)('A' + r.below(6))); }
	string svar(){ return r.chance(1, 6) ? r.pick(vector<string>{"X$(1)", "X$(A)", "Y$(2,3)", "MEM$"}) : string(1, (char)('A' + r.below(4))) + "$"; }
	string N(int d){ if (wild && r.chance(1, 60)) return S(d - 1); switch (r.below(d > 0 ? 9 : 3)){ case 0: case 1: { if (r.chance(1, 2)) return fmt("%d", (int)r.logu(1, 300) - 1); return pk(r, nums); } case 2: return nvar(); case 3: case 4: return ex(pk(r, nfn), d - 1); case 5: return "(" + N(d - 1) + r.pick(vector<string>{"+", "-", "*", "/", "%", " AND ", " OR ", " XOR ", "==", "<", ">", "!=", ">=", "<="}) + N(d - 1) + ")"; case 6: return r.pick(vector<string>{"-", "!", "NOT "}) + N(d - 1); case 7: return S(d - 1) + r.pick(vector<string>{"==", "<", "!="}) + S(d - 1); default: return fmt("%d", (int)r.range(-2, 20)); } }
	string S(int d){ if (wild && r.chance(1, 60)) return N(d - 1); switch (r.below(d > 0 ? 7 : 4)){ case 0: case 1: case 2: return "\"" + pk(r, strs_) + "\""; case 3: return svar(); case 4: return ex(pk(r, sfn), d - 1); case 5: return S(d - 1) + "+" + S(d - 1); default: return S(d - 1) + "*" + N(d - 1); } }
	string L(){ return r.pick(vector<string>{"@L", "@L1", "@L", "@NOWHERE", "\"@L\"", "A$", "@", "@VERYLONGLABELNAME12345"}); }
	string arr(){ return r.pick(vector<string>{"X", "X$", "Y", "Q", "Q$", "Z", "Z$"}); }
	// expands a form: N S n s A a b L E c R
	string ex(const string& f, int d){ string o; bool first = true; size_t i = 0; size_t sp = f.find(' ');
		bool args = sp != string::npos && sp + 1 < f.size() && f.substr(0, sp).find_first_of("=@'?") == string::npos; // "NAME ARGS"
		bool plain = args; if (args) for (size_t k = sp + 1; k < f.size(); ++k) if (!strchr("NSnsAL", f[k])) plain = false;
		if (plain){ o = f.substr(0, sp + 1); string a = f.substr(sp + 1); if (wild && r.chance(1, 25)){ if (r.chance(1, 2)) a += r.chance(1, 2) ? "N" : "S"; else a.pop_back(); } for (char ch : a){ if (!first) o += ","; first = false; o += one(ch, d); } if (f.compare(0, 5, "INPUT") == 0) {} return o; }
		bool q = false; for (; i < f.size(); ++i){ char ch = f[i], pv = i ? f[i - 1] : ' ', nx = i + 1 < f.size() ? f[i + 1] : ' '; (void)q; bool word = isalpha((unsigned char)pv) || pv == '@' || isalpha((unsigned char)nx) || nx == '$' || isdigit((unsigned char)nx) || (ch == 'L' && pv == '@') || pv == '$';
			if (strchr("NSnsAabLEcR", ch) && !word) o += one(ch, d); else o += ch; }
		return o; }
	string one(char ch, int d){ switch (ch){ case 'N': return N(d); case 'S': return S(d); case 'n': return wild && r.chance(1, 40) ? S(0) : nvar(); case 's': return wild && r.chance(1, 40) ? N(0) : svar(); case 'A': return arr(); case 'a': return r.pick(vector<string>{"X(", "X[", "Z("}) + N(d) + ")"; case 'b': return r.pick(vector<string>{"X$(", "Z$("}) + N(d) + ")"; case 'L': return L(); case 'E': return r.chance(1, 2) ? N(d) : S(d); case 'c': { string s = ex(pk(r, cmds), 0); return s.empty() || s[0] == '@' ? "A=1" : s; } case 'R': return r.pick(vector<string>{"\"GRP0\"", "\"SPU0\"", "\"BGU0\"", "\"SCU0\"", "\"COL0\"", "\"MEM\"", "\"!CONSOLE\"", "\"&A\"", "\".A\"", "\"&X[]\"", "\"&\"", "\"&[]\"", "\".$\""}); } return ""; }
	static bool danger(const string& s){ string u; for (char ch : s) u += (char)toupper((unsigned char)ch); return u.find("POKE") != string::npos || u.find("MEMCOPY") != string::npos || u.find("MEMFILL") != string::npos || (u.find("MEMSAFE") != string::npos && u.find('=') != string::npos); }
	string line(int d){ string s = ex(pk(r, cmds), d); while (s.size() > 100) s = ex(pk(r, cmds), --d > 0 ? d : 0); if (danger(s) && s.compare(0, 4, "POKE") && s.compare(0, 3, "MEM")) return "A=A+1"; if (s.compare(0, 4, "POKE") == 0 || (s.compare(0, 3, "MEM") == 0 && s[3] != '$')){ return r.pick(vector<string>{"POKE 1,2", "POKEH 0,1", "POKEB 100000,4", "MEMFILL 1,2,3", "MEMCOPY 1,2,3", "MEMCOPY 1,8192,3", "MEMFILL -1,0,8", "MEMFILL 0,0,-8", "POKE 300000,1"}); } return s; }
	string mutate(string s){ int n = (int)r.range(1, 3); static const vector<string> tk = {"(", ")", "[", "]", ",", ";", ":", "\"", "@", "$", "=", "==", "-", "+", "*", "/", "%", "!", "'", "THEN", "ELSE", "TO", "STEP", "GOTO", "NEXT", "IF ", "FOR ", "A", "A$", "1", "&H", "&B", ".", "REM", " ", "?", "DATA ", "READ ", "INPUT ", "ON ", "GOSUB ", "AND", "NOT ", "DIM ", "#", "|", "~", "{", "\\", "^", "_", "`", "0123456789", "999999999999", "TIME$", "INKEY$()", "\x80\x81", "\xff", "\x01", "\t", "\n"};
		while (n--){ size_t p = s.empty() ? 0 : r.below(s.size() + 1); switch (r.below(6)){ case 0: s.insert(p, tk[r.below(tk.size())]); break; case 1: if (!s.empty()) s.erase(p < s.size() ? p : 0, 1 + r.below(3)); break; case 2: if (p < s.size()) s[p] = (char)r.range(32, 126); break; case 3: s = s.substr(0, p); break; case 4: { size_t q = p + r.below(8); if (q <= s.size() && q > p) s.insert(q, s.substr(p, q - p)); break; } case 5: if (s.size() > 3){ size_t q = r.below(s.size()); std::swap(s[q], s[p < s.size() ? p : 0]); } break; } }
		return s; }
	string junk(){ string s; int n = (int)r.logu(1, 160); for (int i = 0; i < n; ++i) s += (char)(r.chance(1, 3) ? r.below(256) : r.range(32, 126)); for (auto& ch : s) if (ch == '\r') ch = ' '; return s; }
};
static string esc(const string& s){ string o; for (unsigned char ch : s) if (ch == '\r') o += '\n'; else if (ch < 32 || ch > 126) o += fmt("<%02X>", ch); else o += (char)ch; return o; }

struct FuzzScenario : Scenario {
	FuzzScenario(){ id = "P22"; }
	Case gen(u64 seed, bool th) override {
		Case c; Rng r(seed); gen_sched(c, r); c.p["keys"] = r.below(4); c.p["frames"] = r.logu(2, 120); c.p["render"] = r.chance(1, 3) ? 1 : 0; c.p["loop"] = r.chance(1, 2); c.p["nocr"] = r.chance(1, 12); c.p["files"] = r.chance(1, 2); c.p["var_limit"] = r.chance(1, 6);
		int style = (int)r.below(4); Fz z(r, r.chance(2, 3)); auto add = [&](const string& k, const string& s){ Item it; it.kind = k; it.s = s; c.items.push_back(it); };
		vector<string> base; if (style == 1 || style == 2){ Lang L; LangGen g(L, r.next()); L.trace = false; L.minpar = r.chance(1, 2); L.merge = r.chance(1, 2); L.extra = r.chance(1, 2); g.generate(2, th ? 14 : 8, (int)r.range(1, 3)); string t = L.program(), cur; for (char ch : t) if (ch == '\r'){ base.push_back(cur); cur = ""; } else cur += ch; }
		int n = (int)r.range(1, th ? 12 : 7);
		if (style == 0 || style == 3) for (int i = 0; i < n; ++i){ string s = z.line((int)r.below(3)); if (style == 3 && r.chance(1, 3)) s = z.mutate(s); if (r.chance(1, 60)) s = z.junk(); while (r.chance(1, 4) && s.size() < 80) s += ":" + z.line(0); if (Fz::danger(s) && s.find("8192") != string::npos && style == 3) s = "A=1"; if (style == 3 && Fz::danger(s)) s = "A=2"; add("line", s); }
		else { int m = (int)r.range(1, 4); for (int i = 0; i < m && !base.empty(); ++i){ size_t p = r.below(base.size()); switch (r.below(6)){ case 0: base.erase(base.begin() + p); break; case 1: std::swap(base[p], base[r.below(base.size())]); break; case 2: base.insert(base.begin() + p, z.line(1)); break; case 3: base.insert(base.begin() + p, z.junk()); break; default: base[p] = z.mutate(base[p]); } } for (auto& s : base) add("line", Fz::danger(s) && (s.compare(0, 4, "POKE") && s.compare(0, 3, "MEM")) ? "A=3" : s); }
		int k = (int)r.below(4); for (int i = 0; i < k; ++i){ string s; do { s = r.chance(1, 3) ? z.mutate(z.line(0)) : r.chance(1, 20) ? z.junk() : z.line((int)r.below(2)); } while (s.size() > 32 || Fz::danger(s)); string t; for (char ch : s) if (ch >= 32 && ch < 127) t += ch; if (!t.empty()) add("cmd", t); }
		return c;
	}
	Verdict exec(const Case& c) override {
		Verdict v; string src = "MEMSAFE=1\r"; if (c.get("loop")) src += "@L\r"; for (auto& it : c.items) if (it.kind == "line") src += it.s + "\r"; if (c.get("loop")) src += "GOTO @L\r@L1\r"; if (c.get("nocr") && !src.empty()) src.pop_back();
		if (getenv("SIM_DUMP")) fprintf(stderr, "%s\n", esc(src).c_str());
		Disk d; base_disk(d); d["programs/MAIN.PTC"] = prg_file(src); if (c.get("files")){ d["programs/A.PTC"] = prg_file("A=1\r"); d["programs/L.PTC"] = prg_file("?1:END"); d["programs/TXT.PTC"] = "PX01"; }
		World w; apply_sched(w, c); w.disk = &d; w.argv = {"MAIN"}; w.max_frames = 6000; w.max_bbs = 400000000; w.render = (int)c.get("render"); if (c.get("var_limit")){ w.var_limit = 32; w.str_limit = 24; w.arr_limit = 200; }
		static vector<string> cm; cm.clear(); for (auto& it : c.items) if (it.kind == "cmd") cm.push_back(it.s);
		static bool fin; fin = false; static i64 rd, t, bb0, presses, stopat; rd = t = bb0 = presses = 0; stopat = c.get("frames"); static size_t at; at = 0; static int ph; ph = 0; static Rng kr(1); kr = Rng(c.seed ^ 99); static Typist ty; static Verdict* pv; pv = &v; static i64 sl0; sl0 = 0; static bool started; started = false; static int lost; lost = 0; int keys = (int)c.get("keys");
		auto fail = [&, src](const string& cls, const string& m){ *pv = bad(cls, m + "\nscreen:\n" + con_all() + "program:\n" + esc(src)); fin = true; };
		w.input = [=, &w](i64, InFrame& in){
			if (!w.ptc || fin) return; ++t; bool ready = probe_waiting_input(w.ptc); rd = ready ? rd + 1 : 0;
			auto noise = [&]{ if (keys & 1){ if (kr.chance(1, 3)) in.buttons = (u32)kr.below(1 << 11); if (kr.chance(1, 4)) in.text.push_back((u32)kr.range(32, 126)); } if (keys & 2 && kr.chance(1, 2)){ in.touch = true; in.tx = (int)kr.below(256); in.ty = (int)kr.range(80, 191); } };
			if (ph == 0){ noise(); if (!started){ if (probe_memsafe(w.ptc) || rd > 4 || t > 3000){ started = true; t = 0; } return; } if (t > stopat){ ph = 1; t = 0; presses = 0; bb0 = w.bbs_prg; } return; }
			// press SELECT until the prompt answers; every press gets time to be noticed
			if (ph == 1){ if (t <= 3){ in.buttons = 1u << 11; sl0 = w.sleeps; bb0 = w.bbs_prg; return; } if (rd > 4 && w.sleeps > sl0 + 5){ // typed noise may still arrive: wait until the line stays as it is, and leave it by another break
					static string last; string l = con_line(probe_cy(w.ptc)) + fmt("%d", probe_cx(w.ptc)); if (l != last){ last = l; sl0 = w.sleeps; rd = 5; return; } if (rd < 12) return; if (probe_cx(w.ptc) != 0 && presses++ < 20){ t = 0; return; }
					ph = 2; ty = Typist(); int m = 100 + (int)at; ty.add(fmt("X7=%d:?", m), [m]{ return var_is("X7", m); }, 3000); t = 0; return; }
				if (t > 60 && w.bbs_prg - bb0 > 4000000){ if (lost++ < 3){ t = 0; return; } fail("stuck", "the prompt does not come back after a break"); } return; }
			if (ph == 2){ ty.frame(in); if (!ty.idle()) return; if (ty.failed){ if (lost++ < 3){ ph = 1; t = 0; presses = 0; bb0 = w.bbs_prg; return; } // the variable table may be full: any answer of the prompt is enough
					string all; for (int y = 0; y < 24; ++y) all += con_line(y) + "\n"; if (all.find("Failed to create") != string::npos || all.find("Out of memory") != string::npos || c.get("var_limit")){ hit("full"); fin = true; return; } fail("prompt", "the prompt does not work: " + ty.fail_at); return; }
				hit("answered"); if (at >= cm.size()){ fin = true; return; } ph = 3; t = 0; ty = Typist(); ty.add(cm[at], [=]{ return !probe_waiting_input(W->ptc) || con_line(probe_cy(W->ptc)).empty(); }, 200); ++at; return; }
			if (ph == 3){ if (rd <= 4 && ty.phase == 0 && !ty.typed){ if (t > 4000) fail("prompt", "the prompt disappeared"); return; } ty.frame(in); if (!ty.idle() && t < 400) return; ph = 4; t = 0; return; }
			if (ph == 4){ noise(); in.buttons &= ~(1u << 11); if (t > stopat){ ph = 1; t = 0; bb0 = w.bbs_prg; } return; } };
		w.on_frame = [](i64){ return !fin; };
		sim_run(w); account(w); v.hash = h2(w.frame, w.bbs_prg); if (v.bad) return v;
		{ string m = blocks_verdict(); if (!m.empty()) return bad("blocks", m); }
		if (w.deadlock) return bad("deadlock", "all threads blocked forever");
		if (w.main_returned && !fin) return bad("exit", "the process ended by itself\n" + esc(src));
		if (!fin){ v.invalid = true; hit("capped:" + w.stop_reason); return v; }
		hit("nontrivial"); return v;
	}
};
static Reg r22(new FuzzScenario);
