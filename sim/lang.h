// A small BASIC: random programs, their text, and a reference interpreter.
// The interpreter is written from the language's meaning (structured execution
// of the program tree); it shares nothing with the code under test.
#pragma once
#include "sim.h"
#include <memory>
#include <cmath>
#include <algorithm>
using std::pair;

struct Ex; typedef std::shared_ptr<Ex> EP;
struct Ex { string op; vector<EP> k; int num = 0; string str; string name; }; // num: raw 20.12
struct St; typedef std::shared_ptr<St> SP;
struct St {
	string op; vector<EP> e; vector<SP> body, alt; vector<vector<SP>> alts; int form = 0, id = 0; string name; vector<int> tabs; int uid = 0;
};
struct DItem { string val, text; };
struct DataBlock { string label; vector<DItem> items; };

struct Val { bool isstr = false; int n = 0; string s; };
struct Stop { string err; }; struct Ret {};

struct Lang {
	// ---- program
	vector<SP> top; vector<vector<SP>> subs; vector<DataBlock> data; vector<pair<string, pair<int,int>>> dims; // explicit dims
	bool trace = true; // K=K+1 after every simple statement
	bool minpar = false, merge = false, extra = false; // only the parentheses the priorities need; several statements in a line; comments and empty lines
	int lab = 0;
	// ---- state of the reference interpreter
	map<string, int> nv; map<string, string> sv; map<string, map<int, int>> na; map<string, map<int, string>> sa; map<string, pair<int,int>> dim;
	int dblk = 0, ditem = 0; i64 steps = 0, step_cap = 3000; string con[24], col[24]; int color = 0, tabstep = 4, tabraw = 16384; int cx = 0, cy = 0; string err; bool capped = false, ended = false; std::function<void()> on_k; int max_live = 0; bool use_console = true;
	bool logging = false, fuzzy = false; vector<pair<string, Val>> alog; int strops = 0; // what the statements of one step assign and evaluate

	static int ck(i64 v){ if (v > INT32_MAX || v < INT32_MIN) throw Stop{"Overflow!"}; return (int)v; }
	static string numstr(int raw){
		string s; i64 n = raw; if (n < 0){ s = "-"; n = -n; }
		i64 ip = n >> 12, d = ((n & 4095) + 2) * 1000 >> 12; if (d >= 1000){ ++ip; d = 0; }
		s += fmt("%lld", (long long)ip); if (d){ string f = fmt("%03d", (int)d); while (f.back() == '0') f.pop_back(); s += "." + f; } return s;
	}
	static i64 valnum(const string& t){ size_t i = 0; bool neg = false; i64 n = 0, f = 0, m = 1; if (!t.empty() && t[0] == '-'){ neg = true; ++i; } for (; i < t.size() && isdigit((unsigned char)t[i]); ++i) n = std::min<i64>(n, 1ll << 40) * 10 + t[i] - '0'; if (i < t.size() && t[i] == '.') for (++i; i < t.size() && isdigit((unsigned char)t[i]); ++i) if (m < 1000000000){ f = f * 10 + t[i] - '0'; m *= 10; } i64 v = n * 4096 + 4096 * f / m; return neg ? -v : v; }
	// the order of characters is that of the machine's wide characters
	static int wide(unsigned char c){ if (c < 0x21 || (c >= 0x80 && c < 0xa1) || c >= 0xe0) return c; if (c < 0x80) return c == 0x22 ? 0x201d : c == 0x27 ? 0x2019 : c == 0x5c ? 0xffe5 : 0xff00 + c - 0x20; if (c == 0xb0) return 0xff70;
		static const unsigned char k[] = "\x02\x0c\x0d\x01\xfb\xf2\xa1\xa3\xa5\xa7\xa9\xe3\xe5\xe7\xc3?\xa2\xa4\xa6\xa8\xaa\xab\xad\xaf\xb1\xb3\xb5\xb7\xb9\xbb\xbd\xbf\xc1\xc4\xc6\xc8\xca\xcb\xcc\xcd\xce\xcf\xd2\xd5\xd8\xdb\xde\xdf\xe0\xe1\xe2\xe4\xe6\xe8\xe9\xea\xeb\xec\xed\xef\xf3\x9b\x9c"; return 0x3000 | k[c - 0xa1]; }
	static int lex(const string& a, const string& b){ for (size_t i = 0; i < a.size() && i < b.size(); ++i){ int x = wide(a[i]), y = wide(b[i]); if (x != y) return x < y ? -1 : 1; } return a.size() < b.size() ? -1 : a.size() > b.size(); }
	static int fint(int raw){ return raw >> 12; }
	Val N(i64 raw){ Val v; v.n = ck(raw); return v; }
	Val S(const string& s){ Val v; v.isstr = true; v.s = s; return v; }
	int idx(const string& nm, const vector<EP>& k, size_t from){
		int a = fint(ev(k[from]).n), b = -1; bool two = k.size() > from + 1; if (two) b = fint(ev(k[from + 1]).n);
		if (!dim.count(nm)) dim[nm] = {10, two ? 10 : -1};
		auto d = dim[nm]; if (a < 0 || a >= d.first) throw Stop{"Subscript out of range [X]"}; if (two && (d.second < 0 || b < 0 || b >= d.second)) throw Stop{"Subscript out of range [Y]"};
		return two ? a + b * d.first : a;
	}
	Val ev(const EP& e){ Val v = ev1(e); if (v.isstr && logging) ++strops; return v; }
	Val ev1(const EP& e){
		const string& o = e->op; auto& k = e->k;
		if (o == "n") return N(e->num);
		if (o == "s") return S(e->str);
		if (o == "v"){ auto it = nv.find(e->name); return N(it == nv.end() ? (nv[e->name] = 0) : it->second); }
		if (o == "v$"){ return S(sv[e->name]); }
		if (o == "a"){ int i = idx(e->name, k, 0); auto& m = na[e->name]; return N(m.count(i) ? m[i] : 0); }
		if (o == "a$"){ int i = idx(e->name, k, 0); auto& m = sa[e->name]; return S(m.count(i) ? m[i] : ""); }
		vector<Val> a; for (auto& x : k) a.push_back(ev(x));
		if (o == "+"){ if (a[0].isstr){ if (a[0].s.size() + a[1].s.size() > 256) throw Stop{"String too long"}; return S(a[0].s + a[1].s); } return N((i64)a[0].n + a[1].n); }
		if (o == "-") return N((i64)a[0].n - a[1].n);
		if (o == "*"){ if (a[0].isstr){ int c = std::max(0, fint(a[1].n)); if ((i64)c * (i64)a[0].s.size() > 256) throw Stop{"String too long"}; string s; if (!a[0].s.empty()) for (int i = 0; i < c; ++i) s += a[0].s; return S(s); } return N((i64)a[0].n * a[1].n >> 12); }
		if (o == "/"){ if (!a[1].n) throw Stop{"Division by zero!"}; return N(((i64)a[0].n * 4096) / a[1].n); }
		if (o == "%"){ if (!a[1].n) throw Stop{"Division by zero!"}; return N((i64)a[0].n % a[1].n); }
		if (o == "neg") return N((int)(0u - (u32)a[0].n));
		if (o == "!") return N(a[0].n == 0 ? 4096 : 0);
		if (o == "NOT") return N((i64)(~fint(a[0].n)) * 4096);
		if (o == "AND") return N((i64)(fint(a[0].n) & fint(a[1].n)) * 4096);
		if (o == "OR") return N((i64)(fint(a[0].n) | fint(a[1].n)) * 4096);
		if (o == "XOR") return N((i64)(fint(a[0].n) ^ fint(a[1].n)) * 4096);
		if (o == "==" || o == "!=" || o == "<" || o == ">" || o == "<=" || o == ">="){
			int c = a[0].isstr ? lex(a[0].s, a[1].s) : (a[0].n < a[1].n ? -1 : a[0].n > a[1].n);
			bool r = o == "==" ? c == 0 : o == "!=" ? c != 0 : o == "<" ? c < 0 : o == ">" ? c > 0 : o == "<=" ? c <= 0 : c >= 0; return N(r ? 4096 : 0); }
		if (o == "FLOOR") return N((i64)fint(a[0].n) * 4096);
		if (o == "ABS") return N(a[0].n < 0 ? (int)(0u - (u32)a[0].n) : a[0].n);
		if (o == "SGN") return N(a[0].n < 0 ? -4096 : a[0].n > 0 ? 4096 : 0);
		if (o == "LEN") return N((i64)a[0].s.size() * 4096);
		if (o == "ASC"){ if (a[0].s.empty()) throw Stop{"Syntax error"}; return N((i64)(unsigned char)a[0].s[0] * 4096); }
		if (o == "VAL"){ const string& t = a[0].s; if (t[0] == '&'){ if (t.size() < 2 || (t[1] != 'H' && t[1] != 'B')) throw Stop{"Syntax error"}; i64 n = 0; int b = t[1] == 'H' ? 16 : 2; for (size_t i = 2; i < t.size() && n < 524288; ++i){ int d = isdigit((unsigned char)t[i]) ? t[i] - '0' : t[i] >= 'A' && t[i] <= 'F' ? t[i] - 'A' + 10 : 99; if (d >= b) break; n = n * b + d; } if (n >= 524288){ capped = true; throw Stop{"cap"}; } return N(n * 4096); } i64 v = valnum(t); if (std::llabs(v) >= 524288ll * 4096){ capped = true; throw Stop{"cap"}; } return N(v); }
		if (o == "SQR"){ if (a[0].n < 0) throw Stop{"Illegal function call"}; return N((i64)floor(4096 * sqrt(a[0].n / 4096.0))); } if (o == "SIN") return N((i64)floor(4096 * sin(a[0].n / 4096.0))); if (o == "COS") return N((i64)floor(4096 * cos(a[0].n / 4096.0))); if (o == "EXP"){ if (exp(a[0].n / 4096.0) >= 524288.0) throw Stop{"Overflow!"}; return N((i64)floor(4096 * exp(a[0].n / 4096.0))); }
		if (o == "ATAN") return N((i64)floor(4096 * (a.size() > 1 ? atan2(a[0].n / 4096.0, a[1].n / 4096.0) : atan(a[0].n / 4096.0)))); if (o == "LOG"){ if (a[0].n <= 0) throw Stop{"Illegal function call"}; return N((i64)round(4096 * log(a[0].n / 4096.0))); }
		if (o == "TAN") return N((i64)floor(4096 * tan(a[0].n / 4096.0)));
		if (o == "RAD") return N((i64)a[0].n * 12867 / 737280); if (o == "DEG") return N((i64)a[0].n * 737280 / 12867); if (o == "PI") return N(12867); if (o == "POW"){ i64 q = 4096, b = a[0].n >> 12; for (int i = 0; i < fint(a[1].n); ++i) q *= b; return N(q); }
		if (o == "TRUE") return N(4096); if (o == "FALSE") return N(0); if (o == "CANCEL") return N(-4096); if (o == "CSRX") return N((i64)cx * 4096); if (o == "CSRY") return N((i64)cy * 4096); if (o == "TABSTEP") return N(tabraw); if (o == "rnd") return N(4096);
		if (o == "CHKCHR"){ int x = fint(a[0].n), y = fint(a[1].n); return N(x < 0 || y < 0 || x > 31 || y > 23 ? -4096 : (i64)(unsigned char)con[y][x] * 4096); }
		if (o == "INSTR"){ if (a[1].s.empty()) return N(0); size_t st = a.size() > 2 ? (size_t)fint(a[2].n) : 0; size_t p = st <= a[0].s.size() ? a[0].s.find(a[1].s, st) : string::npos; return N(p == string::npos ? -4096 : (i64)p * 4096); }
		if (o == "STR$") return S(numstr(a[0].n));
		if (o == "CHR$"){ int c = fint(a[0].n); if (c < 0 || c > 255) throw Stop{"Argument out of range!"}; return S(string(1, (char)c)); }
		if (o == "HEX$" && a.size() > 1){ int n = fint(a[0].n), d = fint(a[1].n); if (d < 1 || d > 5) throw Stop{"Argument out of range!"}; if (n >= (1 << 4 * d) || n < -(1 << (4 * d - 1))) throw Stop{"Illegal function call"}; return S(fmt("%0*X", d, (unsigned)n & ((1u << 4 * d) - 1))); }
		if (o == "HEX$"){ return S(fmt("%X", (unsigned)fint(a[0].n) & 0xFFFFF)); }
		if (o == "LEFT$" || o == "RIGHT$"){ int n = fint(a[1].n); if (n < 0) throw Stop{"Argument out of range!"}; int l = (int)a[0].s.size(); if (n > l) n = l; return S(o == "LEFT$" ? a[0].s.substr(0, n) : a[0].s.substr(l - n)); }
		if (o == "MID$"){ int st = fint(a[1].n), n = fint(a[2].n); if (st < 0 || n < 0) throw Stop{"Argument out of range!"}; if (st >= (int)a[0].s.size()) return S(""); return S(a[0].s.substr(st, n)); }
		if (o == "SUBST$"){ int st = fint(a[1].n), n = fint(a[2].n), l = (int)a[0].s.size(); if (st < 0 || st > l) throw Stop{"Argument out of range!"}; if (n < 0 || n > l) n = l; string r = a[0].s.substr(0, st) + a[3].s + (st + n < l ? a[0].s.substr(st + n) : ""); if (r.size() > 256) throw Stop{"String too long"}; return S(r); }
		fprintf(stderr, "lang: op %s\n", o.c_str()); abort();
	}
	struct Ref { const Ex* e; int i; };
	static string key(const string& op, const string& name, int i){ return name + (op.back() == '$' ? "$" : "") + (op[0] == 'a' ? fmt("(%d)", i) : ""); }
	void setn(const string& n, i64 v){ nv[n] = ck(v); if (logging) alog.push_back({n, N(v)}); }
	Ref ref(const EP& t){ Ref r{t.get(), 0}; if (t->op[0] == 'a') r.i = idx(t->name, t->k, 0); return r; }
	Val get(const Ref& r){ const string& o = r.e->op; if (o == "v") return N(nv[r.e->name]); if (o == "v$") return S(sv[r.e->name]); if (o == "a"){ auto& m = na[r.e->name]; return N(m.count(r.i) ? m[r.i] : 0); } auto& m = sa[r.e->name]; return S(m.count(r.i) ? m[r.i] : ""); }
	void set(const Ref& r, const Val& v){ const string& o = r.e->op; if (logging) alog.push_back({key(o, r.e->name, r.i), v}); if (o == "v") nv[r.e->name] = v.n; else if (o == "v$") sv[r.e->name] = v.s; else if (o == "a") na[r.e->name][r.i] = v.n; else sa[r.e->name][r.i] = v.s; }
	// ---- console
	void scroll(){ while (cy >= 24){ --cy; for (int i = 1; i < 24; ++i){ con[i - 1] = con[i]; col[i - 1] = col[i]; } con[23] = string(32, '\0'); col[23] = string(32, (char)color); } }
	void cls(){ for (auto& l : con) l = string(32, '\0'); for (auto& l : col) l = string(32, (char)color); cx = cy = 0; }
	void newline(){ cx = 0; ++cy; scroll(); }
	void put(char c){ col[cy][cx] = (char)color; con[cy][cx++] = c; if (cx >= 32){ cx = 0; ++cy; } }
	void puts(const string& s){ if (cy >= 24) scroll(); for (size_t i = 0; i < s.size(); ++i){ put(s[i]); if (i + 1 < s.size() && cy == 24) scroll(); } }
	void tab(){ if (cx == 0 && cy == 24) scroll(); do put(' '); while (cx % tabstep); }
	// ---- execution
	void kstep(){ if (!trace) return; nv["K"] += 4096; if (on_k) on_k(); }
	void callsub(int i){ try { run(subs[i]); } catch (Ret&){} }
	void run(const vector<SP>& b){ for (auto& s : b) run(s); }
	void run(const SP& s){
		if (++steps > step_cap) { capped = true; throw Stop{"cap"}; }
		const string& o = s->op;
		if (o == "let"){ // the target's place is found before the value
			Ref t = ref(s->e[0]); Val v = ev(s->e[1]); set(t, v); kstep(); }
		else if (o == "print"){ vector<Val> v; for (auto& e : s->e) v.push_back(ev(e)); for (size_t i = 0; i < v.size(); ++i){ puts(v[i].isstr ? v[i].s : numstr(v[i].n)); if (s->tabs[i] == ',') tab(); } if (s->e.empty() || !s->tabs.back()) newline(); kstep(); }
		else if (o == "swap"){ Ref x = ref(s->e[0]), y = ref(s->e[1]); Val a = get(x), b = get(y); set(x, b); set(y, a); kstep(); }
		else if (o == "read"){ vector<Ref> rf; for (auto& t : s->e) rf.push_back(ref(t)); for (auto& t : rf){ if (dblk >= (int)data.size()) throw Stop{"Out of DATA"}; string it = data[dblk].items[ditem].val; bool isnum = !it.empty() && it.find_first_not_of("-.0123456789") == string::npos; if (t.e->op.back() != '$' && it.empty()) { capped = true; throw Stop{"cap"}; } if ((t.e->op.back() != '$' && !isnum) || it == "\1") throw Stop{"READ command failed"}; if (++ditem >= (int)data[dblk].items.size()){ ++dblk; ditem = 0; } Val v; if (t.e->op.back() == '$') v = S(it); else v = N(valnum(it)); set(t, v); } kstep(); }
		else if (o == "restore"){ dblk = s->id; ditem = 0; kstep(); }
		else if (o == "if"){ if (ev(s->e[0]).n) run(s->body); else run(s->alt); }
		else if (o == "for"){ Val a = ev(s->e[0]); setn(s->name, a.n); int en = ev(s->e[1]).n, st = s->e.size() > 2 ? ev(s->e[2]).n : 4096; if (trace && s->form == 0) {}
			auto out = [&]{ int v = nv[s->name]; return st < 0 ? en > v : en < v; };
			if (!out()) while (true){ run(s->body); setn(s->name, (i64)nv[s->name] + st); if (out()) break; if (++steps > step_cap){ capped = true; throw Stop{"cap"}; } } }
		else if (o == "loop"){ setn(s->name, 0); kstep(); while (true){ run(s->body); setn(s->name, nv[s->name] + 4096); kstep(); if (!(nv[s->name] < s->id * 4096)) break; } }
		else if (o == "sub"){ callsub(s->id); }
		else if (o == "ret") throw Ret();
		else if (o == "wait") kstep();
		else if (o == "sort"){ fuzzy |= logging; // SORT/RSORT first, count of one array
			int a = fint(ev(s->e[0]).n), n = fint(ev(s->e[1]).n); bool st = s->name == "T"; if (!dim.count(s->name)) dim[s->name] = {10, -1};
			int sz = dim[s->name].first; if (a < 0 || a > sz - 1 || n < 0 || n > sz - a) throw Stop{"Argument out of range!"}; bool rv = s->form & 1;
			if (st){ auto& m = sa[s->name]; vector<string> v; for (int i = 0; i < n; ++i) v.push_back(m.count(a + i) ? m[a + i] : ""); std::stable_sort(v.begin(), v.end(), [rv](const string& x, const string& y){ return rv ? lex(y, x) < 0 : lex(x, y) < 0; }); for (int i = 0; i < n; ++i) m[a + i] = v[i]; }
			else { auto& m = na[s->name]; vector<int> v; for (int i = 0; i < n; ++i) v.push_back(m.count(a + i) ? m[a + i] : 0); std::stable_sort(v.begin(), v.end(), [rv](int x, int y){ return rv ? y < x : x < y; }); for (int i = 0; i < n; ++i) m[a + i] = v[i]; }
			kstep(); }
		else if (o == "sortx"){ fuzzy |= logging; // ten different keys that carry T$ along
			auto& m = na["V"]; auto& t = sa["T"]; if (!dim.count("V")) dim["V"] = {10, -1};
			for (int i = 0; i < 10; ++i) m[i] = (i * 3 + s->id) % 10 * 4096;
			if (s->form & 2){ auto& y = na["Y"]; if (!dim.count("Y")) dim["Y"] = {10, -1}; for (int i = 0; i < 10; ++i) y[i % 8] = i * 4096; }
			nv["SI"] = 10 * 4096; kstep(); if (!dim.count("T")) dim["T"] = {10, -1}; vector<pair<int, string>> v; for (int i = 0; i < 10; ++i) v.push_back({m[i], t.count(i) ? t[i] : ""});
			int a = 0, n = 10; bool y = s->form & 2; vector<int> ys; if (y){ auto& yy = na["Y"]; a = s->id % 3; n = 10 - a - s->id % 2; if (dim["Y"].first < a + n) throw Stop{"Argument out of range!"}; for (int i = 0; i < 10; ++i) ys.push_back(yy.count(i) ? yy[i] : 0); }
			vector<int> o; for (int i = a; i < a + n; ++i) o.push_back(i); std::sort(o.begin(), o.end(), [&](int p, int q){ return s->form & 1 ? v[p].first > v[q].first : v[p].first < v[q].first; }); for (int i = 0; i < n; ++i){ m[a + i] = v[o[i]].first; t[a + i] = v[o[i]].second; if (y) na["Y"][a + i] = ys[o[i]]; } kstep(); }
		else if (o == "on"){ int v = fint(ev(s->e[0]).n); if (s->form == 1){ if (v >= 0 && v < (int)s->alts.size()) run(s->alts[v]); else run(s->alt); } else { if (v >= 0 && v < (int)s->tabs.size()) callsub(s->tabs[v]); } }
		else if (o == "cls"){ cls(); kstep(); }
		else if (o == "locate"){ int x = fint(ev(s->e[0]).n), y = fint(ev(s->e[1]).n); if (x >= 0 && x < 32 && y >= 0 && y < 24){ cx = x; cy = y; } kstep(); }
		else if (o == "dim"){ if (dim.count(s->name)) throw Stop{"Duplicate definition"}; dim[s->name] = {s->tabs[0], s->tabs.size() > 1 ? s->tabs[1] : -1}; kstep(); }
		else if (o == "color"){ int a = fint(ev(s->e[0]).n); if (s->e.size() > 1) color = a | fint(ev(s->e[1]).n) << 4; else color = (color & 0xf0) | a; kstep(); }
		else if (o == "tabstep"){ tabraw = ev(s->e[0]).n; tabstep = std::max(1, std::min(16, fint(tabraw))); kstep(); }
		else if (o == "clear"){ fuzzy |= logging; nv.clear(); sv.clear(); na.clear(); sa.clear(); dim.clear(); kstep(); }
		else if (o == "dtread"){ string t = ev(s->e[0]).s; bool dt = s->form == 0; string f = dt ? "nnnn/nn/nn" : "nn:nn:nn"; bool ok = t.size() == f.size(); for (size_t i = 0; ok && i < f.size(); ++i) ok = f[i] == 'n' ? isdigit((unsigned char)t[i]) : t[i] == f[i]; vector<Ref> rf; for (int i = 0; i < 3; ++i) rf.push_back(ref(s->e[i + 1])); if (!ok) throw Stop{"Syntax error"}; size_t at = 0; for (int i = 0; i < 3; ++i){ set(rf[i], N((i64)atoi(t.c_str() + at) * 4096)); at += dt && i == 0 ? 5 : 3; } kstep(); }
		else if (o == "end"){ ended = true; throw Stop{""}; }
		else { fprintf(stderr, "lang: stmt %s\n", o.c_str()); abort(); }
	}
	void start(){ dblk = ditem = 0; err = ""; ended = capped = false; steps = 0; try { run(top); } catch (Stop& s){ err = s.err; } }

	// ---- text
	static string lit(int raw){ string s = numstr(raw); return s; }
	static int prio(const string& o){ if (o == "AND" || o == "OR" || o == "XOR") return 2; if (o == "==" || o == "!=" || o == "<" || o == ">" || o == "<=" || o == ">=") return 3; if (o == "+" || o == "-") return 4; if (o == "*" || o == "/" || o == "%") return 5; if (o == "neg" || o == "!" || o == "NOT") return 6; return 9; }
	string tx(const EP& e, int need = 0){
		const string& o = e->op; auto& k = e->k; int pr = prio(o); if (o == "n" && e->num < 0) pr = 6;
		string s; bool par = pr < 9 && (minpar ? pr < need : need != 0 || o != "neg");
		if (o == "n"){ if (e->num < 0) s = "-" + numstr(-e->num); else if (e->name[0] == '#') s = e->name.substr(1); else if (e->name == "H") s = fmt("&H%X", e->num >> 12); else if (e->name == "B"){ s = ""; for (int v = e->num >> 12; v || s.empty(); v >>= 1) s = (char)('0' + (v & 1)) + s; s = "&B" + s; } else if (e->name == "." && e->num < 4096 && e->num) s = numstr(e->num).substr(1); else s = numstr(e->num); }
		else if (o == "s") s = "\"" + e->str + "\""; else if (o == "v") s = e->name; else if (o == "v$") s = e->name + "$";
		else if (o == "a" || o == "a$"){ bool br = e->num & 1; s = e->name + (o == "a$" ? "$" : "") + (br ? "[" : "("); for (size_t i = 0; i < k.size(); ++i) s += (i ? "," : "") + tx(k[i]); s += br ? "]" : ")"; }
		else if (o == "rnd"){ s = k[0]->num >= 0 ? "((RND(" + tx(k[0]) + ")>=0)*(RND(" + tx(k[0]) + ")<" + tx(k[0]) + "))" : "((RND(" + tx(k[0]) + ")<=0)*(RND(" + tx(k[0]) + ")>" + tx(k[0]) + "))"; }
		else if (o == "TRUE" || o == "FALSE" || o == "CANCEL" || o == "CSRX" || o == "CSRY" || o == "TABSTEP") s = o;
		else if (o == "neg" || o == "!") s = string(o == "neg" ? "-" : "!") + tx(k[0], 6);
		else if (o == "NOT") s = "NOT " + tx(k[0], 6);
		else if (pr == 2) s = tx(k[0], pr) + " " + o + " " + tx(k[1], pr + 1);
		else if (pr < 9) s = tx(k[0], pr) + o + tx(k[1], pr + 1);
		else { s = o + "("; for (size_t i = 0; i < k.size(); ++i) s += (i ? "," : "") + tx(k[i]); s += ")"; }
		return par ? "(" + s + ")" : s;
	}
	string K(){ return trace ? ":K=K+1" : ""; }
	string simple(const SP& s){ const string& o = s->op;
		if (o == "let") return tx(s->e[0]) + "=" + tx(s->e[1]) + K();
		if (o == "print"){ string r = s->form ? "PRINT " : "?"; for (size_t i = 0; i < s->e.size(); ++i){ r += tx(s->e[i]); if (s->tabs[i]) r += (char)s->tabs[i]; } return r + K(); }
		if (o == "swap") return "SWAP " + tx(s->e[0]) + "," + tx(s->e[1]) + K();
		if (o == "read"){ string r = "READ "; for (size_t i = 0; i < s->e.size(); ++i) r += (i ? "," : "") + tx(s->e[i]); return r + K(); }
		if (o == "restore") return "RESTORE @" + data[s->id].label + K();
		if (o == "sub") return s->form == 1 ? fmt("GOSUB \"@SU\"+STR$(%d)", s->id) : fmt("GOSUB @SU%d", s->id);
		if (o == "color"){ return "COLOR " + tx(s->e[0]) + (s->e.size() > 1 ? "," + tx(s->e[1]) : "") + K(); } if (o == "tabstep") return "TABSTEP=" + tx(s->e[0]) + K(); if (o == "clear") return "CLEAR" + K(); if (o == "dtread") return (s->form ? "TMREAD " : "DTREAD ") + tx(s->e[0]) + "," + tx(s->e[1]) + "," + tx(s->e[2]) + "," + tx(s->e[3]) + K();
		if (o == "cls") return "CLS" + K(); if (o == "locate") return "LOCATE " + tx(s->e[0]) + "," + tx(s->e[1]) + K(); if (o == "end") return "END"; if (o == "ret") return "RETURN"; if (o == "wait") return (s->form ? "WAIT " : "VSYNC ") + fmt("%d", s->id) + K();
		if (o == "sort") return string(s->form & 1 ? "RSORT " : "SORT ") + tx(s->e[0]) + "," + tx(s->e[1]) + "," + s->name + (s->name == "T" ? "$" : "") + K();
		if (o == "sortx") return fmt("FOR SI=0 TO 9:V(SI)=(SI*3+%d)%%10%s:NEXT SI", s->id, s->form & 2 ? ":Y(SI%8)=SI" : "") + K() + "\r" + (s->form & 1 ? "RSORT" : "SORT") + (s->form & 2 ? fmt(" %d,%d,V,%s", s->id % 3, 10 - s->id % 3 - s->id % 2, s->form & 4 ? "Y,T$" : "T$,Y") : string(" 0,10,V,T$")) + K();
		if (o == "dim"){ string r = "DIM " + s->name + (s->form ? "$" : "") + "("; for (size_t i = 0; i < s->tabs.size(); ++i) r += (i ? "," : "") + fmt("%d", s->tabs[i]); return r + ")" + K(); }
		if (o == "on"){ string r = "ON " + tx(s->e[0]) + " GOSUB "; for (size_t i = 0; i < s->tabs.size(); ++i) r += (i ? "," : "") + fmt("@SU%d", s->tabs[i]); return r; }
		return ""; }
	static bool is_simple(const SP& s){ return s->op != "if" && s->op != "for" && s->op != "loop" && !(s->op == "on" && s->form == 1); }
	static bool fits(const string& l){ return l.size() <= 100; } // a program line has at most 100 characters
	string block(const vector<SP>& b){ string r, line; auto flush = [&]{ if (!line.empty()) r += line + "\r"; line = ""; };
		for (auto& s : b){ if (extra && s->uid % 11 == 3){ flush(); static const char* cm[] = {"\r", "' comment: PRINT 1\r", "REM comment\r", "   \r", "@UNUSED\r"}; int q = s->uid % 4; r += cm[q]; }
			if (merge && is_simple(s) && s->op != "sortx"){ string t = simple(s); if (!line.empty() && fits(line + ":" + t)){ line += (s->uid % 3 ? ":" : " : ") + t; if (!fits(line)){ line = line.substr(0, line.size() - t.size() - 3); flush(); line = t; } } else { flush(); line = t; } if (s->op == "dim" || s->uid % 3 == 0) flush(); continue; }
			flush(); r += text(s); }
		flush(); return r; }
	string joined(const vector<SP>& b){ string r; for (auto& s : b) r += (r.empty() ? "" : ":") + simple(s); return r; }
	string text(const SP& s){ const string& o = s->op;
		if (is_simple(s)) return simple(s) + "\r";
		if (o == "if"){ string c = "IF " + tx(s->e[0]);
			if (s->form == 0 && fits(c + " THEN " + joined(s->body) + (s->alt.empty() ? "" : " ELSE " + joined(s->alt)))) return c + " THEN " + joined(s->body) + (s->alt.empty() ? "" : " ELSE " + joined(s->alt)) + "\r";
			int l = s->uid; static const char* how[] = {" GOTO @X%d\r", " THEN @X%d\r", " THEN GOTO @X%d\r", " GOTO @X%d ELSE @Z%d\r", " THEN @X%d ELSE @Z%d\r"}; return c + fmt(how[l % 5], l, l) + (l % 5 > 2 ? fmt("@Z%d\r", l) : "") + block(s->alt) + fmt("GOTO @Y%d\r@X%d\r", l, l) + block(s->body) + fmt("@Y%d\r", l); }
		if (o == "for"){ string h = "FOR " + s->name + "=" + tx(s->e[0]) + " TO " + tx(s->e[1]) + (s->e.size() > 2 ? " STEP " + tx(s->e[2]) : "");
			if ((s->form & 2) && fits(h + ":" + joined(s->body) + ":NEXT" + s->name)) return h + ":" + joined(s->body) + ":NEXT" + ((s->form & 1) ? " " + s->name : "") + "\r";
			return h + "\r" + block(s->body) + "NEXT" + ((s->form & 1) ? " " + s->name : "") + "\r"; }
		if (o == "loop"){ int l = s->uid; return s->name + "=0" + K() + fmt("\r@L%d\r", l) + block(s->body) + s->name + "=" + s->name + "+1" + K() + "\rIF " + s->name + fmt("<%d ", s->id) + (s->form ? "THEN " : "GOTO ") + (l % 4 == 1 && !s->form ? fmt("\"@L\"+STR$(%d)\r", l) : fmt("@L%d\r", l)); }
		if (o == "on"){ int l = s->uid; string r = "ON " + tx(s->e[0]) + " GOTO ", b; for (size_t i = 0; i < s->alts.size(); ++i){ r += (i ? "," : "") + fmt("@O%d_%d", l, (int)i); b += fmt("GOTO @P%d\r@O%d_%d\r", l, l, (int)i) + block(s->alts[i]); } return r + "\r" + block(s->alt) + b + fmt("@P%d\r", l); }
		return ""; }
	string program(){
		string r = block(top) + "END\r"; for (size_t i = 0; i < subs.size(); ++i) r += fmt("@SU%d\r", (int)i) + block(subs[i]) + "RETURN\r";
		for (auto& d : data){ r += "@" + d.label + "\rDATA "; for (size_t i = 0; i < d.items.size(); ++i) r += (i ? "," : "") + d.items[i].text; r += "\r"; } return r; }
};

struct LangGen {
	Lang& L; Rng r; bool errs = true; int nn = 5, ns = 5; int depth_for = 0, names = -1; bool arrays = true, con = true, dyn = true; bool clears = true;
	LangGen(Lang& l, u64 seed) : L(l), r(seed) {}
	static EP mk(const string& op, vector<EP> k = {}){ auto e = std::make_shared<Ex>(); e->op = op; e->k = k; return e; }
	EP num(int raw){ auto e = mk("n"); e->num = raw; return e; } EP ni(int i){ return num(i * 4096); }
	EP str(const string& s){ auto e = mk("s"); e->str = s; return e; }
	string longname(const char* a, int i){ static const char* l[4] = {"FIFTEENLETTERS", "FIFTEENLETTERSX", "FIFTEENLETTERT", "_2"}; if (names < 0) names = (int)r.below(64); return (names >> 2 & 1) && (i == (names & 3) || i == (names & 3) + 1) ? string(a) + l[(names + names / 8 + i) & 3] : string(a) + (char)('A' + i); }
	EP nvar(){ auto e = mk("v"); e->name = longname("N", (int)r.below(nn)); return e; }
	EP svar(){ auto e = mk("v$"); e->name = longname("S", (int)r.below(ns)); return e; }
	bool tabby = false;
	EP longnum(){ EP e = mk("n"); e->name = fmt("#%d.%d", (int)r.below(200), (int)(r.chance(1, 2) ? r.range(9985, 9999) : r.range(1000, 9999))); e->num = (int)Lang::valnum(e->name.substr(1)); return e; }
	EP small(int d){ switch (r.below(4)){ case 0: return ni((int)r.below(10)); case 1: return mk("%", {mk("ABS", {N(d - 1)}), ni(10)}); default: return ni((int)r.below(7)); } }
	EP narr(int d){ EP e = mk("a"); e->num = r.chance(1, 5); if (r.chance(1, 3)){ e->name = "W"; e->k = {small(d - 1), r.chance(1, 2) ? ni((int)r.below(4)) : mk("%", {mk("ABS", {N(d - 1)}), ni(4)})}; } else { e->name = "V"; e->k = {small(d - 1)}; } if (errs && r.chance(1, 25)) e->k.back() = ni((int)r.range(-2, 12)); return e; }
	EP sarr(int d){ EP e = mk("a$"); e->name = "T"; e->k = {small(d - 1)}; return e; }
	EP N(int d){
		if (d <= 0) switch (r.below(3)){ case 0: return ni((int)r.range(0, 120)); case 1: return r.chance(1, 4) ? (r.chance(1, 6) ? longnum() : num((int)r.range(1, 40) * 512)) : ni((int)r.below(20)); default: return nvar(); }
		if (r.chance(1, 8)) switch (r.below(18)){
			case 0: return mk("SQR", {errs && r.chance(1, 5) ? N(0) : mk("ABS", {mk("%", {N(d - 1), ni(2000)})})}); case 1: return mk("SIN", {mk("%", {N(d - 1), ni(20)})}); case 2: return mk("COS", {mk("%", {N(d - 1), ni(20)})}); case 3: return mk("EXP", {mk("%", {N(d - 1), ni(errs ? 20 : 8)})}); case 4: return r.chance(1, 2) ? mk("ATAN", {mk("%", {N(d - 1), ni(50)})}) : mk("ATAN", {mk("%", {N(d - 1), ni(50)}), small(0)});
			case 5: return mk("LOG", {errs && r.chance(1, 6) ? N(0) : mk("+", {mk("ABS", {mk("%", {N(d - 1), ni(900)})}), ni(1)})}); case 6: return mk("TAN", {num((int)r.range(-12, 12) * 512)}); case 7: return mk("RAD", {mk("%", {N(d - 1), ni(720)})}); case 8: return mk("DEG", {mk("%", {N(d - 1), ni(9)})}); case 9: return mk("PI"); case 10: return mk("POW", {ni((int)r.range(-5, 9)), ni((int)r.below(4))});
			case 11: return mk(r.pick(vector<string>{"TRUE", "FALSE", "CANCEL"})); case 12: return mk(r.pick(vector<string>{"CSRX", "CSRY", "TABSTEP"})); case 13: return mk("rnd", {ni(r.chance(1, 3) ? -(int)r.range(2, 30) : (int)r.range(1, 30))}); case 14: return mk("CHKCHR", {con ? ni((int)r.range(-1, 32)) : ni(-1), small(0)});
			case 15: return mk("VAL", {str(r.pick(vector<string>{"&HFF", "&B1011", "&H0A1", "12.5", "-3.25", "7A9", ".5", "0.1", "-0.125", "12.34.5", "100", "1E5", "524287", "524288", "524288.5", "-524288", "-524287.75", "524289", "0.123456789012", "&B12", "-", "X", "3.00000000000000000000000000000000000001"}))}); case 16: { EP e = ni((int)r.below(300)); e->name = r.chance(1, 2) ? "H" : "B"; return e; } case 17: { EP e = num((int)r.range(1, 7) * 512); e->name = "."; return e; } }
		switch (r.below(22)){
			case 0: case 1: return mk("+", {N(d - 1), N(d - 1)}); case 2: return mk("-", {N(d - 1), N(d - 1)}); case 3: return mk("*", {N(d - 1), errs && r.chance(1, 6) ? N(d - 1) : small(d - 1)});
			case 4: return mk("/", {N(d - 1), errs && r.chance(1, 8) ? N(0) : ni((int)r.range(1, 8))}); case 5: return mk("%", {N(d - 1), ni((int)r.range(2, 50))});
			case 6: return mk(r.pick(vector<string>{"==", "!=", "<", ">", "<=", ">="}), {N(d - 1), N(d - 1)}); case 7: return mk(r.pick(vector<string>{"==", "!=", "<", ">", "<=", ">="}), {S(d - 1), S(d - 1)});
			case 8: return mk(r.pick(vector<string>{"AND", "OR", "XOR"}), {N(d - 1), N(d - 1)}); case 9: return mk(r.pick(vector<string>{"neg", "!", "NOT"}), {N(d - 1)});
			case 10: return mk(r.pick(vector<string>{"FLOOR", "ABS", "SGN"}), {N(d - 1)}); case 11: if (r.chance(1, 3)){ string h, n; for (int i = (int)r.range(2, 16); i > 0; --i) h += r.chance(2, 3) ? 'A' : 'B'; size_t q = r.below(h.size()); n = h.substr(q, (size_t)r.range(1, 6)); if (r.chance(1, 4)) n += 'A'; EP e = mk("INSTR", {str(h), str(n)}); if (r.chance(1, 3)) e->k.push_back(ni((int)r.below(h.size()))); return e; } return mk("LEN", {S(d - 1)}); case 12: return mk("ASC", {errs && r.chance(1, 12) ? S(d - 1) : mk("+", {S(d - 1), str("x")})});
			case 13: if (r.chance(1, 3)) return mk("VAL", {errs && r.chance(1, 12) ? str(r.pick(vector<string>{"&", "&X1", "&h1"})) : r.chance(1, 6) ? mk("LEFT$", {str(r.pick(vector<string>{"&HFF", "-12.5", "&B101", "3"})), small(0)}) : r.chance(1, 6) ? str("") : S(d - 1)}); return mk("VAL", {mk("STR$", {mk("FLOOR", {N(d - 1)})})}); case 14: return r.chance(1, 2) ? mk("INSTR", {S(d - 1), S(0)}) : mk("INSTR", {S(d - 1), S(0), small(0)});
			case 15: case 16: if (arrays) return narr(d); return nvar(); case 17: if (errs && r.chance(1, 4)) return mk(r.pick(vector<string>{"+", "-"}), {ni(r.chance(1, 2) ? 524287 : -524287), num((int)r.pick(vector<int>{0, 4096, 4096, -4096, 8192, -512, 512}))}); return N(0); default: return N(0); } }
	EP S(int d){
		if (d <= 0){ if (r.chance(2, 3)) return svar(); string s; int n = (int)r.below(6); for (int i = 0; i < n; ++i) s += (char)r.pick(vector<int>{'A', 'B', 'a', 'z', '0', '7', ' ', '!', '-', 's', 'w', 'S'}); return str(s); }
		if (r.chance(1, 60)){ EP e = mk("LEFT$", {mk("*", {r.chance(1, 8) ? S(0) : str("AbCdE0123456789z"), ni(16)}), ni((int)r.range(252, 256))}); int c = (int)r.below(5); if (r.chance(1, 3)){ e->k[1] = ni(256); return mk("SUBST$", {e, ni((int)r.below(9)), ni(c), str(string("abcde").substr(0, c))}); } return r.chance(1, 3) ? e : mk("SUBST$", {e, ni((int)r.below(6)), ni((int)r.below(4)), mk("LEFT$", {S(0), ni((int)r.below(5))})}); }
		switch (r.below(14)){
			case 0: case 1: return mk("+", {S(d - 1), S(d - 1)}); case 2: return mk("*", {mk("LEFT$", {S(d - 1), ni((int)r.below(5))}), mk("%", {mk("ABS", {N(d - 1)}), ni(4)})});
			case 3: return mk("LEFT$", {S(d - 1), errs && r.chance(1, 20) ? N(d - 1) : r.chance(1, 2) ? small(d - 1) : ni((int)r.below(12))}); case 4: return mk("RIGHT$", {S(d - 1), small(d - 1)}); case 5: return mk("MID$", {S(d - 1), errs && r.chance(1, 30) ? N(d - 1) : small(d - 1), errs && r.chance(1, 30) ? N(d - 1) : small(d - 1)});
			case 6: return mk("SUBST$", {mk("+", {str("ABCD"), S(d - 1)}), ni((int)r.below(4)), small(0), mk("LEFT$", {S(d - 1), ni(6)})}); case 7: return mk("STR$", {N(d - 1)}); case 8: return r.chance(1, 2) ? mk("HEX$", {mk("ABS", {N(d - 1)})}) : r.chance(1, 2) ? mk("HEX$", {N(d - 1)}) : mk("HEX$", {mk("%", {N(d - 1), ni((int)r.range(9, 300))}), ni(errs ? (int)r.range(0, 6) : 5)});
			case 9: if (r.chance(1, 4)) return mk("CHR$", {errs && r.chance(1, 10) ? N(d - 1) : ni((int)r.below(256))}); return mk("CHR$", {mk("+", {ni(65), mk("%", {mk("ABS", {mk("FLOOR", {N(d - 1)})}), ni(26)})})}); case 10: case 11: if (arrays) return sarr(d); return svar(); default: return S(0); } }
	EP Scut(int d){ EP e = S(d); return r.chance(errs ? 12 : 1000, errs ? 13 : 1000) ? mk("LEFT$", {e, ni((int)r.range(3, 24))}) : e; } // keeps strings from growing without bound
	EP Ncut(int d){ EP e = N(d); return errs && r.chance(1, 12) ? e : mk("%", {e, ni((int)r.range(50, 2000))}); }
	SP st(const string& op){ auto s = std::make_shared<St>(); s->op = op; s->uid = L.lab++; return s; }
	SP simple(bool insub, int sd){ for (;;){ SP s = simple1(insub, sd); if (Lang::fits(L.simple(s))) return s; } }
	EP Nfit(int d, size_t room = 60){ for (;; d = std::max(0, d - 1)){ EP e = N(d); if (L.tx(e).size() <= room) return e; } }
	SP simple1(bool insub, int subdepth){ (void)insub;
		for (;;) switch (r.below(20)){
			case 17: if (con && r.chance(1, 4)){ auto s = st("color"); s->e = {r.chance(1, 2) ? ni((int)r.below(16)) : mk("%", {mk("ABS", {N(1)}), ni(16)})}; if (r.chance(1, 2)) s->e.push_back(ni((int)r.below(16))); return s; } break;
			case 18: if (con && r.chance(1, 5)){ tabby = true; auto s = st("tabstep"); s->e = {r.chance(1, 4) ? N(1) : r.chance(1, 2) ? ni((int)r.range(15, 17)) : ni((int)r.range(-1, 18))}; return s; } break;
			case 19: if (r.chance(1, 6)){ auto s = st("dtread"); s->form = (int)r.below(2); string t = s->form ? fmt("%02d:%02d:%02d", (int)r.below(24), (int)r.below(60), (int)r.below(100)) : fmt("%04d/%02d/%02d", (int)r.below(10000), (int)r.below(100), (int)r.below(32)); if (errs && r.chance(1, 6)) t[r.below(t.size())] = (char)r.pick(vector<int>{'/', ':', '5', 'x'}); if (errs && r.chance(1, 12)) t.pop_back(); s->e = {errs && r.chance(1, 10) ? S(1) : r.chance(1, 3) ? mk("MID$", {str("ab" + t + "c"), ni(2), ni((int)t.size())}) : r.chance(1, 3) ? mk("+", {mk("LEFT$", {str(t), ni(4)}), mk("MID$", {str(t), ni(4), ni(9)})}) : str(t), arrays && r.chance(1, 4) ? narr(0) : nvar(), nvar(), nvar()}; return s; } break;
			case 14: if (arrays && r.chance(1, 2)){ auto s = st("sort"); s->name = r.chance(1, 2) ? "V" : "T"; s->form = (int)r.below(2); int a = (int)r.below(4); s->e = {ni(a), r.chance(1, 6) ? small(1) : ni((int)r.range(0, errs && r.chance(1, 6) ? 14 : 10 - a))}; return s; } break;
			case 15: if (arrays && r.chance(1, 4)){ auto s = st("sortx"); s->form = (int)r.below(8); s->id = (int)r.below(10); return s; } break;
			case 16: if (r.chance(1, 4)){ auto s = st("wait"); s->form = (int)r.below(2); s->id = (int)r.below(4); return s; } break;
			case 0: case 1: case 2: { auto s = st("let"); s->e = {nvar(), Ncut((int)r.below(4))}; return s; }
			case 3: case 4: case 5: { auto s = st("let"); s->e = {svar(), Scut((int)r.below(4))}; if (r.chance(1, 20)) s->e[1] = s->e[0]; return s; }
			case 6: if (arrays){ auto s = st("let"); if (r.chance(1, 2)) s->e = {narr(1), Ncut(2)}; else s->e = {sarr(1), Scut(2)}; return s; } break;
			case 7: case 8: if (con){ auto s = st("print"); s->form = r.chance(1, 3); int n = (int)r.below(4); for (int i = 0; i < n; ++i){ s->e.push_back(r.chance(1, 2) ? N((int)r.below(3)) : S((int)r.below(3))); s->tabs.push_back(i + 1 < n ? (r.chance(tabby ? 3 : 1, tabby ? 4 : 3) ? ',' : ';') : r.chance(1, 3) ? (r.chance(1, 3) ? ',' : ';') : 0); } return s; } break;
			case 9: { auto s = st("swap"); if (r.chance(1, 2)) s->e = {nvar(), r.chance(1, 2) && arrays ? narr(0) : nvar()}; else s->e = {r.chance(1, 3) && arrays ? sarr(0) : svar(), svar()}; return s; }
			case 10: if (!L.data.empty()){ auto s = st("read"); int n = (int)r.range(1, 3); for (int i = 0; i < n; ++i){ bool sx = r.chance(1, 2); s->e.push_back(sx ? (arrays && r.chance(1, 4) ? sarr(0) : svar()) : nvar()); } s->form = 1; return s; } break;
			case 11: if (!L.data.empty()){ auto s = st("restore"); s->id = (int)r.below(L.data.size()); return s; } break;
			case 12: if (con && r.chance(1, 5)){ if (r.chance(1, 4)) return st("cls"); auto s = st("locate"); s->e = {r.chance(1, 2) ? ni((int)r.below(32)) : N(1), ni((int)r.range(-1, 24))}; return s; } break;
			case 13: if (subdepth < (int)L.subs.size()){ auto s = st("sub"); s->id = (int)r.range(subdepth, (int)L.subs.size() - 1); s->form = dyn && r.chance(1, 3); return s; } break; } }
	vector<SP> simples(int lo, int hi, int sd){ vector<SP> b; int n = (int)r.range(lo, hi); for (int i = 0; i < n; ++i) b.push_back(simple(false, sd)); return b; }
	// a body for single-line forms has to stay short
	vector<SP> shorts(int lo, int hi, int sd){ vector<SP> b; int n = (int)r.range(lo, hi); for (int i = 0; i < n; ++i){ if (r.chance(1, 2)){ SP q = simple(false, sd); if (q->op != "sortx" && L.simple(q).size() < 40){ b.push_back(q); continue; } } auto s = st("let"); if (r.chance(1, 2)) s->e = {nvar(), mk("%", {N(1), ni(500)})}; else s->e = {svar(), mk("LEFT$", {S(1), ni(9)})}; b.push_back(s); } return b; }
	// noif: inside an IF block (IF blocks do not nest in this dialect)
	vector<SP> block(int d, bool noif, int sd, int lo, int hi){ vector<SP> b; int n = (int)r.range(lo, hi);
		for (int i = 0; i < n; ++i){
			int q = (int)r.below(12);
			if (d <= 0 || q < 6){ b.push_back(simple(false, sd)); if (b.back()->op == "tabstep" && r.chance(2, 3)){ auto s = st("print"); int n = (int)r.range(1, 3); for (int j = 0; j < n; ++j){ s->e.push_back(r.chance(1, 2) ? N(0) : S(0)); s->tabs.push_back(','); } if (Lang::fits(L.simple(s))) b.push_back(s); } continue; }
			if (q < 8 && !noif){ auto s = st("if"); s->e = {Nfit((int)r.below(3))}; s->form = r.chance(1, 2) ? 0 : 2; if (s->form == 0){ s->body = shorts(1, 2, sd); if (r.chance(1, 2)) s->alt = shorts(1, 2, sd); if (sd > 0 && r.chance(1, 4)) s->body.push_back(st("ret")); else if (errs && r.chance(1, 40)) s->body.push_back(st("end")); } else if (s->form == 1){ s->body = block(d - 1, true, sd, 1, 3); if (r.chance(1, 2)) s->alt = block(d - 1, true, sd, 1, 3); } else { s->body = block(d - 1, noif, sd, 0, 2); s->alt = block(d - 1, noif, sd, 0, 2); } b.push_back(s); continue; }
			if (q < 10){ if (depth_for >= 3) continue; auto s = st("for"); s->name = fmt("I%d_%d", depth_for, sd); int a = (int)r.range(-2, 6), z = (int)r.range(-2, 8); if (r.chance(1, 3)){ s->e = {ni(a), ni(z), r.chance(1, 4) ? num((int)r.range(1, 4) * 2048) : ni((int)r.range(-3, 3))}; if (s->e[2]->num == 0) s->e[2] = ni(2); } else s->e = {r.chance(1, 4) ? small(1) : ni(a), ni(z)}; s->form = (int)r.below(2) | (r.chance(1, 4) ? 2 : 0); ++depth_for; if (s->form & 2) s->body = shorts(1, 2, sd); else s->body = block(d - 1, noif, sd, 0, 3); --depth_for; b.push_back(s); continue; }
			if (q == 10 && !noif){ auto s = st("loop"); s->name = fmt("J%d", L.lab++); s->id = (int)r.range(1, 5); s->form = (int)r.below(2); s->body = block(d - 1, noif, sd, 1, 3); b.push_back(s); continue; }
			if (q == 11){ auto s = st("on"); s->e = {r.chance(1, 4) ? N(1) : mk("%", {N(1), ni(4)})}; if (s->form = (int)r.below(2), s->form == 1){ int m = (int)r.range(1, 3); for (int j = 0; j < m; ++j) s->alts.push_back(block(d - 1, noif, sd, 0, 2)); s->alt = block(d - 1, noif, sd, 0, 2); } else { if (sd >= (int)L.subs.size()) continue; int m = (int)r.range(1, 3); for (int j = 0; j < m; ++j) s->tabs.push_back((int)r.range(sd, (int)L.subs.size() - 1)); } b.push_back(s); continue; }
			b.push_back(simple(false, sd)); }
		return b; }
	void generate(int lo, int hi, int depth){
		int nd = (int)r.below(3); for (int i = 0; i < nd; ++i){ DataBlock d; d.label = fmt("DA%d", i); int n = (int)r.range(1, 5); for (int j = 0; j < n; ++j) { string v = r.chance(1, 2) ? fmt("%d", (int)r.range(-20, 300)) : r.chance(1, 3) ? fmt("%d.%d", (int)r.below(9), (int)r.below(1000)) : fmt("%d", (int)r.below(10)), t; if (r.chance(1, 12) && n < 4) v = r.chance(1, 2) ? string((size_t)r.range(8, 18), '0') + v : v + (v.find('.') == string::npos ? "." : "") + "25" + string((size_t)r.range(8, 18), r.chance(1, 2) ? '0' : '7'); if (r.chance(1, 6)) v = r.pick(vector<string>{"AB", "x9", "HELLO", "A-1", "1A"}); if (r.chance(1, 16)) v = r.pick(vector<string>{"a b", " q ", "C,D", "REM:'"}); if (r.chance(1, 20) && j + 1 < n) v = ""; bool junk = errs && r.chance(1, 20); t = v; if (v.find_first_of(" ,:'") != string::npos || r.chance(1, 6)) t = "\"" + t + "\""; if (r.chance(1, 5)) t = " " + t; if (r.chance(1, 8)) t += " "; if (v.empty()) t = r.chance(1, 2) ? "" : " "; if (junk){ v = "\1"; t = r.pick(vector<string>{"AB CD", "1 2", "x  y z", " AB  \"C\""}); } d.items.push_back({v, t}); } L.data.push_back(d); }
		int nsub = (int)r.below(4); L.subs.resize(nsub); for (int i = nsub - 1; i >= 0; --i) L.subs[i] = block(depth - 1, false, i + 1, 1, 4);
		if (arrays){ if (r.chance(3, 4)){ auto s = st("dim"); s->name = "W"; s->tabs = {10, 4}; L.top.push_back(s); } else if (r.chance(1, 2)){ auto s = st("dim"); s->name = "V"; s->tabs = {(int)r.range(10, 20)}; L.top.push_back(s); } if (r.chance(1, 2)){ auto s = st("dim"); s->name = "T"; s->form = 1; s->tabs = {(int)r.range(10, 16)}; L.top.push_back(s); } }
		if (arrays && r.chance(1, 3)){ auto s = st("dim"); s->name = "Y"; s->tabs = {errs && r.chance(1, 4) ? (int)r.range(8, 9) : (int)r.range(10, 12)}; L.top.push_back(s); }
		auto b = block(depth, false, 0, lo, hi); if (clears && r.chance(1, 8)) b.insert(b.begin() + r.below(b.size() + 1), st("clear")); L.top.insert(L.top.end(), b.begin(), b.end());
	}
};
