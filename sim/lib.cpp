// Helpers shared by the scenarios.
#include "sim.h"
#include <unistd.h>
#include <fcntl.h>

uintptr_t g_run_lo=0, g_run_hi=0;
extern "C" int sbc_main(int argc, char** argv);
extern "C" void* __real_init_system(int, int, int, bool);
extern "C" void __real_display_draw_all(void*);
extern "C" void sim_skip_display(void);
extern "C" void* __wrap_init_system(int v, int s, int a, bool h){
	if (W->var_limit) v = W->var_limit;
	if (W->str_limit) s = W->str_limit;
	if (W->arr_limit) a = W->arr_limit;
	void* p = __real_init_system(v, s, a, h);
	W->ptc = p; return p;
}
extern "C" void __wrap_display_draw_all(void* p){
	if (W->render && (W->frame % W->render) == 0) __real_display_draw_all(p);
	else sim_skip_display();
}
// With the address sanitizer every block of the program's own allocator gets a red zone.
extern "C" void __asan_poison_memory_region(const volatile void*, size_t) __attribute__((weak));
extern "C" void* __real_sbc_malloc(int); extern "C" void* __real_sbc_calloc(int, int);
static void red(size_t n){ char* z = (char*)__real_sbc_malloc((int)n); if (n) __asan_poison_memory_region(z, n); }
// Blocks taken from that allocator are never given back (it has no free), so nothing may take one again and again.
int late_blocks; // since the machine exists
string blocks_verdict(){ return late_blocks > 60 ? fmt("%d blocks of the machine's memory were taken while it ran; they are never given back, so the memory is overrun sooner or later", late_blocks) : ""; }
static bool in_calloc;
extern "C" void* __wrap_sbc_malloc(int size){
	if (W && W->ptc && size > 0 && !in_calloc) ++late_blocks;
	if (!&__asan_poison_memory_region || size <= 0) return __real_sbc_malloc(size);
	red((8 - (uintptr_t)__real_sbc_malloc(0) % 8) % 8 + 64); void* p = __real_sbc_malloc(size); red((8 - (size_t)size % 8) % 8 + 64); return p;
}
extern "C" void* __wrap_sbc_calloc(int n, int size){
	if (W && W->ptc && n > 0 && size > 0) ++late_blocks;
	if (!&__asan_poison_memory_region || n <= 0 || size <= 0) return __real_sbc_calloc(n, size);
	in_calloc = true; void* p = __wrap_sbc_malloc(n * size); in_calloc = false; memset(p, 0, (size_t)n * size); return p;
}
int sim_main_entry(World& w){
	late_blocks = 0; static vector<string> av; static vector<char*> cv;
	av = {"sbc"}; for (auto& a : w.argv) av.push_back(a);
	cv.clear(); for (auto& a : av) cv.push_back((char*)a.c_str()); cv.push_back(nullptr);
	return sbc_main((int)av.size(), cv.data());
}

string le32(u32 v){ string s(4, 0); for (int i = 0; i < 4; ++i) s[i] = (char)(v >> (8*i)); return s; }
string prg_file(const string& src, const string&){
	string o = "PETC0300RPRG"; o += string(8, '\0'); o += le32(src.size()); return o + src;
}
string px_file(const string& type12, const string& body, const string& name){
	string o = "PX01"; o += le32(body.size() + 12); o += string(4, '\0');
	string n = name; n.resize(8, '\0'); o += n; o += string(16, '\0'); o += type12; o.resize(36, '\0'); 
	return o.substr(0, 36) + type12 + body;
}
string src_lines(const vector<string>& l){ string o; for (auto& s : l) o += s + "\r"; return o; }

static string g_config;
static string read_real(const char* p){ int fd = open(p, O_RDONLY); string s; if (fd < 0) return s; char b[65536]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) s.append(b, k); close(fd); return s; }
string extra_editor;
void base_disk(Disk& d){
	if (!extra_editor.empty()) d["programs/EDITOR.PTC"] = extra_editor;
	if (g_config.empty()){ g_config = read_real("/repo/resources/config.txt"); if (g_config.empty()) g_config = "73 74 71 72 58 99 99 59 38 42 99 36 39\n22 18 0 3 72 74 73 71 38 42 58 36 39\n"; }
	d["resources/config.txt"] = g_config;
}
void apply_sched(World& w, const Case& c){
	w.mode = (int)c.get("mode", 0); w.nominal = c.get("nominal", 3000); w.p_preempt = (int)c.get("p_preempt", 0);
	w.w_preempt = (int)c.get("w_preempt", 0); w.w_slice = c.get("w_slice", 200); w.sleep_jitter = (int)c.get("jitter", 0); w.stall = (int)c.get("stall", 0);
	w.c = &c; w.render = (int)c.get("render");
}
// swarm: every run enables a random subset of the schedule perturbations
void gen_sched(Case& c, Rng& r, int mask){
	vector<int> modes; for (int m = 0; m < 5; ++m) if (mask & (1 << m)) modes.push_back(m);
	int m = modes[r.below(modes.size())];
	c.p["mode"] = m; c.p["nominal"] = r.logu(300, 20000);
	if (m == SM_RANDOM || m == SM_SITE || m == SM_SAFE) c.p["p_preempt"] = r.chance(1,4) ? 0 : r.range(5, 100);
	if (m == SM_BURST) { c.p["p_preempt"] = r.range(50, 100); c.p["stall"] = r.range(5, 60); }
	if (m != SM_SAFE && m != SM_NOMINAL){ c.p["w_preempt"] = r.chance(1,3) ? 0 : r.range(5, 100); c.p["w_slice"] = r.logu(2, 20000); }
	if (m != SM_NOMINAL && r.chance(1,3)) c.p["jitter"] = r.range(5, 80);
	if (m != SM_NOMINAL && m != SM_BURST && r.chance(1,4)) c.p["stall"] = r.range(5, 40);
	if (r.chance(1,3)) c.p["win"] = 1;
}
string con_line(int y){ string s; for (int x = 0; x < 32; ++x){ int ch = probe_con(W->ptc, x, y); s += (ch >= 32 && ch < 127) ? (char)ch : (ch ? '#' : ' '); } while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
string con_all(){ string s; for (int y = 0; y < 24; ++y){ s += con_line(y); s += "\n"; } return s; }
bool var_is(const char* n, i64 v){ int x; return W->ptc && probe_num(W->ptc, n, &x) && x == v * 4096; }
i64 var_int(const char* n, i64 d){ int x; if (!W->ptc || !probe_num(W->ptc, n, &x)) return d; return x >> 12; }
void Typist::frame(InFrame& in){
	if (idle()) return;
	Cmd& c = q[at]; ++t;
	if (phase == 0){ for (int k = 0; k < per_frame && typed < c.text.size(); ++k) in.text.push_back((unsigned char)c.text[typed++]); if (typed >= c.text.size()){ phase = 1; t = 0; } return; }
	if (phase == 1){ // wait for the echo to be complete
		string l = con_line(probe_cy(W->ptc));
		string want = c.text; while (!want.empty() && want.back() == ' ') want.pop_back();
		if (l == want || (l.compare(0, want.size(), want) == 0 && probe_cx(W->ptc) == (int)c.text.size())){ phase = 2; t = 0; } else if (t > c.timeout){ failed = true; fail_at = "echo of '" + c.text + "' not seen, line is '" + l + "'"; }
		return;
	}
	if (phase == 2){ if (t == 1) bb0 = W->bbs_prg; if (t > 1 && c.done()){ phase = 3; t = 0; return; } in.buttons |= 1u << 4; // released as soon as the line has been taken: a key that is held repeats
		if (t > c.timeout && (probe_waiting_input(W->ptc) || W->bbs_prg - bb0 > 20000000 || t > 10 * c.timeout)){ failed = true; // a slow machine may need many frames to read the program in
			 fail_at = "command '" + c.text + "' had no effect"; } return; }
	if (phase == 3 && t > 3){ phase = 0; typed = 0; t = 0; ++at; }
}
