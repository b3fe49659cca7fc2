// Seeded search driver: fork-per-run workers, confirmation, minimisation, replay, evidence.
#include "sim.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>

extern "C" int __real_clock_gettime(int, struct timespec*);
static double wall(){ struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static map<string,Scenario*>& reg(){ static map<string,Scenario*> r; return r; }
void register_scenario(Scenario* s){ reg()[s->id] = s; }
Scenario* find_scenario(const string& id){ auto it = reg().find(id); return it == reg().end() ? nullptr : it->second; }

// ---------------------------------------------------------------- case text
static string esc(const string& s){ string o = "\""; char b[8]; for (unsigned char c : s){ if (c >= 33 && c < 127 && c != '"' && c != '\\') o += c; else { snprintf(b, sizeof b, "\\%02x", c); o += b; } } return o + "\""; }
static string unesc(const string& s){ string o; for (size_t i = 1; i + 1 < s.size(); ++i){ if (s[i] == '\\'){ o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i]; } return o; }
string Case::text() const {
	string o = "prop " + prop + "\nseed " + std::to_string(seed) + "\n";
	for (auto& k : p) o += "p " + k.first + " " + std::to_string(k.second) + "\n";
	for (auto& it : items){ o += "item " + it.kind + " " + (it.fixed ? "1" : "0") + " " + std::to_string(it.a.size()); for (i64 v : it.a) o += " " + std::to_string(v); o += " " + esc(it.s) + "\n"; }
	if (explicit_sched){ o += "sched"; for (i64 v : slices) o += " " + std::to_string(v); o += "\n"; }
	return o;
}
static vector<string> words(const string& l){ vector<string> w; size_t i = 0; while (i < l.size()){ while (i < l.size() && l[i] == ' ') ++i; size_t j = i; while (j < l.size() && l[j] != ' ') ++j; if (j > i) w.push_back(l.substr(i, j - i)); i = j; } return w; }
bool Case::parse(const string& t){
	size_t i = 0; bool ok = false;
	while (i < t.size()){
		size_t j = t.find('\n', i); if (j == string::npos) j = t.size();
		vector<string> w = words(t.substr(i, j - i)); i = j + 1;
		if (w.empty()) continue;
		if (w[0] == "prop"){ prop = w[1]; ok = true; }
		else if (w[0] == "seed") seed = strtoull(w[1].c_str(), nullptr, 10);
		else if (w[0] == "p") p[w[1]] = strtoll(w[2].c_str(), nullptr, 10);
		else if (w[0] == "item"){ Item it; it.kind = w[1]; it.fixed = w[2] == "1"; size_t n = strtoull(w[3].c_str(), nullptr, 10); for (size_t k = 0; k < n; ++k) it.a.push_back(strtoll(w[4 + k].c_str(), nullptr, 10)); it.s = unesc(w[4 + n]); items.push_back(it); }
		else if (w[0] == "sched"){ explicit_sched = true; for (size_t k = 1; k < w.size(); ++k) slices.push_back(strtoll(w[k].c_str(), nullptr, 10)); }
	}
	return ok;
}

// ---------------------------------------------------------------- one run in a child
struct RunOut { Verdict v; map<string,i64> probes; vector<i64> recorded; u64 ehash=0; i64 frames=0; i64 switches=0; string stderrtext; bool internal_error=false; };
static const size_t SHM = 8u << 20;
struct Shared { volatile int done; volatile size_t n; volatile int nbt; void* bt[40]; char buf[SHM - 512]; };
static Shared* shm; // per process
static vector<i64> g_rec; static u64 g_ehash; static i64 g_frames, g_switches;
// scenarios accumulate every sim_run's history here
void account(World& w){
	g_ehash = h2(g_ehash, w.ehash); g_frames += w.frame; g_switches += w.switches;
	if (!w.aux) g_rec = w.recorded;
	hit("simulated_frames", w.frame); hit("sim_bbs", w.bbs_total); hit("sched_decisions", w.switches);
	hit("preempt_program", w.preempt_p); hit("preempt_window", w.preempt_w);
	hit("disk_ops", w.ops[0] + w.ops[1] + w.ops[2] + w.ops[3] + w.ops[5] + w.ops[6] + w.ops[7] + w.ops[8]);
	for (int o = 0; o < OP_KINDS; ++o) for (int k = 0; k < FK_KINDS; ++k) if (w.fired[o][k]) hit(string("fault:") + diskop_name[o] + "-" + faultkind_name[k], w.fired[o][k]);
	if (w.counters["mutex_contention"]) hit("mutex_contention", w.counters["mutex_contention"]);
	if (w.counters["frames_rendered"]) hit("frames_rendered", w.counters["frames_rendered"]);
}
static void put(string& o, const string& s){ u64 n = s.size(); o.append((char*)&n, 8); o += s; }
static void put(string& o, u64 v){ o.append((char*)&v, 8); }
static u64 getn(const char*& p){ u64 v; memcpy(&v, p, 8); p += 8; return v; }
static string gets_(const char*& p){ u64 n = getn(p); string s(p, n); p += n; return s; }

// where a crashed run was: the innermost function of the program under test
#include <execinfo.h>
static void on_crash(int sig){
	void* a[40]; int n = backtrace(a, 40);  if (shm){ for (int i = 0; i < n && i < 40; ++i) shm->bt[i] = a[i]; shm->nbt = n; }
	signal(sig, SIG_DFL); raise(sig);
}
static void catch_crashes(){
	static char alt[1 << 16]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa = {}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
}
static string slurp(const string& p);
static string crash_site(){
	static vector<std::pair<u64, string>> sym; extern string self_path;
	if (sym.empty()){ string t = slurp(self_path + ".syms"); size_t i = 0; while (i < t.size()){ size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); char nm[200]; unsigned long long ad; char ty; if (sscanf(t.substr(i, j - i).c_str(), "%llx %c %199s", &ad, &ty, nm) == 3) sym.push_back({ad, nm}); i = j + 1; } std::sort(sym.begin(), sym.end()); }
	for (int i = 0; i < shm->nbt; ++i){ u64 a = (u64)shm->bt[i]; auto it = std::upper_bound(sym.begin(), sym.end(), std::make_pair(a, string("\x7f"))); if (it == sym.begin() || it == sym.end()) continue; --it; const string& n = it->second; if (n[0] == '_' || n == "on_crash" || n.compare(0, 6, "probe_") == 0) continue; size_t dot = n.find('.'); return n.substr(0, dot); }
	return "";
}

// address sanitizer builds: a report ends the process with SIGABRT, as a failed assertion does
extern "C" const char* __asan_default_options(){ return "abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:detect_leaks=0:symbolize=0:detect_stack_use_after_return=0:allocator_may_return_null=1:use_sigaltstack=0:quarantine_size_mb=16:malloc_context_size=0:poison_heap=1"; }

static int errfd = -1;
RunOut run_case(const Case& c, bool want_rec){
	RunOut r;
	if (!shm){ shm = (Shared*)mmap(nullptr, SHM, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); }
	if (errfd < 0) errfd = memfd_create("err", 0);
	shm->done = 0; shm->n = 0; shm->nbt = 0;
	if (ftruncate(errfd, 0)){} lseek(errfd, 0, SEEK_SET);
	pid_t pid = fork();
	if (pid == 0){
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		dup2(errfd, 2);
		alarm(120); catch_crashes();
		g_probe.clear(); g_rec.clear(); g_ehash = 1; g_frames = g_switches = 0;
		Scenario* s = find_scenario(c.prop);
		Verdict v = s->exec(c);
		string o; put(o, (u64)v.bad); put(o, (u64)v.invalid); put(o, v.cls); put(o, v.msg); put(o, h2(v.hash, g_ehash));
		put(o, g_ehash); put(o, (u64)g_frames); put(o, (u64)g_switches);
		put(o, (u64)g_probe.size()); for (auto& k : g_probe){ put(o, k.first); put(o, (u64)k.second); }
		if (want_rec){ put(o, (u64)g_rec.size()); for (i64 x : g_rec) put(o, (u64)x); } else put(o, (u64)0);
		if (o.size() > sizeof shm->buf) _exit(9);
		memcpy(shm->buf, o.data(), o.size()); shm->n = o.size(); shm->done = 1;
		_exit(0);
	}
	int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR){}
	if (shm->done){
		const char* p = shm->buf;
		r.v.bad = getn(p); r.v.invalid = getn(p); r.v.cls = gets_(p); r.v.msg = gets_(p); r.v.hash = getn(p);
		r.ehash = getn(p); r.frames = getn(p); r.switches = getn(p);
		u64 n = getn(p); while (n--){ string k = gets_(p); r.probes[k] = getn(p); }
		n = getn(p); while (n--) r.recorded.push_back((i64)getn(p));
	} else {
		char buf[600] = {0}; lseek(errfd, 0, SEEK_SET); ssize_t k = read(errfd, buf, sizeof buf - 1); if (k < 0) k = 0;
		r.stderrtext = string(buf, k);
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM){ r.internal_error = true; r.stderrtext = "run exceeded 120 s of real time"; return r; }
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL){ r.internal_error = true; r.stderrtext = "run was killed"; return r; }
		if (WIFEXITED(st) && WEXITSTATUS(st) == 9){ r.internal_error = true; r.stderrtext = "result too large"; return r; }
		r.v.bad = true;
		int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
		string what = r.stderrtext; size_t a = what.find("Assertion"); if (a != string::npos) what = what.substr(a); else what = "";
		for (auto& ch : what) if (ch == '\n') ch = ' ';
		if (sig) { r.v.cls = fmt("crash-signal-%d", sig); string at = crash_site(); if (!at.empty()) r.v.cls += "@" + at; r.v.msg = fmt("the emulator process died with signal %d (%s) %s%s %s", sig, strsignal(sig), at.empty() ? "" : "in ", at.c_str(), what.c_str()); }
		else { r.v.cls = "process-exit"; r.v.msg = fmt("the emulator process exited by itself (status %d)", WEXITSTATUS(st)); }
		r.v.hash = h2(sig + 77, hstr(1, r.v.cls));
	}
	return r;
}

// multi-boot helper: runs inside the child of run_case
static bool wr_all(int fd, const string& o){ size_t at = 0; while (at < o.size()){ ssize_t k = write(fd, o.data() + at, o.size() - at); if (k <= 0) return false; at += k; } return true; }
static string rd_all(int fd){ string o; char buf[65536]; ssize_t k; while ((k = read(fd, buf, sizeof buf)) > 0) o.append(buf, k); return o; }
LateBoot::LateBoot(std::function<string(Disk&, const string&)> boot){
	int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
	pid = fork();
	if (pid == 0){
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		close(a[1]); close(b[0]); alarm(100);
		string in = rd_all(a[0]); if (in.empty()) _exit(0);
		const char* p = in.data(); string arg = gets_(p); Disk dd; u64 n = getn(p); while (n--){ string f = gets_(p); dd.files[f] = gets_(p); }
		g_probe.clear(); g_ehash = 1; g_rec.clear(); g_frames = g_switches = 0;
		string blob = boot(dd, arg);
		string o; put(o, blob); put(o, (u64)dd.files.size()); for (auto& f : dd.files){ put(o, f.first); put(o, f.second); }
		put(o, g_ehash); put(o, (u64)g_frames); put(o, (u64)g_switches);
		put(o, (u64)g_probe.size()); for (auto& k : g_probe){ put(o, k.first); put(o, (u64)k.second); }
		put(o, (u64)g_rec.size()); for (i64 x : g_rec) put(o, (u64)x);
		_exit(wr_all(b[1], o) ? 0 : 8);
	}
	close(a[0]); close(b[1]); to = a[1]; from = b[0];
}
BootResult LateBoot::go(const Disk& d, const string& arg){
	BootResult b; string in; put(in, arg); put(in, (u64)d.files.size()); for (auto& f : d.files){ put(in, f.first); put(in, f.second); }
	wr_all(to, in); close(to); string o = rd_all(from); close(from);
	int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR){}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && o.size()){
		const char* p = o.data(); b.ok = true; b.blob = gets_(p);
		u64 n = getn(p); while (n--){ string f = gets_(p); b.disk.files[f] = gets_(p); }
		b.hash = getn(p); g_ehash = h2(g_ehash, b.hash); g_frames += getn(p); g_switches += getn(p);
		n = getn(p); while (n--){ string q = gets_(p); g_probe[q] += getn(p); }
		n = getn(p); if (n) g_rec.clear(); while (n--) g_rec.push_back((i64)getn(p));
	} else { b.crashed = true; b.sig = WIFSIGNALED(st) ? WTERMSIG(st) : -1; if (b.sig == SIGALRM) raise(SIGALRM); }
	return b;
}
BootResult run_boot(const Disk& d, std::function<string(Disk&)> boot){ LateBoot l([&](Disk& x, const string&){ return boot(x); }); return l.go(d, ""); }

// real file helpers (the program's fopen is wrapped; use raw descriptors here)
static string slurp(const string& p){ int fd = open(p.c_str(), O_RDONLY); string s; if (fd < 0) return s; char b[65536]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) s.append(b, k); close(fd); return s; }
static bool spew(const string& p, const string& s){ int fd = open(p.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); if (fd < 0) return false; size_t at = 0; while (at < s.size()){ ssize_t k = write(fd, s.data() + at, s.size() - at); if (k <= 0){ close(fd); return false; } at += k; } close(fd); return true; }
static void say(const string& s){ string t = s + "\n"; if (write(1, t.data(), t.size())){} }

// ---------------------------------------------------------------- minimisation
static bool same(const Case& c, const string& cls, RunOut* out=nullptr){ RunOut r = run_case(c, out != nullptr); if (out) *out = r; return !r.internal_error && r.v.bad && !r.v.invalid && r.v.cls == cls; }
static Case minimise(Case c, const string& cls, double secs, int& runs){
	double t0 = wall(); runs = 0;
	auto left = [&]{ return wall() - t0 < secs; };
	// 1. simplest scheduler that still fails
	if (!c.explicit_sched){
		for (int step = 0; step < 4 && left(); ++step){
			Case d = c; if (step == 0) d.p["mode"] = SM_NOMINAL; if (step == 1) d.p["w_preempt"] = 0; if (step == 2) d.p["jitter"] = 0; if (step == 3) d.p["stall"] = 0;
			if (d.p == c.p) continue;
			++runs; if (same(d, cls)) c = d;
		}
	}
	// 2. drop workload / fault / input items
	auto drop_items = [&]{
		size_t chunk = std::max<size_t>(1, c.items.size() / 2);
		while (left()){
			bool any = false;
			for (size_t i = 0; i < c.items.size() && left();){
				Case d = c; size_t removed = 0;
				for (size_t k = 0; k < chunk && i < d.items.size();){ if (d.items[i + 0].fixed){ break; } d.items.erase(d.items.begin() + i); ++removed; ++k; }
				if (!removed){ ++i; continue; }
				++runs; if (same(d, cls)){ c = d; any = true; } else i += std::max<size_t>(1, removed);
			}
			if (chunk == 1 && !any) break;
			if (chunk > 1) chunk /= 2; 
		}
	};
	drop_items();
	// shorten the texts the items carry
	for (size_t i = 0; i < c.items.size() && left(); ++i) if (c.items[i].s.size() > 1 && (c.items[i].kind == "line" || c.items[i].kind == "cmd"))
		for (size_t chunk = c.items[i].s.size() / 2; chunk >= 1 && left(); chunk /= 2)
			for (size_t at = 0; at + chunk <= c.items[i].s.size() && left();){ Case d = c; d.items[i].s.erase(at, chunk); ++runs; if (same(d, cls)) c = d; else at += chunk; }
	drop_items();
	// 3. explicit schedule, then defaults wherever possible
	if (c.get("mode") != SM_NOMINAL && !c.explicit_sched && left()){
		RunOut r; ++runs;
		if (same(c, cls, &r) && r.recorded.size() && r.recorded.size() < 200000){
			Case d = c; d.explicit_sched = true; d.slices = r.recorded; ++runs;
			if (same(d, cls)){
				c = d;
				size_t n = c.slices.size(), chunk = std::max<size_t>(1, n / 2);
				// cut the tail first
				for (size_t cut = n; cut > 0 && left(); cut /= 2){ Case e = c; if (e.slices.size() <= cut) continue; e.slices.resize(e.slices.size() - cut); ++runs; if (same(e, cls)) c = e; }
				n = c.slices.size(); chunk = std::max<size_t>(1, n / 4);
				while (left()){
					for (size_t i = 0; i < c.slices.size() && left(); i += chunk){
						Case e = c; bool ch = false; for (size_t k = i; k < std::min(i + chunk, e.slices.size()); ++k) if (e.slices[k] != -2){ e.slices[k] = -2; ch = true; }
						if (!ch) continue;
						++runs; if (same(e, cls)) c = e;
					}
					if (chunk == 1) break;
					chunk = std::max<size_t>(1, chunk / 4);
					if (chunk < 4 && c.slices.size() > 4000) break;
				}
				while (!c.slices.empty() && c.slices.back() == -2) c.slices.pop_back();
				if (!same(c, cls)) c = d;
			}
		}
	}
	return c;
}

// ---------------------------------------------------------------- search
struct Stat { i64 runs=0, frames=0, switches=0, invalid=0; map<string,i64> probes, runs_with; set<u64> hashes; };
static string js(const string& s){ string o = "\""; for (unsigned char c : s){ if (c == '"' || c == '\\'){ o += '\\'; o += c; } else if (c < 32 || c > 126){ char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

struct WorkerMsg { int kind; };
struct Ctl { volatile int stop; volatile u64 minbad; volatile i64 done; };

string self_path;
static u64 prop_salt(const string& prop){ return hstr(0x5bc, prop); }

int main_run(map<string,string>& o){
	string prop = o["prop"], tier = o.count("tier") ? o["tier"] : "quick";
	Scenario* sc = find_scenario(prop);
	if (!sc){ say("no such property: " + prop); return 2; }
	u64 seed0 = strtoull(o["seed"].c_str(), nullptr, 10);
	i64 N = strtoll(o["n"].c_str(), nullptr, 10);
	int jobs = o.count("jobs") ? atoi(o["jobs"].c_str()) : 8;
	double cap = o.count("cap") ? atof(o["cap"].c_str()) : 240;
	string evid = o["evidence"], outdir = o["out"], known = o["known"], title = o["level"];
	bool thorough = tier == "thorough", keep = o.count("all");
	double t0 = wall();
	g_cov = (uint8_t*)mmap(nullptr, COV_BITS, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	Ctl* ctl = (Ctl*)mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	ctl->stop = 0; ctl->minbad = ~0ull;
	auto seed_of = [&](i64 i){ return mix64(h2(seed0, prop_salt(prop)) + (u64)i * 0x9E3779B97F4A7C15ull); };
	// known findings: "finding: property=<id> class=<cls> ..." lines
	map<string,string> kn;
	{ string t = slurp(known); size_t i = 0; while (i < t.size()){ size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); string l = t.substr(i, j - i); i = j + 1;
		string pre = "finding: property=" + prop + " class="; if (l.compare(0, pre.size(), pre) == 0){ string r = l.substr(pre.size()); size_t sp = r.find(' '); kn[r.substr(0, sp)] = sp == string::npos ? "" : r.substr(sp + 1); } } }
	vector<pid_t> pids; vector<int> fds;
	for (int w = 0; w < jobs; ++w){
		int fd[2]; if (pipe(fd)) return 2;
		pid_t pid = fork();
		if (pid == 0){
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			close(fd[0]); shm = nullptr; errfd = -1;
			Stat st; string out; i64 nbad = 0, det_checked = 0, det_bad = 0; string ierr;
			map<string,int> seen;
			for (i64 i = w; i < N; i += jobs){
				if (!keep && ctl->stop) break;
				if (wall() - t0 > cap) break;
				u64 s = seed_of(i);
				Case c = sc->gen(s, thorough); c.prop = prop; c.seed = s;
				RunOut r = run_case(c, false);
				if (r.internal_error){ ierr = r.stderrtext + fmt(" seed-index %lld", (long long)i); break; }
				if (det_checked < 2){ RunOut r2 = run_case(c, false); ++det_checked; if (r2.v.hash != r.v.hash || r2.v.cls != r.v.cls) ++det_bad; }
				++st.runs; st.frames += r.frames; st.switches += r.switches; if (r.v.invalid) ++st.invalid;
				for (auto& k : r.probes){ st.probes[k.first] += k.second; st.runs_with[k.first]++; }
				if (!r.v.invalid && (r.probes.count("nontrivial"))) st.hashes.insert(r.ehash);
				if (r.v.bad && !r.v.invalid){
					bool isk = kn.count(r.v.cls) != 0;
					if (seen[r.v.cls]++ < (keep ? 1 : 2)){ put(out, (u64)1); put(out, (u64)i); put(out, r.v.cls); put(out, r.v.msg); put(out, c.text()); }
					++nbad;
					if (!isk) ctl->stop = 1;
				}
			}
			put(out, (u64)2); put(out, (u64)st.runs); put(out, (u64)st.frames); put(out, (u64)st.switches); put(out, (u64)st.invalid); put(out, (u64)nbad); put(out, (u64)det_checked); put(out, (u64)det_bad); put(out, ierr);
			put(out, (u64)st.probes.size()); for (auto& k : st.probes){ put(out, k.first); put(out, (u64)k.second); put(out, (u64)st.runs_with[k.first]); }
			put(out, (u64)st.hashes.size()); for (u64 h : st.hashes) put(out, h);
			size_t at = 0; while (at < out.size()){ ssize_t k = write(fd[1], out.data() + at, out.size() - at); if (k <= 0) _exit(1); at += k; }
			_exit(0);
		}
		close(fd[1]); pids.push_back(pid); fds.push_back(fd[0]);
	}
	Stat tot; i64 nbad = 0, det = 0, detbad = 0; string ierr;
	struct Bad { i64 idx; string cls, msg, text; }; vector<Bad> bads;
	for (int w = 0; w < jobs; ++w){
		string t; char b[65536]; ssize_t k; while ((k = read(fds[w], b, sizeof b)) > 0) t.append(b, k);
		close(fds[w]); int st; waitpid(pids[w], &st, 0);
		if (t.empty()){ ierr = "a worker died"; continue; }
		const char* p = t.data();
		while (p < t.data() + t.size()){
			u64 kind = getn(p);
			if (kind == 1){ Bad x; x.idx = getn(p); x.cls = gets_(p); x.msg = gets_(p); x.text = gets_(p); bads.push_back(x); }
			else { tot.runs += getn(p); tot.frames += getn(p); tot.switches += getn(p); tot.invalid += getn(p); nbad += getn(p); det += getn(p); detbad += getn(p); string e = gets_(p); if (!e.empty()) ierr = e;
				u64 n = getn(p); while (n--){ string q = gets_(p); tot.probes[q] += getn(p); tot.runs_with[q] += getn(p); }
				n = getn(p); while (n--) tot.hashes.insert(getn(p)); }
		}
	}
	if (!ierr.empty()){ say("internal error: " + ierr); return 2; }
	double t1 = wall();
	std::sort(bads.begin(), bads.end(), [](const Bad& a, const Bad& b){ return a.idx < b.idx; });
	int violations = 0; set<string> donecls; vector<string> samples; int rc = 0;
	for (auto& x : bads){
		if (donecls.count(x.cls)) continue;
		donecls.insert(x.cls);
		if (kn.count(x.cls)){ say("KNOWN-FINDING: property=" + prop + " " + x.cls + " " + kn[x.cls]); continue; }
		Case c; c.parse(x.text);
		// confirm in two further runs
		RunOut a = run_case(c, false), b = run_case(c, false);
		if (!(a.v.bad && b.v.bad && a.v.hash == b.v.hash && a.v.cls == x.cls)){ say("internal error: a reported violation did not repeat: " + x.cls + " " + x.msg); rc = 2; continue; }
		int mruns = 0; Case m = keep ? c : minimise(c, x.cls, thorough ? 90 : 45, mruns);
		RunOut f = run_case(m, false);
		if (!f.v.bad || f.v.cls != x.cls){ m = c; f = a; }
		string path = outdir + "/" + prop + "-" + fmt("%llu", (unsigned long long)(x.idx)) + "-" + fmt("%04x", (unsigned)(hstr(9, x.cls) & 0xffff)) + ".replay";
		string body = m.text() + "expect " + x.cls + "\nhash " + std::to_string(f.v.hash) + "\n# " + f.v.msg + "\n" + fmt("# seed-index %lld, %zu items, %zu schedule entries, %d minimisation runs\n", (long long)x.idx, m.items.size(), m.slices.size(), mruns);
		if (!spew(path, body)){ say("internal error: cannot write " + path); return 2; }
		// fresh process must reproduce it from the file alone
		string cmd = self_path + " replay " + path + " >/dev/null 2>&1";
		int st = system(cmd.c_str());
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)){ say("internal error: replay file does not reproduce the violation: " + path); rc = 2; continue; }
		say(fmt("violation class %s: %s", x.cls.c_str(), f.v.msg.c_str()));
		say("VIOLATION property=" + prop + " replay=" + path);
		++violations; samples.push_back(x.cls + ": " + f.v.msg);
		if (rc == 0) rc = 1;
	}
	if (violations) rc = 1;
	if (detbad){ say(fmt("internal error: %lld of %lld double-run seeds were not repeatable", (long long)detbad, (long long)det)); if (!rc) rc = 2; }
	int edges = 0; for (int i = 0; i < COV_BITS; ++i) edges += g_cov[i];
	// evidence
	if (!evid.empty()){
		double secs = std::max(0.001, t1 - t0);
		string e = "{\n \"property\": " + js(prop) + ",\n \"tier\": " + js(tier) + ",\n \"seed\": " + std::to_string((long long)(seed0 & 0x7fffffff)) + ",\n \"level\": " + js(o["level"].empty() ? "exploration" : o["level"]) + ",\n \"coverage\": {\n";
		e += fmt("  \"evaluations\": %lld,\n  \"distinct_nontrivial\": %zu,\n", (long long)tot.runs, tot.hashes.size());
		e += "  \"rule\": " + js(o["rule"].empty() ? "a run counts when it exercised the property's trigger (scenario's 'nontrivial' probe); runs are distinct when the hash over every scheduling decision, slice length, disk operation, clock reading and frame differs" : o["rule"]) + ",\n";
		e += "  \"samples\": ["; 
		{ int k = 0; for (i64 i = 0; i < 3 && i < N; ++i){ Case c = sc->gen(seed_of(i), thorough); c.prop = prop; c.seed = seed_of(i); string t = c.text(); if (t.size() > 700) t = t.substr(0, 700) + "..."; e += (k++ ? ", " : "") + js(t); } for (auto& s : samples) e += (k++ ? ", " : "") + js(s); }
		e += "],\n";
		e += fmt("  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"simulated_seconds\": %.1f,\n  \"scheduling_decisions\": %lld,\n  \"code_blocks_reached\": %d,\n  \"invalid_runs\": %lld,\n  \"determinism_double_runs\": %lld,\n", tot.runs / secs * 3600, tot.runs / secs * 3600, tot.frames / 60.0, (long long)tot.switches, edges, (long long)tot.invalid, (long long)det);
		e += "  \"faults_injected\": {"; { int k = 0; for (auto& q : tot.probes) if (q.first.compare(0, 6, "fault:") == 0) e += string(k++ ? ", " : "") + js(q.first.substr(6)) + ": " + std::to_string((long long)q.second); } e += "},\n";
		e += "  \"probes\": {"; { int k = 0; for (auto& q : tot.probes) if (q.first.compare(0, 6, "fault:") != 0) e += string(k++ ? ", " : "") + js(q.first) + ": " + std::to_string((long long)q.second); } e += "},\n";
		e += "  \"runs_reaching_probe\": {"; { int k = 0; for (auto& q : tot.runs_with) if (q.first.compare(0, 6, "fault:") != 0) e += string(k++ ? ", " : "") + js(q.first) + ": " + std::to_string((long long)q.second); } e += "},\n";
		e += "  \"real_components\": \"every .c file under /repo/source: main loop, launcher, tokenizer, interpreter, console, input, panel, sprites, background, graphics, resources/file code, PC renderer; glibc stdio buffering\",\n";
		e += "  \"stub_components\": \"CSFML (window, events, keyboard, mouse, textures, draw calls), C11 threads and mutexes (coroutines), clock and sleep, system calls below stdio and directory reading (in-memory disk)\"\n },\n";
		e += " \"assumptions\": [\"preemption granularity is one compiler basic block of the single-core interleaving; no weak-memory reordering is simulated\", \"the stand-ins for CSFML, threads, clock and disk behave as documented\", \"seeded search: absence of a violation holds for the explored runs only\"],\n";
		e += fmt(" \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall() - t0, violations);
		if (!spew(evid, e)){ say("internal error: cannot write evidence " + evid); return 2; }
	}
	say(fmt("%s %s: %lld runs (%lld invalid), %zu distinct, %lld bad, %d blocks, %.1fs", prop.c_str(), tier.c_str(), (long long)tot.runs, (long long)tot.invalid, tot.hashes.size(), (long long)nbad, edges, wall() - t0));
	if (o.count("probes")) for (auto& q : tot.probes) say(fmt("  %-40s %lld (%lld runs)", q.first.c_str(), (long long)q.second, (long long)tot.runs_with[q.first]));
	return rc;
}

int main_replay(const string& path, bool verbose){
	string t = slurp(path); Case c; if (!c.parse(t)){ say("cannot read " + path); return 2; }
	string expect; u64 hash = 0;
	{ size_t i = t.find("\nexpect "); if (i != string::npos){ size_t j = t.find('\n', i + 1); expect = t.substr(i + 8, j - i - 8); } i = t.find("\nhash "); if (i != string::npos) hash = strtoull(t.c_str() + i + 6, nullptr, 10); }
	g_cov = (uint8_t*)mmap(nullptr, COV_BITS, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	RunOut a = run_case(c, false), b = run_case(c, false);
	if (verbose) say(fmt("run: bad=%d class=%s msg=%s hash=%llu", a.v.bad, a.v.cls.c_str(), a.v.msg.c_str(), (unsigned long long)a.v.hash));
	if (a.internal_error) { say("internal error " + a.stderrtext); return 2; }
	if (a.v.hash != b.v.hash){ say("not repeatable"); return 2; }
	if (a.v.bad && (expect.empty() || a.v.cls == expect)){
		say("violation class " + a.v.cls + ": " + a.v.msg);
		if (hash && hash != a.v.hash) say("note: history differs from the recorded one (the code has changed since)");
		say("VIOLATION property=" + c.prop + " replay=" + path); return 1; }
	say("no violation"); return 0;
}
int main_minimise(const string& path, double secs){
	Case c; string t = slurp(path); if (!c.parse(t)){ say("cannot read " + path); return 2; }
	g_cov = (uint8_t*)mmap(nullptr, COV_BITS, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	RunOut a = run_case(c, false); if (a.internal_error || !a.v.bad){ say("no violation"); return 2; }
	int runs = 0; c = minimise(c, a.v.cls, secs, runs); a = run_case(c, false);
	spew(path, c.text() + "expect " + a.v.cls + "\nhash " + std::to_string(a.v.hash) + "\n# " + a.v.msg + "\n"); say(fmt("%d runs: ", runs) + a.v.cls); return 0;
}
// prints per-seed hashes, for determinism self-tests across processes
int main_hashes(map<string,string>& o){
	string prop = o["prop"]; i64 N = atoll(o["n"].c_str()); u64 seed0 = strtoull(o["seed"].c_str(), nullptr, 10);
	Scenario* sc = find_scenario(prop); if (!sc) return 2;
	g_cov = (uint8_t*)mmap(nullptr, COV_BITS, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	for (i64 i = 0; i < N; ++i){ u64 s = mix64(h2(seed0, prop_salt(prop)) + (u64)i * 0x9E3779B97F4A7C15ull); Case c = sc->gen(s, false); c.prop = prop; c.seed = s; RunOut r = run_case(c, false); say(fmt("%lld %016llx %s", (long long)i, (unsigned long long)r.v.hash, r.v.cls.c_str())); }
	return 0;
}
extern uintptr_t g_run_lo, g_run_hi;
#include <sys/personality.h>
int main(int argc, char** argv){
	// same addresses in every process, so that a run that reads stray memory still repeats
	{ int cur = personality(0xffffffff); if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && !getenv("SBCSIM_ASLR")){ setenv("SBCSIM_ASLR", "1", 1); if (personality(cur | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); } }
	{ char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); if (k > 0) self_path = string(b, k); else self_path = argv[0]; }
	{ string t = slurp(self_path + ".run"); unsigned long lo = 0, hi = 0; if (sscanf(t.c_str(), "%lx %lx", &lo, &hi) == 2){ g_run_lo = lo; g_run_hi = hi; } }
	{ void* a[4]; backtrace(a, 4); }
	string cmd = argc > 1 ? argv[1] : "";
	map<string,string> o; for (int i = 2; i + 1 < argc; i += 2) if (!strncmp(argv[i], "--", 2)) o[argv[i] + 2] = argv[i + 1];
	signal(SIGPIPE, SIG_IGN);
	if (cmd == "run") return main_run(o);
	if (cmd == "replay" && argc > 2) return main_replay(argv[2], argc > 3);
	if (cmd == "minimise" && argc > 2) return main_minimise(argv[2], argc > 3 ? atof(argv[3]) : 60);
	if (cmd == "hashes") return main_hashes(o);
	if (cmd == "show"){ Scenario* sc = find_scenario(o["prop"]); u64 s = mix64(h2(strtoull(o["seed"].c_str(), nullptr, 10), prop_salt(o["prop"])) + strtoull(o["i"].c_str(), nullptr, 10) * 0x9E3779B97F4A7C15ull); Case c = sc->gen(s, false); c.prop = o["prop"]; c.seed = s; say(c.text()); return 0; }
	if (cmd == "list"){ for (auto& k : reg()) say(k.first); return 0; }
	say("usage: sbcsim run|replay|hashes|show|list ..."); return 2;
}
