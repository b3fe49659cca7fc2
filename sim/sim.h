// Deterministic simulator for Minxrod/sbc: core interfaces.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>

typedef int64_t i64; typedef uint64_t u64; typedef uint32_t u32;
using std::string; using std::vector; using std::map; using std::set;

// ---------------------------------------------------------------- randomness
static inline u64 mix64(u64 z){ z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline u64 h2(u64 a, u64 b){ return mix64(mix64(a) ^ (b * 0xD6E8FEB86659FD93ull + 0x1234567)); }
static inline u64 hstr(u64 a, const string& s){ for (unsigned char c : s) a = mix64(a ^ c) ; return a; }
struct Rng {
	u64 s; explicit Rng(u64 seed=1) : s(mix64(seed ^ 0x5bd1e995)) {}
	u64 next(){ s += 0x9E3779B97F4A7C15ull; return mix64(s); }
	u64 below(u64 n){ return n ? next() % n : 0; }
	i64 range(i64 a, i64 b){ return a + (i64)below((u64)(b - a + 1)); }
	bool chance(int num, int den){ return (i64)below(den) < num; }
	double unit(){ return (next() >> 11) * (1.0/9007199254740992.0); }
	// log-uniform integer in [a,b], a>=1
	i64 logu(i64 a, i64 b);
	template<class T> const T& pick(const vector<T>& v){ return v[below(v.size())]; }
};

// ---------------------------------------------------------------- a test case
// A case is plain data: every choice of a run (workload, input events, faults,
// schedule) is either an item, or derived from `seed` by a counter hash.
struct Item { string kind; vector<i64> a; string s; bool fixed=false; };
struct Case {
	string prop; u64 seed=0;
	map<string,i64> p;            // numeric parameters
	vector<Item> items;           // droppable steps
	vector<i64> slices; bool explicit_sched=false; // explicit schedule (replay of minimised cases)
	i64 get(const string& k, i64 d=0) const { auto it=p.find(k); return it==p.end()?d:it->second; }
	string text() const; bool parse(const string& text);
};
struct Verdict { bool bad=false; string cls, msg; u64 hash=0; bool invalid=false; };

// ---------------------------------------------------------------- simulated disk
struct Disk {
	map<string,string> files;
	vector<string> listing_order; // unused names allowed in listings
	string& operator[](const string& k){ return files[k]; }
	bool has(const string& k) const { return files.count(k) != 0; }
};
enum DiskOp { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_RENAME, OP_REMOVE, OP_OPENDIR, OP_READDIR, OP_KINDS };
extern const char* diskop_name[OP_KINDS];
struct Fault { int op; i64 nth; int kind; i64 arg; bool fired=false; string path; i64 seen=0; };
enum FaultKind { FK_ERR=0, FK_SHORT=1, FK_EOF=2, FK_CRASH=3, FK_NOSPACE=4, FK_KINDS };
extern const char* faultkind_name[FK_KINDS];

// ---------------------------------------------------------------- sched config
enum SchedMode { SM_NOMINAL=0, SM_RANDOM=1, SM_SITE=2, SM_BURST=3, SM_SAFE=4 };

struct InFrame { // what the outside world does during one frame
	vector<u32> text;        // text-entered events
	u32 buttons=0;           // bitmask of PTC buttons held
	bool modekey=false;
	bool mouse=true; bool touch=false; int tx=0, ty=0; // touch panel coordinates; mouse=false: pointer outside
	bool close=false;
};
struct FileEvent { int op; string path; i64 frame; i64 n; bool ok; u64 seq; };

struct World {
	// --- configuration (fill before sim_run)
	const Case* c=nullptr;
	Disk* disk=nullptr;
	vector<string> argv;
	std::function<void(i64 frame, InFrame&)> input;      // called at the start of frame `frame` (0-based)
	std::function<bool(i64 frame)> on_frame;             // called when frame's work is finished; return false to stop the run
	std::function<void()> on_switch;                     // called on every scheduling decision
	i64 max_frames=2000; i64 max_bbs=400000000;
	int render=0;            // 0: never call the real renderer, n: every n-th frame
	i64 clock0=1700000000;   // unix time at boot
	std::function<i64(i64 reads, i64 nominal)> clock;    // optional clock model (time_t values)
	vector<Fault> faults;
	i64 nominal=3000;        // program basic blocks per frame
	int mode=SM_NOMINAL; int p_preempt=0, w_preempt=0; i64 w_slice=200; int sleep_jitter=0; int stall=0;
	i64 sched_from_frame=0;  // before this frame the nominal schedule is used
	bool aux=false;          // auxiliary boot: its schedule is not the recorded one
	int var_limit=0, str_limit=0, arr_limit=0; // 0: as shipped
	// --- results
	void* ptc=nullptr;
	i64 frame=0; bool main_returned=false; bool prg_done=false; i64 prg_done_frame=-1; i64 close_frame=-1;
	string stop_reason; bool deadlock=false; bool crashed_by_fault=false;
	u64 ehash=0; i64 bbs_total=0, bbs_prg=0; i64 switches=0, preempt_p=0, preempt_w=0; i64 now=0;
	vector<FileEvent> fev;
	i64 ops[OP_KINDS]={0}; i64 fired[OP_KINDS][FK_KINDS]={{0}};
	i64 time_reads=0; vector<i64> time_values; i64 sleeps=0;
	vector<i64> recorded;    // schedule as executed
	map<string,i64> counters;
	int pictures=0, want_picture=0; vector<u32> picture; // 256x384, only when pictures is set and want_picture was set for the frame
	u64 screen_hash=0;       // hash of everything drawn in the last rendered frame
};
extern World* W;
void sim_run(World& w);            // runs main() of the program under test until stop
extern uint8_t* g_cov; enum { COV_BITS = 1<<16 };

// ---------------------------------------------------------------- probes (probe.c)
extern "C" {
	int probe_num(void* ptc, const char* name, int* out);              // variable -> raw fixed point
	int probe_arr(void* ptc, const char* name, int idx, int* out);
	int probe_arr2(void* ptc, const char* name, int i, int j, int* out);
	int probe_sarr(void* ptc, const char* name, int i, unsigned char* out); // as probe_str
	int probe_str(void* ptc, const char* name, unsigned char* out);    // returns length or -1, out: chars (<=256)
	int probe_col(void*, int, int); int probe_con(void* ptc, int x, int y);                            // console char (8 bit)
	int probe_err(void* ptc);
	int probe_err_break(void); int probe_err_shutdown(void); int probe_err_none(void); int probe_err_oom(void);
	int probe_err_load(void);
	const char* probe_errname(int e);
	void* probe_sbc_mem(void); 
	void probe_time_forward(void* ptc, long long n);
	void probe_set_test_limits(int v, int s, int a);
	int probe_waiting_input(void* ptc);
	int probe_memsafe(void* ptc);
	int probe_prgsize(void* ptc); const char* probe_prgdata(void* ptc);
	int probe_cy(void* ptc); int probe_cx(void* ptc); long long probe_time(void* ptc);
	void probe_sprite(void* ptc, int page, int id, int* out);
	void probe_shown(void* ptc, struct Shown* o);
	void probe_bg(void* ptc, int page, int layer, int* out);
}
string con_line(int y);
string con_all();

// ---------------------------------------------------------------- scenario API
struct Probes { map<string,i64> n; };
struct Scenario {
	string id;
	virtual ~Scenario(){}
	virtual Case gen(u64 seed, bool thorough)=0;     // pure
	virtual Verdict exec(const Case& c)=0;           // pure function of the case (runs in a forked child)
};
Scenario* find_scenario(const string& id);
void register_scenario(Scenario* s);
struct Reg { Reg(Scenario* s){ register_scenario(s); } };

// helpers shared by scenarios
extern map<string,i64> g_probe;  // per-run probes, shipped to the parent
inline void hit(const string& k, i64 n=1){ g_probe[k]+=n; }
string prg_file(const string& src, const string& name="");           // SBC/PTC "PETC" program file image
string px_file(const string& type12, const string& body, const string& name);
string src_lines(const vector<string>& lines);
extern string extra_editor;
void base_disk(Disk& d);
void apply_sched(World& w, const Case& c);
void gen_sched(Case& c, Rng& r, int allow_mask=0x1f);
string fmt(const char* f, ...) __attribute__((format(printf,1,2)));
Verdict bad(const string& cls, const string& msg);
// multi-boot runs: run `boot` in a forked child, shipping the disk and a blob back
struct BootResult { bool ok=false; bool crashed=false; int sig=0; string blob; Disk disk; u64 hash=0; };
// a process forked now (before the first boot has touched any state) that boots later with the given disk
struct LateBoot { int to=-1, from=-1; int pid=0; LateBoot(std::function<string(Disk&, const string&)> boot); BootResult go(const Disk& d, const string& arg); };
BootResult run_boot(const Disk& d, std::function<string(Disk&)> boot);

void account(World& w);   // call once after every sim_run
string le32(u32 v);
// types a line at a prompt (DIRECT mode or INPUT/LINPUT) and presses A until done() holds
string blocks_verdict();
struct Typist {
	struct Cmd { string text; std::function<bool()> done; i64 timeout; };
	vector<Cmd> q; size_t at=0; int phase=0; i64 t=0; size_t typed=0; int per_frame=2; bool failed=false; string fail_at; i64 bb0=0;
	void add(const string& text, std::function<bool()> done, i64 timeout=4000){ q.push_back({text, done, timeout}); }
	bool idle() const { return at >= q.size() || failed; }
	void frame(InFrame& in);
};
bool var_is(const char* name, i64 v);   // numeric variable equals integer
i64 var_int(const char* name, i64 d=-999999999);
