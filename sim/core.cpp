// Simulator kernel: coroutines for the program's threads, the scheduler, the
// simulated clock, mutexes, joins, and the window-library stand-in's blocking points.
#include "sim.h"
#include <sys/mman.h>
#include <time.h>
#include <threads.h>
#include <cstdarg>
#include <cmath>
#include <errno.h>

World* W = nullptr;
uint8_t* g_cov = nullptr;
map<string,i64> g_probe;

i64 Rng::logu(i64 a, i64 b){
	double la = log((double)a), lb = log((double)b + 1);
	i64 v = (i64)exp(la + unit() * (lb - la));
	return v < a ? a : v > b ? b : v;
}
string fmt(const char* f, ...){ char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
Verdict bad(const string& cls, const string& msg){ Verdict v; v.bad = true; v.cls = cls; v.msg = msg; return v; }

enum TState { T_NONE, T_READY, T_SLEEP, T_TICK, T_MTX, T_JOIN, T_DONE };
// minimal context switch (callee-saved registers only; no system calls)
extern "C" void sim_switch(void** from_sp, void* to_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");
struct Thr {
	void* sp=nullptr; char* stack=nullptr; size_t ssz=0;
	TState st=T_NONE; i64 wake=0; void* mtx=nullptr; int join=-1;
	std::function<void()> fn; int ret=0; bool preempted=false;
};
static const int MAXT = 6;
static Thr T[MAXT]; static int nthr=0; static int cur=-1;
static void* ksp;
static const i64 TICK = 16666667;
static i64 next_tick; static bool stop;
static i64 budget, slice_bbs; static bool site_on; static bool forced;
static map<void*,int> mtx_owner;

// ---- decisions: counter-based hashes, so that each kind of decision is an
// independent stream and removing one step does not reshuffle the others
enum { D_SLICE=1, D_WSLICE, D_SLEEP, D_SITE, D_STALL, D_LATE };
static u64 dcount[16];
static u64 dec(int kind){ return h2(h2(W->c ? W->c->seed : 1, 0x5ced + kind), dcount[kind]++); }

static void ev(u64 x){ W->ehash = mix64(W->ehash ^ x); }

static void to_kernel(){ int me = cur; cur = -1; sim_switch(&T[me].sp, ksp); }

// site-biased preemption state
static uint8_t sitecnt[1<<16]; static u64 siternd;
extern "C" char __executable_start;
static bool safe_only; static uintptr_t safe_lo, safe_hi;
extern "C" { extern void _run(void) __attribute__((weak)); }

static __attribute__((noinline)) void slow_yield(){
	int me = cur; forced = true; T[me].preempted = true;
	to_kernel();
}
// What lies below the stack pointer is arbitrary: the simulator fills it with a byte of its choice now and then,
// so that anything read before it is written has a value that the seed decides.
static u32 garb_byte; static bool garb_on;
static __attribute__((noinline)) void stack_garbage(){
	volatile char b[3072]; void* d = (void*)b; size_t n = sizeof b;
	asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(garb_byte) : "memory");
}
extern "C" __attribute__((no_instrument_function)) void __sanitizer_cov_trace_pc(void){
	if (cur < 0) return;
	uintptr_t pc = (uintptr_t)__builtin_return_address(0);
	u32 h = (u32)((pc * 0x9E3779B1u) >> 8) & (COV_BITS - 1);
	if (!g_cov[h]) g_cov[h] = 1;
	++slice_bbs;
	if (garb_on && slice_bbs % 13 == 0 && cur == 1) stack_garbage();
	if (--budget < 0){
		if (safe_only && cur == 1 && budget > -200000 && safe_lo && !(pc >= safe_lo && pc < safe_hi)) return;
		slow_yield();
		return;
	}
	if (site_on){
		uint8_t k = sitecnt[h];
		if (k < 6){
			sitecnt[h] = k + 1;
			siternd = siternd * 6364136223846793005ull + 1442695040888963407ull;
			if (((siternd >> 40) & 63) == 0) slow_yield();
		}
	}
}

// Parts of the code that share data with the frame loop are compiled with a call for every memory
// write (gcc's instrumentation for the thread sanitizer, whose runtime is not linked): a thread can be
// interrupted between two writes of one basic block, too.
static inline __attribute__((always_inline)) void tick(uintptr_t pc){
	if (cur < 0) return;
	u32 h = (u32)((pc * 0x9E3779B1u) >> 8) & (COV_BITS - 1);
	++slice_bbs;
	if (--budget < 0){ if (safe_only && cur == 1 && budget > -200000 && safe_lo) return; slow_yield(); return; }
	if (site_on){ uint8_t k = sitecnt[h]; if (k < 6){ sitecnt[h] = k + 1; siternd = siternd * 6364136223846793005ull + 1442695040888963407ull; if (((siternd >> 40) & 63) == 0) slow_yield(); } }
}
#define TSW(n) extern "C" void __tsan_write##n(void*){ tick((uintptr_t)__builtin_return_address(0)); } extern "C" void __tsan_read##n(void*){} extern "C" void __tsan_unaligned_write##n(void*){ tick((uintptr_t)__builtin_return_address(0)); } extern "C" void __tsan_unaligned_read##n(void*){}
TSW(1) TSW(2) TSW(4) TSW(8) TSW(16)
#define TSA(n, T) extern "C" T __tsan_atomic##n##_load(const volatile T* p, int){ return *p; } extern "C" void __tsan_atomic##n##_store(volatile T* p, T v, int){ tick((uintptr_t)__builtin_return_address(0)); *p = v; } \
	extern "C" T __tsan_atomic##n##_exchange(volatile T* p, T v, int){ T o = *p; *p = v; return o; } extern "C" T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int){ T o = *p; *p = o + v; return o; } extern "C" T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int){ T o = *p; *p = o - v; return o; } \
	extern "C" T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int){ T o = *p; *p = o & v; return o; } extern "C" T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int){ T o = *p; *p = o | v; return o; } extern "C" T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int){ T o = *p; *p = o ^ v; return o; } extern "C" T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int){ T o = *p; *p = ~(o & v); return o; } \
	extern "C" int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int){ if (*p == *e){ *p = v; return 1; } *e = *p; return 0; } extern "C" int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int){ if (*p == *e){ *p = v; return 1; } *e = *p; return 0; } extern "C" T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int){ T o = *p; if (o == e) *p = v; return o; }
TSA(8, unsigned char) TSA(16, unsigned short) TSA(32, unsigned int) TSA(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int){}
extern "C" void __tsan_atomic_signal_fence(int){}
extern "C" void __tsan_write_range(void*, unsigned long){ tick((uintptr_t)__builtin_return_address(0)); }
extern "C" void __tsan_read_range(void*, unsigned long){}
extern "C" void __tsan_func_entry(void*){}
extern "C" void __tsan_func_exit(){}
extern "C" void __tsan_init(){}
extern "C" void __tsan_volatile_read1(void*){}
extern "C" void __tsan_volatile_read2(void*){}
extern "C" void __tsan_volatile_read4(void*){}
extern "C" void __tsan_volatile_read8(void*){}
extern "C" void __tsan_volatile_write1(void*){ tick((uintptr_t)__builtin_return_address(0)); }
extern "C" void __tsan_volatile_write2(void*){ tick((uintptr_t)__builtin_return_address(0)); }
extern "C" void __tsan_volatile_write4(void*){ tick((uintptr_t)__builtin_return_address(0)); }
extern "C" void __tsan_volatile_write8(void*){ tick((uintptr_t)__builtin_return_address(0)); }

static int starting;
static void thr_main(int idx);
static void thr_entry(){ thr_main(starting); }
static void thr_main(int idx){
	T[idx].fn();
	T[idx].st = T_DONE; ev(0xD0 + idx);
	if (idx == 1){ W->prg_done = true; W->prg_done_frame = W->frame; }
	for (int i = 0; i < nthr; ++i) if (T[i].st == T_JOIN && T[i].join == idx) T[i].st = T_READY;
	to_kernel();
	abort();
}
static int spawn(std::function<void()> fn, size_t ssz){
	if (nthr >= MAXT) return -1;
	int i = nthr++;
	Thr& t = T[i];
	t.ssz = ssz;
	t.stack = (char*)mmap(nullptr, ssz + 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	mprotect(t.stack, 4096, PROT_NONE);
	t.fn = fn; t.st = T_READY;
	void** top = (void**)(t.stack + 4096 + ssz); 
	*--top = nullptr;            // alignment / fake return address
	*--top = (void*)thr_entry;   // ret target
	for (int k = 0; k < 6; ++k) *--top = nullptr;
	t.sp = top;
	return i;
}

static i64 P_INF(){ return W->nominal * 60; }
// how long may thread t run now (basic blocks)
static i64 next_slice(int t, bool& natural){
	World& w = *W; natural = false;
	site_on = false;
	size_t idx = w.recorded.size();
	i64 defP = w.nominal, defW = (i64)1 << 40;
	if (w.c && w.c->explicit_sched){
		if (idx < w.c->slices.size() && w.c->slices[idx] != -2){
			i64 v = w.c->slices[idx];
			if (v == -1){ natural = true; return (i64)1 << 40; }
			return v;
		}
		return t == 0 ? defW : defP;
	}
	if (nthr == 1 || w.mode == SM_NOMINAL || w.frame < w.sched_from_frame) return t == 0 ? defW : defP;
	if (t != 0){
		if (w.stall && dec(D_STALL) % 100 < (u64)w.stall) return 0;
		u64 r = dec(D_SLICE);
		if (w.mode == SM_SITE) site_on = true;
		if ((i64)(r % 100) < w.p_preempt){
			switch ((r >> 8) % 4){
				case 0: return (i64)((r >> 16) % 40);
				case 1: return (i64)((r >> 16) % (u64)(w.nominal + 1));
				case 2: return w.nominal + (i64)((r >> 16) % (u64)(4 * w.nominal + 1));
				default: { double u = ((r >> 16) & 0xffffff) / 16777216.0; return (i64)exp(u * log((double)w.nominal * 2 + 2)); }
			}
		}
		return defP;
	} else {
		if (w.mode == SM_SAFE) return defW;
		u64 r = dec(D_WSLICE);
		if (w.mode == SM_SITE) site_on = w.w_preempt > 0;
		if ((i64)(r % 100) < w.w_preempt) return (i64)((r >> 16) % (u64)(w.w_slice + 1));
		return defW;
	}
}

static bool io_window_input(); // fwd (fakesf.cpp part below)
static void frame_boundary();

void sim_run(World& w){
	W = &w;
	nthr = 0; cur = -1; stop = false; w.now = 0; next_tick = TICK; mtx_owner.clear();
	memset(dcount, 0, sizeof dcount); memset(sitecnt, 0, sizeof sitecnt);
	siternd = h2(w.c ? w.c->seed : 1, 0x517e);
	{ u64 g = h2(w.c ? w.c->seed : 1, 0x6a7b); static const unsigned char val[] = {'&', 0, 0xff, '-', 'A', '\r', '"', 1, 0x7f, 'S', '0', 0x80}; garb_on = g % 4 != 0; garb_byte = val[(g >> 8) % sizeof val]; if (garb_on) hit("stack_garbage"); }
	safe_only = w.mode == SM_SAFE;
	extern uintptr_t g_run_lo, g_run_hi; safe_lo = g_run_lo; safe_hi = g_run_hi;
	extern int sim_main_entry(World&);
	spawn([&w]{ sim_main_entry(w); w.main_returned = true; }, 24u << 20);
	int last = -1;
	while (!stop){
		if (T[0].st == T_DONE){ w.stop_reason = "main-returned"; break; }
		if (w.bbs_total > w.max_bbs){ w.stop_reason = "step-cap"; break; }
		// wake sleepers
		for (int i = 0; i < nthr; ++i) if (T[i].st == T_SLEEP && T[i].wake <= w.now) T[i].st = T_READY;
		if (T[0].st == T_TICK && next_tick <= w.now){ T[0].st = T_READY; }
		// choose
		int pick = -1;
		bool wr = T[0].st == T_READY;
		int pr = -1; for (int i = 1; i < nthr; ++i) if (T[i].st == T_READY){ if (pr < 0 || i != last) pr = i; }
		if (wr && pr >= 0){
			// a preempted thread lets the other one go first; a freshly woken window thread runs
			if (T[0].preempted && last == 0) pick = pr; else pick = 0;
		} else if (wr) pick = 0; else if (pr >= 0) pick = pr;
		if (pick < 0){
			i64 best = -1;
			for (int i = 0; i < nthr; ++i) if (T[i].st == T_SLEEP) best = best < 0 ? T[i].wake : std::min(best, T[i].wake);
			if (T[0].st == T_TICK) best = best < 0 ? next_tick : std::min(best, next_tick);
			if (best < 0){ w.deadlock = true; w.stop_reason = "deadlock"; break; }
			if (best > w.now) w.now = best;
			continue;
		}
		bool natural; i64 sl = next_slice(pick, natural);
		budget = sl; slice_bbs = 0; forced = false; T[pick].preempted = false;
		++w.switches;
		if (sl > 0 || pick == 0){
			cur = pick; last = pick; starting = pick;
			sim_switch(&ksp, T[pick].sp);
			cur = -1;
		} else { forced = true; T[pick].preempted = true; last = pick; }
		w.recorded.push_back(forced ? slice_bbs : -1);
		if (forced && slice_bbs > 0) w.recorded.back() = slice_bbs - 1 < 0 ? 0 : slice_bbs - 1;
		w.bbs_total += slice_bbs; if (pick) w.bbs_prg += slice_bbs;
		ev((u64)pick * 1000003 + slice_bbs * 7 + forced);
		if (pick != 0){
			w.now += slice_bbs * (TICK / std::max<i64>(1, w.nominal));
			if (forced){
				++w.preempt_p;
				// the program's turn ended before it blocked: the next frame is due now
				if (T[0].st == T_TICK && w.now < next_tick) w.now = next_tick;
			}
		} else if (forced) ++w.preempt_w;
		if (w.on_switch) w.on_switch();
	}
	if (w.stop_reason.empty()) w.stop_reason = "scenario";
	ev(hstr(1, w.stop_reason)); ev(w.frame); ev(w.bbs_total);
}
void sim_stop(const char* why){ stop = true; if (W->stop_reason.empty()) W->stop_reason = why; if (cur >= 0) to_kernel(); }
int sim_cur(){ return cur; }

// called by the window stand-in when a frame has been shown: wait for the next tick
void sim_frame_done(){
	World& w = *W;
	int me = cur; cur = -1; // harness code: not instrumented, but be explicit
	bool go = true;
	if (w.on_frame) go = w.on_frame(w.frame);
	w.frame++;
	ev(0xF0000 + w.frame);
	if (!go){ stop = true; if (w.stop_reason.empty()) w.stop_reason = "scenario"; }
	if (w.frame >= w.max_frames){ stop = true; if (w.stop_reason.empty()) w.stop_reason = "frame-cap"; }
	next_tick = std::max(next_tick + TICK, w.now + 1);
	if (next_tick < w.now) next_tick = w.now + TICK;
	cur = me;
	T[me].st = T_TICK;
	to_kernel();
}

// ------------------------------------------------------------------ wrapped libc
extern "C" {
int __wrap_thrd_create(thrd_t* t, thrd_start_t f, void* arg){
	int id = spawn([f,arg]{ int i = cur; T[i].ret = f(arg); }, 16u << 20);
	if (id < 0) return thrd_error;
	*t = (thrd_t)(uintptr_t)(id + 1);
	return thrd_success;
}
int __wrap_thrd_join(thrd_t t, int* res){
	int id = (int)(uintptr_t)t - 1;
	if (id < 0 || id >= nthr) return thrd_error;
	if (T[id].st != T_DONE){ T[cur].st = T_JOIN; T[cur].join = id; to_kernel(); }
	if (res) *res = T[id].ret;
	return thrd_success;
}
int __wrap_thrd_detach(thrd_t){ return thrd_success; }
void __wrap_thrd_yield(void){ if (cur >= 0){ budget = 0; } }
thrd_t __wrap_thrd_current(void){ return (thrd_t)(uintptr_t)(cur + 1); }
int __wrap_thrd_equal(thrd_t a, thrd_t b){ return a == b; }
static void sleep_ns(i64 ns){
	if (cur < 0) return;
	World& w = *W; ++w.sleeps;
	if (ns < 1) ns = 1;
	i64 extra = 0;
	if (!(w.c && w.c->explicit_sched) && w.mode != SM_NOMINAL && w.sleep_jitter && w.frame >= w.sched_from_frame){
		u64 r = dec(D_SLEEP);
		if ((i64)(r % 100) < w.sleep_jitter) extra = (i64)((r >> 16) % (u64)(3 * TICK));
	}
	T[cur].wake = w.now + ns + extra; T[cur].st = T_SLEEP;
	to_kernel();
}
int __wrap_thrd_sleep(const struct timespec* d, struct timespec* rem){ (void)rem; sleep_ns(d->tv_sec * 1000000000ll + d->tv_nsec); return 0; }
int __wrap_nanosleep(const struct timespec* d, struct timespec* rem){ (void)rem; sleep_ns(d->tv_sec * 1000000000ll + d->tv_nsec); return 0; }
int __wrap_usleep(unsigned us){ sleep_ns((i64)us * 1000); return 0; }
unsigned __wrap_sleep(unsigned s){ sleep_ns((i64)s * 1000000000ll); return 0; }

int __wrap_mtx_init(mtx_t* m, int type){ (void)type; mtx_owner.erase((void*)m); return thrd_success; }
void __wrap_mtx_destroy(mtx_t* m){ mtx_owner.erase((void*)m); }
int __wrap_mtx_lock(mtx_t* m){
	if (cur < 0) return thrd_success;
	for (;;){
		auto it = mtx_owner.find((void*)m);
		if (it == mtx_owner.end() || it->second < 0){ mtx_owner[(void*)m] = cur; return thrd_success; }
		if (it->second == cur){ W->deadlock = true; sim_stop("self-deadlock"); return thrd_error; }
		W->counters["mutex_contention"]++;
		T[cur].st = T_MTX; T[cur].mtx = (void*)m; to_kernel();
	}
}
int __wrap_mtx_trylock(mtx_t* m){
	auto it = mtx_owner.find((void*)m);
	if (it == mtx_owner.end() || it->second < 0){ mtx_owner[(void*)m] = cur; return thrd_success; }
	return thrd_busy;
}
int __wrap_mtx_unlock(mtx_t* m){
	mtx_owner[(void*)m] = -1;
	for (int i = 0; i < nthr; ++i) if (T[i].st == T_MTX && T[i].mtx == (void*)m) T[i].st = T_READY;
	return thrd_success;
}

// ---- wall clock
static i64 sim_wall(){
	World& w = *W;
	i64 nominal = w.clock0 + w.now / 1000000000ll;
	i64 v = w.clock ? w.clock(w.time_reads, nominal) : nominal;
	++w.time_reads;
	if (w.time_values.size() < 4096) w.time_values.push_back(v);
	ev(v);
	return v;
}
time_t __wrap_time(time_t* t){ time_t v = W ? sim_wall() : 0; if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval* tv, void*){ tv->tv_sec = sim_wall(); tv->tv_usec = 0; return 0; }
int __wrap_clock_gettime(int, struct timespec* ts){ ts->tv_sec = sim_wall(); ts->tv_nsec = W->now % 1000000000ll; return 0; }
int __wrap_timespec_get(struct timespec* ts, int b){ ts->tv_sec = sim_wall(); ts->tv_nsec = W->now % 1000000000ll; return b; }
clock_t __wrap_clock(void){ return W->now / 1000; }
int sim_printf(const char*, ...){ return 0; }
int __wrap_puts(const char*){ return 0; }
int __wrap_putchar(int c){ return c; }
}
