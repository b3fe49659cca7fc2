// Simulated disk.  The program's own stdio calls run for real (glibc FILE
// objects via fopencookie); only the "system call" layer below them is simulated
// and that is where faults are injected.
#include "sim.h"
#include <dirent.h>
#include <errno.h>
#include <signal.h>

const char* diskop_name[OP_KINDS] = {"open","read","write","close","seek","rename","remove","opendir","readdir"};
const char* faultkind_name[FK_KINDS] = {"error","short","eof","crash","nospace"};
void sim_stop(const char* why); int sim_cur();

// returns matching fault (marking it fired) for the n-th operation of its kind
static Fault* fault_for(int op, const string& path){
	World& w = *W;
	i64 n = w.ops[op]++;
	w.ehash = mix64(w.ehash ^ (0xD15C00 + op) ^ hstr(3, path));
	for (auto& f : w.faults){
		if (f.op != op) continue;
		bool sticky = f.kind == FK_NOSPACE || f.kind == FK_EOF;
		if (!f.path.empty()){
			if (f.path != path) continue;
			if (!(f.nth == -1 || (!f.fired && f.seen++ == f.nth) || (f.fired && sticky))) continue;
		} else if (f.nth != n && !(sticky && n >= f.nth)) continue;
		f.fired = true;
		w.fired[op][f.kind]++;
		if (f.kind == FK_CRASH){ w.crashed_by_fault = true; if (op != OP_WRITE) sim_stop("crash-fault"); }
		return &f;
	}
	return nullptr;
}
static void log_ev(int op, const string& path, i64 n, bool ok){
	W->fev.push_back({op, path, W->frame, n, ok, (u64)W->fev.size()});
}
struct Handle { string path; size_t pos=0; bool rd=false, wr=false, app=false; };

static ssize_t ck_read(void* c, char* buf, size_t n){
	Handle* h = (Handle*)c;
	if (!h->rd){ errno = EBADF; return -1; }
	Fault* f = fault_for(OP_READ, h->path);
	string& d = W->disk->files[h->path];
	size_t avail = h->pos < d.size() ? d.size() - h->pos : 0;
	size_t k = std::min(n, avail);
	if (f){
		if (f->kind == FK_ERR || f->kind == FK_NOSPACE){ log_ev(OP_READ, h->path, 0, false); errno = EIO; return -1; }
		if (f->kind == FK_SHORT){ k = std::min<size_t>(k, 1 + (size_t)(f->arg < 0 ? 0 : f->arg)); }
		if (f->kind == FK_EOF) k = 0;
	}
	memcpy(buf, d.data() + h->pos, k); h->pos += k;
	log_ev(OP_READ, h->path, k, true);
	return k;
}
static ssize_t ck_write(void* c, const char* buf, size_t n){
	Handle* h = (Handle*)c;
	if (!h->wr){ errno = EBADF; return 0; }
	Fault* f = fault_for(OP_WRITE, h->path);
	size_t k = n; bool err = false;
	if (f){
		if (f->kind == FK_ERR || f->kind == FK_EOF){ k = 0; err = true; }
		if (f->kind == FK_SHORT){ k = std::min<size_t>(n, 1 + (size_t)(f->arg < 0 ? 0 : f->arg)); }
		if (f->kind == FK_NOSPACE){ k = std::min<size_t>(n, (size_t)std::max<i64>(0, f->arg)); f->arg -= k; if (k == 0) err = true; }
		if (f->kind == FK_CRASH){ k = std::min<size_t>(n, (size_t)std::max<i64>(0, f->arg)); }
	}
	if (k){
		string& d = W->disk->files[h->path];
		if (h->app) h->pos = d.size();
		if (d.size() < h->pos + k) d.resize(h->pos + k);
		memcpy(&d[h->pos], buf, k); h->pos += k;
	}
	log_ev(OP_WRITE, h->path, k, !err);
	if (f && f->kind == FK_CRASH) sim_stop("crash-fault");
	if (err){ errno = f->kind == FK_NOSPACE ? ENOSPC : EIO; return 0; }
	return k;
}
static int ck_seek(void* c, off64_t* off, int wh){
	Handle* h = (Handle*)c;
	Fault* f = fault_for(OP_SEEK, h->path);
	if (f){ errno = EIO; return -1; }
	i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)h->pos : (i64)W->disk->files[h->path].size();
	i64 np = base + *off;
	if (np < 0){ errno = EINVAL; return -1; }
	h->pos = np; *off = np;
	return 0;
}
static int ck_close(void* c){
	Handle* h = (Handle*)c;
	Fault* f = fault_for(OP_CLOSE, h->path);
	log_ev(OP_CLOSE, h->path, 0, !f);
	W->counters["open_handles"]--;
	delete h;
	if (f && f->kind != FK_CRASH){ errno = EIO; return -1; }
	return 0;
}
extern "C" {
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* path, const char* mode){
	if (!W) return nullptr;
	string p = path ? path : "";
	while (p.compare(0, 2, "./") == 0) p = p.substr(2);
	Fault* f = fault_for(OP_OPEN, p);
	bool rd = strchr(mode, 'r') || strchr(mode, '+');
	bool wr = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
	bool ok = !f;
	if (ok && mode[0] == 'r' && !W->disk->has(p)) { ok = false; errno = ENOENT; }
	log_ev(OP_OPEN, p, wr, ok);
	if (!ok){ if (f) errno = wr ? ENOSPC : EACCES; return nullptr; }
	if (mode[0] == 'w'){ W->disk->files[p] = ""; }
	if (mode[0] == 'a' && !W->disk->has(p)) W->disk->files[p] = "";
	Handle* h = new Handle; h->path = p; h->rd = rd; h->wr = wr; h->app = mode[0] == 'a';
	W->counters["open_handles"]++;
	cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
	return fopencookie(h, mode, io);
}
FILE* __wrap_fopen64(const char* p, const char* m){ return __wrap_fopen(p, m); }
int __wrap_rename(const char* a, const char* b){
	if (!W) return -1;
	string A = a, B = b;
	Fault* f = fault_for(OP_RENAME, A);
	bool ok = !f && W->disk->has(A);
	if (ok){ W->disk->files[B] = W->disk->files[A]; W->disk->files.erase(A); }
	log_ev(OP_RENAME, B, 0, ok);
	if (!ok){ errno = EIO; return -1; }
	return 0;
}
int __wrap_remove(const char* a){
	if (!W) return -1;
	Fault* f = fault_for(OP_REMOVE, a);
	bool ok = !f && W->disk->files.erase(a) > 0;
	log_ev(OP_REMOVE, a, 0, ok);
	if (!ok){ errno = EIO; return -1; }
	return 0;
}
int __wrap_unlink(const char* a){ return __wrap_remove(a); }
int __wrap_fileno(FILE*){ return -1; }
int __wrap_fsync(int){ return 0; }

struct SimDir { vector<string> names; size_t i=0; struct dirent de; };
DIR* __wrap_opendir(const char* path){
	string p = path ? path : "";
	Fault* f = fault_for(OP_OPENDIR, p);
	if (f){ errno = EACCES; log_ev(OP_OPENDIR, p, 0, false); return nullptr; }
	if (p.empty() || p.back() != '/') p += '/';
	SimDir* d = new SimDir;
	bool any = false;
	d->names = {".", ".."};
	for (auto& kv : W->disk->files) if (kv.first.compare(0, p.size(), p) == 0){
		any = true; string r = kv.first.substr(p.size()); size_t s = r.find('/');
		if (s != string::npos) r = r.substr(0, s);
		if (!r.empty() && std::find(d->names.begin(), d->names.end(), r) == d->names.end()) d->names.push_back(r);
	}
	log_ev(OP_OPENDIR, p, 0, any);
	if (!any){ delete d; errno = ENOENT; return nullptr; }
	// directory order is arbitrary in real file systems: decided by the seed
	u64 s = h2(W->c ? W->c->seed : 1, 0xd1);
	for (size_t i = d->names.size(); i > 1; --i){ s = mix64(s); std::swap(d->names[i-1], d->names[s % i]); }
	W->counters["open_dirs"]++;
	return (DIR*)d;
}
struct dirent* __wrap_readdir(DIR* dd){
	if (!dd){ errno = EBADF; raise(11); return nullptr; } // real readdir(NULL) is a segmentation fault
	SimDir* d = (SimDir*)dd;
	Fault* f = fault_for(OP_READDIR, "");
	if (f){ errno = EIO; return nullptr; }
	if (d->i >= d->names.size()) return nullptr;
	memset(&d->de, 0, sizeof d->de);
	strncpy(d->de.d_name, d->names[d->i++].c_str(), sizeof d->de.d_name - 1);
	return &d->de;
}
int __wrap_closedir(DIR* dd){ W->counters["open_dirs"]--; delete (SimDir*)dd; return 0; }
void __wrap_rewinddir(DIR* dd){ ((SimDir*)dd)->i = 0; }
}
