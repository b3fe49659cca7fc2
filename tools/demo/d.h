// helpers for the demonstrations
#include "common.h"
#include "system.h"
#include "interpreter.h"
#include "program.h"
#include "error.h"
#include "vars.h"
#include "strs.h"
#include "console.h"
#include "input.h"
#include "runner.h"
#include "tokens.h"
#include "resources.h"
#include "timers.h"
#include "sprites.h"
#include "background.h"
#include "panel.h"
extern void _run(struct bytecode, struct ptc*, bool);
#include "extension/sbc_blockalloc.h"
#include "extension/sbc_memory.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <threads.h>
#include <unistd.h>
static struct ptc* d_boot(void){ init_memory(MAX_MEMORY); struct ptc* p = init_system(VAR_LIMIT, STR_LIMIT, ARR_LIMIT, true); init_mem_prg(&p->exec.prg, MAX_SOURCE_SIZE); p->exec.prg.size = 0; p->exec.code = init_bytecode_size(MAX_SOURCE_SIZE, MAX_LINES, MAX_LABELS); return p; }
static int d_run(struct ptc* p, const char* src){ // \n separates lines
	char* b = malloc(strlen(src) + 2); strcpy(b, src); for (char* c = b; *c; ++c) if (*c == '\n') *c = '\r';
	struct program prg = { (int)strlen(b), b };
	p->exec.error = tokenize(&prg, &p->exec.code);
	if (!p->exec.error) _run(p->exec.code, p, true);
	return p->exec.error;
}
static double d_num(struct ptc* p, char* n){ struct named_var* v = test_var(&p->vars, n, VAR_NUMBER); return v ? v->value.number / 4096.0 : -1e9; }
static const char* d_str(struct ptc* p, char* n){ static char b[600]; struct named_var* v = test_var(&p->vars, n, VAR_STRING); if (!v || !v->value.ptr) return "(none)"; int k = str_len(v->value.ptr); for (int i = 0; i < k; ++i) b[i] = to_char(str_at_wide(v->value.ptr, i)); b[k] = 0; return b; }
#define CHECK(c, ...) do { if (!(c)){ fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); _exit(1); } } while (0)
