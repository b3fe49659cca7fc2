/* Reads the state of the simulated machine.  Uses the same accessors the
 * repository's own tests use (test_var, test_arr, con_text_getc, exec.error). */
#include "system.h"
#include "error.h"
#include "vars.h"
#include "arrays.h"
#include "strs.h"
#include "console.h"
#include "program.h"
#include <string.h>

static struct ptc* P(void* p){ return (struct ptc*)p; }

/* Looks a variable up without creating it: the look-up runs on the window
 * thread, possibly while the program thread is creating the same variable. */
static struct named_var* look(void* p, const char* name, int type){
	struct variables* v = &P(p)->vars; size_t len = strlen(name);
	for (size_t i = 0; i < (size_t)v->vars_max; ++i){
		struct named_var* n = &v->vars[i];
		if (n->type == (enum types)type && !strncmp(n->name, name, 16) && (len == 16 || n->name[len] == 0)) return n;
	}
	return NULL;
}
int probe_num(void* p, const char* name, int* out){
	struct named_var* v = look(p, name, VAR_NUMBER);
	*out = v ? v->value.number : 0; return 1;
}
int probe_arr(void* p, const char* name, int i, int* out){
	struct named_var* a = look(p, name, VAR_NUMBER|VAR_ARRAY);
	if (!a || !a->value.ptr || i < 0 || (u32)i >= arr_size(a->value.ptr, ARR_DIM1)) return 0;
	*out = arr_entry(a->value.ptr, i, 0)->number; return 1;
}
int probe_arr2(void* p, const char* name, int i, int j, int* out){
	struct named_var* a = look(p, name, VAR_NUMBER|VAR_ARRAY);
	if (!a || !a->value.ptr || i < 0 || (u32)i >= arr_size(a->value.ptr, ARR_DIM1) || (u32)j >= arr_size(a->value.ptr, ARR_DIM2)) return 0;
	*out = arr_entry(a->value.ptr, i, j)->number; return 1;
}
int probe_sarr(void* p, const char* name, int i, unsigned char* out){
	struct named_var* a = look(p, name, VAR_STRING|VAR_ARRAY);
	if (!a || !a->value.ptr || i < 0 || (u32)i >= arr_size(a->value.ptr, ARR_DIM1)) return -3;
	void* s = arr_entry(a->value.ptr, i, 0)->ptr; if (!s) return -1;
	int n = (int)str_len(s); if (n > 256) return -2;
	for (int k = 0; k < n; ++k) out[k] = (unsigned char)to_char(str_at_wide(s, k));
	return n;
}
int probe_str(void* p, const char* name, unsigned char* out){
	struct named_var* v = look(p, name, VAR_STRING);
	if (!v) return 0;
	if (!v->value.ptr) return -1;
	int n = (int)str_len(v->value.ptr);
	if (n > 256) return -2;
	for (int i = 0; i < n; ++i) out[i] = (unsigned char)to_char(str_at_wide(v->value.ptr, i));
	return n;
}
int probe_con(void* p, int x, int y){ return (unsigned char)to_char(con_text_getc(&P(p)->console, x, y)); }
int probe_col(void* p, int x, int y){ return P(p)->console.color[y][x]; }
int probe_err(void* p){ return P(p)->exec.error; }
int probe_err_break(void){ return ERR_BREAK; }
int probe_err_shutdown(void){ return ERR_SHUTDOWN; }
int probe_err_none(void){ return ERR_NONE; }
int probe_err_oom(void){ return ERR_OUT_OF_MEMORY; }
int probe_err_load(void){ return ERR_FILE_LOAD_FAILED; }
const char* probe_errname(int e){ return error_messages[e]; }
#include "sbc_blockalloc.h"
void* probe_sbc_mem(void){ return sbc_malloc(0); }
int probe_prgsize(void* p){ return (int)P(p)->exec.prg.size; }
const char* probe_prgdata(void* p){ return P(p)->exec.prg.data; }
int probe_memsafe(void* p){ return P(p)->memapi.sys_memsafe != 0; }
int probe_waiting_input(void* p){ return P(p)->console.cursor_visible; }
/* advance the frame counter without running frames (to reach carries) */
void probe_time_forward(void* p, long long n){ for (; n > 0; n -= 1){ P(p)->time.time += n; break; } }
int probe_cy(void* p){ return P(p)->console.y; }
int probe_cx(void* p){ return P(p)->console.x; }
long long probe_time(void* p){ return (long long)P(p)->time.time; }
void probe_hit(void* p, int page, int id, int* o){
	struct sprite_info* s = &P(p)->sprites.info[page][id];
	int v[15] = {s->active, s->pos.x, s->pos.y, s->pos.time >= 0 ? s->pos.dx : 0, s->pos.time >= 0 ? s->pos.dy : 0, s->scale.s, s->hit.x, s->hit.y, s->hit.w, s->hit.h, s->hit.dx, s->hit.dy, s->hit.mask, s->hit.scale_adjust, s->pos.time};
	memcpy(o, v, sizeof v);
}
void probe_sprite(void* p, int page, int id, int* o){
	struct sprite_info* s = &P(p)->sprites.info[page][id];
	o[0] = s->active; o[1] = s->pos.x; o[2] = s->pos.y; o[3] = s->scale.s; o[4] = s->angle.a; o[5] = get_sprite_chr(s);
}
void probe_bg(void* p, int page, int layer, int* o){ o[0] = P(p)->background.ofs[page][layer].x; o[1] = P(p)->background.ofs[page][layer].y; }
const void* probe_code(void* ptc){ return ((struct ptc*)ptc)->exec.code.data ? (const void*)((struct ptc*)ptc)->exec.code.data : (const void*)"prompt"; }
#include "graphics.h"
#include "background.h"
int probe_grp(void* p, int page, int x, int y){ return P(p)->res.grp[page][grp_index(x, y)]; }
int probe_tile(void* p, int page, int layer, int x, int y){ return bg_tile(P(p), page, layer, x, y); }
const unsigned char* probe_chr(void* p, int bank){ return P(p)->res.chr[bank]; }
const unsigned short* probe_colbank(void* p, int bank){ return P(p)->res.col[bank]; }
void probe_gset(void* p, int* o){ struct graphics* g = &P(p)->graphics; o[0] = g->screen; o[1] = g->color; o[2] = g->drawmode; for (int i = 0; i < 2; ++i){ o[3+3*i] = g->info[i].drawpage; o[4+3*i] = g->info[i].displaypage; o[5+3*i] = g->info[i].prio; } }
void probe_pages_c(void* p, int* o){ o[0] = P(p)->background.page; o[1] = P(p)->sprites.page; }
#include "shown.h"
#include "panel.h"
static void sh_spr(struct ShSpr* o, struct sprite_info* s){
	o->active = s->active; o->x = s->pos.x; o->y = s->pos.y; o->chr = get_sprite_chr(s); o->pal = s->pal; o->prio = s->prio; o->fx = s->flip_x; o->fy = s->flip_y;
	o->w = s->w; o->h = s->h; o->hx = s->home_x; o->hy = s->home_y; o->scale = s->scale.s; o->angle = s->angle.a; o->key = s->vars[0];
}
void probe_shown(void* q, struct Shown* o){
	struct ptc* p = P(q);
	for (int y = 0; y < 24; ++y) for (int x = 0; x < 32; ++x){
		o->con[y][x] = (unsigned char)to_char(con_text_getc(&p->console, x, y)); o->concol[y][x] = p->console.color[y][x];
		o->pnl[y][x] = (unsigned char)to_char(con_text_getc(p->panel.text, x, y)); o->pnlcol[y][x] = p->panel.text->color[y][x];
		o->fkey[y][x] = (unsigned char)to_char(con_text_getc(p->panel.keys_text, x, y)); o->fkeycol[y][x] = p->panel.keys_text->color[y][x];
	}
	o->visible = 0; if (p->res.visible & VISIBLE_CONSOLE) o->visible |= 1; if (p->res.visible & VISIBLE_PANEL) o->visible |= 2; if (p->res.visible & VISIBLE_BG0) o->visible |= 4; if (p->res.visible & VISIBLE_BG1) o->visible |= 8; if (p->res.visible & VISIBLE_SPRITE) o->visible |= 16; if (p->res.visible & VISIBLE_GRAPHICS) o->visible |= 32;
	o->cursor = p->console.cursor_visible; o->cx = p->console.x; o->cy = p->console.y; o->ptype = p->panel.type; o->shift = p->panel.shift; o->key_pressed = p->panel.key_pressed;
	for (int s = 0; s < 2; ++s){
		for (int l = 0; l < 2; ++l){ o->ofs[s][l][0] = p->background.ofs[s][l].x; o->ofs[s][l][1] = p->background.ofs[s][l].y; for (int y = 0; y < 64; ++y) for (int x = 0; x < 64; ++x) o->bg[s][l][y][x] = bg_tile(p, s, l, x, y); }
		for (int i = 0; i < 100; ++i) sh_spr(&o->sp[s][i], &p->sprites.info[s][i]);
		for (int y = 0; y < 192; ++y) for (int x = 0; x < 256; ++x) o->grp[s][y][x] = p->res.grp[p->graphics.info[s].displaypage][grp_index(x, y)];
		o->gprio[s] = p->graphics.info[s].prio;
	}
	for (int i = 0; i < 95; ++i) sh_spr(&o->keys[i], &p->panel.keys[i]);
}
void probe_set_spr(void* p, int page, int id, int* o){
	struct sprite_info* s = &P(p)->sprites.info[page][id];
	int v[29] = {s->active, s->pal, s->prio, s->flip_x, s->flip_y, s->w, s->h, s->home_x, s->home_y, s->pos.x, s->pos.y, s->scale.s, s->angle.a, s->chr, s->hit.x, s->hit.y, s->hit.w, s->hit.h, s->hit.scale_adjust, s->hit.mask, s->hit.dx};
	memcpy(o, v, sizeof v); o[21] = s->hit.dy; for (int i = 0; i < 8; ++i) o[22 + i] = s->vars[i];
}
void probe_set_misc(void* p, int* o){
	struct ptc* q = P(p);
	o[0] = q->sprites.page; o[1] = q->background.page; o[2] = q->res.visible & 63; o[3] = q->panel.type; o[4] = q->panel.iconpuse; o[5] = q->panel.iconpmax; o[6] = q->panel.iconpage; o[7] = q->panel.keys[ICON_PAGE_START].active; o[8] = q->panel.keys[ICON_PAGE_START + 1].active;
	for (int i = 0; i < 12; ++i){ o[13 + 2 * i] = q->input.times[i].start; o[14 + 2 * i] = q->input.times[i].repeat; }
	for (int i = 0; i < 4; ++i) o[9 + i] = q->panel.keys[ICON_START + i].active ? q->panel.keys[ICON_START + i].chr : -1;
}
int probe_fkey(void* p, int k, unsigned char* o){ int n = P(p)->panel.func_keys_len[k]; for (int i = 0; i < n && i < 256; ++i) o[i] = (unsigned char)to_char(P(p)->panel.func_keys[k][i]); return n; }
void probe_pnl(void* q, int x, int y, int* o){ struct ptc* p = P(q); o[0] = (unsigned char)to_char(con_text_getc(p->panel.text, x, y)); o[1] = p->panel.text->color[y][x]; o[2] = (unsigned char)to_char(con_text_getc(p->panel.keys_text, x, y)); o[3] = p->panel.keys_text->color[y][x]; }
unsigned char* probe_res(void* p, int kind, int i){ switch (kind){ case 0: return (unsigned char*)P(p)->res.grp[i]; case 1: return (unsigned char*)P(p)->res.chr[i]; case 2: return (unsigned char*)P(p)->res.col[i]; default: return (unsigned char*)P(p)->res.scr[i]; } }
/* Does this name exist (t: 0 number, 1 string, 2 number array, 3 string array)? */
int probe_exists(void* p, const char* name, int t){
	return look(p, name, (t & 1 ? VAR_STRING : VAR_NUMBER) | (t & 2 ? VAR_ARRAY : 0)) != NULL;
}
int probe_sarr2(void* p, const char* name, int i, int j, unsigned char* out){
	struct named_var* a = look(p, name, VAR_STRING|VAR_ARRAY);
	if (!a || !a->value.ptr || i < 0 || (u32)i >= arr_size(a->value.ptr, ARR_DIM1) || (u32)j >= arr_size(a->value.ptr, ARR_DIM2)) return -3;
	void* s = arr_entry(a->value.ptr, i, j)->ptr; if (!s) return -1;
	int n = (int)str_len(s); if (n > 256) return -2;
	for (int k = 0; k < n; ++k) out[k] = (unsigned char)to_char(str_at_wide(s, k));
	return n;
}
