// Stand-in for the window library (CSFML): window, keyboard, mouse, drawing.
// Everything drawn is folded into a hash so that "what the user sees" can be compared.
#include "sim.h"
#include <SFML/Window.h>
#include <SFML/Graphics.h>
#include <deque>
#include <cmath>

void sim_frame_done(); void sim_stop(const char* why);
void sim_yield_point();

static u64 hbytes(u64 h, const void* p, size_t n){
	const unsigned char* b = (const unsigned char*)p; u64 v;
	while (n >= 8){ memcpy(&v, b, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; }
	v = 0; memcpy(&v, b, n); h = (h ^ v ^ n) * 0x9E3779B97F4A7C15ull; h ^= h >> 32; return h;
}

struct FWin { bool open=true; sfVector2u size; };
struct FTex { unsigned w, h; u64 content; vector<unsigned char> px; int bpp=0; };
struct FSprite { const FTex* t=nullptr; };
struct FShader { map<string,double> f; map<string,int> b; map<string,const FTex*> t; };
struct FVA { vector<sfVertex> v; int prim=0; };
struct FView { sfFloatRect vp, r; };

static InFrame in; static std::deque<sfEvent> q; static bool polled=false; static u64 draw_h=0; static i64 draws=0;
static FView* curview; static FShader* lastshader;
static int fake_live_tex = 0;
// keyboard configuration used by the tests' base disk (= the repository's resources/config.txt)
static set<int> held;
static const int keymap[2][13] = {{73,74,71,72,58,99,99,59,38,42,99,36,39},{22,18,0,3,72,74,73,71,38,42,58,36,39}};
static int simmode;     // the key mode main() should be in

void fakesf_reset(){ in = InFrame(); q.clear(); polled = false; draw_h = 0; draws = 0; held.clear(); simmode = 0; curview = nullptr; lastshader = nullptr; fake_live_tex = 0; }
InFrame& fakesf_in(){ return in; }
int fakesf_textures(){ return fake_live_tex; }
int fakesf_mode(){ return simmode; }

// The user may resize the window at any moment (parameter "win": 1 to reasonable sizes, 2 also to nothing, as when
// it is minimised); further events main() has no use for come along.
static FWin* thewin;
static void resize(){
	i64 mode = W->c ? W->c->get("win") : 0; if (!mode || !thewin) return;
	u64 h = h2(h2(W->c->seed, 0x3172), (u64)W->frame); if (h % 11) return; h = mix64(h);
	static const unsigned odd[] = {0, 1, 2, 3, 7, 100, 255};
	unsigned x = 256 + (unsigned)(h % 1700), y = 384 + (unsigned)((h >> 16) % 1500); if (h >> 40 & 1){ x = 256 << (h >> 41 & 3); y = 384 << (h >> 43 & 3); }
	if (mode == 2 && (h >> 50) % 4 == 0){ x = odd[(h >> 32) % 7]; y = odd[(h >> 36) % 7]; }
	thewin->size = {x, y}; hit("window_resized"); if (!x || y < 2) hit("window_empty");
	sfEvent e; memset(&e, 0, sizeof e); e.type = sfEvtResized; e.size.width = x; e.size.height = y; q.push_back(e);
	if (h >> 20 & 1){ static const sfEventType k[] = {sfEvtLostFocus, sfEvtGainedFocus, sfEvtKeyPressed, sfEvtKeyReleased, sfEvtMouseMoved, sfEvtMouseLeft}; memset(&e, 0, sizeof e); e.type = k[(h >> 21) % 6]; if (e.type == sfEvtKeyPressed || e.type == sfEvtKeyReleased) e.key.code = (sfKeyCode)((h >> 24) % 100); q.push_back(e); }
}
// a pixel of the window which shows panel coordinate t of n, the panel being `len` pixels wide
static i64 floordiv(i64 a, i64 b){ return a >= 0 ? a / b : -((-a + b - 1) / b); }
static int pixel(int t, int n, int len){
	if (len < n) return (int)floordiv((i64)t * len, n);
	int lo = (int)floordiv((i64)t * len + n - 1, n), hi = (int)floordiv((i64)(t + 1) * len - n, n); // first, and last that lies wholly within
	return hi <= lo ? lo : lo + (int)(h2(W->frame, t) % (u64)(hi - lo + 1));
}
static void start_frame(){
	World& w = *W;
	bool modekey_was = in.modekey;
	if (modekey_was) simmode ^= 1; // mode toggles once per frame held
	InFrame nx; nx.mouse = true;
	in = nx; resize();
	if (w.input) w.input(w.frame, in);
	for (u32 c : in.text){ sfEvent e; memset(&e, 0, sizeof e); e.type = sfEvtTextEntered; e.text.unicode = c; q.push_back(e); }
	if (in.close){ sfEvent e; memset(&e, 0, sizeof e); e.type = sfEvtClosed; q.push_back(e); if (w.close_frame < 0) w.close_frame = w.frame; }
	held.clear();
	for (int i = 0; i < 12; ++i) if (in.buttons & (1u << i)) held.insert(keymap[simmode][i]);
	held.erase(99);
	if (in.modekey) held.insert(keymap[simmode][12]);
}

extern "C" {
sfRenderWindow* sfRenderWindow_create(sfVideoMode mode, const char*, sfUint32, const sfContextSettings*){
	fakesf_reset(); FWin* f = new FWin; f->size = {mode.width, mode.height}; thewin = f; return (sfRenderWindow*)f; }
void sfRenderWindow_destroy(sfRenderWindow* r){ thewin = nullptr; delete (FWin*)r; W->counters["window_destroyed"]++; }
void sfRenderWindow_close(sfRenderWindow* r){ ((FWin*)r)->open = false; }
sfBool sfRenderWindow_isOpen(const sfRenderWindow* r){ return ((FWin*)r)->open; }
void sfRenderWindow_setFramerateLimit(sfRenderWindow*, unsigned){}
void sfRenderWindow_setVerticalSyncEnabled(sfRenderWindow*, sfBool){}
sfBool sfRenderWindow_pollEvent(sfRenderWindow*, sfEvent* e){
	if (!polled){ polled = true; start_frame(); }
	if (q.empty()) return sfFalse;
	*e = q.front(); q.pop_front(); return sfTrue;
}
sfVector2u sfRenderWindow_getSize(const sfRenderWindow* r){ return ((FWin*)r)->size; }
void sfRenderWindow_clear(sfRenderWindow*, sfColor){ draw_h = 0x1234; draws = 0; if (W->pictures) W->picture.assign(256 * 384, 0xff000000u); }
void sfRenderWindow_setView(sfRenderWindow*, const sfView* v){ curview = (FView*)v; }
static u64 shader_hash(){
	u64 h = 7; if (!lastshader) return h;
	for (auto& k : lastshader->f){ h = hstr(h, k.first); h = hbytes(h, &k.second, sizeof k.second); }
	for (auto& k : lastshader->b){ h = hstr(h, k.first); h = mix64(h ^ (u64)k.second); }
	for (auto& k : lastshader->t){ h = hstr(h, k.first); h = mix64(h ^ (k.second ? k.second->content : 0)); }
	return h;
}
static u64 view_hash(){ if (!curview) return 3; return hbytes(5, &curview->vp, sizeof curview->vp); }
// Software rasteriser with the semantics of resources/bgsp.frag, used when a scenario compares pictures.
struct Shade { const FTex* t; const FTex* c; int top, bot, cy; bool grp; };
static bool shade_init(Shade& s, const FTex* t){
	if (!curview || !lastshader || !t || t->px.empty() || t->bpp != 1) return false;
	s.t = t; s.c = lastshader->t["colors"]; if (!s.c || s.c->px.empty()) return false;
	s.top = (int)(curview->vp.top * 384); s.bot = s.top + (int)(curview->vp.height * 384); s.grp = lastshader->b["grp_mode"] != 0;
	s.cy = std::min((int)s.c->h - 1, std::max(0, (int)floor(lastshader->f["colbank"] / 5.0 * s.c->h + 1e-9))); return true;
}
static inline void shade(const Shade& s, int x, int y, int ix, int iy, unsigned char vred){
	int py = y + s.top; if (x < 0 || x >= 256 || y < 0 || py >= s.bot || ix < 0 || iy < 0 || ix >= (int)s.t->w || iy >= (int)s.t->h) return;
	int idx = s.t->px[(size_t)iy * s.t->w + ix], sum = s.grp ? idx : (idx ? vred : 0) + idx;
	int cx = std::min((int)s.c->w - 1, sum * (int)s.c->w / 255);
	const unsigned char* q = &s.c->px[((size_t)s.cy * s.c->w + cx) * 4]; if (!q[3]) return;
	W->picture[py * 256 + x] = 0xff000000u | q[2] << 16 | q[1] << 8 | q[0];
}
static void quad(const Shade& s, const sfVertex* v, const sfTransform* m){
	double X[4], Y[4]; for (int i = 0; i < 4; ++i){ X[i] = v[i].position.x + (m ? m->matrix[2] : 0); Y[i] = v[i].position.y + (m ? m->matrix[5] : 0); }
	double ax = X[1] - X[0], ay = Y[1] - Y[0], bx = X[3] - X[0], by = Y[3] - Y[0], det = ax * by - ay * bx; if (det == 0) return;
	int x0 = (int)floor(*std::min_element(X, X + 4)), x1 = (int)ceil(*std::max_element(X, X + 4)), y0 = (int)floor(*std::min_element(Y, Y + 4)), y1 = (int)ceil(*std::max_element(Y, Y + 4));
	x0 = std::max(x0, 0); y0 = std::max(y0, 0); x1 = std::min(x1, 256); y1 = std::min(y1, 192);
	double u1 = v[1].texCoords.x - v[0].texCoords.x, u3 = v[3].texCoords.x - v[0].texCoords.x, w1 = v[1].texCoords.y - v[0].texCoords.y, w3 = v[3].texCoords.y - v[0].texCoords.y;
	if (ay == 0 && bx == 0 && w1 == 0 && u3 == 0){ // axis-aligned
		int ix[256]; for (int x = x0; x < x1; ++x){ double a = (x + .5 - X[0]) / ax; ix[x] = a < 0 || a >= 1 ? -1 : (int)floor(v[0].texCoords.x + a * u1); }
		for (int y = y0; y < y1; ++y){ double b = (y + .5 - Y[0]) / by; if (b < 0 || b >= 1) continue; int iy = (int)floor(v[0].texCoords.y + b * w3); for (int x = x0; x < x1; ++x) shade(s, x, y, ix[x], iy, v[0].color.r); }
		return; }
	for (int y = y0; y < y1; ++y) for (int x = x0; x < x1; ++x){ double dx = x + .5 - X[0], dy = y + .5 - Y[0], a = (dx * by - dy * bx) / det, b = (ax * dy - ay * dx) / det; if (a < 0 || b < 0 || a >= 1 || b >= 1) continue;
		shade(s, x, y, (int)floor(v[0].texCoords.x + a * u1 + b * u3), (int)floor(v[0].texCoords.y + a * w1 + b * w3), v[0].color.r); }
}
void sfRenderWindow_drawVertexArray(sfRenderWindow*, const sfVertexArray* va, const sfRenderStates* st){
	FVA* f = (FVA*)va; ++draws;
	if (W->pictures){ Shade s; if (W->want_picture && shade_init(s, st ? (const FTex*)st->texture : nullptr)) for (size_t i = 0; i + 4 <= f->v.size(); i += 4) quad(s, &f->v[i], st ? &st->transform : nullptr); return; }
	u64 h = h2(view_hash(), shader_hash());
	for (auto& v : f->v){ float b[4] = {v.position.x, v.position.y, v.texCoords.x, v.texCoords.y}; h = hbytes(h, b, sizeof b); h = mix64(h ^ v.color.r); }
	if (st){ h = mix64(h ^ (st->texture ? ((FTex*)st->texture)->content : 0)); h = hbytes(h, &st->transform, sizeof st->transform); }
	draw_h = mix64(draw_h ^ h);
}
void sfRenderWindow_drawSprite(sfRenderWindow*, const sfSprite* s, const sfRenderStates* st){
	++draws; u64 h = h2(view_hash(), shader_hash());
	FSprite* f = (FSprite*)s; h = mix64(h ^ (f->t ? f->t->content : 0));
	if (st) h = hbytes(h, &st->transform, sizeof st->transform);
	draw_h = mix64(draw_h ^ h);
	Shade z; if (W->pictures && W->want_picture && shade_init(z, f->t)) for (int y = 0; y < (int)f->t->h; ++y) for (int x = 0; x < (int)f->t->w; ++x) shade(z, x + (st ? (int)st->transform.matrix[2] : 0), y + (st ? (int)st->transform.matrix[5] : 0), x, y, 0);
}
void sfRenderWindow_display(sfRenderWindow*){
	W->screen_hash = draw_h; W->counters["frames_rendered"]++; W->counters["draw_calls"] += draws;
	polled = false;
	sim_frame_done();
}
void sim_skip_display(void){ polled = false; sim_frame_done(); }

sfBool sfKeyboard_isKeyPressed(sfKeyCode k){ return held.count((int)k) != 0; }
sfVector2i sfMouse_getPosition(const sfWindow*){ sfVector2i p; int x = thewin ? (int)thewin->size.x : 512, h = (thewin ? (int)thewin->size.y : 768) / 2; p.x = pixel(in.tx, 256, x); p.y = (in.mouse ? h : 0) + pixel(in.ty, 192, h);
	if (!in.mouse){ u64 k = h2(W->frame / 4, 0x907); int far = (k >> 8 & 1) ? 0 : (int)((k >> 9) % 3000); switch (k % 4){ case 0: break; // over the upper screen, or outside the window
		case 1: p.x = -1 - far; p.y += h; break; case 2: p.x = x + far; p.y += h; break; case 3: p.y = 2 * h + far; break; } }
	return p; }
sfVector2i sfMouse_getPositionRenderWindow(const sfRenderWindow*){ return sfMouse_getPosition(nullptr); }
sfBool sfMouse_isButtonPressed(sfMouseButton b){ return b == 0 && in.touch; }
sfRenderStates sfRenderStates_default(void){ sfRenderStates s; memset(&s, 0, sizeof s); s.transform = sfTransform_Identity; return s; }
const sfTransform sfTransform_Identity = {{1,0,0,0,1,0,0,0,1}};
void sfTransform_translate(sfTransform* t, float x, float y){ t->matrix[2] += x; t->matrix[5] += y; }
sfBool sfShader_isAvailable(void){ return sfTrue; }
sfShader* sfShader_createFromFile(const char*, const char*, const char*){ return (sfShader*)new FShader; }
void sfShader_destroy(sfShader* s){ delete (FShader*)s; if (lastshader == (FShader*)s) lastshader = nullptr; }
void sfShader_setBoolUniform(sfShader* s, const char* n, sfBool b){ lastshader = (FShader*)s; lastshader->b[n] = b; }
void sfShader_setFloatUniform(sfShader* s, const char* n, float v){ lastshader = (FShader*)s; lastshader->f[n] = v; }
void sfShader_setIntUniform(sfShader* s, const char* n, int v){ lastshader = (FShader*)s; lastshader->f[n] = v; }
void sfShader_setTextureUniform(sfShader* s, const char* n, const sfTexture* t){ lastshader = (FShader*)s; lastshader->t[n] = (FTex*)t; }
void sfShader_setCurrentTextureUniform(sfShader*, const char*){}
sfSprite* sfSprite_create(void){ return (sfSprite*)new FSprite; }
void sfSprite_destroy(sfSprite* s){ delete (FSprite*)s; }
void sfSprite_setTexture(sfSprite* s, const sfTexture* t, sfBool){ ((FSprite*)s)->t = (FTex*)t; }
sfTexture* sfTexture_create(unsigned w, unsigned h){ FTex* t = new FTex; t->w = w; t->h = h; t->content = 0; ++fake_live_tex; return (sfTexture*)t; }
void sfTexture_destroy(sfTexture* t){ --fake_live_tex; if (lastshader) for (auto& k : lastshader->t) if (k.second == (FTex*)t) k.second = nullptr; delete (FTex*)t; }
void sfTexture_updateFromPixels(sfTexture* t, const sfUint8* p, unsigned w, unsigned h, unsigned x, unsigned y){
	FTex* f = (FTex*)t; u64 c = h2(w, h) ^ h2(x, y);
	// pixel/character textures carry a palette index in the red channel only (the
	// other channels are never set); the palette texture carries full colours
	bool full = h <= 8; size_t n = (size_t)w * h;
	if (full) c = hbytes(c, p, n * 4);
	else { vector<unsigned char> r(n); for (size_t i = 0; i < n; ++i) r[i] = p[4*i]; c = hbytes(c, r.data(), n); }
	f->content = c; if (W->pictures){ f->bpp = full ? 4 : 1; f->px.resize(n * f->bpp); for (size_t i = 0; i < n; ++i) for (int k = 0; k < f->bpp; ++k) f->px[i * f->bpp + k] = p[4 * i + k]; }
	W->counters["texture_uploads"]++;
}
sfVertexArray* sfVertexArray_create(void){ return (sfVertexArray*)new FVA; }
void sfVertexArray_destroy(sfVertexArray* a){ delete (FVA*)a; }
void sfVertexArray_append(sfVertexArray* a, sfVertex v){ ((FVA*)a)->v.push_back(v); }
void sfVertexArray_clear(sfVertexArray* a){ ((FVA*)a)->v.clear(); }
sfVertex* sfVertexArray_getVertex(sfVertexArray* a, size_t i){ return &((FVA*)a)->v[i]; }
size_t sfVertexArray_getVertexCount(const sfVertexArray* a){ return ((FVA*)a)->v.size(); }
void sfVertexArray_resize(sfVertexArray* a, size_t n){ sfVertex z; memset(&z, 0, sizeof z); ((FVA*)a)->v.resize(n, z); }
void sfVertexArray_setPrimitiveType(sfVertexArray* a, sfPrimitiveType t){ ((FVA*)a)->prim = t; }
sfView* sfView_createFromRect(sfFloatRect r){ FView* v = new FView; v->r = r; return (sfView*)v; }
void sfView_destroy(sfView* v){ if (curview == (FView*)v) curview = nullptr; delete (FView*)v; }
void sfView_setViewport(sfView* v, sfFloatRect r){ ((FView*)v)->vp = r; }
}
extern "C" {
sfColor sfBlack = {0,0,0,255}; sfColor sfWhite = {255,255,255,255}; sfColor sfTransparent = {0,0,0,0};
}
