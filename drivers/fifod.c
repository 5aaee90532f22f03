/* U07: replays behaviours of specs/Fifo.tla on util/fifo. */
#include "drv.h"
#include "fifo.h"
#include "util.h"
typedef struct { long v; long w; int z; } el;
static fifo* F;
static vec* buf;
static el mk(long v) { el e; memset(&e, 0, sizeof e); e.v = v; if (v) { e.w = ~v; e.z = (int)v * 3; } return e; }
static long val(el* e) { return (e->v == 0 ? (e->w || e->z) : (e->w != ~e->v || e->z != (int)e->v * 3)) ? -99 : e->v; }
static void obs(long r)
{
	printf("[%ld,[%u,%d,%d,%u,%d],", r, fifo_available(F), fifo_is_empty(F), fifo_is_full(F), fifo_receivable(F), F->is_open);
	if (fifo_is_empty(F)) printf("[]"); else printf("[%ld]", val(fifo_peek(F)));
	el* l = fifo_look_ahead(F);
	if (l) printf(",[%ld],[", val(l)); else printf(",[],[");
	for (size_t i = 0; i < buf->size; ++i) printf("%s%ld", i ? "," : "", val(vec_at(buf, i)));
	printf("]]\n");
}
int main(void)
{
	buf = new_t_(vec, el);
	while (next_op()) {
		long r = 0;
		if (OP("new")) {
			if (F) fifo_free(F);
			vec_clear(buf);
			F = malloc(sizeof(*F));
			fifo_construct_(F, el, I(1));
			F->input_count = I(2);
		} else if (OP("add")) { el e = mk(I(2)); if (I(1)) r = fifo_add_try(F, &e); else fifo_add(F, &e); }
		else if (OP("nadd")) {
			int n; int* s = L(2, &n);
			/* an exactly sized source vector, so that over-reads show */
			vec* src = new_t_(vec, el);
			for (int i = 0; i < n; ++i) { el e = mk(s[i]); vec_push_back(src, &e); }
			if (I(1)) r = fifo_nadd_try(F, src); else fifo_nadd(F, src);
			vec_clear(buf);
			vec_extend(buf, src);
			delete_(vec, src);
			free(s);
		} else if (OP("get")) {
			el* p;
			if (I(1) == 0) p = fifo_get(F);
			else if (I(1) == 1) p = fifo_get_or_wait(F);
			else { p = fifo_peek(F); fifo_consume(F); }
			r = val(p);
		} else if (OP("nget")) r = fifo_nget(F, buf, I(1), I(2));
		else if (OP("iter")) {
			vec_clear(buf);
			int k = I(1);
			el* it = fifo_begin(F);
			for (; k > 0 && it != fifo_end(F); it = fifo_iter(F), --k) vec_push_back(buf, it);
			r = (it == fifo_end(F));
			if (I(2)) { if (fifo_update_try(F)) r = -1; } else fifo_update(F);
		} else if (OP("iteradd")) {
			vec_clear(buf);
			el e = mk(I(1));
			int first = 1;
			el* it = fifo_begin(F);
			for (; it != fifo_end(F); it = fifo_iter(F)) {
				vec_push_back(buf, it);
				if (first) { fifo_add(F, &e); first = 0; }
			}
			r = 1;
			fifo_update(F);
		} else if (OP("reset")) fifo_reset(F);
		else if (OP("setopen")) fifo_set_open(F, I(1));
		else if (OP("resize")) fifo_resize(F, I(1));
		else if (OP("advance")) fifo_advance(F);
		else if (OP("setfull")) fifo_set_full(F);
		else if (OP("waitadd")) fifo_wait_for_add(F);
		else if (OP("safepeek")) { el* p = fifo_safe_peek(F); r = p ? val(p) : 0; }
		else if (OP("take")) vec_clear(buf);
		else exit(77);
		obs(r);
	}
}
