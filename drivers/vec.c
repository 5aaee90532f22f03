/* U01: replays behaviours of specs/Vec.tla on util/vec */
#include "drv.h"
#include "vec.h"
#include "util.h"
static size_t ES;
static vec V;
static bool live;
/* element v: ES bytes derived from v; 0 is all zero bytes */
static void enc(unsigned char* p, int v)
{
	for (size_t k = 0; k < ES; ++k) p[k] = v == 0 ? 0 : (unsigned char)(v * 7 + k * 31 + 1);
	if (ES >= 4 && v) memcpy(p, &v, 4);
	if (ES == 1) p[0] = v;
	if (ES >= 2 && ES < 4) { p[0] = v; p[1] = v >> 8; }
}
static int dec(const unsigned char* p)
{
	int v = 0;
	if (ES >= 4) memcpy(&v, p, 4); else if (ES == 1) v = p[0]; else v = p[0] | p[1] << 8;
	unsigned char* t = malloc(ES);
	enc(t, v);
	int ok = !memcmp(t, p, ES);
	free(t);
	return ok ? v : -1;
}
static unsigned char* encl(int* v, int n)
{
	unsigned char* r = malloc(n * ES ? n * ES : 1);
	for (int i = 0; i < n; ++i) enc(r + i * ES, v[i]);
	return r;
}
static int cmp(const void* a, const void* b, void* ctx)
{
	if (ctx != &V) return 0;
	int x = dec(a), y = dec(b);
	return (y > x) - (y < x);
}
static void obs(int res)
{
	printf("[%d,[%zu,[", res, V.size);
	for (size_t i = 0; i < V.size; ++i) printf("%s%d", i ? "," : "", dec(vec_at(&V, i)));
	printf("],%d]]\n", vec_empty(&V) ? 1 : 0);
}
int main(void)
{
	while (next_op()) {
		int res = 0, n = 0;
		int* l = NULL;
		unsigned char *e = NULL;
		if (OP("new")) {
			if (live) vec_destroy(&V);
			ES = I(1);
			vec_construct(&V, ES);
			live = true;
			for (int i = 1; i <= I(2); ++i) { unsigned char t[64]; enc(t, i); vec_push_back(&V, t); }
			obs(0);
			continue;
		}
#define EL(k_) (l = L(k_, &n), e = encl(l, n))
#define E1(k_) (l = malloc(sizeof(int)), l[0] = I(k_), e = encl(l, 1))
		if (OP("push")) { E1(1); vec_push_back(&V, e); }
		else if (OP("add_one")) { E1(1); memcpy(vec_add_one(&V), e, ES); }
		else if (OP("add_front")) { E1(1); memcpy(vec_add_one_front(&V), e, ES); }
		else if (OP("insert_one")) { E1(2); vec_insert_one(&V, vec_at(&V, I(1)), e); }
		else if (OP("insert_at")) { EL(2); vec_insert_at(&V, I(1), e, n); }
		else if (OP("insert")) { EL(2); vec_insert(&V, vec_at(&V, I(1)), e, n); }
		else if (OP("insert_iter")) { EL(2); vec_insert_iter(&V, vec_at(&V, I(1)), e, e + (n - 1) * ES); }
		else if (OP("set_one")) { E1(2); vec_set_one(&V, vec_at(&V, I(1)), e); }
		else if (OP("set_at")) { EL(2); vec_set_at(&V, I(1), e, n); }
		else if (OP("set")) { EL(2); vec_set(&V, vec_at(&V, I(1)), e, n); }
		else if (OP("set_iter")) { EL(2); vec_set_iter(&V, vec_at(&V, I(1)), e, e + (n - 1) * ES); }
		else if (OP("erase_one")) vec_erase_one(&V, vec_at(&V, I(1)));
		else if (OP("erase_at")) vec_erase_at(&V, I(1), I(2));
		else if (OP("erase")) vec_erase(&V, vec_at(&V, I(1)), I(2));
		else if (OP("erase_iter")) vec_erase_iter(&V, vec_at(&V, I(1)), vec_at(&V, I(2)));
		else if (OP("pop")) { void* p = vec_pop_back(&V); res = p ? dec(p) : 0; }
		else if (OP("back")) res = dec(vec_back(&V));
		else if (OP("resize")) vec_resize(&V, I(1));
		else if (OP("grow_fill")) { EL(2); size_t o = V.size; vec_resize(&V, I(1)); memcpy(vec_at(&V, o), e, n * ES); }
		else if (OP("resize_zero")) vec_resize_and_zero(&V, I(1));
		else if (OP("reserve")) vec_reserve(&V, I(1));
		else if (OP("shrink_to_fit")) vec_shrink_to_fit(&V);
		else if (OP("clear")) vec_clear(&V);
		else if (OP("append")) { EL(1); vec_append(&V, e, n); }
		else if (OP("extend")) {
			EL(1);
			vec o;
			vec_construct(&o, ES);
			for (int i = 0; i < n; ++i) vec_push_back(&o, e + i * ES);
			vec_extend(&V, &o);
			vec_destroy(&o);
		}
		else if (OP("sort_desc")) vec_sort_r(&V, cmp, &V);
		else { fprintf(stderr, "driver: unknown op %s\n", A_[0]); exit(77); }
		free(l);
		free(e);
		obs(res);
		if ((char*)vec_end(&V) - (char*)vec_begin(&V) != (long)(V.size * ES)) { fprintf(stderr, "begin/end\n"); exit(76); }
	}
	return 0;
}
