/* U06: replays behaviours of specs/MMap.tla on multimap and compositemap.
 * argv[1]: first line numbers of keys and tuples; then keys, then tuples "[[..],[..]]" */
#include "drv.h"
#include "hashmap.h"
#include "stringview.h"
#include "util.h"
static multimap M;
static compositemap C;
static bool live;
struct tup { stringview v[8]; int n; };
static char* dom[256]; static int dl[256], nk, nt;
static struct tup T[256];
static struct tup parse_tup(char* p)
{
	struct tup t = {0};
	++p;
	while (*p == '[') {
		char* e = strchr(p, ']');
		char save = e[1];
		e[1] = 0;
		A_[15] = p;
		int na = NA_; NA_ = 16;
		int n;
		char* k = BY(15, &n, 0);
		NA_ = na;
		t.v[t.n].data = k; t.v[t.n++].len = n;
		e[1] = save;
		p = e + 1;
		if (*p == ',') ++p;
	}
	return t;
}
static void free_tup(struct tup* t) { for (int i = 0; i < t->n; ++i) free((void*)t->v[i].data); }
static void keyvec(vec* v, struct tup* t)
{
	vec_construct_(v, stringview);
	for (int i = 0; i < t->n; ++i) vec_push_back(v, &t->v[i]);
}
static int clook(struct tup* t)
{
	vec v; keyvec(&v, t);
	int* p = compositemap_get(&C, &v);
	int r = p ? *p : 0;
	vec_destroy(&v);
	return r;
}
static void cput(struct tup* t, int x)
{
	vec v; keyvec(&v, t);
	compositemap_set(&C, &v, &x);
	vec_destroy(&v);
}
static void pm(const char* k, int n)
{
	vec* v = multimap_nget(&M, k, n);
	putchar('[');
	if (v) for (size_t i = 0; i < v->size; ++i) printf("%s%d", i ? "," : "", *(int*)vec_at(v, i));
	putchar(']');
}
static void obs(void)
{
	printf(",[[");
	for (size_t i = 0; i < M.values->size; ++i) printf("%s%d", i ? "," : "", (int)((vec*)vec_at(M.values, i))->size);
	printf("],[");
	for (int i = 0; i < nk; ++i) { if (i) putchar(','); pm(dom[i], dl[i]); }
	printf("],[");
	for (size_t i = 0; i < C.values->size; ++i) printf("%s%d", i ? "," : "", *(int*)vec_at(C.values, i));
	printf("],[");
	for (int i = 0; i < nt; ++i) printf("%s%d", i ? "," : "", clook(&T[i]));
	printf("]]]\n");
}
int main(int argc, char** argv)
{
	FILE* f = fopen(argv[1], "r");
	char* l = NULL; size_t c = 0;
	(void)getline(&l, &c, f);
	sscanf(l, "%d %d", &nk, &nt);
	for (int i = 0; i < nk + nt; ++i) {
		(void)getline(&l, &c, f);
		if (strchr(l, '\n')) *strchr(l, '\n') = 0;
		if (i < nk) { A_[0] = l; NA_ = 1; dom[i] = BY(0, &dl[i], 0); }
		else T[i - nk] = parse_tup(l);
	}
	while (next_op()) {
		int n = 0;
		if (OP("bget")) {
			char* k = BY(1, &n, 0);
			struct tup t = {{{k, n}, {k, n}}, 2};
			printf("[["); pm(k, n); printf(",%d]", clook(&t));
			free(k);
			obs();
			continue;
		}
		if (OP("new")) {
			if (live) { multimap_destroy(&M); compositemap_destroy(&C); }
			multimap_construct_(&M, int, I(1), I(2));
			compositemap_construct_(&C, int, I(1), I(2));
			live = true;
		} else if (OP("mset")) {
			char* k = BY(1, &n, 0); int x = I(2);
			multimap_nset(&M, k, &x, n);
			free(k);
		} else if (OP("cset")) {
			struct tup t = parse_tup(A_[1]);
			cput(&t, I(2));
			free_tup(&t);
		} else if (OP("mclear")) multimap_clear(&M);
		else if (OP("cclear")) compositemap_clear(&C);
		else if (OP("bulk")) {
			struct { stringview v[64]; int n; } b = {0};
			char* p = A_[1] + 1;
			int base = I(2), j = 0;
			while (*p == '[') {
				char* e = strchr(p, ']');
				char save = e[1];
				e[1] = 0;
				A_[2] = p; NA_ = 3;
				char* k = BY(2, &n, 0);
				struct tup t = {{{k, n}, {k, n}}, 2};
				int x = base + j;
				multimap_nset(&M, k, &x, n);
				cput(&t, x);
				++j;
				free(k);
				e[1] = save;
				p = e + 1;
				if (*p == ',') ++p;
			}
		} else exit(77);
		printf("[0");
		obs();
	}
}
