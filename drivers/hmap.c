/* U05: replays behaviours of specs/HMap.tla on hashmap and set.
 * argv: file with the key domain, one [bytes] list per line; first line: number
 * of leading keys, then all. */
#include "drv.h"
#include "hashmap.h"
#include "util.h"
static hashmap M;
static set S;
static bool live;
static char* dom[256]; static int dl[256], nd, nk;
static int look(const char* k, int n)
{
	int* p = hashmap_nget(&M, k, n);
	bool has = set_nhas(&S, k, n);
	if (has != (p != NULL)) return -5;
	return p ? *p : 0;
}
static void obs(int r)
{
	printf("[%d,[[", r);
	for (size_t i = 0; i < M.values->size; ++i) printf("%s%d", i ? "," : "", *(int*)vec_at(M.values, i));
	printf("],[");
	for (int i = 0; i < nk; ++i) printf("%s%d", i ? "," : "", look(dom[i], dl[i]));
	printf("],[");
	for (int i = nk; i < nd; ++i) printf("%s%d", i > nk ? "," : "", look(dom[i], dl[i]));
	printf("]]]\n");
}
static void put(const char* k, int n, int v)
{
	/* the same value object is reused by the caller, so the map must copy */
	int* d = malloc(sizeof(int));
	*d = v;
	hashmap_nset(&M, k, d, n);
	set_nadd(&S, k, n);
	free(d);
}
int main(int argc, char** argv)
{
	FILE* f = fopen(argv[1], "r");
	char* l = NULL; size_t c = 0;
	(void)getline(&l, &c, f);
	nk = atoi(l);
	while (getline(&l, &c, f) > 0) {
		if (strchr(l, '\n')) *strchr(l, '\n') = 0;
		A_[0] = l; NA_ = 1;
		dom[nd] = BY(0, &dl[nd], 0);
		++nd;
	}
	while (next_op()) {
		int n = 0, r = 0;
		if (OP("new")) {
			if (live) { hashmap_destroy(&M); set_destroy(&S); }
			hashmap_construct_(&M, int, I(1), I(2));
			set_construct(&S, I(1), I(2));
			live = true;
		} else if (OP("set")) { char* k = BY(1, &n, 0); put(k, n, I(2)); free(k); }
		else if (OP("get")) { char* k = BY(1, &n, 0); r = look(k, n); free(k); }
		else if (OP("clear")) { hashmap_clear(&M); set_clear(&S); }
		else if (OP("bulk")) {
			/* [[..],[..]] */
			char* p = A_[1] + 1;
			int base = I(2), j = 0;
			while (*p == '[') {
				char* e = strchr(p, ']');
				char save = e[1];
				e[1] = 0;
				A_[2] = p; NA_ = 3;
				char* k = BY(2, &n, 0);
				put(k, n, base + ++j);
				free(k);
				e[1] = save;
				p = e + 1;
				if (*p == ',') ++p;
			}
		} else exit(77);
		obs(r);
	}
}
