/* U10: replays pairs of specs/Coll.tla on the stringview comparisons and the
 * hash containers of the same mode; sources are exactly sized (no terminator). */
#include "drv.h"
#include "stringview.h"
#include "hashmap.h"
#include "util.h"
static int sg(int x) { return (x > 0) - (x < 0); }
int main(void)
{
	while (next_op()) {
		if (OP("new")) { printf("0\n"); continue; }
		if (!OP("pair")) exit(77);
		int n, m;
		char* a = BY(1, &n, 0); char* b = BY(2, &m, 0);
		stringview x, y;
		stringview_nset(&x, a, n);
		stringview_construct(&y, b, m);
		printf("[[%d,%d,%d,%d],[", sg(stringview_compare(&x, &y)), sg(stringview_compare_nocase(&x, &y)),
		       sg(stringview_compare_rtrim(&x, &y)), sg(stringview_compare_nocase_rtrim(&x, &y)));
		for (int md = 0; md < 4; ++md) {
			unsigned p = ((md & 1) ? HASHMAP_PROP_NOCASE : 0) | ((md & 2) ? HASHMAP_PROP_RTRIM : 0);
			set s;
			set_construct(&s, 2, p);
			set_nadd(&s, a, n);
			bool h = set_nhas(&s, b, m);
			set_destroy(&s);
			hashmap hm; int one = 1;
			hashmap_construct_(&hm, int, 2, p);
			hashmap_nset(&hm, b, &one, m);
			bool g = hashmap_nget(&hm, a, n) != NULL;
			hashmap_destroy(&hm);
			compositemap cm; vec kv;
			compositemap_construct_(&cm, int, 2, p);
			vec_construct_(&kv, stringview);
			vec_push_back(&kv, &x);
			compositemap_set(&cm, &kv, &one);
			vec_clear(&kv);
			vec_push_back(&kv, &y);
			bool c = compositemap_get(&cm, &kv) != NULL;
			compositemap_destroy(&cm);
			vec_destroy(&kv);
			printf("%s%d", md ? "," : "", h == g && g == c ? h : -1);
		}
		printf("]]\n");
		free(a); free(b);
	}
}
