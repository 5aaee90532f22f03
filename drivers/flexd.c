/* U04: replays behaviours of specs/Flex.tla on util/flex */
#include "drv.h"
#include "flex.h"
#include "util.h"
static flex F;
static bool live;
int main(void)
{
	while (next_op()) {
		int n = 0;
		char* a = NULL;
		if (OP("new")) { if (live) flex_destroy(&F); flex_construct(&F); live = true; }
		else if (OP("push")) { a = BY(1, &n, 0); flex_push_back(&F, a, n); }
		else if (OP("insert")) { a = BY(2, &n, 0); flex_insert(&F, I(1), a, n); }
		else if (OP("remove")) flex_remove(&F, I(1));
		else if (OP("pop")) flex_pop_back(&F);
		else if (OP("push_int")) flex_push_back_str_int(&F, strtol(A_[1], NULL, 10));
		else if (OP("push_float")) flex_push_back_str_float(&F, strtod(A_[1], NULL));
		else if (OP("clear")) flex_clear(&F);
		else if (OP("resize")) flex_resize(&F, I(1));
		else if (OP("reserve")) flex_reserve(&F, I(1));
		else exit(77);
		free(a);
		if (flex_empty(&F) != (flex_size(&F) == 0)) { printf("\"empty\"\n"); continue; }
		printf("[%zu,[", flex_size(&F));
		for (size_t i = 0; i < flex_size(&F); ++i) {
			stringview v = flex_pair_at(&F, i);
			if (v.data != flex_at(&F, i)) { printf("\"at\""); break; }
			if (i) putchar(',');
			pbytes(v.data, v.len);
		}
		printf("]]\n");
	}
}
