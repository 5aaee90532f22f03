/* U04: replays behaviours of specs/Bits.tla on bitvec */
#include "drv.h"
#include "vec.h"
#include "util.h"
static bitvec V;
static bool live;
int main(void)
{
	while (next_op()) {
		if (OP("new")) { if (live) bitvec_destroy(&V); bitvec_construct(&V); live = true; }
		else if (OP("push")) bitvec_push_back(&V, I(1));
		else if (OP("push_run")) for (int i = 0; i < I(1); ++i) bitvec_push_back(&V, I(2));
		else if (OP("set")) bitvec_set(&V, I(1), I(2));
		else if (OP("resize")) bitvec_resize(&V, I(1));
		else exit(77);
		printf("[%zu,[", V.size);
		int c = 0;
		for (size_t i = 0; i < V.size; ++i) if (bitvec_at(&V, i)) printf("%s%zu", c++ ? "," : "", i);
		printf("]]\n");
	}
}
