/* U09: replays behaviours of specs/DGraph.tla on util/dgraph. */
#include "drv.h"
#include "dgraph.h"
#include "util.h"
static dgraph* G[3];
static dnode* N[128];
static long id[128];
static int nn;
static void prn(dnode* n, int first) { printf("%s%ld", first ? "" : ",", n ? *(long*)n->data : -1); }
int main(void)
{
	while (next_op()) {
		if (OP("new")) {
			for (int g = 1; g <= 2; ++g) { if (G[g]) { dgraph_destroy(G[g]); free(G[g]); } G[g] = malloc(sizeof(dgraph)); dgraph_construct(G[g]); }
			nn = 0;
			printf("0\n");
		} else if (OP("add")) {
			++nn;
			id[nn] = nn;
			dgraph* g = G[I(1)];
			if (I(5)) N[nn] = dgraph_add_data(g, &id[nn]);
			else { dnode* n = new_(dnode, &id[nn]); N[nn] = dgraph_add_node(g, n); }
			N[nn]->is_root = I(2);
			N[nn]->out[0] = I(3) ? N[I(3)] : NULL;
			N[nn]->out[1] = I(4) ? N[I(4)] : NULL;
			printf("%ld\n", *(long*)g->newest->data);
		} else if (OP("edge")) { N[I(1)]->out[I(2)] = I(3) ? N[I(3)] : NULL; printf("0\n"); }
		else if (OP("remove")) {
			dnode** p = vec_at(G[I(1)]->nodes, I(2) - 1);
			long* d = dgraph_remove(G[I(1)], p);
			printf("%ld\n", *d);
		} else if (OP("consume")) {
			dgraph_consume(G[1], G[2]);
			G[2] = malloc(sizeof(dgraph));
			dgraph_construct(G[2]);
			printf("0\n");
		} else if (OP("roots")) {
			vec* r = dgraph_get_roots(G[I(1)]);
			if (dgraph_root_count(G[I(1)]) != r->size) { printf("-1\n"); continue; }
			printf("[[");
			for (size_t i = 0; i < r->size; ++i) prn(*(dnode**)vec_at(r, i), !i);
			printf("],%zu]\n", G[I(1)]->nodes->size);
		} else if (OP("traverse")) {
			dgraph_traverse_reset(G[I(1)]);
			long k = I(2);
			putchar('[');
			dnode* n;
			long i = 0;
			for (; i < k && (n = dgraph_traverse(G[I(1)])); ++i) prn(n, !i);
			if (i < k && dgraph_traverse(G[I(1)])) printf(",\"more\"");
			printf("]\n");
		} else exit(77);
	}
}
