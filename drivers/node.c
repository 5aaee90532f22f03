/* U03: replays behaviours of specs/NodeList.tla on util/node */
#include "drv.h"
#include "util.h"
#include "node.h"
static node* H[3];
static node* hand;
static int* mk(long v) { int* p = malloc(sizeof(int)); *p = v; return p; }
static int val(void* p) { return p ? *(int*)p : 0; }
static int freed[4096], nfreed;
static void ff(void* p) { freed[nfreed++] = *(int*)p; free(p); }
static void list(node* h)
{
	int c = 0;
	printf("[%d,[", node_count(h));
	if (h && h->prev) printf("-99,");
	for (node* i = h; i && c < 5000; i = i->next, ++c) printf("%s%d", c ? "," : "", val(i->data));
	printf("],[");
	c = 0;
	for (node* i = node_back(h); i && c < 5000; i = i->prev, ++c) printf("%s%d", c ? "," : "", val(i->data));
	printf("]]");
}
static void tail(void) { printf(",["); list(H[1]); printf(","); list(H[2]); printf("]]\n"); }
static void obs(int r) { printf("[%d", r); tail(); }
int main(void)
{
	while (next_op()) {
		int l = NA_ > 1 ? I(1) : 0;
		int r = 0;
		void* p = NULL;
		if (OP("new")) {
			for (l = 1; l < 3; ++l) node_free_data(&H[l]);
			if (hand) { free(hand->data); free(hand); hand = NULL; }
		}
		else if (OP("push")) r = val(node_push(&H[l], mk(I(2)))->data);
		else if (OP("enqueue")) r = val(node_enqueue(&H[l], mk(I(2)))->data);
		else if (OP("pop")) { p = node_pop(&H[l]); r = val(p); free(p); }
		else if (OP("dequeue")) { p = node_dequeue(&H[l]); r = val(p); free(p); }
		else if (OP("pop_export")) { hand = node_pop_export(&H[l]); r = hand ? val(hand->data) : 0; }
		else if (OP("dequeue_export")) { hand = node_dequeue_export(&H[l]); r = hand ? val(hand->data) : 0; }
		else if (OP("export")) { hand = node_export(node_at(H[l], I(2))); r = val(hand->data); }
		else if (OP("push_import")) { r = val(node_push_import(&H[l], hand)->data); hand = NULL; }
		else if (OP("enqueue_import")) { r = val(node_enqueue_import(&H[l], hand)->data); hand = NULL; }
		else if (OP("remove")) { p = node_remove(&H[l], node_at(H[l], I(2))); r = val(p); free(p); }
		else if (OP("delete")) node_delete(&H[l], node_at(H[l], I(2)));
		else if (OP("remove_null")) r = val(node_remove(&H[l], NULL));
		else if (OP("at")) { r = val(node_data_at(H[l], I(2))); node* q = node_at(H[l], I(2)); if ((q ? val(q->data) : 0) != r) r = -1; }
		else if (OP("ends")) {
			node* q = node_at(H[l], I(2));
			int a = val(node_front(q)->data), b = val(node_back(q)->data);
			if (node_top(q) != node_front(q) || node_bottom(q) != node_back(q)) a = -1;
			printf("[[%d,%d]", a, b);
			tail();
			continue;
		} else if (OP("free_data") || OP("free")) {
			if (OP("free")) for (node* i = H[l]; i; i = i->next) { free(i->data); i->data = NULL; }
			/* any member may stand for the list here */
			if (OP("free")) node_free(&H[l]); else node_free_data(&H[l]);
			printf("[[]");
			tail();
			continue;
		} else if (OP("free_func")) {
			nfreed = 0;
			node_free_func(&H[l], ff);
			printf("[[");
			for (int i = 0; i < nfreed; ++i) printf("%s%d", i ? "," : "", freed[i]);
			printf("]");
			tail();
			continue;
		} else exit(77);
		if (hand && (hand->next || hand->prev)) r = -2;
		obs(r);
	}
	return 0;
}
