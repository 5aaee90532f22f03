/* U14: replays specs/Helpers.tla on the helpers of util/util.c */
#include "drv.h"
#include <unistd.h>
#include <fcntl.h>
#include "util.h"
static void ptxt(const char* s) { pbytes(s, strlen(s)); }
int main(void)
{
	int n, m;
	char cwd[200], d[256];
	(void)!getcwd(cwd, sizeof cwd);
	sprintf(d, "%s/helpXXXXXX", cwd);
	if (!mkdtemp(d)) exit(77);
	while (next_op()) {
		if (OP("new")) printf("0\n");
		else if (OP("path")) {
			char* t = BY(1, &n, 1);
			char* o = malloc(n + 1);
			getnoext(o, t);
			printf("["); ptxt(o);
			if (n && t[n - 1] == '/') printf(",[0]]\n");
			else { printf(","); ptxt(getext(t)); printf("]\n"); }
			free(o); free(t);
		} else if (OP("find")) {
			char* t = BY(1, &n, I(2)); char* f = BY(3, &m, 1);
			char* r = strnstr(t, f, I(4));
			printf("%ld\n", r ? (long)(r - t) : -1);
			free(t); free(f);
		} else if (OP("count")) {
			char* t = BY(1, &n, 1);
			char c = (char)I(2);
			unsigned lim = I(3);
			/* exact source when the limit is inside the text */
			char* e = malloc(lim + 1 > (unsigned)n + 1 ? n + 1 : lim + (lim == 0));
			memcpy(e, t, lim < (unsigned)n + 1 ? lim : n + 1);
			printf("[%d,%d,%d]\n", charcount(t, c), charncount(e, c, lim), strhaschar(t, c));
			free(e); free(t);
		} else if (OP("removeat")) { char* t = BY(1, &n, 1); removecharat(t, I(2)); ptxt(t); printf("\n"); free(t); }
		else if (OP("lower")) { char* t = BY(1, &n, 1); string_to_lower(t); ptxt(t); printf("\n"); free(t); }
		else if (OP("eq")) { char* a = BY(1, &n, 1); char* b = BY(2, &m, 1); printf("[%d,%d]\n", !!string_eq(a, b), !!istring_eq(a, b)); free(a); free(b); }
		else if (OP("dir")) {
			int k = I(1), ok = 0;
			for (int i = 0; i < k; ++i) { char b[300]; sprintf(b, "%s/f%d.x", d, i); close(open(b, O_CREAT | O_WRONLY, 0600)); }
			node* l = dir_list_files(d);
			int seen[16] = {0}, bad = 0, cnt = 0;
			for (node* it = l; it; it = it->next) {
				++cnt;
				char* s = it->data; int j = -1;
				if (!strcmp(s, ".")) j = 14; else if (!strcmp(s, "..")) j = 15; else if (sscanf(s, "f%d.x", &j) != 1 || j >= k) bad = 1;
				if (j >= 0) { if (seen[j]++) bad = 1; }
			}
			(void)ok;
			printf("%d\n", bad ? -1 : cnt);
			node_free_data(&l);
			for (int i = 0; i < k; ++i) { char b[300]; sprintf(b, "%s/f%d.x", d, i); unlink(b); }
		} else if (OP("rand")) {
			int k = I(1);
			char* b = malloc(k + 1);
			randstr(b, k);
			int bad = (int)strlen(b) != k;
			for (char* p = b; *p; ++p) if (!isalnum((unsigned char)*p)) bad = 1;
			printf("%d\n", bad ? -1 : k);
			free(b);
		} else exit(77);
	}
	rmdir(d);
}
