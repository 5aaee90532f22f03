/* U02: replays behaviours of specs/Str.tla on util/stringy */
#include "drv.h"
#include "stringy.h"
#include "stringview.h"
#include "util.h"
static string* S;
static void tail(void)
{
	if (string_c_str(S)[S->size] != 0) { fprintf(stderr, "not terminated\n"); printf("\"noterm\"\n"); return; }
	if (strlen(string_c_str(S)) != S->size) { printf("\"length\"\n"); return; }
	if (string_empty(S) != (S->size == 0)) { printf("\"empty\"\n"); return; }
	printf("[%zu,", S->size);
	pbytes(string_c_str(S), S->size);
	printf("]]\n");
}
static void obs(long r) { printf("[%ld,", r); tail(); }
int main(void)
{
	while (next_op()) {
		int n = 0, m = 0;
		char *a = NULL, *b = NULL;
		if (OP("new")) {
			if (S) { string_destroy(S); free(S); }
			if (!strcmp(A_[1], "construct")) S = new_(string);
			else if (!strcmp(A_[1], "from_cstr")) { a = BY(2, &n, 1); S = string_from_char_ptr(a); }
			else if (!strcmp(A_[1], "take")) { a = BY(2, &n, 1); S = string_take(a); a = NULL; }
			else if (!strcmp(A_[1], "from_view")) {
				a = BY(2, &n, 0);
				stringview v;
				stringview_nset(&v, a, n);
				if (n % 2) S = string_from_stringview(&v);
				else { S = malloc(sizeof(*S)); string_construct_from_stringview(S, &v); }
			} else {
				a = BY(2, &n, 1);
				string t;
				string_construct_from_char_ptr(&t, a);
				if (n % 2) S = string_from_string(&t);
				else { S = malloc(sizeof(*S)); string_construct_from_string(S, &t); }
				string_destroy(&t);
			}
			free(a);
			obs(0);
			continue;
		}
		long res = 0;
		if (OP("push")) string_push_back(S, (char)I(1));
		else if (OP("strcpy")) { a = BY(1, &n, 1); res = string_strcpy(S, a); }
		else if (OP("strcat")) { a = BY(1, &n, 1); res = string_strcat(S, a); }
		else if (OP("strncpy")) { int* l = L(1, &n); free(l); a = BY(1, &n, I(2) > n); res = string_strncpy(S, a, I(2)); }
		else if (OP("strncat")) { int* l = L(1, &n); free(l); a = BY(1, &n, I(2) > n); res = string_strncat(S, a, I(2)); }
		else if (OP("copy") || OP("append")) {
			a = BY(1, &n, 1);
			string* t = string_from_char_ptr(a);
			if (OP("copy")) string_copy(S, t); else string_append(S, t);
			string_destroy(t);
			free(t);
		} else if (OP("copy_view") || OP("append_view")) {
			a = BY(1, &n, 0);
			stringview v = {a, n};
			if (OP("copy_view")) string_copy_from_stringview(S, &v); else string_append_stringview(S, &v);
		} else if (OP("sprintf")) { a = BY(2, &n, 1); res = string_sprintf(S, "%ld:%s", I(1), a); }
		else if (OP("clear")) string_clear(S);
		else if (OP("resize")) string_resize(S, I(1));
		else if (OP("export")) {
			char* p = string_export(S);
			printf("[");
			pbytes(p, strlen(p));
			printf(",");
			free(p);
			tail();
			continue;
		} else if (OP("view")) {
			stringview v = string_get_stringview(S), w, x;
			stringview_set_string(&w, S);
			stringview_set(&x, string_c_str(S));
			if (v.data != w.data || v.len != w.len || x.data != v.data || x.len != v.len) printf("[-1,"); else { printf("["); pbytes(v.data, v.len); printf(","); }
			tail();
			continue;
		} else {
			int lim = strstr(A_[0], "_lim") != NULL;
			a = BY(1, &n, 1);
			b = BY(2, &m, !lim);
			if (!strncmp(A_[0], "one", 3)) {
				const char* p;
				if (OP("one")) p = string_find_replace_one(S, a, b, I(3));
				else if (OP("one_lim")) p = string_find_replace_one_limited(S, a, b, I(3), m);
				else if (OP("one_nc")) p = string_find_replace_one_nocase(S, a, b, I(3));
				else if (OP("one_nc_lim")) p = string_find_replace_one_nocase_limited(S, a, b, I(3), m);
				else exit(77);
				res = p - string_c_str(S);
			} else if (OP("all")) string_find_replace(S, a, b);
			else if (OP("all_lim")) string_find_replace_limited(S, a, b, m);
			else if (OP("all_nc")) string_find_replace_nocase(S, a, b);
			else if (OP("all_nc_lim")) string_find_replace_nocase_limited(S, a, b, m);
			else exit(77);
		}
		free(a);
		free(b);
		obs(res);
	}
	return 0;
}
