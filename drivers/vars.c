/* U13: replays behaviours of specs/Vars.tla on lib/variable.  SET statements
 * write value.i / value.f themselves (fql_set), so the driver does too. */
#include "drv.h"
#include "variable.h"
#include "util.h"
static variable V;
static bool live;
static void obs(int r)
{
	printf("[%d,%d,%d,", r, V.type, V.is_null);
	char b[400];
	if ((V.is_null && V.type < SQL_VARCHAR) || V.type == SQL_UNDEFINED) printf("[]");
	else if (V.type == SQL_BIT || V.type == SQL_INT) { sprintf(b, "%ld", V.value.i); pbytes(b, strlen(b)); }
	else if (V.type == SQL_FLOAT) { sprintf(b, "%lf", V.value.f); pbytes(b, strlen(b)); }
	else if (strlen(string_c_str(V.value.s)) != V.value.s->size) printf("\"terminator\"");
	else pbytes(V.value.s->data, V.value.s->size);
	printf("]\n");
}
int main(void)
{
	int n;
	if (!getenv("VF_UNBUF")) (void)!freopen("/dev/null", "w", stderr);
	while (next_op()) {
		int r = 0;
		if (OP("new")) { if (live) variable_destroy(&V); variable_construct(&V); live = true; }
		else if (OP("limit")) V.limit = I(1);
		else if (OP("type")) r = variable_set_type(&V, I(1)) != FQL_GOOD;
		else if (OP("int")) { char* t = BY(1, &n, 1); V.is_null = false; V.value.i = strtol(t, NULL, 10); if (V.type == SQL_BIT) V.value.i = V.value.i != 0; free(t); }
		else if (OP("float")) { char* t = BY(1, &n, 1); V.is_null = false; V.value.f = strtod(t, NULL); free(t); }
		else if (OP("text")) {
			if (I(1)) {
				char* t = BY(2, &n, 0);
				stringview sv; stringview_nset(&sv, t, n);
				variable_set_stringview(&V, &sv);
				free(t);
			} else {
				char* t = BY(2, &n, 1);
				string* s = string_from_char_ptr(t);
				variable_set_string(&V, s);
				delete_(string, s);
				free(t);
			}
		} else if (OP("null")) V.is_null = true;
		else if (OP("clear")) variable_clear(&V);
		else if (OP("reset")) variable_reset(&V);
		else if (OP("import")) { char* t = BY(1, &n, 1); variable_set_import_value(&V, t); memset(t, 'z', n); free(t); }
		else exit(77);
		obs(r);
	}
}
