/* U12: replays conversions of specs/Fields.tla on str2long, str2double, field_*. */
#include "drv.h"
#include "field.h"
#include "util.h"
static void ptxt(const char* s) { pbytes(s, strlen(s)); }
static void psv(stringview* v) { pbytes(v->data, v->len); }
static void res(int fail, const char* s) { printf("[%d,", !fail); if (fail) printf("[]"); else ptxt(s); printf("]"); }
int main(void)
{
	int n;
	if (!getenv("VF_UNBUF")) (void)!freopen("/dev/null", "w", stderr);
	while (next_op()) {
		if (OP("new")) printf("0\n");
		else if (OP("toint")) {
			char* t = BY(1, &n, 1);
			long a = 77, b = 77, c = 77;
			char ta[64], tb[64];
			int fa = str2long(&a, t) != 0, fb = str2long10(&b, t) != 0;
			union field f; enum field_type ty = FIELD_STRING;
			string* s = string_from_char_ptr(t);
			f.s = s;
			int fc = field_to_int(&c, &f, &ty) != FQL_GOOD;
			if (fc != fa || (!fc && (c != a || ty != FIELD_INT || f.i != a))) fa = 7;
			sprintf(ta, "%ld", a); sprintf(tb, "%ld", b);
			printf("["); 
			if (fa == 7) printf("\"field_to_int differs\""); else res(fa, ta);
			printf(","); res(fb, tb); printf("]\n");
			delete_(string, s);
			free(t);
		} else if (OP("tofloat")) {
			char* t = BY(1, &n, 1);
			double a = 77, c = 77;
			int fa = str2double(&a, t) != 0;
			union field f; enum field_type ty = FIELD_STRING;
			string* s = string_from_char_ptr(t);
			f.s = s;
			int fc = field_to_float(&c, &f, &ty) != FQL_GOOD;
			char ta[400];
			sprintf(ta, "%lf", a);
			if (fc != fa || (!fc && (c != a || ty != FIELD_FLOAT || f.f != a))) printf("\"field_to_float differs\"\n");
			else { res(fa, ta); printf("\n"); }
			delete_(string, s);
			free(t);
		} else if (OP("fromint")) {
			char* t = BY(1, &n, 1);
			long v = strtol(t, NULL, 10), back = 0;
			string* d = string_from_char_ptr("old content that is longer");
			stringview sv;
			union field f; f.i = v; enum field_type ty = FIELD_INT;
			int ok = field_to_stringview(&sv, d, &f, &ty) == FQL_GOOD && ty == FIELD_STRING && f.s == d;
			ok = ok && field_to_int(&back, &f, &ty) == FQL_GOOD && back == v && ty == FIELD_INT;
			ok = ok && field_to_int(&back, &f, &ty) == FQL_GOOD && back == v;
			if (!ok) printf("[\"no round trip\",[]]\n");
			else {
				printf("["); psv(&sv);
				double x = 0;
				if (n - (t[0] == '-') <= 15) {
					ok = field_to_float(&x, &f, &ty) == FQL_GOOD && ty == FIELD_FLOAT;
					ok = ok && field_to_stringview(&sv, d, &f, &ty) == FQL_GOOD;
					printf(",["); if (ok) psv(&sv); printf("]");
				} else printf(",[]");
				printf("]\n");
			}
			delete_(string, d);
			free(t);
		} else if (OP("fromfloat")) {
			char* t = BY(1, &n, 1);
			double v = strtod(t, NULL), back = 0; long l = 0;
			string* d = new_(string);
			stringview sv;
			union field f; f.f = v; enum field_type ty = FIELD_FLOAT;
			int ok = field_to_stringview(&sv, d, &f, &ty) == FQL_GOOD && ty == FIELD_STRING;
			printf("["); if (ok) psv(&sv); else printf("0");
			ok = field_to_float(&back, &f, &ty) == FQL_GOOD && field_to_int(&l, &f, &ty) == FQL_GOOD && ty == FIELD_INT && f.i == l;
			char b[64]; sprintf(b, "%ld", l);
			printf(","); if (ok) ptxt(b); else printf("0");
			printf("]\n");
			delete_(string, d);
			free(t);
		} else if (OP("limit")) {
			char* t = BY(2, &n, 1);
			unsigned lim = I(3);
			string* d = new_(string);
			stringview sv;
			union field f; enum field_type ty = I(1);
			if (ty == FIELD_INT) f.i = strtol(t, NULL, 10);
			else if (ty == FIELD_FLOAT) f.f = strtod(t, NULL);
			else { string_strcpy(d, t); f.s = d; }
			int ok = field_to_stringview_limited(&sv, d, &f, &ty, lim) == FQL_GOOD && ty == FIELD_STRING && f.s == d && strlen(string_c_str(d)) == sv.len;
			if (ok) { psv(&sv); printf("\n"); } else printf("0\n");
			delete_(string, d);
			free(t);
		} else if (OP("types")) {
			printf("[");
			for (int i = 0; i < 9; ++i) printf("%s%d", i ? "," : "", field_determine_type(i / 3, i % 3));
			printf("]\n");
		} else exit(77);
	}
}
