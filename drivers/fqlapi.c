/* Driver of the library interface: every argument is one call.
 *   new | free | set:<name>=<value> | import:<text> | plans:<sql> | exec:<sql>
 *   step | steps[:max] | execall | execplans:<n> | until | fields | optype
 *   optext | reset
 * Every call prints one line: the result as JSON. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fql.h"

/* the result of one call */
static FILE* o;

static void put_str(const char* s)
{
	fputc('"', o);
	for (; *s; ++s) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(o, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(o, "\\u%04x", c);
		else fputc(c, o);
	}
	fputc('"', o);
}
static void put_row(struct fql_field* f, int n)
{
	fputc('[', o);
	for (int i = 0; i < n; ++i) {
		if (i) fputc(',', o);
		if (f[i].is_null) { fprintf(o, "null"); continue; }
		switch (f[i].type) {
		case FQL_INT: fprintf(o, "[\"i\",\"%ld\"]", f[i].data.i); break;
		case FQL_FLOAT: fprintf(o, "[\"f\",\"%f\"]", f[i].data.f); break;
		case FQL_STRING: fprintf(o, "[\"s\","); put_str(f[i].data.s); fputc(']', o); break;
		default: fprintf(o, "\"?\"");
		}
	}
	fputc(']', o);
}
static const struct { const char* n; void (*f)(struct fqlhandle*, int); } SET[] = {
	{"threading", fql_set_threading}, {"cartesian", fql_set_force_cartesian},
	{"overwrite", fql_set_overwrite}, {"strict", fql_set_strict_mode},
	{"header", fql_set_print_header}, {"dryrun", fql_set_dry_run},
	{"pipe", fql_set_pipe_factor}, {"bytes", fql_set_char_as_byte},
	{"loose", fql_set_loose_groups}, {"crlf", fql_set_crlf_output},
	{"override", fql_set_override_warnings}, {"parse", fql_set_parse_only},
	{"stdin", fql_set_allow_stdin},
};
int api_main(int argc, char** argv)
{
	struct fqlhandle* h = NULL;
	struct fql_field* f = NULL;
	int n = 0;
	for (int i = 1; i < argc; ++i) {
		char* a = argv[i];
		char* v = strchr(a, ':');
		char op[32];
		snprintf(op, sizeof op, "%.*s", (int)(v ? v - a : (long)strlen(a)), a);
		if (v) ++v;
		char* text = NULL;
		size_t size = 0;
		o = open_memstream(&text, &size);
#define IS(x) (!strcmp(op, x))
		if (IS("new")) { h = fql_new(); fql_set_verbose(h, FQL_QUIET); fprintf(o, "%d", h != NULL); }
		else if (IS("free")) { fql_free(h); h = NULL; fprintf(o, "0"); }
		else if (IS("set")) {
			char* e = strchr(v, '=');
			for (size_t k = 0; k < sizeof SET / sizeof *SET; ++k)
				if (!strncmp(SET[k].n, v, e - v) && SET[k].n[e - v] == 0) SET[k].f(h, atoi(e + 1));
			if (!strncmp(v, "indelim=", 8)) fql_set_in_delim(h, e + 1);
			if (!strncmp(v, "outdelim=", 9)) fql_set_out_delim(h, e + 1);
			if (!strncmp(v, "schema=", 7)) fql_set_schema(h, e + 1);
			if (!strncmp(v, "schemapath=", 11)) fql_set_schema_path(h, e + 1);
			fprintf(o, "0");
		}
		else if (IS("import")) fprintf(o, "%d", fql_import_variable(h, v));
		else if (IS("plans")) { fprintf(o, "%d", fql_make_plans(h, v)); n = 0; }
		else if (IS("fields")) fprintf(o, "%d", fql_field_count(h));
		else if (IS("step") || IS("steps")) {
			/* the number of fields is known once a plan exists */
			int max = IS("step") ? 1 : v ? atoi(v) : 100000, r = 0, k = 0;
			if (fql_get_operation_type(h) == FQL_NONE) { fprintf(o, "\"none\""); goto next; }
			n = fql_field_count(h);
			fputc('[', o);
			while (k < max) {
				r = n < 0 ? n : fql_step(h, &f);
				if (k++) fputc(',', o);
				if (r == 1) put_row(f, n);
				else { fprintf(o, r == 0 ? "\"end\"" : "\"fail\""); break; }
			}
			fputc(']', o);
		}
		else if (IS("rawstep")) {
			/* no question asked before */
			int r = fql_step(h, &f);
			if (r == 1) { fputc('[', o); put_row(f, fql_field_count(h)); fputc(']', o); }
			else fprintf(o, r == 0 ? "[\"end\"]" : "[\"fail\"]");
		}
		else if (IS("exec")) fprintf(o, "%d", fql_exec(h, v));
		else if (IS("execall")) fprintf(o, "%d", fql_exec_all_plans(h));
		else if (IS("execplans")) fprintf(o, "%d", fql_exec_plans(h, atoi(v)));
		else if (IS("until")) fprintf(o, "%ld", fql_exec_until_select(h));
		else if (IS("optype")) fprintf(o, "%d", (int)fql_get_operation_type(h));
		else if (IS("optext")) put_str(fql_get_operation_text(h));
		else if (IS("reset")) fprintf(o, "%d", fql_reset(h));
		else { fprintf(o, "\"unknown call\""); }
next:
		fclose(o);
		printf("\001%s\n", text);
		free(text);
		fflush(stdout);
	}
	return 0;
}
