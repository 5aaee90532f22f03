/* Line protocol shared by the replay drivers: one operation per input line
 * "op arg arg ...", one JSON observation per output line.  Arguments are
 * integers, [a,b,c] integer lists (bytes or elements) or words. */
#ifndef DRV_H
#define DRV_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>

#define MAXA 16
static char* A_[MAXA];
static int NA_;
static char* line_;
static size_t linecap_;

static int next_op(void)
{
	static int first = 1;
	if (first) {
		first = 0;
		if (getenv("VF_UNBUF")) setvbuf(stdout, NULL, _IOLBF, 0);
	}
	ssize_t n = getline(&line_, &linecap_, stdin);
	if (n <= 0) return 0;
	if (line_[n - 1] == '\n') line_[n - 1] = 0;
	NA_ = 0;
	char* save = NULL;
	for (char* t = strtok_r(line_, " ", &save); t && NA_ < MAXA; t = strtok_r(NULL, " ", &save))
		A_[NA_++] = t;
	return 1;
}
#define OP(name_) (NA_ && !strcmp(A_[0], name_))
static long I(int k)
{
	if (k >= NA_) { fprintf(stderr, "driver: missing arg\n"); exit(77); }
	return strtol(A_[k], NULL, 10);
}
/* parse [1,2,3] into a malloc'ed exactly-sized int array */
static int* L(int k, int* n)
{
	if (k >= NA_) { fprintf(stderr, "driver: missing arg\n"); exit(77); }
	const char* p = A_[k];
	int cnt = 0;
	for (const char* q = p; *q; ++q) if (*q == ',') ++cnt;
	int empty = p[1] == ']';
	cnt = empty ? 0 : cnt + 1;
	int* r = malloc(sizeof(int) * (cnt ? cnt : 1));
	++p;
	for (int i = 0; i < cnt; ++i) {
		r[i] = (int)strtol(p, (char**)&p, 10);
		++p;
	}
	*n = cnt;
	return r;
}
/* parse a byte list; nul_ adds a terminator, otherwise the buffer is exact */
static char* BY(int k, int* n, int nul_)
{
	int* v = L(k, n);
	char* r = malloc(*n + (nul_ ? 1 : 0) + (*n == 0 && !nul_));
	for (int i = 0; i < *n; ++i) r[i] = (char)v[i];
	if (nul_) r[*n] = 0;
	free(v);
	return r;
}
static void pbytes(const char* s, size_t n)
{
	putchar('[');
	for (size_t i = 0; i < n; ++i) printf("%s%d", i ? "," : "", (unsigned char)s[i]);
	putchar(']');
}
#endif
