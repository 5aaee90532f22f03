/* U08: the threads of a scenario run as coroutines on util/fifo.c compiled with
 * conc.h and -fsanitize=thread (whose calls for every memory access end here), so
 * that any step of any thread can be followed by a step of any other.  Prints the
 * history of calls and returns of each run.
 * stdin, a line per scenario:
 *   runs seed spurious nf size icount [size icount] | thread ; thread ; ...
 *   P f mode id n close   producer of n elements  mode a add, t add_try, n nadd, m nadd_try
 *   C f mode x limit      consumer  mode w wait+get, g get_or_wait, n nget (x = block), i iterate, p peek+consume, s spin on is_empty
 *   E mode limit          consumer of fifos 0 and 1  e either, b both
 *   K f                   closes f
 */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <ucontext.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include "util/fifo.h"
#include "util/vec.h"

#define MAXT 6
#define STK 65536
typedef struct { int a, b, c; } elem;
static elem mk(int v) { elem e = {v, ~v, v * 7 + 3}; return e; }
static int val(elem* e) { return e->b == ~e->a && e->c == e->a * 7 + 3 ? e->a : -1; }

enum st { RUN, BMUTEX, BCOND, DONE };
static struct thr {
	ucontext_t ctx; char* stk; enum st st; void* m; void* c; char prog[4][12]; int np; int prio; bool yielded;
	int opf; char op[10]; int f0;
} T[MAXT];
static int nt, cur = -1, steps, susp;
static ucontext_t mainctx;
static uint64_t rs;
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs >> 20; }
static int spur, strategy, swp, chg[4];
static bool overlong;
static fifo* F[2]; static int nf, fsize[2], ficount[2];
static int prods[2];
static bool closed_by_us[2];

/* ---------------------------------------------------------------- history */
static char hist[1 << 16]; static int hl;
static void hadd(const char* fmt, ...) {
	va_list ap; va_start(ap, fmt);
	if (hl < (int) sizeof hist - 400) hl += vsnprintf(hist + hl, sizeof hist - hl, fmt, ap);
	va_end(ap);
}
/* -------------------------------------------------------------- scheduler */
static void point(void) {
	if (cur < 0) return;
	if (++steps > 6000) { overlong = true; swapcontext(&T[cur].ctx, &mainctx); }
	if (strategy == 0) { if (rnd() % swp) return; }
	else { for (int i = 0; i < 3; ++i) if (chg[i] == steps) T[cur].prio = -steps; if (!(rnd() % 400)) {} else {
		int best = cur; for (int i = 0; i < nt; ++i) if (T[i].prio > T[best].prio && (T[i].st == RUN || (T[i].st == BMUTEX && *(int*) T[i].m == 0))) best = i;
		if (best == cur) return; } }
	swapcontext(&T[cur].ctx, &mainctx);
}
static void sleepy(void) { swapcontext(&T[cur].ctx, &mainctx); }
int vs_minit(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); return 0; }
int vs_mdestroy(pthread_mutex_t* m) { return 0; }
int vs_cinit(pthread_cond_t* c, const pthread_condattr_t* a) { memset(c, 0, sizeof *c); return 0; }
int vs_cdestroy(pthread_cond_t* c) { return 0; }
int vs_lock(pthread_mutex_t* m) {
	if (cur < 0) return 0;
	point();
	while (*(int*) m) { T[cur].st = BMUTEX; T[cur].m = m; sleepy(); T[cur].st = RUN; }
	*(int*) m = cur + 1; return 0;
}
int vs_trylock(pthread_mutex_t* m) {
	if (cur < 0) return 0;
	point();
	if (*(int*) m) return EBUSY;
	*(int*) m = cur + 1; return 0;
}
int vs_unlock(pthread_mutex_t* m) {
	if (cur < 0) return 0;
	point();
	if (*(int*) m != cur + 1) { hadd("[\"err\",%d,\"unlock of a mutex not held\"],", cur); susp = 1; return EPERM; }
	*(int*) m = 0; point(); return 0;
}
int vs_wait(pthread_cond_t* c, pthread_mutex_t* m) {
	if (cur < 0) return 0;
	point();
	if (*(int*) m != cur + 1) { hadd("[\"err\",%d,\"wait without the mutex\"],", cur); susp = 1; return EPERM; }
	*(int*) m = 0;
	T[cur].st = BCOND; T[cur].c = c; T[cur].m = m;
	sleepy();                       /* woken: BMUTEX */
	T[cur].st = RUN;
	while (*(int*) m) { T[cur].st = BMUTEX; T[cur].m = m; sleepy(); T[cur].st = RUN; }
	*(int*) m = cur + 1; return 0;
}
int vs_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return vs_wait(c, m); }
int vs_signal(pthread_cond_t* c) {
	if (cur < 0) return 0;
	point();
	int w[MAXT], n = 0;
	for (int i = 0; i < nt; ++i) if (T[i].st == BCOND && T[i].c == c) w[n++] = i;
	if (n) T[w[rnd() % n]].st = BMUTEX;
	return 0;
}
int vs_broadcast(pthread_cond_t* c) {
	if (cur < 0) return 0;
	point();
	for (int i = 0; i < nt; ++i) if (T[i].st == BCOND && T[i].c == c) T[i].st = BMUTEX;
	return 0;
}
int vs_yield(void) { if (cur >= 0) { T[cur].yielded = true; T[cur].prio -= 10; sleepy(); } return 0; }
/* memory */
static bool shared(const void* p) {
	if (cur < 0) return false;
	for (int i = 0; i < nf; ++i) {
		const char* b = (const char*) F[i], *d = (const char*) F[i]->buf->data;
		if (((const char*) p >= b && (const char*) p < b + sizeof(fifo)) || ((const char*) p >= d && (const char*) p < d + F[i]->buf->_alloc * sizeof(elem))) return true;
	}
	return false;
}
void* vs_memmove(void* d, const void* s, size_t n) { if (shared(d) || shared(s)) point(); return memmove(d, s, n); }
void* vs_memcpy(void* d, const void* s, size_t n) {
	if (n >= 8 && (shared(d) || shared(s))) {
		/* element by element, in two halves */
		for (size_t o = 0; o < n; o += 4) { size_t k = n - o < 4 ? n - o : 4; point(); memcpy((char*) d + o, (const char*) s + o, k); }
		return d;
	}
	return memcpy(d, s, n);
}
void __tsan_init(void) {}
void __tsan_func_entry(void* p) {}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void* p) { if (shared(p)) point(); } void __tsan_write##n(void* p) { if (shared(p)) point(); } \
	void __tsan_unaligned_read##n(void* p) { if (shared(p)) point(); } void __tsan_unaligned_write##n(void* p) { if (shared(p)) point(); } \
	void __tsan_volatile_read##n(void* p) { if (shared(p)) point(); } void __tsan_volatile_write##n(void* p) { if (shared(p)) point(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (shared(p)) point(); }
void __tsan_write_range(void* p, size_t n) { if (shared(p)) point(); }
void __tsan_vptr_update(void* a, void* b) {}
#define AT(n, t) \
	t __tsan_atomic##n##_load(const volatile t* p, int o) { if (shared((void*) p)) point(); return *p; } \
	void __tsan_atomic##n##_store(volatile t* p, t v, int o) { if (shared((void*) p)) point(); *p = v; } \
	t __tsan_atomic##n##_exchange(volatile t* p, t v, int o) { if (shared((void*) p)) point(); t r = *p; *p = v; return r; } \
	t __tsan_atomic##n##_fetch_add(volatile t* p, t v, int o) { if (shared((void*) p)) point(); t r = *p; *p += v; return r; } \
	t __tsan_atomic##n##_fetch_sub(volatile t* p, t v, int o) { if (shared((void*) p)) point(); t r = *p; *p -= v; return r; } \
	t __tsan_atomic##n##_fetch_and(volatile t* p, t v, int o) { if (shared((void*) p)) point(); t r = *p; *p &= v; return r; } \
	t __tsan_atomic##n##_fetch_or(volatile t* p, t v, int o) { if (shared((void*) p)) point(); t r = *p; *p |= v; return r; } \
	t __tsan_atomic##n##_fetch_xor(volatile t* p, t v, int o) { if (shared((void*) p)) point(); t r = *p; *p ^= v; return r; } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile t* p, t* e, t v, int o, int o2) { if (shared((void*) p)) point(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile t* p, t* e, t v, int o, int o2) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, o, o2); } \
	t __tsan_atomic##n##_compare_exchange_val(volatile t* p, t e, t v, int o, int o2) { if (shared((void*) p)) point(); t r = *p; if (r == e) *p = v; return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {}
void __tsan_atomic_signal_fence(int o) {}

/* ---------------------------------------------------------------- threads */
static void call(const char* op, int f, const char* arg) { T[cur].opf = f; strcpy(T[cur].op, op); hadd("[\"c\",%d,\"%s\",%d,[%s]],", cur, op, f, arg); point(); }
static void ret(const char* vals, int r) { hadd("[\"r\",%d,[%s],%d],", cur, vals, r); point(); }
static int seen[2][MAXT]; static int sent[MAXT];
static void got(int f, int v) {
	if (v < 0 || v / 1000 >= nt) { susp = 1; return; }
	int p = v / 1000;
	if (v % 1000 != seen[f][p] + 1) susp = 1;
	seen[f][p] = v % 1000;
}
static bool op_empty(int f) { bool r; call("empty", f, ""); r = fifo_is_empty(F[f]); ret("", r); return r; }
static void op_close(int f) { call("close", f, ""); closed_by_us[f] = true; fifo_set_open(F[f], 0); ret("", 0); }
static void op_wait(const char* n, int f, void (*w)(fifo*)) { call(n, f, ""); w(F[f]); ret("", 0); }
static void op_get(int f) {
	char b[40]; call("get", f, ""); elem e = *(elem*) fifo_get(F[f]); int v = val(&e); got(f, v); sprintf(b, "%d", v); ret(b, 0);
}
static void producer(int f, char mode, int n, int id) {
	char b[400]; vec src; int next = 1;
	vec_construct(&src, sizeof(elem));
	bool quit = false;
	while (next <= n || src.size) {
		if (mode == 'a' || mode == 't') {
			/* the way every caller goes about it */
			if (!fifo_receivable(F[f])) { if (!F[f]->is_open) { quit = true; break; } op_wait("wget", f, &fifo_wait_for_get); continue; }
			elem e = mk(id * 1000 + next); sprintf(b, "%d", e.a);
			if (mode == 'a') { call("add", f, b); fifo_add(F[f], &e); ret("", 0); ++next; }
			else { call("addtry", f, b); int r = fifo_add_try(F[f], &e); ret("", r ? 1 : 0); if (r) vs_yield(); else ++next; }
		} else {
			while (next <= n && src.size < 3) { elem e = mk(id * 1000 + next++); vec_push_back(&src, &e); }
			int l = 0, k0 = src.size; b[0] = 0;
			for (int i = 0; i < k0; ++i) l += sprintf(b + l, "%s%d", i ? "," : "", ((elem*) src.data)[i].a);
			int r = 0;
			call(mode == 'n' ? "nadd" : "naddtry", f, b);
			if (mode == 'n') fifo_nadd(F[f], &src); else r = fifo_nadd_try(F[f], &src);
			int k = k0 - src.size;
			/* what is left in src must be the rest */
			for (int i = 0; i < (int) src.size; ++i) if (val(&((elem*) src.data)[i]) != id * 1000 + next - (int) src.size + i) { hadd("[\"err\",%d,\"source vector\"],", cur); susp = 1; }
			sprintf(b, "%d", k); ret(b, r ? 1 : 0);
			if (r) vs_yield(); else if (k == 0) { if (!F[f]->is_open) { quit = true; break; } op_wait("wget", f, &fifo_wait_for_get); }
		}
	}
	(void) quit;
	vec_destroy(&src);
}
static void consumer(int f, char mode, int x, int limit) {
	int n = 0; char b[400]; vec dst; vec_construct(&dst, sizeof(elem));
	while (n < limit) {
		if (mode == 'g') {
			call("gow", f, ""); elem* p = fifo_get_or_wait(F[f]);
			if (!p) { ret("", 1); break; }
			elem e = *p; int v = val(&e); got(f, v); sprintf(b, "%d", v); ret(b, 0); ++n; continue;
		}
		if (mode == 's') { if (op_empty(f)) { if (!F[f]->is_open && op_empty(f)) break; vs_yield(); continue; } op_get(f); ++n; continue; }
		op_wait("wadd", f, &fifo_wait_for_add);
		if (op_empty(f)) break;
		if (mode == 'w') { op_get(f); ++n; }
		else if (mode == 'p') {
			call("peek", f, ""); elem* p = fifo_safe_peek(F[f]); if (p) { elem e = *p; sprintf(b, "%d", val(&e)); } else b[0] = 0; ret(b, 0);
			if (p) { int v = atoi(b); got(f, v); call("consume", f, ""); fifo_consume(F[f]); ret("", 0); ++n; }
		} else if (mode == 'n') {
			vec_clear(&dst);
			sprintf(b, "%d,%d", x, 3); call("nget", f, b);
			int r = fifo_nget(F[f], &dst, x, 3); int l = 0; b[0] = 0;
			for (int i = 0; i < (int) dst.size; ++i) { int v = val(&((elem*) dst.data)[i]); got(f, v); l += sprintf(b + l, "%s%d", i ? "," : "", v); }
			ret(b, r); n += dst.size;
			if (!dst.size) { if (!F[f]->is_open) { /* a block will not come any more */ op_get(f); ++n; } else vs_yield(); }
		} else if (mode == 'i') {
			elem* p = fifo_begin(F[f]);
			while (p != fifo_end(F[f])) {
				call("take", f, ""); elem e = *p; int v = val(&e); got(f, v); sprintf(b, "%d", v); p = fifo_iter(F[f]); ret(b, 0); ++n;
			}
			if (x) { call("update", f, ""); int r; while ((r = fifo_update_try(F[f])) != 0) vs_yield(); ret("", 0); }
			else { call("update", f, ""); fifo_update(F[f]); ret("", 0); }
		}
	}
	vec_destroy(&dst);
	if (n >= limit) op_close(f);
}
static void consumer2(char mode, int limit) {
	int n = 0;
	for (;;) {
		call(mode == 'e' ? "weither" : "wboth", 0, "");
		if (mode == 'e') fifo_wait_for_add_either(F[0], F[1]); else fifo_wait_for_add_both(F[0], F[1]);
		ret("", 0);
		if (mode == 'e') {
			bool e0 = op_empty(0), e1 = op_empty(1);
			if (!e0) { op_get(0); ++n; }
			if (!e1) { op_get(1); ++n; }
			if (n >= limit) { op_close(0); op_close(1); break; }
			if (e0 && e1) break;
			if (!F[0]->is_open || !F[1]->is_open) break;
		} else {
			if (op_empty(0) || op_empty(1)) break;
			op_get(0); op_get(1); n += 2;
			if (n >= limit) { op_close(0); op_close(1); break; }
		}
	}
	/* one is closed: the rest of both */
	if (n < limit) for (int f = 0; f < 2; ++f) for (;;) { op_wait("wadd", f, &fifo_wait_for_add); if (op_empty(f)) break; op_get(f); }
}
static void entry(int t) {
	struct thr* s = &T[t];
	switch (s->prog[0][0]) {
	case 'P': { int f = atoi(s->prog[1]); producer(f, s->prog[2][0], atoi(s->prog[3]), t); if (!--prods[f]) op_close(f); break; }
	case 'Q': { int f = atoi(s->prog[1]); producer(f, s->prog[2][0], atoi(s->prog[3]), t); break; }
	case 'C': { consumer(atoi(s->prog[1]), s->prog[2][0], atoi(s->prog[3]) % 10, atoi(s->prog[3]) / 10); break; }
	case 'E': consumer2(s->prog[1][0], atoi(s->prog[2])); break;
	case 'K': op_close(atoi(s->prog[1])); break;
	}
	s->st = DONE;
	swapcontext(&s->ctx, &mainctx);
}
static int one(uint64_t seed) {
	rs = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 4; ++i) rnd();
	strategy = rnd() % 3 == 0; swp = (int[]) {1, 2, 3, 6, 15, 40}[rnd() % 6];
	for (int i = 0; i < 3; ++i) chg[i] = rnd() % 300;
	cur = -1; steps = 0; susp = 0; hl = 0; overlong = false; hist[0] = 0;
	memset(seen, 0, sizeof seen); closed_by_us[0] = closed_by_us[1] = false; prods[0] = prods[1] = 0;
	for (int i = 0; i < nf; ++i) { F[i] = fifo_construct(malloc(sizeof(fifo)), sizeof(elem), fsize[i]); F[i]->input_count = ficount[i]; }
	for (int i = 0; i < nt; ++i) {
		if (T[i].prog[0][0] == 'P') ++prods[atoi(T[i].prog[1])];
		getcontext(&T[i].ctx); T[i].ctx.uc_stack.ss_sp = T[i].stk; T[i].ctx.uc_stack.ss_size = STK; T[i].ctx.uc_link = NULL;
		makecontext(&T[i].ctx, (void (*)(void)) entry, 1, i); T[i].st = RUN; T[i].prio = 1000000 + rnd() % 1000; T[i].yielded = false;
	}
	int end = 0;
	for (;;) {
		int r[MAXT], n = 0, done = 0;
		for (int i = 0; i < nt; ++i) { if (T[i].st == DONE) ++done; if ((T[i].st == RUN || (T[i].st == BMUTEX && *(int*) T[i].m == 0)) && !T[i].yielded) r[n++] = i; }
		if (n == 0) for (int i = 0; i < nt; ++i) if (T[i].yielded) { T[i].yielded = false; if (T[i].st != DONE) r[n++] = i; }
		if (n == 0) { end = done == nt ? 1 : 2; break; }
		if (overlong) { end = 3; break; }
		if (spur && rnd() % spur == 0) { int i = rnd() % nt; if (T[i].st == BCOND) T[i].st = BMUTEX; }
		int t = r[rnd() % n];
		if (strategy) for (int i = 0; i < n; ++i) if (T[r[i]].prio > T[t].prio) t = r[i];
		T[t].yielded = false;
		for (int i = 0; i < nt; ++i) if (i != t && rnd() % 4 == 0) T[i].yielded = false;
		cur = t; swapcontext(&mainctx, &T[t].ctx); cur = -1;
	}
	if (end == 1) {
		for (int f = 0; f < nf; ++f) {
			char b[600]; int l = 0; b[0] = 0;
			for (int k = 0; !fifo_is_empty(F[f]) && k < 20; ++k) { elem e = *(elem*) fifo_get(F[f]); int v = val(&e); got(f, v); l += sprintf(b + l, "%s%d", k ? "," : "", v); }
			hadd("[\"rest\",%d,[%s]],", f, b);
		}
		for (int i = 0; i < nt; ++i) if (T[i].prog[0][0] == 'P' || T[i].prog[0][0] == 'Q') { bool lim = false; for (int k = 0; k < nt; ++k) if (strchr("CEK", T[k].prog[0][0]) ) lim = true; if (!lim && seen[atoi(T[i].prog[1])][i] != atoi(T[i].prog[3])) susp = 1; }
		/* what was added was received or is left */
	} else if (end == 2) {
		hadd("[\"stuck\","); for (int i = 0; i < nt; ++i) if (T[i].st != DONE) hadd("%s%d", hist[hl - 1] == ',' && hist[hl-2] == '"' ? "[" : ",", i); hadd("]],"); susp = susp ? 1 : 2;
		/* one that has been given what it waits for */
		for (int i = 0; i < nt; ++i) if (T[i].st != DONE) {
			int f = T[i].opf; const char* o = T[i].op;
			bool any0 = !fifo_is_empty(F[0]) || !F[0]->is_open, any1 = nf > 1 && (!fifo_is_empty(F[1]) || !F[1]->is_open);
			if (!strcmp(o, "wadd") || !strcmp(o, "gow")) { if (f ? any1 : any0) susp = 1; }
			else if (!strcmp(o, "wget")) { if (!F[f]->is_open || fifo_receivable(F[f])) susp = 1; }
			else if (!strcmp(o, "weither")) { if (any0 || any1) susp = 1; }
			else if (!strcmp(o, "wboth")) { if (!F[0]->is_open || !F[1]->is_open || (any0 && any1)) susp = 1; }
			else susp = 1;
		}
	}
	for (int i = 0; i < nf; ++i) { cur = -1; fifo_free(F[i]); }
	return end;
}
int main(int argc, char** argv) {
	int keep = argc > 1 ? atoi(argv[1]) : 20;   /* histories printed per scenario, plus every suspicious one up to 40 */
	char line[2000];
	for (int i = 0; i < MAXT; ++i) T[i].stk = malloc(STK);
	for (int sc = 0; fgets(line, sizeof line, stdin); ++sc) {
		int runs, seed, off; nt = 0;
		if (sscanf(line, "%d %d %d %d%n", &runs, &seed, &spur, &nf, &off) != 4) continue;
		char* p = line + off;
		for (int i = 0; i < nf; ++i) { int o; sscanf(p, "%d %d%n", &fsize[i], &ficount[i], &o); p += o; }
		p = strchr(p, '|') + 1;
		for (char* s = strtok(p, ";\n"); s; s = strtok(NULL, ";\n")) { memset(T[nt].prog, 0, sizeof T[nt].prog); T[nt].np = sscanf(s, "%s %s %s %s", T[nt].prog[0], T[nt].prog[1], T[nt].prog[2], T[nt].prog[3]); ++nt; }
		int stuck = 0, longs = 0, sk = 0, kept = 0, tot = 0;
		for (int k = 0; k < runs; ++k) {
			int e = one((uint64_t) seed * 1000003 + k); ++tot;
			if (e == 3) { ++longs; continue; }
			if (e == 2) ++stuck;
			bool pr = (susp == 1 && sk < 40) || (runs <= keep || (rnd() % (runs / keep + 1) == 0 && kept < 2 * keep));
			if (!pr) continue;
			if (susp == 1) ++sk; else ++kept;
			hist[hl - 1] = 0;
			printf("H %d %d %d [%s]\n", sc, k, susp, hist);
		}
		printf("S %d %d %d %d\n", sc, tot, stuck, longs);
		fflush(stdout);
	}
	return 0;
}
