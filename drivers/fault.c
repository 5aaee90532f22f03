/* Crash, signal and failure points at the file-system calls of the engine
 * (linked with -Wl,--wrap=...).  FAULT=<mode><k> in the environment of a run:
 *   C  count the calls only (printed as #points=<n> at the end)
 *   K  die (SIGKILL) just before call k
 *   I T H Q  be interrupted (SIGINT, SIGTERM, SIGHUP, SIGQUIT) just before call k
 *   E  call k fails (EIO; a failing fclose still closes, a failing write makes the
 *      stream fail as a full disk does)
 *   L  no file can grow over k bytes (EFBIG from the kernel)
 * Streams open for writing get a small buffer, so that what is on disk follows
 * closely what has been written. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

static int armed, busy;
static char mode;
static long at, count;

static void done(void)
{
	char b[64];
	int n = snprintf(b, sizeof b, "\n#points=%ld\n", count);
	(void)!write(2, b, n);
}
static void arm(void)
{
	const char* f = getenv("FAULT");
	if (!f) return;
	armed = 1;
	mode = f[0];
	at = atol(f + 1);
	if (mode == 'C') atexit(done);
	if (mode == 'L') {
		struct rlimit rl = {at, at};
		signal(SIGXFSZ, SIG_IGN);
		setrlimit(RLIMIT_FSIZE, &rl);
	}
}
/* one call; returns 1 if it has to fail */
static int point(void)
{
	if (!armed) arm();
	if (!armed || busy) return 0;
	++count;
	if (count != at) return 0;
	switch (mode) {
	case 'K': raise(SIGKILL); break;
	case 'I': raise(SIGINT); break;
	case 'T': raise(SIGTERM); break;
	case 'H': raise(SIGHUP); break;
	case 'Q': raise(SIGQUIT); break;
	case 'E': errno = EIO; return 1;
	}
	return 0;
}
static FILE* small(FILE* f, const char* m)
{
	if (f && armed && strpbrk(m, "wa+")) setvbuf(f, malloc(8), _IOFBF, 8);
	return f;
}
/* the terminal, and streams in memory */
static int std(FILE* f) { return f == stdout || f == stderr || f == stdin || fileno(f) < 0; }
/* a write that fails: the stream carries the error (glibc) */
static void spoil(FILE* f) { f->_flags |= 0x20; errno = ENOSPC; }
#define R(name) __real_##name
#define W(name) __wrap_##name
FILE* R(fopen)(const char*, const char*);
FILE* W(fopen)(const char* n, const char* m) { if (point()) return NULL; return small(R(fopen)(n, m), m); }
FILE* R(fdopen)(int, const char*);
FILE* W(fdopen)(int d, const char* m) { if (point()) return NULL; return small(R(fdopen)(d, m), m); }
FILE* R(freopen)(const char*, const char*, FILE*);
FILE* W(freopen)(const char* n, const char* m, FILE* f) { if (point()) return NULL; return small(R(freopen)(n, m, f), m); }
int R(mkstemp)(char*);
int W(mkstemp)(char* t) { if (point()) return -1; return R(mkstemp)(t); }
int R(fclose)(FILE*);
int W(fclose)(FILE* f) { if (std(f)) return R(fclose)(f); int e = point(); int r = R(fclose)(f); if (e) { errno = EIO; return EOF; } return r; }
int R(close)(int);
int W(close)(int d) { int e = point(); int r = R(close)(d); if (e) { errno = EIO; return -1; } return r; }
int R(fflush)(FILE*);
int W(fflush)(FILE* f) { if (!f || std(f)) return R(fflush)(f); if (point()) return EOF; return R(fflush)(f); }
size_t R(fwrite)(const void*, size_t, size_t, FILE*);
size_t W(fwrite)(const void* p, size_t s, size_t n, FILE* f)
{
	if (std(f)) return R(fwrite)(p, s, n, f);
	if (point()) { spoil(f); return 0; }
	return R(fwrite)(p, s, n, f);
}
int R(fputs)(const char*, FILE*);
int W(fputs)(const char* s, FILE* f)
{
	if (std(f)) return R(fputs)(s, f);
	if (point()) { spoil(f); return EOF; }
	return R(fputs)(s, f);
}
int R(fputc)(int, FILE*);
int W(fputc)(int c, FILE* f)
{
	if (std(f)) return R(fputc)(c, f);
	if (point()) { spoil(f); return EOF; }
	return R(fputc)(c, f);
}
int R(fprintf)(FILE*, const char*, ...);
int W(fprintf)(FILE* f, const char* m, ...)
{
	va_list v;
	va_start(v, m);
	int r = -1;
	if (!std(f) && point()) spoil(f); else r = vfprintf(f, m, v);
	va_end(v);
	return r;
}
int R(rename)(const char*, const char*);
int W(rename)(const char* a, const char* b) { if (point()) return -1; return R(rename)(a, b); }
int R(link)(const char*, const char*);
int W(link)(const char* a, const char* b) { if (point()) return -1; return R(link)(a, b); }
int R(unlink)(const char*);
int W(unlink)(const char* a) { if (point()) return -1; return R(unlink)(a); }
int R(remove)(const char*);
int W(remove)(const char* a) { if (point()) return -1; return R(remove)(a); }
int R(open)(const char*, int, ...);
int W(open)(const char* a, int fl, ...)
{
	va_list v;
	va_start(v, fl);
	int m = fl & (O_CREAT | O_TMPFILE) ? va_arg(v, int) : 0;
	va_end(v);
	if (point()) return -1;
	return R(open)(a, fl, m);
}
ssize_t R(write)(int, const void*, size_t);
ssize_t W(write)(int d, const void* p, size_t n) { if (d < 3) return R(write)(d, p, n); if (point()) return -1; return R(write)(d, p, n); }
ssize_t R(pwrite)(int, const void*, size_t, off_t);
ssize_t W(pwrite)(int d, const void* p, size_t n, off_t o) { if (point()) return -1; return R(pwrite)(d, p, n, o); }
int R(truncate)(const char*, off_t);
int W(truncate)(const char* a, off_t n) { if (point()) return -1; return R(truncate)(a, n); }
int R(ftruncate)(int, off_t);
int W(ftruncate)(int d, off_t n) { if (!armed && !getenv("FAULT")) return R(ftruncate)(d, n); if (point()) return -1; return R(ftruncate)(d, n); }
void* R(mmap)(void*, size_t, int, int, int, off_t);
void* W(mmap)(void* a, size_t n, int p, int fl, int d, off_t o) { if (d >= 0 && point()) return MAP_FAILED; return R(mmap)(a, n, p, fl, d, o); }
int R(fstat)(int, struct stat*);
int W(fstat)(int d, struct stat* s) { if (point()) return -1; return R(fstat)(d, s); }
