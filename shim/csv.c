/* Stand-in implementation of the libcsv API used by fql.  Behaviour follows the
 * way fql uses libcsv (mmap-backed fields that outlive the csv_record, temp file
 * renamed into place on close, SIGINT handler that accepts -1 as "do not exit"). */
#define _GNU_SOURCE
#include "csv.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>

/* ---- temp file registry -------------------------------------------------- */
#define SLOTS 256
static char* slots[SLOTS];
static void csv_sig(int sig)
{
	for (int i = 0; i < SLOTS; ++i) {
		if (slots[i]) {
			unlink(slots[i]);
			slots[i] = NULL;
		}
	}
	if (sig != -1) {
		_exit(EXIT_FAILURE);
	}
}
__attribute__((constructor)) static void csv_sig_init(void)
{
	struct sigaction act;
	memset(&act, 0, sizeof(act));
	act.sa_handler = csv_sig;
	sigaction(SIGINT, &act, NULL);
}
static int slot_add(const char* name)
{
	for (int i = 0; i < SLOTS; ++i) {
		if (!slots[i]) {
			slots[i] = strdup(name);
			return i;
		}
	}
	return -1;
}
static void slot_del(int i)
{
	if (i >= 0 && slots[i]) {
		free(slots[i]);
		slots[i] = NULL;
	}
}

static char csv_errbuf[512];
static int fail(const char* what)
{
	snprintf(csv_errbuf, sizeof(csv_errbuf), "%s: %s", what, strerror(errno));
	return CSV_FAIL;
}
void csv_perror(void)
{
	fprintf(stderr, "%s\n", csv_errbuf);
}

/* ---- records -------------------------------------------------------------- */
struct csv_record* csv_record_new(void)
{
	return calloc(1, sizeof(struct csv_record));
}
void csv_record_free(struct csv_record* r)
{
	if (!r) return;
	free(r->fields);
	free(r->_buf);
	free(r->_line);
	free(r);
}

/* ---- reader --------------------------------------------------------------- */
struct csv_reader* csv_reader_new(void)
{
	struct csv_reader* r = calloc(1, sizeof(*r));
	r->quotes = QUOTE_RFC4180;
	r->_file = stdin;
	r->_fd = -1;
	return r;
}
int csv_reader_close(struct csv_reader* r)
{
	if (r->_map) {
		munmap(r->_map, r->_size);
		r->_map = NULL;
	}
	if (r->_fd != -1) {
		close(r->_fd);
		r->_fd = -1;
	}
	if (r->_file && r->_file != stdin) fclose(r->_file);
	r->_file = NULL;
	r->offset = 0;
	return CSV_GOOD;
}
void csv_reader_free(struct csv_reader* r)
{
	if (!r) return;
	csv_reader_close(r);
	free(r);
}
int csv_reader_open(struct csv_reader* r, const char* name)
{
	csv_reader_close(r);
	r->_is_mmap = false;
	r->_file = fopen(name, "r");
	return r->_file ? CSV_GOOD : fail(name);
}
int csv_reader_open_mmap(struct csv_reader* r, const char* name)
{
	csv_reader_close(r);
	r->_is_mmap = true;
	r->_size = 0;
	r->_fd = open(name, O_RDONLY);
	if (r->_fd == -1) return fail(name);
	struct stat sb;
	if (fstat(r->_fd, &sb) == -1) return fail(name);
	if (S_ISDIR(sb.st_mode)) {
		errno = EISDIR;
		return fail(name);
	}
	r->_size = sb.st_size;
	if (sb.st_size > 0) {
		r->_map = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE, r->_fd, 0);
		if (r->_map == MAP_FAILED) {
			r->_map = NULL;
			r->_size = 0;
			return fail(name);
		}
	}
	return CSV_GOOD;
}
int csv_reader_reset(struct csv_reader* r)
{
	r->offset = 0;
	if (r->_file) rewind(r->_file);
	return CSV_GOOD;
}
int csv_reader_seek(struct csv_reader* r, size_t off)
{
	if (!r->_is_mmap || off > r->_size) return CSV_FAIL;
	r->offset = off;
	return CSV_GOOD;
}
void csv_reader_set_delim(struct csv_reader* r, const char* d)
{
	snprintf(r->_delim, sizeof(r->_delim), "%s", d);
}
const char* csv_reader_get_delim(struct csv_reader* r)
{
	if (!r->_delim[0]) strcpy(r->_delim, ",");
	return r->_delim;
}
size_t csv_reader_get_file_size(struct csv_reader* r)
{
	return r->_is_mmap ? r->_size : 0;
}

/* On the first record without a delimiter: the candidate that occurs most. */
static void detect_delim(struct csv_reader* r, const char* s, size_t n)
{
	static const char cand[] = ",|\t;";
	size_t best = 0, nl = 0;
	char d = ',';
	while (nl < n && s[nl] != '\n') ++nl;
	for (const char* c = cand; *c; ++c) {
		size_t k = 0;
		for (size_t i = 0; i < nl; ++i) k += (s[i] == *c);
		if (k > best) {
			best = k;
			d = *c;
		}
	}
	r->_delim[0] = d;
	r->_delim[1] = 0;
}

/* Length of the record at s, excluding its terminator; *adv includes it. */
static size_t rec_len(const struct csv_reader* r, const char* s, size_t n, size_t* adv, bool* open)
{
	bool inq = false;
	size_t i = 0;
	size_t dl = strlen(r->_delim);
	bool start = true;
	*open = false;
	for (; i < n; ++i) {
		if (inq) {
			if (s[i] == '"') {
				if (r->quotes != QUOTE_WEAK && i + 1 < n && s[i + 1] == '"') {
					++i;
				} else {
					inq = false;
				}
			}
			continue;
		}
		if (s[i] == '\n') break;
		if (start && s[i] == '"' && (r->quotes == QUOTE_RFC4180 || r->quotes == QUOTE_ALL)) {
			inq = true;
			start = false;
			continue;
		}
		start = false;
		if (dl && i + dl <= n && !memcmp(&s[i], r->_delim, dl)) {
			i += dl - 1;
			start = true;
		}
	}
	if (inq) *open = true;
	*adv = i < n ? i + 1 : i;
	if (i > 0 && s[i - 1] == '\r') --i;
	return i;
}

static void add_field(struct csv_record* rec, const char* d, size_t n)
{
	if (rec->size == rec->_alloc) {
		rec->_alloc = rec->_alloc ? rec->_alloc * 2 : 16;
		rec->fields = realloc(rec->fields, rec->_alloc * sizeof(*rec->fields));
	}
	rec->fields[rec->size].data = d;
	rec->fields[rec->size].len = n;
	++rec->size;
}

/* Parse n bytes at s (one record, no terminator) into at most max fields. */
static int parse(struct csv_reader* r, struct csv_record* rec, const char* s, size_t n, unsigned max)
{
	rec->size = 0;
	rec->rec = s;
	rec->reclen = n;
	if (rec->_bufalloc < n + 1) {
		rec->_bufalloc = (n + 1) * 2;
		free(rec->_buf);
		rec->_buf = malloc(rec->_bufalloc);
	}
	char* out = rec->_buf;
	const char* delim = csv_reader_get_delim(r);
	size_t dl = strlen(delim);
	size_t i = 0;
	for (; (unsigned)rec->size < max;) {
		if (r->trim) {
			while (i < n && s[i] == ' ') ++i;
		}
		if (i < n && s[i] == '"' && r->quotes != QUOTE_NONE) {
			++i;
			char* beg = out;
			while (i < n) {
				if (s[i] == '"') {
					if (r->quotes == QUOTE_WEAK) {
						if (i + 1 == n || (i + dl < n && !memcmp(&s[i + 1], delim, dl))) break;
						*out++ = s[i++];
						continue;
					}
					if (i + 1 < n && s[i + 1] == '"') {
						*out++ = '"';
						i += 2;
						continue;
					}
					break;
				}
				*out++ = s[i++];
			}
			if (i < n) ++i;
			while (i < n && !(i + dl <= n && !memcmp(&s[i], delim, dl))) ++i;
			add_field(rec, beg, out - beg);
		} else {
			size_t beg = i;
			while (i < n && !(i + dl <= n && !memcmp(&s[i], delim, dl))) ++i;
			size_t end = i;
			if (r->trim) {
				while (end > beg && (s[end - 1] == ' ' || s[end - 1] == '\t')) --end;
			}
			add_field(rec, &s[beg], end - beg);
		}
		if (i >= n) break;
		i += dl;
	}
	return CSV_GOOD;
}

int csv_nparse(struct csv_reader* r, struct csv_record* rec, const char* s, unsigned n)
{
	return parse(r, rec, s, n, INT_MAX);
}

int csv_get_record_to(struct csv_reader* r, struct csv_record* rec, unsigned max)
{
	size_t adv, len;
	bool open;
	if (r->_is_mmap) {
		if (r->offset >= r->_size) return EOF;
		const char* s = r->_map + r->offset;
		size_t n = r->_size - r->offset;
		if (!r->_delim[0]) detect_delim(r, s, n);
		len = rec_len(r, s, n, &adv, &open);
		if (open) {
			snprintf(csv_errbuf, sizeof(csv_errbuf), "unterminated quote");
			return CSV_FAIL;
		}
		r->offset += adv;
		return parse(r, rec, s, len, max);
	}
	if (!r->_file) return EOF;
	size_t have = 0;
	for (;;) {
		int c = fgetc(r->_file);
		if (have + 1 >= rec->_linealloc) {
			rec->_linealloc = rec->_linealloc ? rec->_linealloc * 2 : 256;
			rec->_line = realloc(rec->_line, rec->_linealloc);
		}
		if (c == EOF) {
			if (have == 0) return EOF;
		} else {
			rec->_line[have++] = c;
			if (c != '\n') continue;
		}
		if (!r->_delim[0]) detect_delim(r, rec->_line, have);
		len = rec_len(r, rec->_line, have, &adv, &open);
		if (open) {
			if (c == EOF) return CSV_FAIL;
			continue;
		}
		break;
	}
	r->offset += have;
	return parse(r, rec, rec->_line, len, max);
}
int csv_get_record(struct csv_reader* r, struct csv_record* rec)
{
	return csv_get_record_to(r, rec, INT_MAX);
}

/* ---- writer --------------------------------------------------------------- */
struct csv_writer* csv_writer_new(void)
{
	struct csv_writer* w = calloc(1, sizeof(*w));
	w->quotes = QUOTE_RFC4180;
	w->_file = stdout;
	w->_slot = -1;
	strcpy(w->_delim, ",");
	strcpy(w->_term, "\n");
	return w;
}
int csv_writer_isopen(struct csv_writer* w)
{
	return w->_file && w->_file != stdout;
}
void csv_writer_free(struct csv_writer* w)
{
	if (!w) return;
	if (csv_writer_isopen(w)) {
		fclose(w->_file);
		if (w->_tempname && !w->_detached) unlink(w->_tempname);
	}
	slot_del(w->_slot);
	free(w->_filename);
	free(w->_tempname);
	free(w);
}
/* give up the temporary file */
static int drop(struct csv_writer* w)
{
	int r = fail(w->_filename ? w->_filename : w->_tempname);
	unlink(w->_tempname);
	slot_del(w->_slot);
	w->_slot = -1;
	w->_file = NULL;
	return r;
}
int csv_writer_mktmp(struct csv_writer* w)
{
	char* copy = w->_filename ? strdup(w->_filename) : NULL;
	const char* dir = copy ? dirname(copy) : ".";
	free(w->_tempname);
	w->_tempname = malloc(strlen(dir) + 32);
	sprintf(w->_tempname, "%s/write_XXXXXX", dir);
	free(copy);
	int fd = mkstemp(w->_tempname);
	if (fd == -1) return fail(w->_tempname);
	slot_del(w->_slot);
	w->_slot = slot_add(w->_tempname);
	w->_file = fdopen(fd, "w");
	if (!w->_file) {
		close(fd);
		return drop(w);
	}
	return CSV_GOOD;
}
int csv_writer_open(struct csv_writer* w, const char* name)
{
	if (csv_writer_isopen(w)) {
		snprintf(csv_errbuf, sizeof(csv_errbuf), "csv_writer already open");
		return CSV_FAIL;
	}
	free(w->_filename);
	w->_filename = strdup(name);
	w->_detached = false;
	return csv_writer_mktmp(w);
}
int csv_writer_close(struct csv_writer* w)
{
	if (w->_file == stdout || !w->_file) {
		fflush(stdout);
		return CSV_GOOD;
	}
	int bad = ferror(w->_file) != 0;
	bad |= fclose(w->_file) != 0;
	w->_file = NULL;
	if (w->_detached) {
		w->_detached = false;
		return bad ? CSV_FAIL : CSV_GOOD;
	}
	if (bad) return drop(w);
	if (!w->_filename) {
		fputs("csv_writer: file name empty\n", stderr);
		return CSV_FAIL;
	}
	if (rename(w->_tempname, w->_filename)) return drop(w);
	chmod(w->_filename, 0666);
	slot_del(w->_slot);
	w->_slot = -1;
	return CSV_GOOD;
}
char* csv_writer_detach_filename(struct csv_writer* w)
{
	w->_detached = true;
	char* f = w->_filename;
	w->_filename = NULL;
	return f;
}
char* csv_writer_export_tmp(struct csv_writer* w)
{
	if (!w->_tempname) return NULL;
	w->_detached = true;
	slot_del(w->_slot);
	w->_slot = -1;
	return strdup(w->_tempname);
}
void csv_writer_set_delim(struct csv_writer* w, const char* d)
{
	snprintf(w->_delim, sizeof(w->_delim), "%s", d);
}
void csv_writer_set_line_ending(struct csv_writer* w, const char* d)
{
	snprintf(w->_term, sizeof(w->_term), "%s", d);
}
struct csv_field csv_writer_get_delim_field(struct csv_writer* w)
{
	return (struct csv_field) {w->_delim, strlen(w->_delim)};
}
struct csv_field csv_writer_get_terminator_field(struct csv_writer* w)
{
	return (struct csv_field) {w->_term, strlen(w->_term)};
}
FILE* csv_writer_get_file(struct csv_writer* w)
{
	return w->_file;
}
void csv_writer_set_file(struct csv_writer* w, FILE* f)
{
	w->_file = f;
}
int csv_write_field(struct csv_writer* w, const struct csv_field* f)
{
	bool q = false;
	size_t dl = strlen(w->_delim);
	if (w->quotes == QUOTE_ALL) {
		q = true;
	} else if (w->quotes != QUOTE_NONE) {
		for (unsigned i = 0; i < f->len && !q; ++i) {
			char c = f->data[i];
			if (c == '\n' || c == '\r') q = true;
			if (c == '"' && w->quotes == QUOTE_RFC4180) q = true;
			if (dl && i + dl <= f->len && !memcmp(&f->data[i], w->_delim, dl)) q = true;
		}
	}
	if (!q) {
		fwrite(f->data, 1, f->len, w->_file);
		return f->len;
	}
	int len = 2;
	fputc('"', w->_file);
	for (unsigned i = 0; i < f->len; ++i) {
		fputc(f->data[i], w->_file);
		++len;
		if (f->data[i] == '"' && w->quotes != QUOTE_WEAK) {
			fputc('"', w->_file);
			++len;
		}
	}
	fputc('"', w->_file);
	return len;
}
