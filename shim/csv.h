/* Stand-in for jasonKercher/libcsv's csv.h (the real library is not available in
 * this sandbox).  Only the part of the API that fql uses.  See DESIGN.md. */
#ifndef VERIF_SHIM_CSV_H
#define VERIF_SHIM_CSV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <libgen.h>
#include <limits.h>
#include <unistd.h>
#ifdef __cplusplus
extern "C" {
#endif

#define CSV_GOOD 0
#define CSV_FAIL (-2)

enum { QUOTE_NONE = 0, QUOTE_RFC4180 = 1, QUOTE_WEAK = 2, QUOTE_ALL = 3 };

struct csv_field {
	const char* data;
	unsigned len;
};

struct csv_record {
	struct csv_field* fields;
	const char* rec;
	size_t reclen;
	int size;
	/* private */
	int _alloc;
	char* _buf;
	size_t _bufalloc;
	size_t* _offs;
	char* _line;
	size_t _linealloc;
};

struct csv_reader {
	size_t offset; /* byte offset of the next record */
	int quotes;
	int trim;
	bool embedded_breaks;
	/* private */
	char _delim[32];
	FILE* _file;
	char* _map;
	size_t _size;
	int _fd;
	bool _is_mmap;
};

struct csv_writer {
	int quotes;
	/* private */
	char _delim[32];
	char _term[32];
	FILE* _file;
	char* _filename;
	char* _tempname;
	bool _detached;
	int _slot;
};

typedef struct csv_record csv_record;
typedef struct csv_reader csv_reader;
typedef struct csv_writer csv_writer;

struct csv_record* csv_record_new(void);
void csv_record_free(struct csv_record*);

struct csv_reader* csv_reader_new(void);
void csv_reader_free(struct csv_reader*);
int csv_reader_open(struct csv_reader*, const char*);
int csv_reader_open_mmap(struct csv_reader*, const char*);
int csv_reader_close(struct csv_reader*);
int csv_reader_reset(struct csv_reader*);
int csv_reader_seek(struct csv_reader*, size_t);
void csv_reader_set_delim(struct csv_reader*, const char*);
const char* csv_reader_get_delim(struct csv_reader*);
size_t csv_reader_get_file_size(struct csv_reader*);
int csv_get_record(struct csv_reader*, struct csv_record*);
int csv_get_record_to(struct csv_reader*, struct csv_record*, unsigned);
int csv_nparse(struct csv_reader*, struct csv_record*, const char*, unsigned);
void csv_perror(void);

struct csv_writer* csv_writer_new(void);
void csv_writer_free(struct csv_writer*);
int csv_writer_open(struct csv_writer*, const char*);
int csv_writer_close(struct csv_writer*);
int csv_writer_isopen(struct csv_writer*);
int csv_writer_mktmp(struct csv_writer*);
char* csv_writer_export_tmp(struct csv_writer*);
char* csv_writer_detach_filename(struct csv_writer*);
void csv_writer_set_delim(struct csv_writer*, const char*);
void csv_writer_set_line_ending(struct csv_writer*, const char*);
struct csv_field csv_writer_get_delim_field(struct csv_writer*);
struct csv_field csv_writer_get_terminator_field(struct csv_writer*);
FILE* csv_writer_get_file(struct csv_writer*);
void csv_writer_set_file(struct csv_writer*, FILE*);
int csv_write_field(struct csv_writer*, const struct csv_field*);

#ifdef __cplusplus
}
#endif
#endif
