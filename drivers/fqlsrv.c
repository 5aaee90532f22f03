/* Fork server around the complete engine: every request is one run of the
 * command line program (src/fql.c with main renamed) or of the library driver
 * in a fresh process, as an unprivileged user, in a scratch folder.
 * request:  <seconds> <hex cwd> <hex stdin file or -> <hex arg> ...
 * reply:    <exit status> <signal> <hex stdout> <hex stderr> */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <getopt.h>
#include <grp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "fql.h"
int fql_main(int, char**);
int api_main(int, char**);
extern char** environ;

static char* unhex(const char* h)
{
	size_t n = strlen(h) / 2;
	char* r = malloc(n + 1);
	for (size_t i = 0; i < n; ++i) { unsigned x; sscanf(h + 2 * i, "%2x", &x); r[i] = x; }
	r[n] = 0;
	return r;
}
static void dump(int fd)
{
	static char b[1 << 16];
	static const char* d = "0123456789abcdef";
	off_t n = lseek(fd, 0, SEEK_END);
	putchar(' ');
	if (n > (4 << 20)) n = 4 << 20;
	putchar('x');
	for (off_t o = 0; o < n;) {
		ssize_t k = pread(fd, b, sizeof b, o);
		if (k <= 0) break;
		for (ssize_t i = 0; i < k && o + i < n; ++i) { putchar(d[(unsigned char)b[i] >> 4]); putchar(d[b[i] & 15]); }
		o += k;
	}
}
int main(int argc, char** argv)
{
	char* line = NULL;
	size_t cap = 0;
	int so = memfd_create("o", 0), se = memfd_create("e", 0);
	/* load the parser's tables once: they are inherited by every run */
	if (!getenv("FQLSRV_COLD")) {
		int keep = dup(2), nul = open("/dev/null", O_WRONLY);
		dup2(nul, 2);
		struct fqlhandle* h = fql_new();
		fql_make_plans(h, "select 1 + 2 as a, 'x' where 1 = 1 and 2 in (2, 3)");
		fql_free(h);
		h = fql_new();
		fql_make_plans(h, "select distinct left(a.x, 2), count(*) from (select 'q' x, 'y' k) a join (select 'q' x) b on a.x = b.x where a.k like 'y%' group by a.x having count(*) > 0 order by 1 desc");
		fql_free(h);
		dup2(keep, 2); close(keep); close(nul);
	}
	printf("ready\n"); fflush(stdout);
	while (getline(&line, &cap, stdin) > 0) {
		char* av[200]; int ac = 0;
		for (char* t = strtok(line, " \n"); t && ac < 199; t = strtok(NULL, " \n")) av[ac++] = t;
		if (ac < 4) continue;
		(void)!ftruncate(so, 0); lseek(so, 0, SEEK_SET);
		(void)!ftruncate(se, 0); lseek(se, 0, SEEK_SET);
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) {
			setpgid(0, 0);
			umask(0);
			if (chdir(unhex(av[1]))) _exit(120);
			int in = open(*av[2] == '-' ? "/dev/null" : unhex(av[2]), O_RDONLY);
			if (in < 0) _exit(121);
			dup2(in, 0); close(in);
			dup2(so, 1); dup2(se, 2); close(so); close(se);
			if (geteuid() == 0 && (setgroups(0, NULL) || setgid(65534) || setuid(65534))) _exit(122);
			alarm(atoi(av[0]));
			struct rlimit rl = {32 << 20, 32 << 20}, rc = {0, 0};
			setrlimit(RLIMIT_FSIZE, &rl); setrlimit(RLIMIT_CORE, &rc);
			char* args[200]; int n = 0;
			for (int i = 3; i < ac; ++i) {
				char* a = unhex(av[i]);
				if (!strncmp(a, "ENV:", 4)) putenv(a + 4); else args[n++] = a;
			}
			args[n] = NULL;
			optind = 0;
			stdin = freopen("/dev/fd/0", "r", stdin);
			int r = !strcmp(args[0], "api") ? api_main(n, args) : fql_main(n, args);
			exit(r);
		}
		int st;
		while (waitpid(p, &st, 0) < 0) ;
		kill(-p, SIGKILL);
		printf("%d %d", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
		dump(so); dump(se);
		putchar('\n');
		fflush(stdout);
	}
}
