/* U11: replays behaviours of specs/Sig.tla on lib/fqlsig.  Each behaviour runs
 * in a child process and in a scratch directory; remove() and unlink() are
 * wrapped so that nothing outside that directory can be touched and so that a
 * signal can be raised right before or after the k-th removal. */
#include "drv.h"
#include <signal.h>
#include <dirent.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "fqlsig.h"
static char dir_[256];
static int nf;
static int arm_sig, arm_when, arm_k;
static node* N[256];
static int nn;
int __real_remove(const char*);
int __real_unlink(const char*);
static int guard(const char* p, int (*f)(const char*))
{
	if (!p || strncmp(p, dir_, strlen(dir_)) || strstr(p, "..")) { errno = EPERM; return -1; }
	if (arm_sig && --arm_k == 0) {
		int s = arm_sig;
		arm_sig = 0;
		if (!arm_when) { raise(s); return f(p); }
		int r = f(p);
		raise(s);
		return r;
	}
	return f(p);
}
int __wrap_remove(const char* p) { return guard(p, __real_remove); }
int __wrap_unlink(const char* p) { return guard(p, __real_unlink); }
static void fname(char* b, int i) { sprintf(b, "%s/f%d.tmp", dir_, i); }
static void other_handler(int s)
{
	/* like a library that cleans up and, unless given -1, exits successfully */
	char b[300];
	sprintf(b, "%s/HANDLER", dir_);
	int fd = open(b, O_CREAT | O_WRONLY | O_APPEND, 0600);
	(void)!write(fd, s == -1 ? "m" : "x", 1);
	close(fd);
	if (s != -1) _exit(0);
}
static void touch(int i)
{
	char b[300];
	fname(b, i);
	int fd = open(b, O_CREAT | O_WRONLY, 0600);
	(void)!write(fd, "data", 4);
	close(fd);
}
static void push(int i)
{
	char* b = malloc(300);
	fname(b, i);
	N[++nn] = fqlsig_tmp_push(b);
	memset(b, 'z', 299); b[299] = 0;
	free(b);
}
static void child(int in, int out, int disp)
{
	if (disp == 0) signal(SIGINT, SIG_DFL);
	else if (disp == 1) signal(SIGINT, SIG_IGN);
	else signal(SIGINT, other_handler);
	signal(SIGQUIT, SIG_DFL); signal(SIGTERM, SIG_DFL); signal(SIGHUP, SIG_DFL);
	int dn = open("/dev/null", O_WRONLY);
	if (!getenv("VF_UNBUF")) dup2(dn, 2);
	fqlsig_init_sig();
	FILE* f = fdopen(in, "r");
	char buf[256];
	(void)!write(out, "k", 1);
	while (fgets(buf, sizeof buf, f)) {
		char op[32]; int a = 0, b = 0, c = 0;
		sscanf(buf, "%31s %d %d %d", op, &a, &b, &c);
		char p[300];
		if (!strcmp(op, "create")) touch(a);
		else if (!strcmp(op, "push")) push(a);
		else if (!strcmp(op, "temp")) { touch(a); push(a); }
		else if (!strcmp(op, "release")) fqlsig_tmp_remove_node(N[a]);
		else if (!strcmp(op, "remove")) fqlsig_tmp_remove_node_and_file(N[a]);
		else if (!strcmp(op, "rmfile")) { fname(p, a); fqlsig_tmp_remove_file(p); }
		else if (!strcmp(op, "removeall")) fqlsig_tmp_removeall();
		else if (!strcmp(op, "reinit")) fqlsig_init_sig();
		else if (!strcmp(op, "sigremove")) { arm_sig = a; arm_when = b; arm_k = 1; fqlsig_tmp_remove_node_and_file(N[c]); }
		else if (!strcmp(op, "sigall")) { arm_sig = a; arm_when = b; arm_k = c; fqlsig_tmp_removeall(); }
		else if (!strcmp(op, "sigpush")) { push(b); raise(a); }
		else if (!strcmp(op, "sig")) raise(a);
		(void)!write(out, "k", 1);
	}
	_exit(0);
}
static pid_t kid; static int to, from, disp_;
static void reap_old(void)
{
	if (kid > 0) { kill(kid, SIGKILL); waitpid(kid, NULL, 0); close(to); close(from); kid = 0; }
}
static void listing(void)
{
	printf("[");
	for (int i = 1; i <= nf; ++i) { char b[300]; fname(b, i); printf("%s%d", i > 1 ? "," : "", access(b, F_OK) == 0); }
	printf("]");
}
static void clean(void)
{
	DIR* d = opendir(dir_);
	struct dirent* e;
	while ((e = readdir(d))) if (e->d_name[0] != '.') { char b[600]; sprintf(b, "%s/%s", dir_, e->d_name); __real_unlink(b); }
	closedir(d);
}
int main(void)
{
	char cwd[128];
	(void)!getcwd(cwd, sizeof cwd);
	sprintf(dir_, "%s/sigXXXXXX", cwd);
	if (!mkdtemp(dir_)) exit(77);
	signal(SIGPIPE, SIG_IGN);
	while (next_op()) {
		if (OP("new")) {
			reap_old();
			clean();
			nf = I(2); disp_ = I(1);
			int a[2], b[2];
			(void)!pipe(a); (void)!pipe(b);
			fflush(stdout);
			kid = fork();
			if (kid == 0) { close(a[1]); close(b[0]); close(0); child(a[0], b[1], disp_); }
			close(a[0]); close(b[1]);
			to = a[1]; from = b[0];
		} else {
			char l[256]; int n = 0;
			for (int i = 0; i < NA_; ++i) n += sprintf(l + n, "%s%s", i ? " " : "", A_[i]);
			l[n++] = '\n';
			(void)!write(to, l, n);
		}
		char c;
		if (read(from, &c, 1) == 1) { printf("[0,"); listing(); printf("]\n"); continue; }
		int st = 0;
		waitpid(kid, &st, 0);
		close(to); close(from);
		kid = 0;
		int fail = (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 99);
		int h = 0;
		char b[300];
		sprintf(b, "%s/HANDLER", dir_);
		int fd = open(b, O_RDONLY);
		if (fd >= 0) { char m[8]; int k = read(fd, m, 8); h = (k == 1 && m[0] == 'm') ? 1 : 2; close(fd); }
		printf("[%d,", fail ? 1 : -1); listing(); printf(",%d]\n", h);
	}
	reap_old();
	clean();
	rmdir(dir_);
}
