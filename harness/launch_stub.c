// Stand-ins for the seatd and the command that seatd-launch starts. Both note
// what they were given in files of the working directory and follow its plan.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>
extern char **environ;
static char sock[200];
static int smode, sdelay, cmode, cstatus, cdelay;
static long long now(void) {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000000000ll + t.tv_nsec;
}
static void plan(void) {
	FILE *f = fopen("plan", "r");
	if (!f || fscanf(f, "%d %d %d %d %d %199s", &smode, &sdelay, &cmode, &cstatus, &cdelay, sock) != 6) _exit(99);
	fclose(f);
}
static void record(const char *name, int argc, char **argv) {
	char tmp[64];
	snprintf(tmp, sizeof tmp, "%s.tmp%d", name, (int)getpid());
	FILE *f = fopen(tmp, "w");
	if (!f) _exit(98);
	uid_t r, e, s;
	gid_t gr, ge, gs;
	getresuid(&r, &e, &s);
	getresgid(&gr, &ge, &gs);
	fprintf(f, "pid %d\ntime %lld\nuids %d %d %d\ngids %d %d %d\n", (int)getpid(), now(), (int)r, (int)e, (int)s, (int)gr, (int)ge, (int)gs);
	for (int i = 0; i < argc; i++) fprintf(f, "arg %s\n", argv[i]);
	for (char **p = environ; *p; p++) fprintf(f, "env %s\n", *p);
	int own = fileno(f);
	DIR *d = opendir("/proc/self/fd");
	if (d) {
		struct dirent *x;
		while ((x = readdir(d))) {
			int n = atoi(x->d_name);
			if (x->d_name[0] == '.' || n == own || n == dirfd(d)) continue;
			char p[300], l[300];
			snprintf(p, sizeof p, "/proc/self/fd/%d", n);
			ssize_t k = readlink(p, l, sizeof l - 1);
			l[k < 0 ? 0 : k] = 0;
			int fl = fcntl(n, F_GETFL);
			fprintf(f, "fd %d %d %s\n", n, fl & O_ACCMODE, l);
		}
		closedir(d);
	}
	struct stat st;
	if (lstat(sock, &st) == 0) fprintf(f, "sock %o %d %d %d\n", st.st_mode & 07777, (int)st.st_uid, (int)st.st_gid, S_ISSOCK(st.st_mode));
	else fprintf(f, "nosock\n");
	fclose(f);
	rename(tmp, name);
}
int main(int argc, char **argv) {
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	plan();
	const char *b = strrchr(argv[0], '/');
	b = b ? b + 1 : argv[0];
	if (!strcmp(b, "seatd")) {
		prctl(PR_SET_PDEATHSIG, 0);
		record("seatd.rec", argc, argv);
		int n = -1;
		for (int i = 1; i + 1 < argc; i++)
			if (!strcmp(argv[i], "-n")) n = atoi(argv[i + 1]);
		usleep((useconds_t)sdelay);
		if (smode == 1) _exit(1);
		if (smode == 9) { raise(SIGKILL); _exit(1); }
		if (smode == 4) { usleep(30000); _exit(1); }
		if (smode == 5) { close(n); usleep(10000); _exit(1); }
		if (smode != 2) {
			struct sockaddr_un a = {0};
			a.sun_family = AF_UNIX;
			strncpy(a.sun_path, sock, sizeof a.sun_path - 1);
			unlink(sock);
			int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
			if (bind(fd, (struct sockaddr *)&a, sizeof a) || listen(fd, 4)) _exit(97);
			if (cmode & 16) chmod(sock, 0777);
		}
		FILE *f = fopen("announced", "w");
		fprintf(f, "%lld\n", now());
		fclose(f);
		if (write(n, "\n", 1) < 0) _exit(96);
		close(n);
		if (smode == 3) _exit(0);
		for (;;) pause();
	}
	int pid = 0;
	FILE *f = fopen("seatd.rec", "r");
	if (f) { if (fscanf(f, "pid %d", &pid) != 1) pid = 0; fclose(f); }
	record("cmd.rec", argc, argv);
	usleep((useconds_t)cdelay);
	char p[64], c = '?';
	snprintf(p, sizeof p, "/proc/%d/stat", pid);
	f = fopen(p, "r");
	if (f) { if (fscanf(f, "%*d (%*[^)]) %c", &c) != 1) c = '?'; fclose(f); }
	f = fopen("seatd.state", "w");
	if (f) { fprintf(f, "%c\n", c); fclose(f); }
	if ((cmode & 15) == 1) {
		signal(cstatus, SIG_DFL);
		raise(cstatus);
		_exit(95);
	}
	_exit(cstatus);
}
