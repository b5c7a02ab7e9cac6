/* Replay harness: runs the real code (compiled from /repo) against a scripted
 * environment, looking for a concrete failing scenario.  A scenario is a
 * deterministic function of (seed, index).
 *
 *   prog SEED FIRST COUNT SECONDS
 *
 * Exit 0: no failing scenario.  Exit 1: "FAIL seed=.. index=.. <what>". */
#ifndef NAT_H
#define NAT_H
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static uint64_t nat_s;
static uint64_t nat_next(void)
{
	uint64_t z = (nat_s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
/* uniform in [0, n) */
static unsigned nat_rnd(unsigned n) { return n ? (unsigned)(nat_next() % n) : 0; }
static int nat_p(unsigned percent) { return nat_rnd(100) < percent; }

struct nat_shm {
	volatile unsigned long index, done;
	volatile int failed;
	char what[2000];
	char script[12000];
	volatile unsigned script_len;
};
static struct nat_shm *nat_sh;

static void nat_note(const char *fmt, ...)
{
	va_list ap;
	int n;
	unsigned l = nat_sh->script_len;
	if (l > sizeof(nat_sh->script) - 300)
		return;
	va_start(ap, fmt);
	n = vsnprintf(nat_sh->script + l, 290, fmt, ap);
	va_end(ap);
	if (n > 289)
		n = 289;
	nat_sh->script_len = l + (unsigned)n;
}

static void nat_fail(const char *fmt, ...)
{
	va_list ap;
	if (!nat_sh->failed) {
		va_start(ap, fmt);
		vsnprintf(nat_sh->what, sizeof(nat_sh->what), fmt, ap);
		va_end(ap);
		nat_sh->failed = 1;
	}
	_exit(3);
}
#define CHECK(c, ...) do { if (!(c)) nat_fail(__VA_ARGS__); } while (0)

static void scenario(unsigned long index);

static int nat_main(int argc, char **argv)
{
	unsigned long seed = argc > 1 ? strtoul(argv[1], NULL, 0) : 1;
	unsigned long first = argc > 2 ? strtoul(argv[2], NULL, 0) : 0;
	unsigned long count = argc > 3 ? strtoul(argv[3], NULL, 0) : 1000;
	unsigned long secs = argc > 4 ? strtoul(argv[4], NULL, 0) : 60;
	unsigned long i = first;
	time_t end = time(NULL) + (time_t)secs;
	nat_sh = mmap(NULL, sizeof(*nat_sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	while (i < first + count && time(NULL) < end) {
		pid_t p;
		int st = 0;
		unsigned waited = 0;
		unsigned long upto = i + 200 < first + count ? i + 200 : first + count;
		fflush(stdout);
		p = fork();
		if (p == 0) {
			setpgid(0, 0);
			for (; i < upto; i++) {
				nat_sh->index = i;
				nat_sh->script_len = 0;
				nat_sh->script[0] = 0;
				alarm(20);
				nat_s = seed * 0x100000001b3ull + i * 0x9e3779b97f4a7c15ull;
				nat_next();
				scenario(i);
				nat_sh->done++;
			}
			_exit(0);
		}
		waitpid(p, &st, 0);
		(void)waited;
		kill(-p, SIGKILL);
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			if (!nat_sh->failed)
				snprintf(nat_sh->what, sizeof(nat_sh->what), WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ?
					 "no progress for 20 s (signal %d)" : "killed by signal %d") : "crashed, exit status %d",
					 WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
			printf("FAIL seed=%lu index=%lu %s\n", seed, nat_sh->index, nat_sh->what);
			printf("scenario:\n%.*s\n", (int)nat_sh->script_len, nat_sh->script);
			return 1;
		}
		i = upto;
	}
	printf("OK scenarios=%lu\n", nat_sh->done);
	return 0;
}
#define NAT_MAIN int main(int argc, char **argv) { return nat_main(argc, argv); }
#endif
