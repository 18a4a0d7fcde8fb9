/* C12: threads that ask for the number of CPUs at the same time */
#include <rseq/rseq.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <unistd.h>
#include "sx.h"
#ifdef SX_TSAN
#define KERNEL __attribute__((no_sanitize("thread"), noinline))
#else
#define KERNEL
#endif
static const char *list; static int pos[4], is_open[4], open_fail; static long conf;
static int r[3][2];
static KERNEL long k_open(const char *path)
{
	int t = sx_tid();
	if (strcmp(path, "/sys/devices/system/cpu/possible") || open_fail) { errno = ENOENT; return -1; }
	is_open[t]++; pos[t] = 0; return 70 + t;
}
static KERNEL long k_read(int fd, char *buf, size_t n)
{
	int t = fd - 70, k = strlen(list) - pos[t];
	if (k > 2 && !pos[t]) k = 2;
	if ((size_t) k > n) k = n;
	memcpy(buf, list + pos[t], k); pos[t] += k; return k;
}
int env_open(const char *path, int flags, int mode) { (void) flags; (void) mode; sx_races(0); long x = k_open(path); sx_races(1); return x; }
int env_open64(const char *path, int flags, int mode) { return env_open(path, flags, mode); }
long env_read(int fd, char *buf, size_t n) { sx_races(0); long x = k_read(fd, buf, n); sx_races(1); return x; }
int env_close(int fd) { sx_races(0); is_open[fd - 70]--; sx_races(1); return 0; }
DIR *env_opendir(const char *path) { (void) path; errno = ENOENT; return NULL; }
struct dirent *env_readdir(DIR *d) { (void) d; return NULL; }
struct dirent *env_readdir64(DIR *d) { return env_readdir(d); }
int env_closedir(DIR *d) { (void) d; return 0; }
long env_sysconf(int n) { if (n == _SC_PAGESIZE) return 4096; return conf; }
static void thread(void *x)
{
	int i = *(int *) x;
	r[i][0] = rseq_get_max_nr_cpus(); r[i][1] = rseq_get_max_nr_cpus();
}
void h_main(void)
{
	static int id[3] = { 0, 1, 2 }; int i, n = sx_param("threads"), want;
	list = "0-1,9\n"; conf = 3; open_fail = sx_choice(2, "no list"); want = open_fail ? 3 : 10;
	for (i = 0; i < n; i++) sx_spawn(thread, &id[i]);
	sx_join_all(); sx_races(0);
	for (i = 0; i < n; i++) sx_assert(r[i][0] == want && r[i][1] == want, "every thread gets the number of CPUs");
	for (i = 0; i < 4; i++) sx_assert(!is_open[i], "nothing stays open");
	if (open_fail) sx_cover("?threads:fallback"); else sx_cover("?threads:list");
}
