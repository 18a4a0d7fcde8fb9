/* C12: number of CPUs, for every possible-CPU list, delivery and fallback */
#include <rseq/rseq.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <string.h>
#include <unistd.h>
#include "sx.h"
#define BIG 5000
static char list[BIG + 1]; static int listlen, pos, is_open, nopen, opens, splits, eintr, read_fail, open_fail, dir_fail, dir_open, close_fail, bad, huge, fdno = 77;
static struct dirent ent[4]; static int nent, ipos; static long conf; static int confs, dirs;

int env_open(const char *path, int flags, int mode)
{
	(void) flags; (void) mode; opens++;
	if (strcmp(path, "/sys/devices/system/cpu/possible")) { errno = ENOENT; return -1; }
	if (open_fail) { errno = ENOENT; return -1; }
	sx_assert(!is_open, "one descriptor at a time"); is_open = 1; pos = 0; nopen++;
	return fdno;
}
int env_open64(const char *path, int flags, int mode) { return env_open(path, flags, mode); }
long env_read(int fd, char *buf, size_t n)
{
	int i, k;
	sx_assert(fd == fdno && is_open, "reads the open descriptor");
	if (eintr && sx_choice(2, "interrupted")) { eintr--; errno = EINTR; return -1; }
	if (read_fail && !--read_fail) { errno = EIO; bad = 1; return -1; }
	k = listlen - pos; if ((size_t) k > n) k = n;
	if (k > 1 && splits) { splits--; k = k <= 8 ? 1 + sx_choice(k, "piece") : sx_choice(2, "half") ? k : k / 2; }
	for (i = 0; i < k; i++) buf[i] = list[pos + i];
	pos += k;
	return k;
}
int env_close(int fd) { sx_assert(fd == fdno && is_open, "closes its own descriptor once"); is_open = 0; if (close_fail) { errno = EIO; return -1; } return 0; }
DIR *env_opendir(const char *path)
{
	dirs++;
	if (strcmp(path, "/sys/devices/system/cpu") || dir_fail) { errno = ENOENT; return NULL; }
	sx_assert(!dir_open, "one directory at a time"); dir_open = 1; ipos = 0; return (DIR *) list;
}
struct dirent *env_readdir(DIR *d) { sx_assert(dir_open && d == (DIR *) list, "reads the open directory"); return ipos < nent ? &ent[ipos++] : NULL; }
struct dirent *env_readdir64(DIR *d) { return env_readdir(d); }
int env_closedir(DIR *d) { (void) d; sx_assert(dir_open, "closes its own directory once"); dir_open = 0; return close_fail ? -1 : 0; }
long env_sysconf(int n) { if (n != _SC_NPROCESSORS_CONF) { if (n == _SC_PAGESIZE) return 4096; errno = EINVAL; return -1; } confs++; return conf; }

static long num(int digits, int lead)	/* appends a number */
{
	long v = 0; int i;
	for (i = 0; i < digits; i++) {
		uint8_t d = sx_u8("digit"); sx_assume(d <= 9); if (!i && !lead) sx_assume(d > 0);
		list[listlen++] = '0' + d; v = v * 10 + d;
	}
	return v;
}
static void any_fallback(int lite)
{
	int i, j;
	conf = (int32_t) sx_u32("configured processors"); sx_assume(conf >= -1);
	dir_fail = sx_choice(2, "no directory");
	if (dir_fail) return;
	if (lite) { nent = 1; ent[0].d_type = DT_DIR; strcpy(ent[0].d_name, "cpu6"); return; }
	nent = sx_choice(3, "entries");
	for (i = 0; i < nent; i++) {
		int k = sx_choice(huge ? 6 : 7, "entry"), dg = sx_choice(sx_tier() ? 4 : 3, "digits") + 1;
		ent[i].d_type = k == 5 ? DT_REG : DT_DIR;
		strcpy(ent[i].d_name, k == 1 ? "cpufreq" : k == 2 ? "node" : "cpu");
		j = strlen(ent[i].d_name);
		if (k == 0 || k == 2 || k == 3 || k == 5) while (dg--) { uint8_t d = sx_u8("dir digit"); sx_assume(d <= 9); ent[i].d_name[j++] = '0' + d; }
		if (k == 6) {	/* numbers that are no CPU ids */
			static const char *const pre[] = { "214748364", "429496729", "922337203685477580", "1844674407370955161" };
			huge = 1; strcpy(ent[i].d_name + 3, pre[sx_choice(4, "magnitude")]); j = strlen(ent[i].d_name);
			uint8_t d = sx_u8("dir digit"); sx_assume(d <= 9 && d >= (j == 12 && ent[i].d_name[3] == '2' ? 8 : 0)); ent[i].d_name[j++] = '0' + d; sx_cover("?s8:huge");
		}
		if (k == 3) ent[i].d_name[j++] = 'x';
		ent[i].d_name[j] = 0;
	}
}
static long fallback(void)
{
	long best = conf; int i;
	if (!dir_fail) for (i = 0; i < nent; i++) {
		const char *p = ent[i].d_name; long v = 0;
		if (ent[i].d_type != DT_DIR || strncmp(p, "cpu", 3) || !p[3]) continue;
		if (strlen(p) > 10) continue;
		for (p += 3; *p >= '0' && *p <= '9'; p++) v = v * 10 + (*p - '0');
		if (!*p && v + 1 > best) best = v + 1;
	}
	return best < 1 ? 0 : best;
}
void h_main(void)
{
	long want = -1, hi = -1; int shape = sx_param("shape"), i, n, r;
	switch (shape) {
	case 1:	/* a list of up to three ids or ranges */
		n = 1 + sx_choice(sx_tier() ? 3 : 2, "parts");
		for (i = 0; i < n; i++) {
			if (i) list[listlen++] = ',';
			long lo = num(1 + sx_choice(2, "digits"), 1); sx_assume(lo > hi); hi = lo;
			if (sx_choice(2, "range")) { list[listlen++] = '-'; hi = num(1 + sx_choice(3, "digits"), 1); sx_assume(hi > lo); sx_cover("?s1:range"); }
		}
		want = hi + 1; if (sx_choice(2, "newline")) list[listlen++] = '\n';
		eintr = sx_choice(2, "eintr"); splits = 1; break;
	case 2:	/* short list in any pieces with interruptions */
		num(1, 1); list[listlen++] = sx_choice(2, "sep") ? ',' : '-'; hi = num(2, 0); list[listlen++] = '\n'; want = hi + 1;
		splits = 6; eintr = 2; fdno = sx_choice(2, "descriptor 0") ? 0 : 77; sx_cover("?s2:pieces"); break;
	case 3:	/* large ids */
		if (sx_choice(2, "range")) { list[listlen++] = '0'; list[listlen++] = '-'; }
		{
			static const char *const pre[] = { "2147483", "4294967", "999", "214748", "1844674407370955161", "922337203685477580", "429496729" };
			static const long prev[] = { 2147483000, 4294967000, 999000, 214748000, LONG_MAX, LONG_MAX, 4294967290 };
			int k = sx_choice(7, "magnitude");
			strcpy(list + listlen, pre[k]); listlen += strlen(pre[k]);
			hi = num(k < 4 ? 3 : 1, 1); hi = prev[k] == LONG_MAX ? LONG_MAX : prev[k] + hi; list[listlen++] = '\n';
		}
		if (hi < INT_MAX) { want = hi + 1; sx_cover("?s3:large"); } else { any_fallback(1); want = fallback(); sx_cover("?s3:too large"); }
		break;
	case 4:	/* long lists */
		n = 4090 + sx_choice(6, "length") - 4;
		for (i = 0; listlen + 1 < n; i++) { list[listlen++] = '1'; list[listlen++] = ','; }
		if (listlen < n) { list[listlen - 1] = '1'; list[listlen++] = ','; }
		hi = num(3, 0); list[listlen++] = '\n'; want = hi + 1; splits = 1;
		if (listlen == 4095) sx_cover("?s4:longest"); break;
	case 5: /* more than fits: no memory error, no leak */
		n = 4096 + sx_choice(2, "excess") * 900; for (i = 0; i < n; i++) list[listlen++] = i & 1 ? ',' : '1';
		splits = sx_choice(2, "split"); any_fallback(1); sx_cover("?s5:too long"); break;
	case 6: /* nothing usable */
		switch (sx_choice(5, "problem")) {
		case 0: open_fail = 1; break;
		case 1: num(2, 0); read_fail = 1 + sx_choice(2, "when"); splits = 1; break;
		case 2: break;	/* empty */
		case 3: n = 1 + sx_choice(3, "length"); for (i = 0; i < n; i++) { uint8_t c = sx_u8("char"); sx_assume(c < '0' || c > '9'); list[listlen++] = c; } break;
		default: num(1, 1); list[listlen++] = sx_choice(2, "sep") ? ',' : '-'; if (sx_choice(2, "newline")) list[listlen++] = '\n'; break;	/* truncated */
		}
		close_fail = sx_choice(2, "close fails"); fdno = sx_choice(2, "descriptor 0") ? 0 : 77;
		any_fallback(1); want = fallback();
		if (want) sx_cover("?s6:fallback"); else sx_cover("?s6:nothing");
		break;
	case 8: open_fail = 1; close_fail = sx_choice(2, "close fails"); any_fallback(0); want = fallback(); if (want) sx_cover("?s8:fallback"); else sx_cover("?s8:nothing"); break;
	default: /* arbitrary bytes: any answer, no memory error, no leak */
		n = 1 + sx_choice(sx_tier() ? 4 : 3, "length"); sx_bytes(list, n, "byte"); listlen = n; conf = 2; dir_fail = 1; sx_cover("?s7:arbitrary"); break;
	}
	r = rseq_get_max_nr_cpus();
	if (huge) sx_assert(r == want || r == (conf > 0 ? conf : 0), "a number that is no CPU id does not count");
	else if (want >= 0) sx_assert(r == want, "highest CPU id plus one");
	sx_assert(r >= 0, "never negative");
	sx_assert(!is_open && !dir_open, "nothing stays open");
	sx_assert(!bad || r == want, "a failing read is not taken for a list");
	/* later calls */
	int o = nopen; long c = conf;
	if (r > 0) { conf = 4000; open_fail = 1; listlen = 0; }
	else { conf = 5; }
	int r2 = rseq_get_max_nr_cpus();
	if (r > 0) sx_assert(r2 == r, "a detected value never changes");
	else sx_assert(r2 == fallback() || r2 > 0, "detection is tried again after a failure");
	sx_assert(!is_open && !dir_open, "nothing stays open");
	(void) o; (void) c;
}
