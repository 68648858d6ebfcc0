#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include "vf.h"

uint64_t vf_seed, vf_case, vf_nviol;
int vf_verbose;
__thread jmp_buf vf_jmp;
__thread int vf_jmp_ok;
const char *vf_key;

static const char *const class_names[] = {
	"CONTENT", "OPFAIL", "PREFIX", "DURABLE", "PROTOCOL", "STUCK", "WEAR",
	"COST", "SIZE", "START", "GC", "ERRATOM", "FORMAT", "FULL", "QUEUE",
	"SPACE", "RECOV", "INPUT", "ECC", "OPERABLE", "INDEP", "MISC"
};

unsigned vf_also;
static unsigned deciding = ~0u;
static unsigned soft_seen;	/* noted in this case */

static void vreport(unsigned classes, const char *fmt, va_list ap)
{
	char buf[1024];
	unsigned i;
	int first = 1;

	vsnprintf(buf, sizeof(buf), fmt, ap);
	classes |= vf_also;
	printf("VIOL case=%llu classes=", (unsigned long long)vf_case);
	for (i = 0; i < sizeof(class_names) / sizeof(class_names[0]); i++)
		if (classes & (1u << i)) {
			printf("%s%s", first ? "" : ",", class_names[i]);
			first = 0;
		}
	printf(" key=%s msg=%s\n", vf_key ? vf_key : "-", buf);
	fflush(stdout);
	if (!vf_key && (classes & deciding))
		__sync_fetch_and_add(&vf_nviol, 1);
}

void vf_viol(unsigned classes, const char *fmt, ...)
{
	va_list ap;

	va_start(ap, fmt);
	vreport(classes, fmt, ap);
	va_end(ap);
	if (!vf_jmp_ok)
		exit(3);
	longjmp(vf_jmp, 1);
}

void vf_note_viol(unsigned classes, const char *fmt, ...)
{
	va_list ap;
	static unsigned nkeyed;

	/* do not drown the output in repeats of a known situation */
	if (vf_key && nkeyed++ >= 20)
		return;
	va_start(ap, fmt);
	vreport(classes, fmt, ap);
	va_end(ap);
}

void vf_soft(unsigned classes, const char *fmt, ...)
{
	va_list ap;

	if (vf_key || ((classes | vf_also) & deciding)) {
		va_start(ap, fmt);
		vreport(classes, fmt, ap);
		va_end(ap);
		if (!vf_jmp_ok)
			exit(3);
		longjmp(vf_jmp, 1);
	}
	if (!(classes & ~soft_seen))
		return;
	soft_seen |= classes;
	va_start(ap, fmt);
	vreport(classes, fmt, ap);
	va_end(ap);
	vf_count("carried_on_after_another_class", 1);
}

static void set_deciding(const char *list)
{
	unsigned i;

	deciding = 0;
	for (i = 0; i < sizeof(class_names) / sizeof(class_names[0]); i++) {
		const char *p = strstr(list, class_names[i]);
		const size_t n = strlen(class_names[i]);

		while (p && ((p > list && p[-1] != ',') ||
			     (p[n] && p[n] != ',')))
			p = strstr(p + 1, class_names[i]);
		if (p)
			deciding |= 1u << i;
	}
}

void vf_log(const char *fmt, ...)
{
	va_list ap;

	if (!vf_verbose)
		return;
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
	fflush(stdout);
}

void vf_die(const char *fmt, ...)
{
	va_list ap;

	fflush(stdout);
	va_start(ap, fmt);
	fprintf(stderr, "HARNESS: ");
	vfprintf(stderr, fmt, ap);
	fprintf(stderr, "\n");
	va_end(ap);
	_exit(3);
}

void *vf_alloc(size_t n)
{
	void *p = malloc(n ? n : 1);

	if (!p)
		vf_die("out of memory");
	return p;
}

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif

static void vf_poison_only(void *p, size_t n)
{
#ifdef MSAN
	__msan_poison(p, n);
#else
	(void)p;
	(void)n;
#endif
}

void vf_poison(void *p, size_t n, int fill)
{
	memset(p, fill, n);
	vf_poison_only(p, n);
}

/* Memory as anything may have left it: random, all alike, or zero */
void vf_junk(void *p, size_t n, vf_rng *r)
{
	uint8_t *b = p;
	size_t i;

	switch (vf_below(r, 8)) {
	case 0: memset(p, 0xff, n); break;
	case 1: memset(p, 0, n); break;
	case 2: memset(p, 0x55, n); break;
	default:
		for (i = 0; i < n; i++)
			b[i] = vf_next(r) >> 32;
	}
	vf_poison_only(p, n);
}

void vf_defined(const void *p, size_t n)
{
#ifdef MSAN
	__msan_check_mem_is_initialized(p, n);
#else
	(void)p;
	(void)n;
#endif
}

static struct { void *p, *base; } *bufs;
static unsigned nbufs, cbufs, buf_odd;

void *vf_buf(size_t n)
{
	unsigned char *b = vf_alloc(n + buf_odd);
	unsigned i;

	for (i = 0; i < nbufs; i++)
		if (!bufs[i].p)
			break;
	if (i == nbufs) {
		if (nbufs == cbufs) {
			cbufs = cbufs * 2 + 64;
			bufs = realloc(bufs, cbufs * sizeof(bufs[0]));
			if (!bufs)
				vf_die("out of memory");
		}
		nbufs++;
	}
	bufs[i].base = b;
	bufs[i].p = b + buf_odd;
	vf_poison(b + buf_odd, n, 0x77);
	return b + buf_odd;
}

void vf_buf_free(void *p)
{
	unsigned i;

	if (!p)
		return;
	for (i = nbufs; i--;)
		if (bufs[i].p == p) {
			bufs[i].p = NULL;
			free(bufs[i].base);
			while (nbufs && !bufs[nbufs - 1].p)
				nbufs--;
			return;
		}
	vf_die("vf_buf_free: unknown buffer");
}

void vf_parse(int argc, char **argv, struct vf_opts *o)
{
	int i;

	memset(o, 0, sizeof(*o));
	o->profile = "default";
	o->to = 1;
	for (i = 1; i < argc; i++) {
		const char *a = argv[i];
		const char *v = (i + 1 < argc) ? argv[i + 1] : NULL;

		if (!strcmp(a, "-v")) {
			o->verbose = 1;
			continue;
		}
		if (!v)
			vf_die("missing value for %s", a);
		i++;
		if (!strcmp(a, "--profile"))
			o->profile = v;
		else if (!strcmp(a, "--seed"))
			o->seed = strtoull(v, NULL, 0);
		else if (!strcmp(a, "--from"))
			o->from = strtoull(v, NULL, 0);
		else if (!strcmp(a, "--to"))
			o->to = strtoull(v, NULL, 0);
		else if (!strcmp(a, "--out"))
			o->out = v;
		else if (!strcmp(a, "--arg"))
			o->arg = v;
		else if (!strcmp(a, "--classes"))
			o->classes = v;
		else
			vf_die("unknown option %s", a);
	}
	if (o->classes)
		set_deciding(o->classes);
	vf_seed = o->seed;
	vf_verbose = o->verbose;
	setvbuf(stdout, NULL, _IOLBF, 1 << 16);
}

/* CPU-time watchdog: fires only after an absurd amount of CPU spent in one
 * case; reported as a hang, which check.py re-runs before believing.
 */
#define HANG_CPU_S	120
static char hang_msg[128];

static void on_prof(int sig)
{
	(void)sig;
	if (write(1, hang_msg, strlen(hang_msg))) {}
	_exit(4);
}

void vf_run_cases(const struct vf_opts *o, void (*fn)(vf_rng *r, uint64_t n))
{
	volatile uint64_t n;
	struct itimerval it = { { 0, 0 }, { HANG_CPU_S, 0 } };

	signal(SIGPROF, on_prof);
	for (n = o->from; n < o->to; n++) {
		vf_rng r = { vf_mix(vf_mix(o->seed + 1, 0x76657269), n) };

		vf_case = n;
		buf_odd = vf_mix(o->seed ^ 0x51, n) % 4;
		vf_key = NULL;
		soft_seen = 0;
		snprintf(hang_msg, sizeof(hang_msg),
			 "\nHANG case=%llu\n", (unsigned long long)n);
		/* the case marker lets check.py attribute a crash */
		printf("CASE %llu\n", (unsigned long long)n);
		setitimer(ITIMER_PROF, &it, NULL);
		vf_jmp_ok = 1;
		if (!setjmp(vf_jmp)) {
			fn(&r, n);
			vf_count("cases_completed", 1);
		} else {
			vf_count("cases_abandoned", 1);
		}
		vf_jmp_ok = 0;
		if (vf_nviol >= 25)
			break;
	}
	it.it_value.tv_sec = 0;
	setitimer(ITIMER_PROF, &it, NULL);
}

/* ---- statistics ------------------------------------------------------ */
#define MAX_STATS 128
static struct { char name[48]; uint64_t v; int is_max; } stats[MAX_STATS];
static int nstats;

static uint64_t *stat_slot(const char *name, int is_max)
{
	int i;

	for (i = 0; i < nstats; i++)
		if (!strcmp(stats[i].name, name))
			return &stats[i].v;
	if (nstats >= MAX_STATS)
		vf_die("too many stats");
	snprintf(stats[nstats].name, sizeof(stats[0].name), "%s", name);
	stats[nstats].is_max = is_max;
	return &stats[nstats++].v;
}

void vf_count(const char *name, uint64_t add)
{
	*stat_slot(name, 0) += add;
}

void vf_max(const char *name, uint64_t v)
{
	uint64_t *s = stat_slot(name, 1);

	if (v > *s)
		*s = v;
}

struct hset { uint64_t *t; size_t cap, n; };
static struct hset dset[2];

static void hset_add(struct hset *h, uint64_t x)
{
	size_t i;

	if (!x)
		x = 1;
	if (h->n * 2 >= h->cap) {
		size_t oc = h->cap, k;
		uint64_t *old = h->t;

		h->cap = oc ? oc * 2 : 1024;
		h->t = calloc(h->cap, sizeof(h->t[0]));
		if (!h->t)
			vf_die("out of memory");
		h->n = 0;
		for (k = 0; k < oc; k++)
			if (old[k])
				hset_add(h, old[k]);
		free(old);
	}
	i = x & (h->cap - 1);
	while (h->t[i]) {
		if (h->t[i] == x)
			return;
		i = (i + 1) & (h->cap - 1);
	}
	h->t[i] = x;
	h->n++;
}

void vf_distinct(uint64_t hash) { hset_add(&dset[0], hash); }
void vf_distinct2(uint64_t hash) { hset_add(&dset[1], hash); }

#define MAX_SAMPLES 4
static char samples[MAX_SAMPLES][600];
static int nsamples;

void vf_sample(const char *fmt, ...)
{
	va_list ap;

	if (nsamples >= MAX_SAMPLES)
		return;
	va_start(ap, fmt);
	vsnprintf(samples[nsamples++], sizeof(samples[0]), fmt, ap);
	va_end(ap);
}

void vf_finish(const struct vf_opts *o)
{
	int i, k;

	for (i = 0; i < nstats; i++)
		printf("%s %s %llu\n", stats[i].is_max ? "MAX" : "STAT",
		       stats[i].name, (unsigned long long)stats[i].v);
	printf("STAT distinct_local %zu\n", dset[0].n);
	printf("STAT distinct2_local %zu\n", dset[1].n);
	for (i = 0; i < nsamples; i++)
		printf("SAMPLE %s\n", samples[i]);
	if (o->out) {
		for (k = 0; k < 2; k++) {
			char path[4096];
			FILE *f;
			size_t j;

			snprintf(path, sizeof(path), "%s.h%d", o->out, k);
			f = fopen(path, "wb");
			if (!f)
				vf_die("cannot write %s", path);
			for (j = 0; j < dset[k].cap; j++)
				if (dset[k].t[j])
					fwrite(&dset[k].t[j], 8, 1, f);
			fclose(f);
		}
	}
	printf("DONE violations=%llu\n", (unsigned long long)vf_nviol);
	fflush(stdout);
}
