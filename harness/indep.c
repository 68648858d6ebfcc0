/* Independence of instances (C19).
 *
 * A case is a handful of instances (maps, journals, ECC users), each with its
 * own chip, buffers and scripted random life. Every instance first runs alone
 * and leaves a log: one hash per call, covering its NAND accesses, their
 * results, the call's results and the data it returned. Then all run
 *   coro     in one thread, control passing between them at NAND accesses
 *   threads  in threads of their own, with yields at NAND accesses (run
 *            under TSan, which also watches for unsynchronised sharing)
 * and each must leave the same log and the same flash.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <sched.h>
#include <ucontext.h>
#include "vf.h"
#include "sim.h"
#include "map.h"
#include "bch.h"
#include "hamming.h"
#include "crc32.h"
#include "gf13.h"

enum { I_MAP, I_JOURNAL, I_ECC, I_NKINDS };
#define MAXI	6
#define MAXOPS	400

struct inst {
	int		kind;
	uint64_t	seed;
	int		nops;
	int		done;

	/* the run in progress */
	vf_rng		r;
	struct chip	*c;
	uint8_t		*pbuf, *buf;
	struct dhara_map m;
	struct dhara_journal j;
	uint64_t	log[MAXOPS + 2], flash;
	uint64_t	cap;
	int		n;

	uint64_t	ref[MAXOPS + 2], refflash;
	int		refn;

	/* scheduling */
	ucontext_t	ctx;
	char		*stack;
	uint64_t	accesses;
	vf_rng		yr;
};

static struct inst I[MAXI];
static int ni, mode;			/* 0 alone, 1 coroutines, 2 threads */

/* ---- lives ------------------------------------------------------------------ */
static void life_begin(struct inst *x)
{
	x->r.s = x->seed;
	x->n = 0;
	x->accesses = 0;
	x->done = 0;
	x->c = NULL;
	x->pbuf = x->buf = NULL;
	memset(&x->m, 0x3c, sizeof(x->m));
	memset(&x->j, 0x3c, sizeof(x->j));
}

static void logit(struct inst *x, uint64_t h)
{
	if (x->c)
		h = vf_mix(h, x->c->trace);
	x->log[x->n++] = h;
}

static uint64_t hash(const uint8_t *d, size_t n)
{
	uint64_t h = 0xcbf29ce484222325ull;

	while (n--)
		h = (h ^ *d++) * 0x100000001b3ull;
	return h;
}

static void fill(vf_rng *r, uint8_t *d, size_t n)
{
	while (n--)
		*d++ = vf_next(r);
}

static void on_access(struct chip *c);

static void new_chip(struct inst *x)
{
	vf_rng *r = &x->r;
	const int lps = vf_range(r, 8, 10), lppb = vf_range(r, 1, 4);
	const uint32_t nb = vf_range(r, 24, 60);
	int i;

	x->c = chip_new(lps, lppb, nb);
	x->c->max_bad = 4;
	x->c->max_run = 3;
	x->c->scribble = vf_below(r, 2);
	x->c->imprecise = vf_chance(r, 100);
	x->c->fail_style = vf_below(r, 4);
	x->c->fault_seed = vf_next(r);
	x->c->tracing = 1;
	x->c->trace = 1;
	x->c->yield = on_access;
	x->c->hook_arg = x;
	for (i = vf_below(r, 3); i; i--) {
		uint32_t b = vf_below(r, nb);

		if (chip_may_break(x->c, b))
			chip_factory_bad(x->c, b);
	}
	x->pbuf = vf_alloc(x->c->psz);
	x->buf = vf_alloc(x->c->psz);
	memset(x->pbuf, 0x66, x->c->psz);
	memset(x->buf, 0x66, x->c->psz);
}

static void faults(struct inst *x)
{
	vf_rng *r = &x->r;

	if (vf_chance(r, 8))
		x->c->fail_prog_in = 1 + vf_below(r, 30);
	if (vf_chance(r, 4))
		x->c->fail_erase_in = 1 + vf_below(r, 3);
	x->c->ecc_in = 0;
	if (vf_chance(r, 30)) {
		x->c->ecc_in = 1 + vf_below(r, 20);
		x->c->ecc_len = 1;
	}
}

static void map_op(struct inst *x, uint32_t U, uint8_t ratio)
{
	vf_rng *r = &x->r;
	struct chip *c = x->c;
	const uint32_t s = vf_below(r, U), d = vf_below(r, U);
	dhara_error_t e = 0;
	dhara_page_t p = 0;
	uint64_t out = 0;
	int rc = 0;

	faults(x);
	sim_begin(c, 200000);
	switch (vf_below(r, 16)) {
	case 0 ... 6:
		fill(r, x->buf, c->psz);
		rc = dhara_map_write(&x->m, s, x->buf, &e);
		break;
	case 7: rc = dhara_map_trim(&x->m, s, &e); break;
	case 8: rc = dhara_map_copy_sector(&x->m, s, d, &e); break;
	case 9: rc = dhara_map_gc(&x->m, &e); break;
	case 10: rc = dhara_map_sync(&x->m, &e); break;
	case 11:
		rc = dhara_map_find(&x->m, s, &p, &e);
		if (!rc)
			rc = dhara_map_copy_page(&x->m, p, d, &e);
		break;
	case 12:
		if (vf_chance(r, 300)) {
			memset(&x->m, 0x3c, sizeof(x->m));
			dhara_map_init(&x->m, &c->n, x->pbuf, ratio);
			rc = dhara_map_resume(&x->m, &e);
		}
		break;
	case 13:
		if (vf_chance(r, 100))
			dhara_map_clear(&x->m);
		break;
	default:
		rc = dhara_map_read(&x->m, s, x->buf, &e);
		if (!rc)
			out = hash(x->buf, c->psz);
		break;
	}
	if (rc < 0)
		out = vf_mix(e, hash((const uint8_t *)dhara_strerror(e), 4));
	out = vf_mix(out, ((uint64_t)dhara_map_size(&x->m) << 32) |
		     dhara_map_capacity(&x->m));
	out = vf_mix(out, ((uint64_t)(uint32_t)rc << 32) | p);
	out = vf_mix(out, x->m.journal.head);
	logit(x, vf_mix(out, x->m.journal.tail));
}

static void journal_op(struct inst *x)
{
	vf_rng *r = &x->r;
	struct chip *c = x->c;
	uint8_t meta[DHARA_META_SIZE];
	dhara_error_t e = 0;
	dhara_page_t p = DHARA_PAGE_NONE;
	uint64_t out = 0;
	int rc = 0, in = dhara_journal_in_recovery(&x->j);
	uint32_t k = vf_below(r, 12);

	memset(meta, 0, sizeof(meta));
	faults(x);
	x->c->ecc_in = 0;
	sim_begin(c, 200000);
	if (in) {
		p = dhara_journal_next_recoverable(&x->j);
		if (p == DHARA_PAGE_NONE) {
			rc = dhara_journal_enqueue(&x->j, NULL, NULL, &e);
		} else {
			rc = dhara_journal_read_meta(&x->j, p, meta, &e);
			out = hash(meta, sizeof(meta));
			if (!rc)
				rc = dhara_journal_copy(&x->j, p, meta, &e);
		}
	} else if (k < 5) {
		fill(r, x->buf, c->psz);
		fill(r, meta, sizeof(meta));
		fill(r, dhara_journal_cookie(&x->j), DHARA_COOKIE_SIZE);
		rc = dhara_journal_enqueue(&x->j, x->buf, meta, &e);
	} else if (k == 5) {
		rc = dhara_journal_enqueue(&x->j, NULL, NULL, &e);
	} else if (k < 8) {
		p = dhara_journal_peek(&x->j);
		if (p != DHARA_PAGE_NONE) {
			rc = dhara_journal_read_meta(&x->j, p, meta, &e);
			out = hash(meta, sizeof(meta));
			if (!rc && vf_chance(r, 400))
				rc = dhara_journal_copy(&x->j, p, meta, &e);
			if (!dhara_journal_in_recovery(&x->j) &&
			    dhara_journal_peek(&x->j) == p)
				dhara_journal_dequeue(&x->j);
		}
	} else if (k == 8) {
		p = dhara_journal_root(&x->j);
		if (p != DHARA_PAGE_NONE) {
			rc = dhara_journal_read_meta(&x->j, p, meta, &e);
			out = hash(meta, sizeof(meta));
		}
	} else if (k == 9 && vf_chance(r, 200)) {
		memset(&x->j, 0x3c, sizeof(x->j));
		dhara_journal_init(&x->j, &c->n, x->pbuf);
		rc = dhara_journal_resume(&x->j, &e);
		out = hash(dhara_journal_cookie(&x->j), DHARA_COOKIE_SIZE);
	} else if (k == 10 && vf_chance(r, 50)) {
		dhara_journal_clear(&x->j);
	}
	out = vf_mix(out, ((uint64_t)(uint32_t)rc << 32) | p);
	out = vf_mix(out, rc < 0 ? e : 0);
	out = vf_mix(out, ((uint64_t)x->j.head << 32) | x->j.tail);
	logit(x, vf_mix(out, ((uint64_t)x->j.root << 32) |
			dhara_journal_size(&x->j)));
}

static void ecc_op(struct inst *x)
{
	static const struct bch_def *const defs[] = {
		&bch_1bit, &bch_2bit, &bch_3bit, &bch_4bit
	};
	vf_rng *r = &x->r;
	const struct bch_def *d = defs[vf_below(r, 4)];
	uint8_t *b = vf_alloc(512), ecc[16];
	size_t len = vf_range(r, 1, 512), i;
	uint64_t h = 0;
	int k;

	memset(ecc, 0, sizeof(ecc));
	fill(r, b, len);
	switch (vf_below(r, 4)) {
	case 0:
	case 1:
		bch_generate(d, b, len, ecc);
		h = hash(ecc, d->ecc_bytes);
		for (k = vf_below(r, 5); k; k--) {
			uint32_t bit = vf_below(r, len * 8);

			b[bit / 8] ^= 1 << (bit % 8);
		}
		h = vf_mix(h, bch_verify(d, b, len, ecc));
		bch_repair(d, b, len, ecc);
		h = vf_mix(h, hash(b, len));
		h = vf_mix(h, hash(ecc, d->ecc_bytes));
		break;
	case 2:
		hamming_generate(b, len, ecc);
		h = hash(ecc, HAMMING_ECC_SIZE);
		for (k = vf_below(r, 3); k; k--) {
			uint32_t bit = vf_below(r, len * 8);

			b[bit / 8] ^= 1 << (bit % 8);
		}
		{
			const hamming_ecc_t s = hamming_syndrome(b, len, ecc);

			h = vf_mix(h, s);
			if (s)
				h = vf_mix(h, hamming_repair(b, len, s));
		}
		h = vf_mix(h, hash(b, len));
		break;
	default:
		h = crc32_nand(b, len, CRC32_INIT);
		for (i = 0; i + 1 < len; i += 2) {
			gf13_elem_t a = 1 + (b[i] | b[i + 1] << 8) % 8191;
			gf13_elem_t c = 1 + (b[i] * 31 + b[i + 1]) % 8191;

			h = vf_mix(h, gf13_mul(a, c));
			h = vf_mix(h, gf13_div(a, c));
			h = vf_mix(h, gf13_mulx(a) * 8192 + gf13_divx(c));
		}
		break;
	}
	free(b);
	logit(x, h);
	x->accesses++;
}

/* yield outside NAND accesses too */
static void pause_(struct inst *x);

static void life(struct inst *x)
{
	uint32_t U = 8, i, p;
	uint8_t ratio = 4;
	dhara_error_t e = 0;

	life_begin(x);
	if (x->kind != I_ECC)
		new_chip(x);
	if (x->kind == I_MAP) {
		ratio = vf_range(&x->r, 1, 6);
		U = vf_range(&x->r, 4, 20);
		sim_begin(x->c, 200000);
		dhara_map_init(&x->m, &x->c->n, x->pbuf, ratio);
		dhara_map_resume(&x->m, &e);
	} else if (x->kind == I_JOURNAL) {
		sim_begin(x->c, 200000);
		dhara_journal_init(&x->j, &x->c->n, x->pbuf);
		dhara_journal_resume(&x->j, &e);
	}
	for (i = 0; (int)i < x->nops; i++) {
		pause_(x);
		switch (x->kind) {
		case I_MAP: map_op(x, U, ratio); break;
		case I_JOURNAL: journal_op(x); break;
		default: ecc_op(x); break;
		}
	}
	x->flash = 1;
	if (x->c) {
		for (p = 0; p < x->c->np; p++) {
			const uint8_t *d = chip_page(x->c, p);

			x->flash = vf_mix(x->flash, d ? hash(d, x->c->psz) : 3);
		}
		x->flash = vf_mix(x->flash, x->c->trace);
	}
}

static void life_end(struct inst *x)
{
	free(x->pbuf);
	free(x->buf);
	x->pbuf = x->buf = NULL;
	if (x->c && mode != 2)
		chip_free(x->c);
	x->c = NULL;
}

/* A life with its own landing place for protocol violations: whatever stops
 * it is part of its log. */
static void guarded_life(struct inst *x)
{
	jmp_buf save;

	memcpy(&save, &vf_jmp, sizeof(save));
	if (!setjmp(vf_jmp))
		life(x);
	else
		x->log[x->n++] = 0xdead;
	memcpy(&vf_jmp, &save, sizeof(save));
	x->done = 1;
}

/* ---- coroutines --------------------------------------------------------------- */
static ucontext_t main_ctx;
static int cur = -1;
static vf_rng *SR;
static uint64_t sched_hash, switches;
static int switch_pm;

static void switch_away(struct inst *x)
{
	jmp_buf save;
	int k, tries;

	for (tries = 0; tries < 20; tries++) {
		k = vf_below(SR, ni);
		if (!I[k].done && k != cur)
			break;
	}
	if (tries == 20)
		return;
	memcpy(&save, &vf_jmp, sizeof(save));
	cur = k;
	switches++;
	sched_hash = vf_mix(sched_hash, vf_mix(k, x->accesses));
	swapcontext(&x->ctx, &I[k].ctx);
	memcpy(&vf_jmp, &save, sizeof(save));
}

static void co_main(int k)
{
	guarded_life(&I[k]);
	cur = -1;
	swapcontext(&I[k].ctx, &main_ctx);
}

static void pause_(struct inst *x)
{
	x->accesses++;
	if (mode == 1) {
		if (vf_chance(SR, switch_pm))
			switch_away(x);
	} else if (mode == 2) {
		if (vf_chance(&x->yr, switch_pm))
			sched_yield();
	}
}

static void on_access(struct chip *c)
{
	pause_(c->hook_arg);
}

static void run_coroutines(void)
{
	int k, left;

	mode = 1;
	for (k = 0; k < ni; k++) {
		I[k].done = 0;
		getcontext(&I[k].ctx);
		I[k].stack = vf_alloc(512 * 1024);
		I[k].ctx.uc_stack.ss_sp = I[k].stack;
		I[k].ctx.uc_stack.ss_size = 512 * 1024;
		I[k].ctx.uc_link = NULL;
		makecontext(&I[k].ctx, (void (*)(void))co_main, 1, k);
	}
	for (;;) {
		for (left = k = 0; k < ni; k++)
			left += !I[k].done;
		if (!left)
			break;
		do {
			k = vf_below(SR, ni);
		} while (I[k].done);
		cur = k;
		swapcontext(&main_ctx, &I[k].ctx);
	}
	for (k = 0; k < ni; k++)
		free(I[k].stack);
}

/* ---- threads -------------------------------------------------------------------- */
static pthread_barrier_t bar;

static void *th_main(void *arg)
{
	struct inst *x = arg;

	vf_jmp_ok = 1;
	pthread_barrier_wait(&bar);
	guarded_life(x);
	x->c = NULL;
	chip_free_all();
	return NULL;
}

static void run_threads(void)
{
	pthread_t t[MAXI];
	int k;

	mode = 2;
	pthread_barrier_init(&bar, NULL, ni);
	for (k = 0; k < ni; k++)
		if (pthread_create(&t[k], NULL, th_main, &I[k]))
			vf_die("pthread_create");
	for (k = 0; k < ni; k++)
		pthread_join(t[k], NULL);
	pthread_barrier_destroy(&bar);
}

/* ---- a case ----------------------------------------------------------------------- */
static const char *const kname[] = { "map", "journal", "ECC user" };

static void compare(const char *how)
{
	int k, i;

	for (k = 0; k < ni; k++) {
		struct inst *x = &I[k];

		for (i = 0; i < x->n && i < x->refn; i++)
			if (x->log[i] != x->ref[i])
				break;
		if (i < x->n || i < x->refn)
			vf_viol(O_INDEP, "%s: %s (instance %d of %d) behaves "
				"differently from call %d on than when alone",
				how, kname[x->kind], k, ni, i);
		if (x->flash != x->refflash)
			vf_viol(O_INDEP, "%s: %s (instance %d of %d) leaves "
				"different flash than when alone", how,
				kname[x->kind], k, ni);
		vf_count("calls_compared", x->n);
		vf_count("nand_accesses_interleaved", x->accesses);
	}
}

static const char *prof;

static void run_case(vf_rng *r, uint64_t n)
{
	int k, same = vf_chance(r, 400);
	uint64_t h = 0;

	ni = vf_range(r, 2, MAXI);
	for (k = 0; k < ni; k++) {
		struct inst *x = &I[k];

		memset(x, 0, sizeof(*x));
		x->kind = vf_chance(r, 550) ? I_MAP : vf_below(r, I_NKINDS);
		x->seed = vf_next(r);
		if (same && k && vf_chance(r, 700)) {
			/* the very same life twice at once */
			x->kind = I[0].kind;
			x->seed = I[0].seed;
		}
		x->nops = vf_range(r, 40, MAXOPS);
		x->yr.s = vf_next(r);
		vf_count(x->kind == I_MAP ? "maps" : x->kind == I_JOURNAL ?
			 "journals" : "ecc_users", 1);
	}
	mode = 0;
	for (k = 0; k < ni; k++) {
		guarded_life(&I[k]);
		memcpy(I[k].ref, I[k].log, sizeof(I[k].ref));
		I[k].refn = I[k].n;
		I[k].refflash = I[k].flash;
		h = vf_mix(h, I[k].flash);
		life_end(&I[k]);
	}
	/* alone again: the log is a function of the script only */
	k = vf_below(r, ni);
	guarded_life(&I[k]);
	compare("alone");
	life_end(&I[k]);

	SR = r;
	switch_pm = vf_chance(r, 300) ? 20 : vf_chance(r, 500) ? 200 : 700;
	sched_hash = h;
	switches = 0;
	if (!strcmp(prof, "coro"))
		run_coroutines();
	else
		run_threads();
	compare(mode == 1 ? "interleaved" : "in threads");
	for (k = 0; k < ni; k++)
		life_end(&I[k]);
	mode = 0;
	vf_count("context_switches", switches);
	vf_distinct2(mode == 1 ? sched_hash : vf_mix(h, n));
	if (n % 19 == 0)
		vf_sample("case %llu: %d instances (first: %s, %d calls), %llu "
			  "switches", (unsigned long long)n, ni,
			  kname[I[0].kind], I[0].nops,
			  (unsigned long long)switches);
}

int main(int argc, char **argv)
{
	struct vf_opts o;

	vf_parse(argc, argv, &o);
	prof = o.profile;
	if (strcmp(prof, "coro") && strcmp(prof, "threads"))
		vf_die("no such profile: %s", prof);
	vf_run_cases(&o, run_case);
	vf_finish(&o);
	return 0;
}
