/* Cost of every call on chips of many sizes (C09), and startup at every
 * position of the journal (C11).
 *
 * Sectors are dense, 0..U-1, and a sector's content is derived from its
 * number and version, so that the model is one integer per sector and chips
 * of millions of pages stay affordable.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vf.h"
#include "sim.h"
#include "map.h"
#include "bytes.h"
#include "mapmodel.h"

static vf_rng *R;
static struct chip *C;
static struct dhara_map M;
static uint8_t *pbuf;
static uint32_t *ver, U, count, gcr, verno;
static int bits;

/* expected root: the user page before the last checkpoint page programmed */
static uint32_t cp_root, cp_size;
static int cp_clean_ever;

static int lg(uint32_t x)
{
	int n = 0;

	while (x >> n)
		n++;
	return n;
}

static uint64_t budget(void)
{
	return 400000 + 40ull * C->np;
}

static void page_of(uint32_t sec, uint32_t v, uint8_t *buf)
{
	const uint64_t w[2] = { ((uint64_t)v << 32) | sec,
				vf_mix(v, sec) };
	uint32_t i;

	for (i = 0; i < C->psz; i += 16)
		memcpy(buf + i, w, 16);
}

static void start_map(struct dhara_map *m, struct chip *c, uint8_t *buf)
{
	vf_poison(buf, c->psz, 0xa5);
	vf_junk(m, sizeof(*m), R);
	sim_begin(c, budget());
	dhara_map_init(m, &c->n, buf, gcr);
	if (call_total(&c->call))
		vf_viol(O_START | O_COST, "init made %llu NAND accesses",
			(unsigned long long)call_total(&c->call));
}

/* resume, watched for purity and cost */
static int resume_map(struct dhara_map *m, struct chip *c, dhara_error_t *e)
{
	int rc;

	sim_begin(c, budget());
	c->readonly = 1;
	rc = dhara_map_resume(m, e);
	c->readonly = 0;
	cost_resume(c);
	vf_count("resumes", 1);
	vf_max("resume_accesses", call_total(&c->call));
	if (rc < 0 && dhara_map_size(m))
		vf_viol(O_START | O_SIZE, "resume failed but size is %u",
			dhara_map_size(m));
	return rc;
}

static void quiet_calls(struct dhara_map *m, struct chip *c)
{
	sim_begin(c, 10);
	(void)dhara_map_size(m);
	(void)dhara_map_capacity(m);
	if (call_total(&c->call))
		vf_viol(O_COST, "size or capacity accessed the NAND");
}

/* ---- checked operations --------------------------------------------------- */
static void fail(const char *what, uint32_t sec, dhara_error_t e)
{
	vf_viol(O_OPFAIL | O_CONTENT | O_START, "%s(%u) fails: %s", what, sec,
		dhara_strerror(e));
}

static uint32_t n_writes;

static void do_write(struct dhara_map *m, struct chip *c, uint32_t s)
{
	uint8_t *buf = vf_buf(c->psz);
	dhara_error_t e = 0;

	page_of(s, ++verno, buf);
	sim_begin(c, budget());
	if (dhara_map_write(m, s, buf, &e) < 0)
		fail("write", s, e);
	cost_write(c, gcr, bits);
	vf_buf_free(buf);
	count += !ver[s];
	ver[s] = verno;
	n_writes++;
}

static void do_trim(struct dhara_map *m, struct chip *c, uint32_t s)
{
	dhara_error_t e = 0;

	sim_begin(c, budget());
	if (dhara_map_trim(m, s, &e) < 0)
		fail("trim", s, e);
	cost_write(c, gcr, bits);
	count -= !!ver[s];
	ver[s] = 0;
}

/* The copy carries the source's bytes: remember where they came from. */
static uint32_t *origin;

static void do_copy(struct dhara_map *m, struct chip *c, uint32_t s, uint32_t d)
{
	dhara_error_t e = 0;

	sim_begin(c, budget());
	if (dhara_map_copy_sector(m, s, d, &e) < 0)
		fail("copy_sector", d, e);
	cost_write(c, gcr, bits);
	count += !!ver[s] - !!ver[d];
	ver[d] = ver[s];
	origin[d] = origin[s];
}

static void do_write_o(struct dhara_map *m, struct chip *c, uint32_t s)
{
	do_write(m, c, s);
	origin[s] = s;
}

static void do_gc(struct dhara_map *m, struct chip *c)
{
	dhara_error_t e = 0;

	sim_begin(c, budget());
	if (dhara_map_gc(m, &e) < 0)
		fail("gc", 0, e);
	cost_gc(c, bits);
}

static void do_sync(struct dhara_map *m, struct chip *c)
{
	const uint64_t q = dhara_journal_size(&m->journal) +
		2ull * (1u << c->log2_ppc) + 4;
	dhara_error_t e = 0;

	sim_begin(c, budget() + 200 * q);
	if (dhara_map_sync(m, &e) < 0)
		fail("sync", 0, e);
	if (call_total(&c->call) > q * (2 * (1 + bits) + 28))
		vf_viol(O_COST, "sync made %llu NAND accesses with %llu pages "
			"queued", (unsigned long long)call_total(&c->call),
			(unsigned long long)q);
}

static void do_clear(struct dhara_map *m, struct chip *c)
{
	sim_begin(c, 10);
	dhara_map_clear(m);
	if (call_total(&c->call))
		vf_viol(O_COST, "clear accessed the NAND");
	memset(ver, 0, U * sizeof(ver[0]));
	count = 0;
}

static void check_sector(struct dhara_map *m, struct chip *c, uint32_t s,
			 uint32_t v, uint32_t o)
{
	uint8_t *buf = vf_buf(c->psz), *want = vf_buf(c->psz);
	dhara_error_t e = 0;
	dhara_page_t p;
	int r;

	sim_begin(c, budget());
	c->readonly = 1;
	r = dhara_map_find(m, s, &p, &e);
	cost_find(c, s, bits);
	if (r < 0 && e != DHARA_E_NOT_FOUND)
		fail("find", s, e);
	if ((r < 0) != !v)
		vf_viol(O_CONTENT | O_START, "sector %u: %s, expected version "
			"%u", s, r < 0 ? "not found" : "found", v);
	sim_begin(c, budget());
	if (dhara_map_read(m, s, buf, &e) < 0)
		fail("read", s, e);
	cost_read(c, s, bits);
	c->readonly = 0;
	if (v)
		page_of(o, v, want);
	else
		memset(want, 0xff, c->psz);
	if (memcmp(buf, want, c->psz))
		vf_viol(O_CONTENT | O_START, "sector %u: wrong data", s);
	vf_buf_free(buf);
	vf_buf_free(want);
}

static void check_outside(struct dhara_map *m, struct chip *c)
{
	/* sectors nobody wrote, anywhere in the 32-bit space */
	uint32_t s = vf_chance(R, 500) ? U + vf_below(R, U + 4) :
		(uint32_t)vf_next(R) | (1u << 31);

	if (s < U || s == 0xffffffff)
		return;
	check_sector(m, c, s, 0, 0);
}

static void check_all(struct dhara_map *m, struct chip *c, const uint32_t *v,
		      const uint32_t *o, uint32_t n)
{
	uint32_t i;

	for (i = 0; i < U; i++)
		check_sector(m, c, i, v[i], o[i]);
	if (dhara_map_size(m) != n)
		vf_viol(O_SIZE | O_START, "size %u, expected %u",
			dhara_map_size(m), n);
}

/* Advance the head: with filler when nothing is mapped, else by rewriting. */
static void filler(struct dhara_map *m, struct chip *c, uint32_t n)
{
	while (n--) {
		dhara_error_t e = 0;

		if (count) {
			do_write_o(m, c, 0);
			continue;
		}
		if (dhara_journal_size(&m->journal) > 2u << c->log2_ppc &&
		    dhara_journal_peek(&m->journal) != DHARA_PAGE_NONE)
			dhara_journal_dequeue(&m->journal);
		dhara_w32(dhara_journal_cookie(&m->journal), 0);
		sim_begin(c, budget());
		if (dhara_journal_enqueue(&m->journal, NULL, NULL, &e) < 0)
			fail("filler", 0, e);
	}
}

static void on_mut(struct chip *c, int kind, uint32_t where, int fails)
{
	const uint32_t ppc = 1u << c->log2_ppc;

	if (c != C || kind != MUT_PROG || fails || ((where + 1) & (ppc - 1)))
		return;
	cp_root = where - 1;
	cp_size = count;
	cp_clean_ever = 1;
}

static void alloc_model(void)
{
	bits = lg(U - 1);
	ver = calloc(U, sizeof(ver[0]));
	origin = calloc(U, sizeof(origin[0]));
	if (!ver || !origin)
		vf_die("out of memory");
	count = 0;
	verno = 0;
	n_writes = 0;
}

static void cleanup(void)
{
	vf_buf_free(pbuf);
	free(ver);
	free(origin);
	pbuf = NULL;
	ver = origin = NULL;
	chip_free_all();
	C = NULL;
	cp_root = SIM_NONE;
	cp_clean_ever = 0;
}

/* ---- C09 ------------------------------------------------------------------ */
static void case_cost(uint64_t n)
{
	int lps, lppb, lnb;
	uint32_t nb, bad = 0, cap, i, ops, every;

	lppb = vf_range(R, 1, 6);
	lps = vf_range(R, 8, lppb > 4 ? 11 : 10);
	do {
		lnb = vf_range(R, 5, 16);
	} while (lnb + lppb > 20);
	nb = (1u << lnb) + vf_below(R, 1u << lnb);
	if (vf_chance(R, 200))
		nb = 1u << lnb;
	gcr = vf_chance(R, 300) ? vf_range(R, 1, 40) : vf_range(R, 1, 8);
	C = chip_new(lps, lppb, nb);
	C->hook = on_mut;
	C->max_bad = nb;
	C->max_run = 3;
	every = vf_range(R, 8, 60);
	if (vf_chance(R, 700))
		for (i = vf_below(R, every); i < nb; i += every) {
			uint32_t k = vf_range(R, 1, every > 20 ? 3 : 1);

			while (k-- && i + k < nb)
				if (chip_may_break(C, i + k)) {
					chip_factory_bad(C, i + k);
					bad++;
				}
		}
	chip_virgin(C, vf_chance(R, 700) ? 0 : 1, R);
	pbuf = vf_buf(C->psz);
	start_map(&M, C, pbuf);
	if (resume_map(&M, C, NULL) == 0)
		vf_viol(O_START, "resume of an unused chip succeeds");
	vf_log("case %llu: psz %u ppb %u nb %u bad %u gcr %u\n",
	       (unsigned long long)n, C->psz, C->ppb, nb, bad, gcr);
	quiet_calls(&M, C);
	{
		/* what is left with all bad blocks known */
		const int64_t good = (int64_t)nb - bad - 1;
		const int64_t user = good * (C->ppb - (C->ppb >> C->log2_ppc));
		const int64_t c2 = user - user / (gcr + 1) - 8 * C->ppb;

		cap = c2 > 4 ? c2 : 0;
		if (cap > dhara_map_capacity(&M))
			cap = dhara_map_capacity(&M);
	}
	if (cap < 8) {
		vf_count("too_small", 1);
		return;
	}
	U = vf_chance(R, 300) ? cap : 1 + vf_below(R, cap);
	if (U > 16000)
		U = 8000 + vf_below(R, 8000);
	if (U < 4)
		U = 4;
	alloc_model();
	/* More bad blocks than the initial estimate and its margin: a first
	 * lap teaches the map how many there are (bigger chips are not
	 * filled far enough for it to matter). */
	if (bad > (nb >> 6) + 3 && C->np < 150000)
		filler(&M, C, C->np + C->ppb);
	/* where on the chip to live */
	if (vf_chance(R, 400))
		filler(&M, C, vf_below(R, C->np > 60000 ? 60000 : 2 * C->np));
	for (i = 0; i < U; i++)
		if (vf_chance(R, 950))
			do_write_o(&M, C, vf_chance(R, 500) ? i :
				   vf_below(R, U));
	ops = 500 + vf_below(R, 4000);
	for (i = 0; i < ops; i++) {
		const uint32_t a = vf_below(R, U), b = vf_below(R, U);

		switch (vf_below(R, 24)) {
		case 0 ... 9:
			do_write_o(&M, C, vf_chance(R, 500) ? a : a / 8);
			break;
		case 10 ... 11:
			do_trim(&M, C, a);
			break;
		case 12:
			do_copy(&M, C, a, b);
			break;
		case 13:
			if (vf_chance(R, 300))
				do_sync(&M, C);
			break;
		case 14:
			do_gc(&M, C);
			break;
		case 15:
			check_outside(&M, C);
			break;
		case 16:
			if (vf_chance(R, 60)) {
				do_sync(&M, C);
				start_map(&M, C, pbuf);
				if (resume_map(&M, C, NULL) < 0 && count)
					vf_viol(O_START, "resume fails after "
						"a sync with %u sectors",
						count);
				if (dhara_map_size(&M) != count)
					vf_viol(O_SIZE | O_START, "size %u "
						"after restart, was %u",
						dhara_map_size(&M), count);
				vf_count("restart", 1);
			}
			break;
		case 17:
			if (vf_chance(R, 20))
				filler(&M, C, vf_below(R, C->np > 4000 ? 4000 :
						       C->np));
			break;
		case 18:
			if (vf_chance(R, 2))
				do_clear(&M, C);
			break;
		case 19:
			quiet_calls(&M, C);
			break;
		default:
			check_sector(&M, C, a, ver[a], origin[a]);
			break;
		}
	}
	vf_max("blocks", nb);
	vf_max("pages", C->np);
	vf_max("sectors_mapped", count);
	vf_max("bad_blocks", bad);
	vf_count("writes", n_writes);
	vf_count("nand_accesses", call_total(&C->total));
	vf_distinct2(vf_mix(vf_mix(nb, lps * 64 + lppb), vf_mix(U, gcr)));
	if (n % 17 == 0)
		vf_sample("cost case %llu: %u blocks of %u %u-byte pages, %u "
			  "bad, gc_ratio %u, %u sectors mapped, %u writes",
			  (unsigned long long)n, nb, C->ppb, C->psz, bad, gcr,
			  count, n_writes);
}

/* ---- C11 ------------------------------------------------------------------ */
struct jstate {
	uint32_t root, tail, tail_sync, head, epoch, bbc, bbl, cap, size, cnt;
};

static void snap(const struct dhara_map *m, struct jstate *s)
{
	const struct dhara_journal *j = &m->journal;

	memset(s, 0, sizeof(*s));
	s->root = dhara_journal_root(j);
	s->tail = j->tail;
	s->tail_sync = j->tail_sync;
	s->head = j->head;
	s->epoch = j->epoch;
	s->bbc = j->bb_current;
	s->bbl = j->bb_last;
	s->cap = dhara_map_capacity(m);
	s->size = dhara_journal_size(j);
	s->cnt = dhara_map_size(m);
}

static uint64_t content_hash(struct dhara_map *m, struct chip *c)
{
	uint8_t *buf = vf_buf(c->psz);
	uint64_t h = 1;
	uint32_t i, k;

	for (i = 0; i < U; i++) {
		dhara_error_t e = 0;
		dhara_page_t p = 0;
		int r;

		sim_begin(c, budget());
		r = dhara_map_find(m, i, &p, &e);
		if (r < 0 && e != DHARA_E_NOT_FOUND)
			fail("find", i, e);
		h = vf_mix(h, r < 0 ? 7 : p);
		sim_begin(c, budget());
		if (dhara_map_read(m, i, buf, &e) < 0)
			fail("read", i, e);
		for (k = 0; k < c->psz; k += 16) {
			uint64_t w;

			memcpy(&w, buf + k, 8);
			h = vf_mix(h, w);
		}
	}
	vf_buf_free(buf);
	return h;
}

/* A fixed script of operations: its NAND trace tells two maps apart. */
static uint64_t script(struct dhara_map *m, struct chip *c, uint64_t sd)
{
	vf_rng r = { sd };
	uint8_t *buf = vf_buf(c->psz);
	int i, n = 6 + vf_below(&r, 30);

	c->trace = 0;
	c->tracing = 1;
	for (i = 0; i < n; i++) {
		uint32_t s = vf_below(&r, U), d = vf_below(&r, U);
		dhara_error_t e = 0;
		int rc = 0;

		sim_begin(c, budget());
		switch (vf_below(&r, 5)) {
		case 0: rc = dhara_map_trim(m, s, &e); break;
		case 1: rc = dhara_map_copy_sector(m, s, d, &e); break;
		case 2: rc = dhara_map_gc(m, &e); break;
		case 3: if (vf_chance(&r, 300)) rc = dhara_map_sync(m, &e);
			break;
		default:
			page_of(s, (uint32_t)vf_next(&r), buf);
			rc = dhara_map_write(m, s, buf, &e);
			break;
		}
		c->trace = vf_mix(c->trace, ((uint64_t)(uint32_t)rc << 32) |
				  dhara_map_size(m));
	}
	vf_buf_free(buf);
	return c->trace;
}

/* The chip as it is now (as after a cut while idle): restart on it again
 * and again and compare everything. */
static void probe_start(int clean)
{
	struct chip *c = chip_clone(C), *c2;
	struct dhara_map m;
	struct jstate a, b;
	uint8_t *buf = vf_buf(c->psz);
	uint64_t ha = 0, sd = vf_next(R);
	const int deep = vf_chance(R, 250);
	int rc, rc2, k;
	dhara_error_t e = 0;

	start_map(&m, c, buf);
	rc = resume_map(&m, c, &e);
	if (rc < 0 && cp_clean_ever)
		vf_viol(O_START, "resume fails (%s) on a chip with a checkpoint "
			"at page %u", dhara_strerror(e), cp_root + 1);
	if (rc == 0 && !cp_clean_ever)
		vf_viol(O_START, "resume succeeds before any checkpoint");
	snap(&m, &a);
	if (rc == 0 && a.root != cp_root)
		vf_viol(O_START, "resume finds root %u (epoch %u); the last "
			"checkpoint has root %u", a.root, a.epoch, cp_root);
	if (rc == 0 && clean)
		check_all(&m, c, ver, origin, count);
	if (deep)
		ha = content_hash(&m, c);
	for (k = 0; k < 3; k++) {
		/* same object, or a new one */
		if (vf_below(R, 2))
			start_map(&m, c, buf);
		rc2 = resume_map(&m, c, NULL);
		if (rc2 != rc)
			vf_viol(O_START, "repeated resume returns %d, first "
				"returned %d", rc2, rc);
		snap(&m, &b);
		if (memcmp(&a, &b, sizeof(a)))
			vf_viol(O_START, "repeated resume: root %u head %u "
				"tail %u epoch %u bad %u/%u size %u, first "
				"time root %u head %u tail %u epoch %u bad "
				"%u/%u size %u", b.root, b.head, b.tail,
				b.epoch, b.bbc, b.bbl, b.cnt, a.root, a.head,
				a.tail, a.epoch, a.bbc, a.bbl, a.cnt);
		if (deep && content_hash(&m, c) != ha)
			vf_viol(O_START | O_CONTENT, "repeated resume shows "
				"other contents");
	}
	vf_count("start_probes", 1);
	vf_distinct2(vf_mix(vf_mix(C->trace, cp_root), vf_mix(a.epoch, a.head)));
	if (deep) {
		/* once resumed or four times: the same next behaviour */
		struct dhara_map m2;
		uint8_t *buf2 = vf_buf(c->psz);

		c2 = chip_clone(c);
		start_map(&m2, c2, buf2);
		resume_map(&m2, c2, NULL);
		if (script(&m2, c2, sd) != script(&m, c, sd))
			vf_viol(O_START, "a map resumed repeatedly behaves "
				"differently from one resumed once");
		vf_buf_free(buf2);
		chip_free(c2);
		vf_count("behaviours_compared", 1);
	}
	vf_buf_free(buf);
	chip_free(c);
}

static void small_chip(int virgin)
{
	const int lppb = vf_range(R, 1, 4), lps = vf_range(R, 8, 10);
	uint32_t nb, i, want, b;

	gcr = vf_range(R, 1, 6);
	nb = 14 + (gcr < 2 ? 12 : 0) + vf_below(R, 20);
	if (lppb == 1)
		nb += 10;
	C = chip_new(lps, lppb, nb);
	C->hook = on_mut;
	C->max_run = 6;
	C->max_bad = nb / 4;
	if (vf_chance(R, 600)) {
		/* runs of bad blocks at the start, at the end, in between */
		want = vf_below(R, 4);
		for (i = 0; i < want; i++) {
			uint32_t run = vf_range(R, 1, 5), k;

			b = vf_chance(R, 350) ? 0 : vf_chance(R, 400) ?
				nb - run : vf_below(R, nb);
			for (k = 0; k < run; k++)
				if (chip_may_break(C, (b + k) % nb))
					chip_factory_bad(C, (b + k) % nb);
		}
	}
	chip_virgin(C, virgin, R);
	pbuf = vf_buf(C->psz);
	start_map(&M, C, pbuf);
}

static uint32_t safe_universe(void)
{
	uint32_t bad = C->nbroken, cap;
	const int64_t user = ((int64_t)C->nb - bad - 1) *
		(C->ppb - (C->ppb >> C->log2_ppc));
	const int64_t x = user - user / (gcr + 1) - 8 * (int64_t)C->ppb;

	cap = x > 3 ? (x < 40 ? x : 40) : 0;
	return cap;
}

static void step_small(void)
{
	const uint32_t a = vf_below(R, U), b = vf_below(R, U);

	switch (vf_below(R, 16)) {
	case 0 ... 8: do_write_o(&M, C, a); break;
	case 9 ... 10: do_trim(&M, C, a); break;
	case 11: do_copy(&M, C, a, b); break;
	case 12: do_sync(&M, C); break;
	case 13: do_gc(&M, C); break;
	case 14: check_sector(&M, C, a, ver[a], origin[a]); break;
	default:
		if (vf_chance(R, 30))
			do_clear(&M, C);
		break;
	}
}

static void case_start(uint64_t n)
{
	uint32_t i, steps, skip;

	small_chip(vf_below(R, 4));
	U = safe_universe();
	if (U < 4) {
		vf_count("too_small", 1);
		return;
	}
	U = 3 + vf_below(R, U - 3);
	alloc_model();
	if (resume_map(&M, C, NULL) == 0)
		vf_viol(O_START, "resume of an unused chip succeeds");
	probe_start(1);
	C->tracing = 1;
	/* move on: nothing, some laps, or just short of the epoch wrap */
	skip = 0;
	if (vf_chance(R, 700)) {
		const uint32_t lap = C->np - (C->np >> C->log2_ppc);

		skip = vf_chance(R, 400) ?
			lap * 252 + vf_below(R, 5 * lap) : vf_below(R, 3 * lap);
		if (C->np > 300 && skip > 50000)
			skip = 50000;
		filler(&M, C, skip);
	}
	steps = C->np * 3;
	if (steps > 900)
		steps = 900;
	for (i = 0; i < steps; i++) {
		step_small();
		if (vf_chance(R, 800))
			probe_start(dhara_journal_is_clean(&M.journal) &&
				    cp_clean_ever);
		if (vf_chance(R, 10)) {
			do_sync(&M, C);
			start_map(&M, C, pbuf);
			if (resume_map(&M, C, NULL) < 0 && cp_clean_ever)
				vf_viol(O_START, "resume fails after sync");
			check_all(&M, C, ver, origin, count);
			vf_count("restart", 1);
		}
	}
	vf_max("epochs", C->max_erase);
	vf_distinct(n);
	if (n % 13 == 0)
		vf_sample("start case %llu: %u blocks of %u pages, %u bad, "
			  "skip %u pages, epoch %u at the end",
			  (unsigned long long)n, C->nb, C->ppb, C->nbroken,
			  skip, M.journal.epoch);
}

/* Chips that hold no map. */
static void foreign_page(uint8_t *d)
{
	uint32_t i;
	static const uint8_t magic[][4] = {
		{ 'D', 'h', 0, 0 }, { 'd', 'h', 'a', 0 }, { 'D', 0, 'a', 1 },
		{ 0, 'h', 'a', 0 }, { 'D', 'h', 'b', 0 }, { 'D', 'h', 0xff, 0 },
		{ 'D', 'H', 'a', 0 }, { 'a', 'h', 'D', 0 }, { 0x44, 0x68, 0x60, 0 },
		{ 'h', 'a', 0, 'D' },
	};

	switch (vf_below(R, 5)) {
	case 0: memset(d, 0, C->psz); break;
	case 1: memset(d, vf_below(R, 256), C->psz); break;
	default:
		for (i = 0; i < C->psz; i++)
			d[i] = vf_next(R);
		break;
	}
	if (vf_chance(R, 500))
		memcpy(d, magic[vf_below(R, sizeof(magic) / 4)], 4);
	if (d[0] == 'D' && d[1] == 'h' && d[2] == 'a')
		d[2] = 'b';
}

static void case_foreign(uint64_t n)
{
	uint8_t *d;
	uint32_t p, i, laps;
	int style, k, used = 0;
	dhara_error_t e;

	small_chip(0);
	U = safe_universe();
	if (U < 4) {
		vf_count("too_small", 1);
		return;
	}
	alloc_model();
	style = vf_below(R, 5);
	d = vf_alloc(C->psz);
	if (style < 4)
		for (p = 0; p < C->np; p++) {
			const int f = style == 3 ? (int)vf_below(R, 3) : style;

			if (f == 0)
				continue;	/* erased */
			if (f == 1) {
				foreign_page(d);
				chip_set_page(C, p, d);
			} else {
				C->pf[p] |= PF_UNREADABLE;
			}
			C->blk[p / C->ppb].noerase = 1;
		}
	else
		chip_virgin(C, 2, R);
	free(d);
	/* a map that was never checkpointed is no map either */
	if (vf_chance(R, 200)) {
		resume_map(&M, C, NULL);
		for (i = 0; i + 2 < (1u << C->log2_ppc); i++)
			do_write_o(&M, C, i % U);
		if (cp_clean_ever) {
			/* bad blocks at the start made it collect garbage */
			vf_count("too_small", 1);
			return;
		}
		memset(ver, 0, U * sizeof(ver[0]));
		count = 0;
		C->hook = NULL;
		C = chip_clone(C);
		C->hook = on_mut;
		vf_count("lost_first_group", 1);
	}
	if (vf_chance(R, 350)) {
		/* the object served another chip before this one */
		struct chip *const here = C;
		const uint32_t ops = vf_below(R, vf_chance(R, 300) ? 800 : 60);

		C->hook = NULL;
		C = chip_new(C->n.log2_page_size, C->n.log2_ppb, C->nb);
		for (i = 0; i < C->nb; i++)
			if (here->blk[i].factory)
				chip_factory_bad(C, i);
		start_map(&M, C, pbuf);
		resume_map(&M, C, NULL);
		for (i = 0; i < ops; i++)
			step_small();
		memset(ver, 0, U * sizeof(ver[0]));
		count = 0;
		cp_clean_ever = 0;
		C = here;
		C->hook = on_mut;
		M.journal.nand = &C->n;
		used = 1;
	} else {
		start_map(&M, C, pbuf);
	}
	for (k = 1 + vf_below(R, 3); k; k--) {
		e = DHARA_E_NONE;
		if (resume_map(&M, C, k == 2 ? NULL : &e) == 0)
			vf_viol(O_START, "resume succeeds on a chip holding no "
				"map");
		if (k != 2 && e == DHARA_E_NONE)
			vf_viol(O_START | O_ERRATOM, "resume fails without "
				"saying why");
		if (!dhara_journal_is_clean(&M.journal) ||
		    dhara_journal_in_recovery(&M.journal))
			vf_soft(O_START, "journal %s after a resume which "
				"found no map",
				dhara_journal_in_recovery(&M.journal) ?
				"in recovery" : "not clean");
		if (vf_chance(R, 300))
			start_map(&M, C, pbuf);
		else
			continue;
		if (k == 1)
			resume_map(&M, C, NULL);
	}
	if (used) {
		static struct dhara_map f;
		uint8_t *fb = vf_buf(C->psz);

		start_map(&f, C, fb);
		resume_map(&f, C, NULL);
		if (dhara_map_capacity(&f) != dhara_map_capacity(&M) ||
		    dhara_journal_size(&f.journal) !=
		    dhara_journal_size(&M.journal))
			vf_viol(O_START, "a used map resumed on a chip holding "
				"none has capacity %u and %u pages queued, a "
				"new one %u and %u", dhara_map_capacity(&M),
				dhara_journal_size(&M.journal),
				dhara_map_capacity(&f),
				dhara_journal_size(&f.journal));
		vf_buf_free(fb);
		vf_count("used_objects", 1);
	}
	check_all(&M, C, ver, origin, 0);
	vf_count("foreign_chips", 1);
	/* the empty map works, for a lap or two */
	laps = C->np * vf_range(R, 1, 2);
	for (i = 0; i < laps && n_writes < 1500; i++) {
		step_small();
		if (vf_chance(R, 60)) {
			check_all(&M, C, ver, origin, count);
			probe_start(dhara_journal_is_clean(&M.journal) &&
				    cp_clean_ever);
		}
	}
	do_sync(&M, C);
	check_all(&M, C, ver, origin, count);
	start_map(&M, C, pbuf);
	if (resume_map(&M, C, NULL) < 0 && cp_clean_ever)
		vf_viol(O_START, "resume fails after sync");
	check_all(&M, C, ver, origin, count);
	vf_distinct2(vf_mix(n, style));
	if (n % 29 == 0)
		vf_sample("foreign case %llu: style %d, %u blocks of %u pages, "
			  "%u bad; empty map worked for %u writes",
			  (unsigned long long)n, style, C->nb, C->ppb,
			  C->nbroken, n_writes);
}

/* ---- far along a large chip ------------------------------------------------
 * A chip whose journal has come as far as block x, in its n-th pass, and has
 * held nothing but filler for a long time, written down by the documented
 * format. From there on all is the library's: page numbers are large, and the
 * end of the chip is near.
 */
static void old_chip(uint32_t x, unsigned epoch, uint32_t bbl)
{
	const uint32_t ppc = 1u << C->log2_ppc, cp = ppc - 1;
	uint8_t *d = vf_alloc(C->psz);
	uint32_t b, now = SIM_NONE, before = SIM_NONE;
	int old;

	for (b = 0; b < C->nb; b++) {
		const uint32_t p = b * C->ppb + cp;
		uint32_t *first = b <= x ? &now : &before;

		C->blk[b].next = b == x ? ppc : C->ppb;
		if (C->blk[b].bad)
			continue;
		if (*first != SIM_NONE) {
			chip_same_page(C, p, *first);
			continue;
		}
		old = b > x;
		memset(d, 0xff, C->psz);
		memcpy(d, "Dha", 3);
		d[3] = epoch - old;
		dhara_w32(d + 4, x * C->ppb);
		dhara_w32(d + 8, 0);
		dhara_w32(d + 12, bbl);
		dhara_w32(d + 16, 0);
		chip_set_page(C, p, d);
		*first = p;
	}
	free(d);
}

static void case_far(uint64_t n)
{
	const int many = n % 12 == 5;
	int lps, lppb, lnp;
	uint32_t nb, x, i, ops, p0, pass;

	lppb = vf_range(R, 1, 8);
	lps = vf_range(R, 8, 10);
	lnp = many ? 18 : n % 4 == 1 ? 24 : vf_range(R, 16, 24);
	if (many && lppb < 5)
		lppb = 5;
	if (lnp - lppb > 21)
		lppb = lnp - 21;
	nb = (1u << (lnp - lppb)) + vf_below(R, 1u << (lnp - lppb));
	gcr = many ? 8 : vf_range(R, 1, 8);
	C = chip_new(lps, lppb, nb);
	C->hook = on_mut;
	/* close to the end, a power of two, or anywhere */
	pass = vf_below(R, 3);
	if (many || n % 4 == 1)
		pass = 0;
	x = pass == 0 ? nb - 1 - vf_below(R, 1200 / C->ppb + 4) :
		pass == 1 ? (1u << (lnp - lppb)) - 1 -
		vf_below(R, 300 / C->ppb + 2) : vf_below(R, nb);
	if (vf_chance(R, 300))
		for (i = 0; i < 20; i++) {
			const uint32_t b = (x + 1 + vf_below(R, 60)) % nb;

			if (chip_may_break(C, b))
				chip_factory_bad(C, b);
		}
	old_chip(x, vf_below(R, 256), nb >> 6);
	pbuf = vf_buf(C->psz);
	start_map(&M, C, pbuf);
	if (resume_map(&M, C, NULL) < 0)
		vf_viol(O_START, "a chip with a checkpoint in block %u of %u is "
			"taken for an unused one", x, nb);
	cp_root = dhara_journal_root(&M.journal);
	cp_clean_ever = 1;
	if (cp_root != x * C->ppb + (1u << C->log2_ppc) - 2)
		vf_viol(O_START, "root %u, but the last checkpoint is in block "
			"%u of %u-page blocks", cp_root, x, C->ppb);
	if (dhara_map_size(&M))
		vf_viol(O_START | O_SIZE, "size %u, but the map is empty",
			dhara_map_size(&M));
	U = many ? 65600 + vf_below(R, 4000) : 20 + vf_below(R, 300);
	alloc_model();
	if (!many)
		probe_start(1);
	p0 = C->total.prog;
	for (i = 0; many && i < U; i++)
		do_write_o(&M, C, i);
	ops = 600 + vf_below(R, 1500);
	for (i = 0; i < ops; i++) {
		step_small();
		if (vf_chance(R, many ? 3 : 15)) {
			uint32_t size, cap;

			do_sync(&M, C);
			size = dhara_journal_size(&M.journal);
			cap = dhara_map_capacity(&M);
			start_map(&M, C, pbuf);
			if (resume_map(&M, C, NULL) < 0)
				vf_viol(O_START, "resume fails after sync");
			if (dhara_map_size(&M) != count)
				vf_viol(O_SIZE | O_START, "size %u after "
					"restart, was %u", dhara_map_size(&M),
					count);
			/* (what was dequeued while clean comes back) */
			if (dhara_journal_size(&M.journal) > size + 300 +
			    (C->nbroken ? 8 * C->ppb : 0) ||
			    dhara_journal_size(&M.journal) < size)
				vf_viol(O_START, "journal size %u after "
					"restart, was %u",
					dhara_journal_size(&M.journal), size);
			if (dhara_map_capacity(&M) != cap)
				vf_viol(O_START, "capacity %u after restart, "
					"was %u", dhara_map_capacity(&M), cap);
			if (!many)
				check_all(&M, C, ver, origin, count);
			vf_count("restart", 1);
		}
	}
	if (many)
		for (i = 0; i < U; i += 1 + vf_below(R, 90))
			check_sector(&M, C, i, ver[i], origin[i]);
	else
		check_all(&M, C, ver, origin, count);
	vf_max("pages", C->np);
	vf_max("blocks", nb);
	vf_max("sectors_mapped", count);
	vf_count("far_chips", 1);
	vf_count("pages_programmed_far", C->total.prog - p0);
	if (dhara_journal_root(&M.journal) < x * C->ppb)
		vf_count("far_chips_wrapped", 1);
	vf_distinct2(vf_mix(vf_mix(nb, lps * 64 + lppb), vf_mix(U, x)));
	if (n % 5 == 0)
		vf_sample("far case %llu: %u blocks of %u %u-byte pages, from "
			  "block %u, %u sectors mapped",
			  (unsigned long long)n, nb, C->ppb, C->psz, x, count);
}

static const char *prof;

static void run_case(vf_rng *r, uint64_t n)
{
	R = r;
	cleanup();
	if (!strcmp(prof, "cost"))
		case_cost(n);
	else if (!strcmp(prof, "start"))
		case_start(n);
	else if (!strcmp(prof, "far"))
		case_far(n);
	else
		case_foreign(n);
	cleanup();
}

int main(int argc, char **argv)
{
	struct vf_opts o;

	vf_parse(argc, argv, &o);
	prof = o.profile;
	if (strcmp(prof, "cost") && strcmp(prof, "start") &&
	    strcmp(prof, "foreign") && strcmp(prof, "far"))
		vf_die("no such profile: %s", prof);
	vf_run_cases(&o, run_case);
	vf_finish(&o);
	return 0;
}
