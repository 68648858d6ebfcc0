/* Histories of journal operations against a queue model (C15, C16, C17).
 *
 * The model is the list of user pages between tail and head, in physical
 * order, each with the identity of its data and its metadata. It learns where
 * a page went from dhara_journal_root() and checks data and metadata there.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vf.h"
#include "sim.h"
#include "journal.h"

#define MSZ DHARA_META_SIZE

struct prof {
	const char *name;
	int lps_lo, lps_hi, lppb_lo, lppb_hi;
	int nb_lo, nb_hi, maxpages;
	int ops_lo, ops_hi;
	int w_enq, w_copy, w_deq, w_move, w_clear, w_pad, w_sync, w_cookie,
	    w_dirty, w_restart, w_fill, w_drain;
	int fill;		/* enqueue only while below this % of capacity */
	int clone_pm, adopt_pm;
	int fail;
	int brim;		/* blocks fail while the journal is full */
};

static const struct prof profs[] = {
	{ .name = "jqueue", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1,
	  .lppb_hi = 6, .nb_lo = 4, .nb_hi = 40, .maxpages = 1500,
	  .ops_lo = 150, .ops_hi = 1200,
	  .w_enq = 50, .w_copy = 10, .w_deq = 30, .w_move = 14, .w_clear = 1,
	  .w_pad = 4, .w_sync = 6, .w_cookie = 8, .w_dirty = 1,
	  .w_restart = 6, .w_fill = 1, .w_drain = 2, .fill = 90,
	  .clone_pm = 120, .adopt_pm = 40 },
	{ .name = "jfull", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1,
	  .lppb_hi = 5, .nb_lo = 3, .nb_hi = 30, .maxpages = 600,
	  .ops_lo = 300, .ops_hi = 1500,
	  .w_enq = 70, .w_copy = 12, .w_deq = 40, .w_move = 20, .w_clear = 1,
	  .w_pad = 4, .w_sync = 8, .w_cookie = 2, .w_dirty = 1,
	  .w_restart = 4, .w_fill = 8, .w_drain = 3, .fill = 200,
	  .clone_pm = 25, .adopt_pm = 60 },
	{ .name = "jrec", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1,
	  .lppb_hi = 6, .nb_lo = 24, .nb_hi = 70, .maxpages = 3000,
	  .ops_lo = 150, .ops_hi = 1000,
	  .w_enq = 50, .w_copy = 10, .w_deq = 34, .w_move = 14, .w_clear = 2,
	  .w_pad = 4, .w_sync = 6, .w_cookie = 2, .w_dirty = 1,
	  .w_restart = 4, .w_fill = 0, .w_drain = 1, .fill = 35,
	  .fail = 1 },
	{ .name = "jrecmany", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1,
	  .lppb_hi = 5, .nb_lo = 40, .nb_hi = 90, .maxpages = 2500,
	  .ops_lo = 150, .ops_hi = 1000,
	  .w_enq = 50, .w_copy = 10, .w_deq = 34, .w_move = 14, .w_clear = 2,
	  .w_pad = 4, .w_sync = 6, .w_cookie = 2, .w_dirty = 1,
	  .w_restart = 4, .w_fill = 0, .w_drain = 1, .fill = 25,
	  .fail = 2 },
	{ .name = "jfullfail", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1,
	  .lppb_hi = 5, .nb_lo = 12, .nb_hi = 40, .maxpages = 800,
	  .ops_lo = 200, .ops_hi = 1000,
	  .w_enq = 80, .w_copy = 12, .w_deq = 30, .w_move = 10, .w_clear = 1,
	  .w_pad = 4, .w_sync = 8, .w_cookie = 2, .w_dirty = 1,
	  .w_restart = 4, .w_fill = 0, .w_drain = 2, .fill = 200,
	  .fail = 1, .brim = 1 },
	{ .name = NULL }
};

static const struct prof *P;
static vf_rng *R;

struct ent { uint32_t page, did, mid; };
struct list { struct ent *e; uint32_t first, n, cap; };	/* e[first..n) */

struct jsess {
	struct chip		*c;
	struct dhara_journal	*j;	/* own allocation: exact bounds */
	uint8_t			*pbuf;
	struct list		q;
	/* state as of the last completed checkpoint */
	int			ever;
	struct list		snap;
	uint8_t			snap_cookie[DHARA_COOKIE_SIZE];
	uint32_t		clean_deq;	/* dequeued while clean since */
	uint32_t		fillers;	/* blank pages a cut may have left */
	uint8_t			cookie[DHARA_COOKIE_SIZE];
	int			cookie_known;
	int			in_rec;
	/* pages dequeued while clean came back, but may be reused */
	int			ghosts;
	int			settling;	/* no checkpoint noted yet */
	uint32_t		*ghost;		/* their pages */
	uint32_t		nghost, cghost;
};

static struct jsess J;
static int stuck;		/* a block failed and there was no room to recover */
static uint32_t next_id;
static uint8_t *dbuf;
static uint32_t upb;		/* user pages per block */

struct jclone {
	struct chip *c;
	const char *what;
	uint32_t where;
	/* model as of the cut */
	int ever;
	struct list snap;
	uint8_t cookie[DHARA_COOKIE_SIZE];
	uint32_t clean_deq;
};
static struct jclone clones[4];
static int nclones, take_clones;

/* ---- lists ------------------------------------------------------------- */
static void l_push(struct list *l, struct ent x)
{
	if (l->n == l->cap) {
		l->cap = l->cap ? l->cap * 2 : 64;
		l->e = realloc(l->e, l->cap * sizeof(l->e[0]));
		if (!l->e)
			vf_die("out of memory");
	}
	l->e[l->n++] = x;
}

static uint32_t l_len(const struct list *l) { return l->n - l->first; }

static void l_copy(struct list *d, const struct list *s)
{
	uint32_t i;

	d->first = d->n = 0;
	for (i = s->first; i < s->n; i++)
		l_push(d, s->e[i]);
}

static void l_compact(struct list *l)
{
	if (l->first > 256 && l->first * 2 > l->n) {
		memmove(l->e, l->e + l->first, l_len(l) * sizeof(l->e[0]));
		l->n -= l->first;
		l->first = 0;
	}
}

static void l_drop_block(struct list *l, uint32_t ppb, uint32_t b)
{
	uint32_t i, k = l->first;

	for (i = l->first; i < l->n; i++)
		if (l->e[i].page / ppb != b)
			l->e[k++] = l->e[i];
	l->n = k;
}

static struct ent *l_find(struct list *l, uint32_t page)
{
	uint32_t i;

	for (i = l->n; i-- > l->first; )
		if (l->e[i].page == page)
			return &l->e[i];
	return NULL;
}

static struct list tmp_lists[4];

/* ---- values ----------------------------------------------------------------
 * data id: 0 unknown (filler), multiples of 16 -> special contents
 * meta id: 0 all 0xff
 */
static void gen(uint32_t id, uint64_t salt, uint8_t *b, uint32_t n)
{
	vf_rng r = { vf_mix(salt + 77, id) };
	uint32_t i;

	for (i = 0; i < n; i += 4) {
		uint32_t v = (uint32_t)vf_next(&r), k;

		for (k = 0; k < 4 && i + k < n; k++)
			b[i + k] = (uint8_t)(v >> (8 * k));
	}
	if (salt == 1 && id % 16 == 0)
		memset(b, 0xff, n);
	else if (salt == 1 && id % 16 == 1)
		memcpy(b, "Dha", 3);	/* looks like a checkpoint */
}

static int data_ok(struct chip *c, uint32_t page, uint32_t did)
{
	const uint8_t *d = chip_page(c, page);

	if (!did)
		return 1;
	if (!d)
		return 0;
	gen(did, 1, dbuf, c->psz);
	return !memcmp(d, dbuf, c->psz);
}

static void gen_meta(uint32_t mid, uint8_t *m)
{
	if (mid)
		gen(mid, 2, m, MSZ);
	else
		memset(m, 0xff, MSZ);
}

/* Read back page and metadata of an entry. */
static void check_entry(struct jsess *s, const struct ent *x, unsigned cl,
			const char *when)
{
	uint8_t m[MSZ + 8], want[MSZ];
	dhara_error_t err = 0;

	memset(m, 0x6b, sizeof(m));
	if (dhara_journal_read_meta(s->j, x->page, m, &err) < 0)
		vf_viol(cl, "%s: metadata of queued page %u unreadable (error "
			"%d)", when, x->page, err);
	gen_meta(x->mid, want);
	if (memcmp(m, want, MSZ))
		vf_viol(cl, "%s: queued page %u has wrong metadata", when,
			x->page);
	if (!data_ok(s->c, x->page, x->did))
		vf_viol(cl, "%s: queued page %u has wrong data", when,
			x->page);
	vf_count("entries_checked", 1);
}

/* ---- monitors on flash mutation --------------------------------------------- */
static int is_protected(struct jsess *s, uint32_t lo, uint32_t hi, uint32_t *pg)
{
	uint32_t i;

	for (i = s->q.first; i < s->q.n; i++)
		if (s->q.e[i].page >= lo && s->q.e[i].page < hi) {
			*pg = s->q.e[i].page;
			return 1;
		}
	if (!s->ever || s->in_rec)
		return 0;
	for (i = s->snap.first + s->clean_deq; i < s->snap.n; i++)
		if (s->snap.e[i].page >= lo && s->snap.e[i].page < hi) {
			*pg = s->snap.e[i].page;
			return 2;
		}
	return 0;
}

static void hook(struct chip *c, int kind, uint32_t where, int fails)
{
	struct chip *k;
	struct jclone *x;
	uint32_t lo = where, hi = where + 1, pg, st;

	(void)fails;
	if (kind == MUT_MARK)
		return;
	if (kind == MUT_ERASE) {
		lo = where * c->ppb;
		hi = lo + c->ppb;
	}
	st = is_protected(&J, lo, hi, &pg);
	if (st)
		vf_viol(O_SPACE | O_QUEUE, "%s %u would destroy page %u, which "
			"%s", kind == MUT_ERASE ? "erase of block" :
			"program of page", where, pg, st == 1 ? "is queued" :
			"the last checkpoint refers to");
	vf_count("mutations_checked", 1);
	if (!take_clones || nclones >= 4 || !vf_chance(R, P->clone_pm))
		return;
	k = chip_clone(c);
	x = &clones[nclones++];
	x->c = k;
	x->where = where;
	x->ever = J.ever;
	l_copy(&x->snap, &J.snap);
	memcpy(x->cookie, J.snap_cookie, sizeof(x->cookie));
	x->clean_deq = J.clean_deq;
	if (kind == MUT_PROG) {
		x->what = "cut before program of page";
		if (vf_chance(R, 600)) {
			chip_torn_prog(k, where);
			x->what = "cut during program of page";
		}
	} else {
		x->what = "cut before erase of block";
		st = vf_below(R, 5);
		if (st) {
			chip_torn_erase(k, where, st, R);
			x->what = "cut during erase of block";
		}
	}
}

static void take_snap(struct jsess *s)
{
	l_copy(&s->snap, &s->q);
	memcpy(s->snap_cookie, dhara_journal_cookie(s->j), DHARA_COOKIE_SIZE);
	s->clean_deq = 0;
	s->ever = 1;
	vf_count("checkpoints", 1);
}

/* Resuming in place, whatever the journal was doing, is no different from
 * resuming a new object on the same chip. */
static void probe_in_place(struct jsess *s, unsigned cl)
{
	struct chip *c = chip_clone(s->c);
	struct dhara_journal *a = vf_alloc(sizeof(*a)),
		*b = vf_alloc(sizeof(*b));
	uint8_t *ab = vf_buf(c->psz), *bb = vf_buf(c->psz);
	int ra, rb;

	c->hook = NULL;
	c->readonly = 1;
	vf_junk(a, sizeof(*a), R);
	*b = *s->j;
	b->nand = &c->n;
	b->page_buf = bb;
	memcpy(bb, s->pbuf, c->psz);
	sim_begin(c, 100000 + 100ull * c->np);
	dhara_journal_init(a, &c->n, ab);
	ra = dhara_journal_resume(a, NULL);
	sim_begin(c, 100000 + 100ull * c->np);
	rb = dhara_journal_resume(b, NULL);
	if (ra != rb || dhara_journal_root(a) != dhara_journal_root(b) ||
	    dhara_journal_capacity(a) != dhara_journal_capacity(b) ||
	    dhara_journal_size(a) != dhara_journal_size(b) ||
	    dhara_journal_is_clean(a) != dhara_journal_is_clean(b) ||
	    !!dhara_journal_in_recovery(a) != !!dhara_journal_in_recovery(b) ||
	    dhara_journal_peek(a) != dhara_journal_peek(b) ||
	    (!ra && memcmp(dhara_journal_cookie(a), dhara_journal_cookie(b),
			   DHARA_COOKIE_SIZE)) ||
	    dhara_journal_next_recoverable(b) != DHARA_PAGE_NONE)
		vf_viol(cl, "resuming in place: result %d root %u capacity %u "
			"size %u clean %d recovery %d, resuming anew: %d %u "
			"%u %u %d %d", rb, dhara_journal_root(b),
			dhara_journal_capacity(b), dhara_journal_size(b),
			dhara_journal_is_clean(b),
			!!dhara_journal_in_recovery(b), ra,
			dhara_journal_root(a), dhara_journal_capacity(a),
			dhara_journal_size(a), dhara_journal_is_clean(a),
			!!dhara_journal_in_recovery(a));
	vf_count("in_place_probes", 1);
	free(a);
	free(b);
	vf_buf_free(ab);
	vf_buf_free(bb);
	chip_free(c);
}

/* ---- always true ------------------------------------------------------------- */
/* The capacity follows the bad blocks: it never counts on ones which were
 * known when the head last came round the end of the chip. */
static void check_jcap(struct jsess *s, const char *when)
{
	const struct chip *c = s->c;
	const uint32_t cap = dhara_journal_capacity(s->j);
	uint32_t bad = c->pass_bad;

	if (c->laps && bad < c->lap_bad)
		bad = c->lap_bad;
	if (cap > (c->nb - bad - 1) * upb)
		vf_soft(O_SPACE, "%s: reported capacity %u, but %u of %u blocks "
			"are known to be bad", when, cap, bad, c->nb);
	vf_count("capacity_bounds", 1);
}

/* pages queued or dequeued since the last checkpoint */
static uint32_t held(const struct jsess *s)
{
	static uint64_t *mark, now;
	static uint32_t np;
	uint32_t i, n = l_len(&s->q);

	if (np < s->c->np) {
		free(mark);
		np = s->c->np;
		mark = vf_alloc(np * sizeof(mark[0]));
		memset(mark, 0, np * sizeof(mark[0]));
	}
	now++;
	for (i = s->q.first; i < s->q.n; i++)
		mark[s->q.e[i].page] = now;
	for (i = s->snap.first + s->clean_deq; i < s->snap.n; i++)
		if (mark[s->snap.e[i].page] != now)
			n++;
	return n;
}

static void check_state(struct jsess *s, const char *when)
{
	const uint32_t sz = dhara_journal_size(s->j);

	if (sz < l_len(&s->q))
		vf_soft(O_SPACE, "%s: reported size %u, but %u pages are "
			"queued", when, sz, l_len(&s->q));
	if (!s->ghosts && !s->settling && sz < held(s))
		vf_soft(O_SPACE, "%s: reported size %u, but %u pages are "
			"queued or still needed by the last checkpoint", when,
			sz, held(s));
	check_jcap(s, when);
	if (sz > (s->c->nb + 1) * upb)
		vf_soft(O_SPACE, "%s: reported size %u exceeds the chip", when,
			sz);
	if (!dhara_journal_in_recovery(s->j) &&
	    dhara_journal_next_recoverable(s->j) != DHARA_PAGE_NONE)
		vf_viol(O_RECOV, "%s: page to recover, but the journal is not "
			"in recovery", when);
	if (s->cookie_known && memcmp(dhara_journal_cookie(s->j), s->cookie,
				      DHARA_COOKIE_SIZE))
		vf_viol(O_QUEUE, "%s: cookie changed", when);
}

static void begin(struct jsess *s)
{
	sim_begin(s->c, 100000 + 100ull * s->c->np);
}

/* newest page is the root */
static void note_pushed(struct jsess *s, uint32_t did, uint32_t mid,
			unsigned cl, const char *when)
{
	struct ent x = { dhara_journal_root(s->j), did, mid };

	if (x.page >= s->c->np ||
	    !((x.page + 1) & ((1u << s->c->log2_ppc) - 1)))
		vf_viol(cl, "%s: root %u is no user page", when, x.page);
	if (l_find(&s->q, x.page))
		vf_viol(cl, "%s: root %u is a page already queued", when,
			x.page);
	check_entry(s, &x, cl, when);
	l_push(&s->q, x);
	vf_distinct2(vf_mix(x.page, vf_mix(s->c->total.erase, did)));
}

/* ---- recovery ------------------------------------------------------------------ */
static void drop_failed(struct jsess *s, uint32_t keep)
{
	uint32_t b;

	for (b = 0; b < s->c->nb; b++)
		if (b != keep && s->c->blk[b].reported)
			l_drop_block(&s->q, s->c->ppb, b);
}

static void recover(struct jsess *s)
{
	static uint8_t *seen;
	static uint32_t seen_cap;
	struct chip *c = s->c;
	uint32_t F = SIM_NONE, last = SIM_NONE, i, pads = 0;
	int restarts = 0, done = 0;
	/* which of the recoverable pages this user wants to keep */
	const uint32_t keep_pm = vf_chance(R, 700) ? 1000 :
		vf_chance(R, 300) ? 0 : vf_range(R, 1, 999);

	if (!dhara_journal_in_recovery(s->j))
		vf_viol(O_RECOV, "E_RECOVER reported, but the journal is not "
			"in recovery");
	if (seen_cap < c->np) {
		free(seen);
		seen = vf_alloc(c->np);
		seen_cap = c->np;
	}
	memset(seen, 0, c->np);
	s->in_rec = 1;
	s->fillers++;			/* where the metadata was dumped */
	vf_count("recoveries", 1);
	while (dhara_journal_in_recovery(s->j)) {
		dhara_page_t p;
		dhara_error_t err = 0;
		struct ent *x, v = { 0, 0, 0 };
		int rc;

		begin(s);
		if (vf_chance(R, 8)) {
			dhara_journal_clear(s->j);
			s->q.first = s->q.n = 0;
			vf_count("clears_in_recovery", 1);
		}
		if (vf_chance(R, 20)) {
			/* interrupted, and taken up again */
			dhara_journal_restart_recovery(s->j);
			memset(seen, 0, c->np);
			last = SIM_NONE;
			done = 0;
			pads = 0;
		}
		p = dhara_journal_next_recoverable(s->j);
		if (p != DHARA_PAGE_NONE) {
			const uint32_t b = p / c->ppb;
			uint8_t meta[MSZ];

			if (done)
				vf_viol(O_RECOV, "page %u handed out after the "
					"end of the enumeration", p);
			if (p >= c->np)
				vf_viol(O_RECOV | O_PROTOCOL, "recoverable "
					"page %u out of range", p);
			if (F == SIM_NONE)
				F = b;
			if (b != F || !c->blk[F].reported)
				vf_viol(O_RECOV, "recoverable page %u is not "
					"in the failed block %u", p, F);
			if (last != SIM_NONE && p <= last)
				vf_viol(O_RECOV, "recoverable page %u after %u",
					p, last);
			last = p;
			seen[p] = 1;
			x = l_find(&s->q, p);
			if (!x) {
				vf_count("recover_other_pages", 1);
				continue;	/* dequeued earlier */
			}
			v = *x;
			check_entry(s, x, O_RECOV, "recoverable page");
			if (!vf_chance(R, keep_pm)) {
				vf_count("recover_dropped_pages", 1);
				continue;	/* it was garbage */
			}
			gen_meta(v.mid, meta);
			if (vf_chance(R, 300)) {
				uint8_t *d = vf_buf(c->psz);

				dhara_nand_read(&c->n, p, 0, c->psz, d, NULL);
				rc = dhara_journal_enqueue(s->j, d, meta, &err);
				vf_buf_free(d);
			} else {
				rc = dhara_journal_copy(s->j, p, meta, &err);
			}
			vf_count("pages_relocated", 1);
		} else {
			if (!done)
				for (i = s->q.first; i < s->q.n; i++)
					if (F != SIM_NONE &&
					    s->q.e[i].page / c->ppb == F &&
					    !seen[s->q.e[i].page])
						vf_viol(O_RECOV, "queued page "
							"%u of failed block %u "
							"not handed out",
							s->q.e[i].page, F);
			done = 1;
			if (pads++ > (1u << c->log2_ppc))
				vf_viol(O_RECOV, "recovery does not end after a "
					"whole checkpoint group");
			rc = dhara_journal_enqueue(s->j, NULL, NULL, &err);
		}
		if (rc && rc != -1)
			vf_viol(O_RECOV | O_QUEUE, "relocation returns %d", rc);
		if (vf_chance(R, 60))
			probe_in_place(s, O_START | O_RECOV);
		if (rc < 0) {
			if (P->brim && err == DHARA_E_JOURNAL_FULL) {
				stuck = 1;
				return;
			}
			if (err != DHARA_E_RECOVER)
				vf_viol(O_RECOV | O_QUEUE, "relocation fails "
					"with error %d", err);
			if (!dhara_journal_in_recovery(s->j))
				vf_viol(O_RECOV, "E_RECOVER reported outside "
					"recovery");
			if (restarts++ > 64)
				vf_viol(O_RECOV | O_STUCK, "recovery keeps "
					"restarting");
			vf_count("recovery_restarts", 1);
			/* what had been relocated to the failed block is to
			 * be handed out again */
			drop_failed(s, F);
			memset(seen, 0, c->np);
			last = SIM_NONE;
			done = 0;
			pads = 0;
			continue;
		}
		drop_failed(s, F);	/* block-aligned failures */
		if (!dhara_journal_in_recovery(s->j)) {
			/* finished */
			if (!dhara_journal_is_clean(s->j))
				vf_viol(O_RECOV, "recovery ended without a "
					"checkpoint");
			if (F == SIM_NONE) {
				/* nothing handed out: nothing may be lost */
				for (i = s->q.first; i < s->q.n; i++)
					if (c->blk[s->q.e[i].page / c->ppb].bad)
						vf_viol(O_RECOV, "queued page "
							"%u not handed out",
							s->q.e[i].page);
			} else {
				for (i = s->q.first; i < s->q.n; i++)
					if (s->q.e[i].page / c->ppb == F &&
					    !seen[s->q.e[i].page])
						vf_viol(O_RECOV, "recovery "
							"ended without page %u",
							s->q.e[i].page);
				if (!c->blk[F].bad)
					vf_viol(O_RECOV, "block %u not marked "
						"bad after recovery", F);
				l_drop_block(&s->q, c->ppb, F);
			}
		}
		note_pushed(s, v.did, v.mid, O_RECOV | O_QUEUE,
			    "after relocating");
	}
	/* blocks that failed on the way must be marked too, now */
	for (i = 0; i < c->nb; i++)
		if (c->blk[i].reported && !c->blk[i].bad)
			vf_soft(O_RECOV, "failed block %u not marked bad after "
				"recovery", i);
	s->in_rec = 0;
	take_snap(s);
	for (i = s->q.first; i < s->q.n; i++)
		check_entry(s, &s->q.e[i], O_RECOV, "after recovery");
}

/* ---- enqueue ------------------------------------------------------------------ */

/* JOURNAL_FULL is right only if the next usable block holds a page that must
 * be kept. */
static void check_full(struct jsess *s)
{
	struct chip *c = s->c;
	uint32_t b, i, pg, root;

	vf_count("journal_full_answers", 1);
	if (s->ghosts)
		return;
	/* the head is behind the newest page */
	root = s->q.n > s->q.first ? s->q.e[s->q.n - 1].page :
		s->snap.n > s->snap.first ? s->snap.e[s->snap.n - 1].page : 0;
	b = root / c->ppb;
	for (i = 0; i < c->nb; i++) {
		b = (b + 1) % c->nb;
		if (c->blk[b].bad)
			continue;
		if (is_protected(s, b * c->ppb, (b + 1) * c->ppb, &pg))
			return;
		/* the head may already stand at the start of this block */
		if (!i || c->blk[(b + c->nb - 1) % c->nb].bad) {
			uint32_t k = (b + 1) % c->nb;

			while (c->blk[k].bad && k != b)
				k = (k + 1) % c->nb;
			if (is_protected(s, k * c->ppb, (k + 1) * c->ppb, &pg))
				return;
		}
		break;
	}
	vf_viol(O_SPACE, "journal full, but block %u after the newest page %u "
		"holds nothing (%u queued, capacity %u)", b, root,
		l_len(&s->q), dhara_journal_capacity(s->j));
}

enum { A_DATA, A_FILLER, A_COPY };

/* A block failed, and there was no room to move on. Whatever is tried now, its
 * pages aren't touched.
 */
static void at_the_brim(struct jsess *s)
{
	int i, n = 1 + vf_below(R, 4);
	uint32_t k;

	vf_count("stuck_at_the_brim", 1);
	/* what is behind the last checkpoint would be lost now */
	if (l_len(&s->q) && dhara_journal_is_clean(s->j) &&
	    (!l_len(&s->snap) || s->snap.e[s->snap.n - 1].page !=
	     s->q.e[s->q.n - 1].page))
		vf_viol(O_SPACE | O_QUEUE | O_RECOV, "journal clean, but "
			"page %u isn't in a checkpoint: the one in front of "
			"it failed", s->q.e[s->q.n - 1].page);
	for (i = 0; i < n; i++) {
		dhara_error_t err = 0;
		uint8_t meta[MSZ], *d = vf_buf(s->c->psz);
		int rc;

		gen_meta(1, meta);
		gen(1, 1, d, s->c->psz);
		begin(s);
		rc = l_len(&s->q) && vf_chance(R, 300) ?
			dhara_journal_copy(s->j, s->q.e[s->q.n - 1].page, meta,
					   &err) :
			vf_chance(R, 500) ?
			dhara_journal_enqueue(s->j, NULL, NULL, &err) :
			dhara_journal_enqueue(s->j, d, meta, &err);
		vf_log("  at the brim: %d err %d\n", rc, rc < 0 ? err : 0);
		vf_buf_free(d);
		if (!rc || err != DHARA_E_JOURNAL_FULL)
			vf_viol(O_SPACE, "a journal with no room to recover "
				"from a failure answers %d (error %d) when "
				"tried again", rc, rc < 0 ? err : 0);
		if (s->c->call.prog + s->c->call.copy + s->c->call.erase)
			vf_viol(O_PROTOCOL | O_SPACE, "a journal with no room "
				"to recover from a failure writes when tried "
				"again");
		vf_count("tried_again_at_the_brim", 1);
	}
	for (k = s->q.first; k < s->q.n; k++)
		check_entry(s, &s->q.e[k], O_QUEUE | O_SPACE,
			    "after trying again");
}

/* 0 done, 1 full */
static int push(struct jsess *s, int how, uint32_t src, uint32_t did,
		uint32_t mid)
{
	struct chip *c = s->c;
	int tries;

	for (tries = 0; tries < 20; tries++) {
		uint8_t meta[MSZ], keep[MSZ], *d = NULL;
		dhara_error_t err = 0;
		const uint32_t was = l_len(&s->q);
		const uint64_t fails = c->nfail_seq;
		int rc;

		begin(s);
		gen_meta(mid, meta);
		memcpy(keep, meta, MSZ);
		take_clones = P->clone_pm && s == &J;
		switch (how) {
		case A_DATA:
			d = vf_buf(c->psz);
			gen(did, 1, d, c->psz);
			rc = dhara_journal_enqueue(s->j, d, meta, &err);
			gen(did, 1, dbuf, c->psz);
			if (memcmp(d, dbuf, c->psz) || memcmp(meta, keep, MSZ))
				vf_viol(O_INPUT | O_QUEUE, "enqueue modified "
					"its input");
			vf_buf_free(d);
			break;
		case A_FILLER:
			rc = dhara_journal_enqueue(s->j, NULL, NULL, &err);
			break;
		default:
			rc = dhara_journal_copy(s->j, src, meta, &err);
			break;
		}
		take_clones = 0;
		vf_log("  push how %d did %u mid %u -> %d err %d root %u\n",
		       how, did, mid, rc, rc < 0 ? err : 0,
		       dhara_journal_root(s->j));
		if (rc && rc != -1)
			vf_viol(O_QUEUE, "enqueue returns %d", rc);
		if (!rc) {
			if (c->nfail_seq != fails) {
				/* a block failed before anything in it
				 * mattered: no recovery needed */
				uint32_t i;

				for (i = s->q.first; i < s->q.n; i++)
					if (c->blk[s->q.e[i].page /
						   c->ppb].bad)
						vf_viol(O_RECOV, "block of "
							"queued page %u gone "
							"bad without recovery",
							s->q.e[i].page);
				vf_count("failures_without_recovery", 1);
			}
			note_pushed(s, did, mid, O_QUEUE, "after enqueue");
			if (dhara_journal_is_clean(s->j))
				take_snap(s);
			check_state(s, "after enqueue");
			return 0;
		}
		if (err == DHARA_E_JOURNAL_FULL) {
			if (l_len(&s->q) != was)
				vf_viol(O_SPACE, "refused enqueue changed the "
					"queue");
			if (P->brim && c->nfail_seq != fails) {
				stuck = 1;
				return 1;
			}
			check_full(s);
			check_state(s, "after refused enqueue");
			return 1;
		}
		if (err != DHARA_E_RECOVER || !P->fail)
			vf_viol(O_QUEUE | O_RECOV, "enqueue fails with error %d",
				err);
		if (dhara_journal_is_clean(s->j))
			vf_viol(O_RECOV | O_QUEUE, "journal clean in front of "
				"a recovery");
		recover(s);
		if (stuck)
			return 1;
		if (how == A_COPY) {
			/* the source may have moved */
			uint32_t i;

			for (i = s->q.n; i-- > s->q.first; )
				if (s->q.e[i].did == did)
					break;
			if (i + 1 == s->q.first)
				return 0;
			src = s->q.e[i].page;
		}
	}
	vf_viol(O_RECOV | O_STUCK, "enqueue does not succeed after %d "
		"recoveries", tries);
}

/* ---- tail ------------------------------------------------------------------------ */

/* Is page p, at the tail but not in the model, just blank filler left by a cut,
 * or the remains of a block that went bad? */
static int peek_blank(struct jsess *s, dhara_page_t p, unsigned cl)
{
	struct chip *c = s->c;
	const uint32_t ppm = (1u << c->log2_ppc) - 1;
	uint8_t m[MSZ];
	uint32_t i;

	if (p >= c->np)
		vf_viol(cl | O_PROTOCOL, "peek at page %u, out of range", p);
	if (c->blk[p / c->ppb].bad)
		return 1;
	for (i = 0; i < s->nghost; i++)
		if (s->ghost[i] == p)
			return 1;
	if (!s->fillers)
		return 0;
	s->fillers--;
	if (c->pf[p | ppm] & (PF_TORN | PF_UNREADABLE))
		return 1;
	if (dhara_journal_read_meta(s->j, p, m, NULL))
		vf_viol(cl, "blank page %u: metadata unreadable", p);
	for (i = 0; i < MSZ; i++)
		if (m[i] != 0xff)
			return 0;
	return 1;
}

/* What peek must show; consumes blank pages a cut may have left. Returns 0 if
 * the queue is at its end. */
static int peek_front(struct jsess *s, dhara_page_t *out, unsigned cl)
{
	struct chip *c = s->c;
	uint32_t guard = 0;

	for (;;) {
		const dhara_page_t p = dhara_journal_peek(s->j);
		const struct ent *f = l_len(&s->q) ? &s->q.e[s->q.first] : NULL;

		if (dhara_journal_peek(s->j) != p)
			vf_viol(cl, "peek not repeatable");
		if (p == DHARA_PAGE_NONE) {
			if (f)
				vf_viol(cl, "journal shows empty, %u pages are "
					"queued (next %u)", l_len(&s->q),
					f->page);
			*out = p;
			return 0;
		}
		if (p >= c->np)
			vf_viol(cl | O_PROTOCOL, "peek at page %u, out of "
				"range", p);
		if (f && f->page == p) {
			check_entry(s, f, cl, "at the tail");
			*out = p;
			return 1;
		}
		/* otherwise only blank filler left by a cut, or remains of a
		 * block that went bad */
		if (l_find(&s->q, p))
			vf_viol(cl, "page %u at the tail out of order, %u is "
				"next", p, f->page);
		if (!peek_blank(s, p, cl))
			vf_viol(cl, "page %u at the tail was never queued "
				"(next is %u)", p, f ? f->page : SIM_NONE);
		if (guard++ > 4 * c->np)
			vf_viol(cl | O_STUCK, "tail makes no progress");
		dhara_journal_dequeue(s->j);
		vf_count("blank_pages_skipped", 1);
	}
}

/* Nothing there: nothing happens */
static void dequeue_empty(struct jsess *s)
{
	const dhara_page_t root = dhara_journal_root(s->j),
		size = dhara_journal_size(s->j);
	const int clean = dhara_journal_is_clean(s->j);

	dhara_journal_dequeue(s->j);
	vf_count("dequeues_when_empty", 1);
	if (dhara_journal_root(s->j) != root ||
	    dhara_journal_size(s->j) != size ||
	    dhara_journal_is_clean(s->j) != clean)
		vf_viol(O_QUEUE | O_SPACE, "dequeue of an empty journal: root "
			"%u size %u clean %d become %u %u %d", root, size,
			clean, dhara_journal_root(s->j),
			dhara_journal_size(s->j),
			dhara_journal_is_clean(s->j));
	if (dhara_journal_peek(s->j) != DHARA_PAGE_NONE)
		vf_viol(O_QUEUE | O_SPACE, "page %u queued after a dequeue of "
			"an empty journal", dhara_journal_peek(s->j));
}

static int dequeue(struct jsess *s)
{
	dhara_page_t p;
	const int clean = dhara_journal_is_clean(s->j);

	begin(s);
	if (!peek_front(s, &p, O_QUEUE)) {
		if (vf_chance(R, 300))
			dequeue_empty(s);
		return 0;
	}
	begin(s);
	dhara_journal_dequeue(s->j);
	vf_log("  dequeue page %u: tail %u head %u clean %d\n", p, s->j->tail,
	       s->j->head, clean);
	if (call_total(&s->c->call))
		vf_viol(O_QUEUE | O_COST, "dequeue accessed the NAND");
	if (dhara_journal_is_clean(s->j) != clean)
		vf_viol(O_QUEUE, "dequeue changed the clean state");
	if (clean && s->j->head == s->j->tail && dhara_journal_size(s->j))
		vf_viol(O_QUEUE | O_SPACE, "size is %u with nothing queued or "
			"to be kept", dhara_journal_size(s->j));
	s->q.first++;
	s->ghosts = 0;
	l_compact(&s->q);
	if (clean)
		s->clean_deq++;
	if (!l_len(&s->q) && !s->fillers &&
	    dhara_journal_root(s->j) != DHARA_PAGE_NONE)
		vf_viol(O_QUEUE, "root is %u in an empty journal",
			dhara_journal_root(s->j));
	if (l_len(&s->q) &&
	    dhara_journal_root(s->j) != s->q.e[s->q.n - 1].page)
		vf_viol(O_QUEUE, "root is %u after a dequeue, the newest page "
			"is %u", dhara_journal_root(s->j),
			s->q.e[s->q.n - 1].page);
	check_state(s, "after dequeue");
	vf_count("dequeues", 1);
	return 1;
}

/* ---- restart ----------------------------------------------------------------------- */
static int fresh;		/* no object in use yet */

static int start(struct jsess *s, struct chip *c)
{
	int rc, how = fresh ? 0 : vf_below(R, 5);
	dhara_error_t err = 0;
	struct dhara_journal *const old = s->j;
	uint8_t *const obuf = s->pbuf;

	/* a new object, one initialized again, or just resumed in place */
	s->pbuf = vf_buf(c->psz);
	s->j = vf_alloc(sizeof(*s->j));
	vf_junk(s->j, sizeof(*s->j), R);
	if (how > 2) {
		*s->j = s == &J ? *old : *J.j;
		s->j->nand = &c->n;
		s->j->page_buf = s->pbuf;
	}
	vf_buf_free(obuf);
	free(old);
	s->c = c;
	begin(s);
	c->readonly = 1;
	if (how < 4)
		dhara_journal_init(s->j, &c->n, s->pbuf);
	else
		vf_count("resumed_in_place", 1);
	chip_forget(s->c);
	rc = dhara_journal_resume(s->j, &err);
	c->readonly = 0;
	fresh = 0;
	vf_count("resumes", 1);
	if (rc && rc != -1)
		vf_viol(O_START | O_QUEUE, "resume returns %d", rc);
	if (rc < 0 && !err)
		vf_viol(O_START | O_QUEUE, "resume fails without saying why");
	if (!dhara_journal_is_clean(s->j) || dhara_journal_in_recovery(s->j))
		vf_viol(O_START | O_QUEUE | O_RECOV, "journal %s after resume",
			dhara_journal_is_clean(s->j) ? "in recovery" :
			"not clean");
	return rc;
}

static void add_ghost(struct jsess *s, uint32_t page)
{
	uint32_t i;

	for (i = 0; i < s->nghost; i++)
		if (s->ghost[i] == page)
			return;
	if (s->nghost >= s->cghost) {
		s->cghost = s->cghost * 2 + 64;
		s->ghost = realloc(s->ghost, s->cghost * sizeof(s->ghost[0]));
		if (!s->ghost)
			vf_die("out of memory");
	}
	s->ghost[s->nghost++] = page;
}

/* Drain a resumed journal and compare with the checkpoint. The journal object
 * is consumed; *k is how many pages dequeued while clean are gone. */
static void drain_compare(struct jsess *s, const struct list *snap,
			  uint32_t clean_deq, const char *what, uint32_t where,
			  uint32_t *k)
{
	dhara_page_t p;
	uint32_t i;

	s->q.first = s->q.n = 0;
	for (;;) {
		p = dhara_journal_peek(s->j);
		for (i = snap->first; i < snap->n; i++)
			if (snap->e[i].page == p)
				break;
		if (p == DHARA_PAGE_NONE || i < snap->n ||
		    !peek_blank(s, p, O_QUEUE))
			break;
		dhara_journal_dequeue(s->j);
		vf_count("blank_pages_skipped", 1);
	}
	*k = i - snap->first;
	if (i == snap->n && p != DHARA_PAGE_NONE)
		vf_viol(O_QUEUE, "%s %u: tail at page %u after restart, which "
			"the checkpoint does not have", what, where, p);
	if (*k > clean_deq)
		vf_viol(O_QUEUE, "%s %u: the first %u of %u pages of the "
			"checkpoint are gone, %u were dequeued while clean",
			what, where, *k, l_len(snap), clean_deq);
	/* Pages dequeued while the journal was clean may be reused at once.
	 * If that happened, they may still be in the queue, but blank. */
	for (; i < snap->n && i - snap->first < clean_deq; i++) {
		uint8_t m[MSZ], want[MSZ];

		gen_meta(snap->e[i].mid, want);
		if (!dhara_journal_read_meta(s->j, snap->e[i].page, m, NULL) &&
		    !memcmp(m, want, MSZ) &&
		    data_ok(s->c, snap->e[i].page, snap->e[i].did))
			continue;
		vf_count("reused_pages_back", i + 1 - snap->first - *k);
		*k = i + 1 - snap->first;
		s->ghosts = 1;
	}
	for (i = snap->first; s->ghosts && i < snap->first + *k; i++)
		add_ghost(s, snap->e[i].page);
	for (i = snap->first + *k; i < snap->n; i++)
		l_push(&s->q, snap->e[i]);
	if (l_len(&s->q) &&
	    dhara_journal_root(s->j) != s->q.e[s->q.n - 1].page)
		vf_viol(O_QUEUE, "%s %u: root is %u after restart, newest "
			"checkpointed page is %u", what, where,
			dhara_journal_root(s->j), s->q.e[s->q.n - 1].page);
	s->settling = 1;
	check_state(s, "after restart");
	s->settling = 0;
	for (i = 0; l_len(&s->q); i++) {
		begin(s);
		if (!peek_front(s, &p, O_QUEUE))
			vf_viol(O_QUEUE, "%s %u: queue ends early", what,
				where);
		dhara_journal_dequeue(s->j);
		s->q.first++;
	}
	peek_front(s, &p, O_QUEUE);
}

static int judge(struct jsess *s, struct chip *c, int had,
		 const struct list *snap, const uint8_t *cookie,
		 uint32_t clean_deq, const char *what, uint32_t where)
{
	uint32_t k = 0;

	s->cookie_known = 0;
	s->fillers = 0;
	if (s != &J) {
		/* those that came back in an earlier restart may do so again */
		s->ghosts = J.ghosts;
		s->nghost = 0;
		for (k = 0; k < J.nghost; k++)
			add_ghost(s, J.ghost[k]);
		k = 0;
	}
	if (start(s, c) < 0) {
		if (had)
			vf_viol(O_QUEUE | O_START, "%s %u: resume fails, a "
				"checkpoint was completed", what, where);
		if (dhara_journal_peek(s->j) != DHARA_PAGE_NONE ||
		    dhara_journal_root(s->j) != DHARA_PAGE_NONE ||
		    dhara_journal_size(s->j))
			vf_viol(O_QUEUE | O_START, "%s %u: journal not empty "
				"after a failed resume", what, where);
		s->ever = 0;
		s->q.first = s->q.n = 0;
		s->snap.first = s->snap.n = 0;
		s->clean_deq = 0;
		return 0;
	}
	if (!had)
		vf_viol(O_QUEUE | O_START, "%s %u: resume succeeds, but no "
			"checkpoint was completed", what, where);
	if (memcmp(dhara_journal_cookie(s->j), cookie, DHARA_COOKIE_SIZE))
		vf_viol(O_QUEUE, "%s %u: cookie is not that of the last "
			"checkpoint", what, where);
	memcpy(s->cookie, cookie, DHARA_COOKIE_SIZE);
	s->cookie_known = 1;
	s->fillers = (s->c->np >> s->c->log2_ppc) << s->c->log2_ppc;
	drain_compare(s, snap, clean_deq, what, where, &k);
	/* once more, to go on with */
	start(s, c);
	s->q.first = s->q.n = 0;
	{
		uint32_t i;

		for (i = snap->first + k; i < snap->n; i++)
			l_push(&s->q, snap->e[i]);
	}
	l_copy(&s->snap, &s->q);
	memcpy(s->snap_cookie, cookie, DHARA_COOKIE_SIZE);
	s->clean_deq = 0;
	s->ever = 1;
	s->in_rec = 0;
	return 1;
}

static int judge_clones(void)
{
	static struct jsess T;
	int i, adopted = 0;

	for (i = 0; i < nclones; i++) {
		struct jclone *x = &clones[i];

		if (adopted) {
			chip_free(x->c);
			continue;
		}
		judge(&T, x->c, x->ever, &x->snap, x->cookie, x->clean_deq,
		      x->what, x->where);
		vf_count("cuts_judged", 1);
		if (vf_chance(R, P->adopt_pm)) {
			struct jsess t = J;

			chip_free(J.c);
			J = T;
			T = t;
			J.c->hook = hook;
			adopted = 1;
			vf_count("cuts_adopted", 1);
		} else {
			chip_free(x->c);
		}
	}
	nclones = 0;
	return adopted;
}

static void restart(struct jsess *s)
{
	l_copy(&tmp_lists[0], &s->snap);
	uint8_t ck[DHARA_COOKIE_SIZE];

	memcpy(ck, s->snap_cookie, sizeof(ck));
	judge(s, s->c, s->ever, &tmp_lists[0], ck, s->clean_deq,
	      "restart", 0);
	vf_log("  restart: %u queued; head %u tail %u tail_sync %u; first %u last %u\n", l_len(&s->q), s->j->head, s->j->tail, s->j->tail_sync, l_len(&s->q) ? s->q.e[s->q.first].page : 0, l_len(&s->q) ? s->q.e[s->q.n - 1].page : 0);
	vf_count("restarts", 1);
}

static int pad_until_clean(struct jsess *s)
{
	uint64_t fails = s->c->nfail_seq;
	int i;

	for (i = 0; !dhara_journal_is_clean(s->j); i++) {
		if (s->c->nfail_seq != fails) {
			/* start again after a recovery */
			fails = s->c->nfail_seq;
			i = 0;
		}
		if (i > 2 << s->c->log2_ppc)
			vf_viol(O_QUEUE, "journal not clean after a whole "
				"group of fillers");
		if (push(s, A_FILLER, 0, 0, 0))
			return 1;
	}
	return 0;
}

/* After JOURNAL_FULL: once what the checkpoint holds may go, there must be
 * room again. */
static void make_room(struct jsess *s)
{
	struct chip *c = s->c;
	uint32_t b0;
	int tries;

	if (!dhara_journal_is_clean(s->j))
		restart(s);
	if (!l_len(&s->q))
		return;
	for (tries = 0; tries < 2; tries++) {
		const uint64_t fails = c->nfail_seq;
		dhara_page_t p;

		b0 = s->q.e[s->q.first].page / c->ppb;
		while (l_len(&s->q) && s->q.e[s->q.first].page / c->ppb == b0)
			if (!dequeue(s))
				return;
		if (!l_len(&s->q))
			return;
		/* and the blank rest of that block */
		peek_front(s, &p, O_QUEUE);
		if (!dhara_journal_is_clean(s->j))
			return;
		next_id++;
		if (!push(s, A_DATA, 0, next_id, next_id))
			break;
		if (c->nfail_seq != fails)
			return;
		/* blocks with a single user page: the head may have had to
		 * move off a bad block first */
		if (tries || upb > 1)
			vf_viol(O_SPACE, "journal still full after draining a "
				"block of a clean journal (%u queued, capacity "
				"%u)", l_len(&s->q),
				dhara_journal_capacity(s->j));
	}
	vf_count("room_made", 1);
}

static int is_aligned_bad_head(struct jsess *s)
{
	return !(s->j->head % s->c->ppb) && s->c->blk[s->j->head / s->c->ppb].bad;
}

/* An emptied, checkpointed journal takes at least its capacity. */
static void fill_up(struct jsess *s, int from_empty)
{
	uint32_t n = 0, cap, mincap = ~0u;

	if (from_empty) {
		while (dequeue(s))
			;
		if (pad_until_clean(s))
			return;
		while (dequeue(s))
			;
		if (!dhara_journal_is_clean(s->j))
			return;
	}
	for (;;) {
		cap = dhara_journal_capacity(s->j);
		if (cap < mincap)
			mincap = cap;
		next_id++;
		if (push(s, A_DATA, 0, next_id, next_id)) {
			/* it may have met bad blocks before giving up */
			cap = dhara_journal_capacity(s->j);
			if (cap < mincap)
				mincap = cap;
			break;
		}
		if (n++ > s->c->np + 1)
			vf_viol(O_SPACE, "journal accepts more pages than the "
				"chip has");
		if (judge_clones())
			return;		/* rolled back */
		if (vf_chance(R, 10))
			return;
	}
	/* a bad block under the head may not have been counted yet */
	if (from_empty && n < mincap && is_aligned_bad_head(s))
		mincap -= s->c->ppb - (s->c->ppb >> s->j->log2_ppc);
	if (from_empty && n < mincap)
		vf_viol(O_SPACE, "an empty journal took %u pages, reported "
			"capacity is %u", n, mincap);
	if (from_empty)
		vf_count("capacity_fills", 1);
	{
		/* nothing was disturbed */
		uint32_t i;

		for (i = s->q.first; i < s->q.n; i++)
			check_entry(s, &s->q.e[i], O_SPACE | O_QUEUE,
				    "after filling up");
	}
}

/* ---- a case -------------------------------------------------------------------------- */
static void arm(struct chip *c)
{
	if (!P->fail)
		return;
	if (!c->fail_prog_in && vf_chance(R, P->fail == 2 ? 60 : 15))
		c->fail_prog_in = 1 + vf_below(R, 2 * c->ppb);
	if (!c->fail_erase_in && vf_chance(R, 6))
		c->fail_erase_in = 1 + vf_below(R, 3);
	if (P->fail == 2 && vf_chance(R, 15)) {
		uint32_t b = vf_below(R, c->nb), n = 1 + vf_below(R, 4), i;

		for (i = 0; i < n; i++) {
			struct sblock *k = &c->blk[(b + i) % c->nb];

			if (!k->bad && !k->failed)
				k->bomb = 1 + vf_below(R, c->ppb + 2);
		}
	}
}

static void run_case(vf_rng *r, uint64_t n)
{
	int lps, lppb, i, nops, wtot;
	uint32_t nb, cap, bad;
	struct chip *c;

	R = r;
	vf_buf_free(J.pbuf);
	free(J.j);
	free(J.q.e);
	free(J.snap.e);
	free(J.ghost);
	memset(&J, 0, sizeof(J));
	chip_free_all();
	nclones = 0;
	take_clones = 0;
	next_id = 0;

	lps = vf_range(r, P->lps_lo, P->lps_hi);
	do {
		lppb = vf_range(r, P->lppb_lo, P->lppb_hi);
		nb = vf_range(r, P->nb_lo, P->nb_hi);
	} while ((nb << lppb) > (uint32_t)P->maxpages);
	if (vf_chance(r, 40) && (140u << lppb) < 3000)
		nb = 64 + vf_below(r, 76);
	c = chip_new(lps, lppb, nb);
	c->imprecise = vf_chance(r, 100);
	c->scribble = vf_chance(r, 500);
	c->fail_style = vf_below(r, 4);
	c->fault_seed = (uint32_t)vf_next(r);
	c->mark_wipes = vf_mix(c->fault_seed, 77) % 5 < 2;
	c->max_run = vf_range(r, 1, 3);
	c->max_bad = nb;
	if (vf_chance(r, 300))
		for (i = vf_below(r, 1 + nb / 10); i > 0; i--) {
			uint32_t b = vf_chance(r, 400) ? (vf_chance(r, 500) ?
				vf_below(r, 2) : nb - 1 - vf_below(r, 2)) :
				vf_below(r, nb);

			if (chip_may_break(c, b))
				chip_factory_bad(c, b);
		}
	if (nb >= 24 && vf_chance(r, 60)) {
		/* as many in a row as the library looks past */
		uint32_t b = vf_below(r, nb), k = vf_range(r, 5, 7);

		c->max_run = 7;
		c->max_win = 7;
		while (k--) {
			if (chip_may_break(c, b))
				chip_factory_bad(c, b);
			b = (b + 1) % nb;
		}
	}
	bad = c->nbroken;
	c->max_run = vf_chance(r, 300) ? 7 : 5;
	c->max_win = c->max_run == 7 ? 7 : 6;
	c->max_bad = bad + (P->fail == 2 ? 4 + nb / 7 : 2 + nb / 16);
	chip_virgin(c, vf_chance(r, 500) ? 0 : 1 + vf_below(r, 3), r);
	free(dbuf);
	dbuf = vf_alloc(c->psz);
	upb = c->ppb - (c->ppb >> c->log2_ppc);
	vf_log("case %llu: page %u ppb %u nb %u bad %u imprecise %d\n",
	       (unsigned long long)n, c->psz, c->ppb, nb, bad, c->imprecise);
	fresh = 1;
	stuck = 0;
	if (!start(&J, c))
		vf_viol(O_QUEUE | O_START, "resume of an unused chip succeeds");
	c->hook = hook;
	vf_distinct(vf_mix(vf_mix(lps * 64 + lppb, nb), n));
	if (n % 61 == 0)
		vf_sample("case %llu profile %s: %u-byte pages, %u pages/block,"
			  " %u blocks (%u factory bad), capacity %u",
			  (unsigned long long)n, P->name, c->psz, c->ppb, nb,
			  bad, dhara_journal_capacity(J.j));

	nops = vf_range(r, P->ops_lo, P->ops_hi);
	wtot = P->w_enq + P->w_copy + P->w_deq + P->w_move + P->w_clear +
		P->w_pad + P->w_sync + P->w_cookie + P->w_dirty + P->w_restart +
		P->w_fill + P->w_drain;
	for (i = 0; i < nops; i++) {
		int w = vf_below(r, wtot), room, full = 0;

		cap = dhara_journal_capacity(J.j);
		room = dhara_journal_size(J.j) < (uint64_t)cap * P->fill / 100;
		arm(J.c);
		if ((w -= P->w_enq) < 0) {
			int k = vf_chance(r, 100) ? vf_below(r, 3 * upb) : 1;

			while (k-- && room && !full) {
				++next_id;
				full = push(&J, A_DATA, 0, next_id,
					    next_id % 11 ? next_id : 0);
				judge_clones();
				room = dhara_journal_size(J.j) <
					(uint64_t)cap * P->fill / 100;
			}
		} else if ((w -= P->w_copy) < 0) {
			if (room && l_len(&J.q)) {
				struct ent x = J.q.e[J.q.first +
					vf_below(r, l_len(&J.q))];

				if (x.did)
					full = push(&J, A_COPY, x.page, x.did,
						    ++next_id);
			}
		} else if ((w -= P->w_deq) < 0) {
			int k = vf_chance(r, 100) ? vf_below(r, 3 * upb) : 1;

			while (k-- && dequeue(&J))
				;
		} else if ((w -= P->w_move) < 0) {
			/* as garbage collection does */
			dhara_page_t p;

			begin(&J);
			if (room && peek_front(&J, &p, O_QUEUE)) {
				struct ent x = J.q.e[J.q.first];

				full = push(&J, A_COPY, x.page, x.did, x.mid);
				if (!full && l_len(&J.q) && J.q.e[J.q.first].page
				    == x.page && !nclones)
					dequeue(&J);
			}
		} else if ((w -= P->w_clear) < 0) {
			if (vf_chance(r, 300)) {
				begin(&J);
				dhara_journal_clear(J.j);
				if (call_total(&J.c->call))
					vf_viol(O_COST | O_QUEUE, "clear "
						"accessed the NAND");
				J.q.first = J.q.n = 0;
				J.fillers = 0;
				if (dhara_journal_root(J.j) != DHARA_PAGE_NONE
				    || dhara_journal_peek(J.j) !=
				    DHARA_PAGE_NONE)
					vf_viol(O_QUEUE, "journal not empty "
						"after clear");
				if (dhara_journal_is_clean(J.j))
					vf_viol(O_QUEUE, "clean after clear");
				check_state(&J, "after clear");
				vf_count("clears", 1);
			}
		} else if ((w -= P->w_pad) < 0) {
			if (room)
				full = push(&J, A_FILLER, 0, 0, 0);
		} else if ((w -= P->w_sync) < 0) {
			full = pad_until_clean(&J);
		} else if ((w -= P->w_cookie) < 0) {
			int k;

			for (k = 0; k < DHARA_COOKIE_SIZE; k++)
				J.cookie[k] = (uint8_t)vf_next(r);
			memcpy(dhara_journal_cookie(J.j), J.cookie,
			       DHARA_COOKIE_SIZE);
			J.cookie_known = 1;
		} else if ((w -= P->w_dirty) < 0) {
			dhara_journal_mark_dirty(J.j);
			if (dhara_journal_is_clean(J.j))
				vf_viol(O_QUEUE, "clean after mark_dirty");
		} else if ((w -= P->w_restart) < 0) {
			restart(&J);
		} else if ((w -= P->w_fill) < 0) {
			if (vf_chance(r, 400))
				fill_up(&J, vf_chance(r, 700));
		} else {
			int k = vf_below(r, 1 + l_len(&J.q));

			while (k-- && dequeue(&J))
				;
		}
		judge_clones();
		if (stuck)
			break;
		if (full && vf_chance(r, 700))
			make_room(&J);
		judge_clones();
		if (stuck)
			break;
		J.c->hook = hook;
		if (vf_chance(r, 15))
			probe_in_place(&J, O_START | O_QUEUE);
	}
	{
		uint32_t k;

		for (k = J.q.first; k < J.q.n; k++)
			check_entry(&J, &J.q.e[k], O_QUEUE | O_SPACE,
				    "at the end");
	}
	if (stuck)
		at_the_brim(&J);
	else
		restart(&J);
	vf_count("ops", nops);
	vf_count("nand_programs", J.c->total.prog + J.c->total.copy);
	vf_count("nand_erases", J.c->total.erase);
	vf_count("block_failures", J.c->nfail_seq);
	chip_free_all();
}

int main(int argc, char **argv)
{
	struct vf_opts o;

	vf_parse(argc, argv, &o);
	for (P = profs; P->name; P++)
		if (!strcmp(P->name, o.profile))
			break;
	if (!P->name)
		vf_die("no such profile: %s", o.profile);
	vf_run_cases(&o, run_case);
	vf_finish(&o);
	return 0;
}
