#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include "sim.h"

static __thread struct chip *all_chips;

/* ---- documented group size: the largest power of two such that metadata
 * of all but one of its pages fits one page after a 16-byte header and a
 * 4-byte cookie, never larger than a block, never smaller than two pages.
 */
int doc_log2_ppc(int lps, int lppb)
{
	int k = 1;

	while (k < lppb && 20 + 132l * ((1l << (k + 1)) - 1) <= (1l << lps))
		k++;
	return k;
}

static struct pagebuf *pb_new(uint32_t psz)
{
	struct pagebuf *b = vf_alloc(sizeof(*b) + psz);

	b->ref = 1;
	return b;
}

static inline void pb_put(struct pagebuf *b)
{
	if (b && !--b->ref)
		free(b);
}

struct chip *chip_new(int lps, int lppb, uint32_t nb)
{
	struct chip *c = vf_alloc(sizeof(*c));

	memset(c, 0, sizeof(*c));
	c->n.log2_page_size = lps;
	c->n.log2_ppb = lppb;
	c->n.num_blocks = nb;
	c->ppb = 1u << lppb;
	c->nb = nb;
	c->np = nb << lppb;
	c->psz = 1u << lps;
	c->log2_ppc = doc_log2_ppc(lps, lppb);
	c->pg = calloc(c->np, sizeof(c->pg[0]));
	c->pf = calloc(c->np, 1);
	c->blk = calloc(nb, sizeof(c->blk[0]));
	if (!c->pg || !c->pf || !c->blk)
		vf_die("out of memory");
	c->scribble = 1;
	c->win_block = SIM_NONE;
	c->ecc_page = SIM_NONE;
	c->last_erase = SIM_NONE;
	c->max_run = 5;
	c->max_win = 6;
	c->budget = ~0ull;
	c->next_all = all_chips;
	all_chips = c;
	return c;
}

struct chip *chip_clone(const struct chip *o)
{
	struct chip *c = vf_alloc(sizeof(*c));
	uint32_t i;

	*c = *o;
	c->pg = vf_alloc(c->np * sizeof(c->pg[0]));
	c->pf = vf_alloc(c->np);
	c->blk = vf_alloc(c->nb * sizeof(c->blk[0]));
	memcpy(c->pg, o->pg, c->np * sizeof(c->pg[0]));
	for (i = 0; i < c->np; i++)
		if (c->pg[i])
			c->pg[i]->ref++;
	memcpy(c->pf, o->pf, c->np);
	for (i = 0; i < c->np; i++)
		if ((c->pf[i] & PF_FAILED) && !o->blk[i / c->ppb].bad)
			c->pf[i] |= PF_STRANDED;
	memcpy(c->blk, o->blk, c->nb * sizeof(c->blk[0]));
	memset(&c->total, 0, sizeof(c->total));
	memset(&c->call, 0, sizeof(c->call));
	c->hook = NULL;
	c->hook_arg = NULL;
	c->yield = NULL;
	c->ecc_in = 0;
	c->next_all = all_chips;
	all_chips = c;
	return c;
}

static void chip_destroy(struct chip *c)
{
	uint32_t i;

	for (i = 0; i < c->np; i++)
		pb_put(c->pg[i]);
	free(c->pg);
	free(c->pf);
	free(c->blk);
	free(c);
}

void chip_free(struct chip *c)
{
	struct chip **pp = &all_chips;

	if (!c)
		return;
	while (*pp && *pp != c)
		pp = &(*pp)->next_all;
	if (!*pp)
		vf_die("chip_free: unknown chip");
	*pp = c->next_all;
	chip_destroy(c);
}

void chip_free_all(void)
{
	while (all_chips) {
		struct chip *c = all_chips;

		all_chips = c->next_all;
		chip_destroy(c);
	}
}

/* the page being copied: its contents can be shared */
static __thread struct pagebuf *copied;

static void page_put(struct chip *c, uint32_t p, const uint8_t *data)
{
	pb_put(c->pg[p]);
	c->pg[p] = NULL;
	c->pf[p] = 0;
	if (data && copied && data == copied->d) {
		c->pg[p] = copied;
		copied->ref++;
	} else if (data) {
		c->pg[p] = pb_new(c->psz);
		memcpy(c->pg[p]->d, data, c->psz);
	}
}

/* a page with the contents of another, sharing the memory */
void chip_same_page(struct chip *c, uint32_t p, uint32_t as)
{
	struct pagebuf *b = c->pg[as];

	if (b && p != as) {
		b->ref++;
		page_put(c, p, NULL);
		c->pg[p] = b;
	}
}

void chip_set_page(struct chip *c, uint32_t p, const uint8_t *data)
{
	page_put(c, p, data);
}

static const uint8_t ff_bytes[1 << 18] = { [0 ... (1 << 18) - 1] = 0xff };

static const uint8_t *ff_page(void)
{
	return ff_bytes;
}

const uint8_t *chip_page(const struct chip *c, uint32_t p)
{
	if (c->pf[p] & (PF_TORN | PF_UNREADABLE))
		return NULL;
	return c->pg[p] ? c->pg[p]->d : ff_page();
}

void chip_virgin(struct chip *c, int style, vf_rng *r)
{
	uint32_t b, i;

	for (b = 0; b < c->nb; b++) {
		int s = (style == 3) ? (int)vf_below(r, 3) : style;

		c->blk[b].next = 0;
		c->blk[b].noerase = 0;
		for (i = 0; i < c->ppb; i++) {
			uint32_t p = b * c->ppb + i;

			page_put(c, p, NULL);
			if (s == 1) {
				c->pf[p] = PF_UNREADABLE;
			} else if (s == 2) {
				struct pagebuf *x = pb_new(c->psz);
				uint32_t k;

				for (k = 0; k < c->psz; k += 8) {
					uint64_t v = vf_next(r);

					memcpy(x->d + k, &v, 8);
				}
				/* foreign data, not a dhara header */
				if (x->d[0] == 'D')
					x->d[0] = 'E';
				c->pg[p] = x;
			}
		}
		if (s) {
			c->blk[b].next = c->ppb;
			c->blk[b].noerase = 1;
		}
	}
}

void chip_factory_bad(struct chip *c, uint32_t b)
{
	if (!c->blk[b].bad) {
		c->blk[b].bad = 1;
		c->blk[b].factory = 1;
		c->blk[b].failed = 1;
		c->nbroken++;
	}
}

uint32_t chip_known_bad(const struct chip *c, uint32_t from, int all)
{
	uint32_t i, n = 0;

	for (i = from; i < c->nb; i++)
		n += c->blk[i].bad || c->blk[i].reported == 1 ||
			(all && c->blk[i].reported);
	return n;
}

void chip_forget(struct chip *c)
{
	uint32_t i;

	c->lap_pending = 0;
	for (i = 0; i < c->nb; i++)
		if (c->blk[i].reported && !c->blk[i].bad)
			c->blk[i].reported = 2;
}

static int broken(const struct chip *c, uint32_t b)
{
	return c->blk[b].bad || c->blk[b].failed;
}

int chip_may_break(const struct chip *c, uint32_t b)
{
	uint32_t run = 1, i;

	if (broken(c, b) || c->nbroken >= c->max_bad)
		return 0;
	for (i = 1; i < c->nb && broken(c, (b + i) % c->nb); i++)
		run++;
	for (i = 1; i < c->nb && broken(c, (b + c->nb - i) % c->nb); i++)
		run++;
	if (run > c->max_run)
		return 0;
	/* The library looks at most eight blocks ahead: of any eight in a row
	 * (as they lie, and round the end) enough must be good. One is, unless
	 * a block may be erased and not have a checkpoint yet while resume
	 * looks for the first block that has. */
	for (i = 0; i < 8; i++) {
		const uint32_t w = (b + 2 * c->nb - i) % c->nb;
		uint32_t k, bad = 1;

		for (k = 0; k < 8; k++)
			bad += broken(c, (w + k) % c->nb);
		if (bad > (w ? c->max_win : 6))
			return 0;
	}
	return 1;
}

void chip_torn_prog(struct chip *c, uint32_t p)
{
	page_put(c, p, NULL);
	c->pf[p] = PF_TORN;
	c->blk[p / c->ppb].next = (p % c->ppb) + 1;
}

/* style: 0 nothing happened to the cells yet (caller need not call), 1 all
 * unreadable, 2 prefix of pages unreadable, rest old, 3 mixture of old,
 * unreadable and erased-looking, 4 all erased-looking */
void chip_torn_erase(struct chip *c, uint32_t b, int style, vf_rng *r)
{
	uint32_t i, cut = vf_below(r, c->ppb + 1);

	for (i = 0; i < c->ppb; i++) {
		uint32_t p = b * c->ppb + i;
		int what;	/* 0 keep 1 unreadable 2 erased */

		switch (style) {
		case 1: what = 1; break;
		case 2: what = i < cut; break;
		case 3: what = vf_below(r, 3); break;
		default: what = 2; break;
		}
		if (what) {
			page_put(c, p, NULL);
			if (what == 1)
				c->pf[p] = PF_UNREADABLE;
		}
	}
	c->blk[b].noerase = 1;
	c->blk[b].next = c->ppb;
	c->blk[b].erases++;
}

void sim_begin(struct chip *c, uint64_t budget)
{
	memset(&c->call, 0, sizeof(c->call));
	c->steps = 0;
	c->budget = budget;
}

/* ---- the driver ----------------------------------------------------------
 * The library only sees const struct dhara_nand *.
 */
static struct chip *chip_of(const struct dhara_nand *n)
{
	return (struct chip *)(uintptr_t)n;
}

#define TR(c, a, b) do { if ((c)->tracing) \
	(c)->trace = vf_mix((c)->trace + (a), (b)); } while (0)

static void step(struct chip *c)
{
	if (c->yield)
		c->yield(c);
	if (++c->steps > c->budget)
		vf_viol(O_STUCK, "call made %llu NAND accesses without "
			"returning", (unsigned long long)c->budget);
}

static void need_block(struct chip *c, uint32_t b, const char *what)
{
	if (b >= c->nb)
		vf_viol(O_PROTOCOL, "%s: block %u out of range (%u blocks)",
			what, b, c->nb);
}

static void need_page(struct chip *c, uint32_t p, const char *what)
{
	if (p >= c->np)
		vf_viol(O_PROTOCOL, "%s: page %u out of range (%u pages)",
			what, p, c->np);
}

static void need_writable(struct chip *c, const char *what, uint32_t where)
{
	if (c->readonly)
		vf_viol(O_START, "%s %u during init/resume", what, where);
}

int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b)
{
	struct chip *c = chip_of(n);

	step(c);
	c->call.is_bad++;
	c->total.is_bad++;
	need_block(c, b, "is_bad");
	c->call.bad_seen += c->blk[b].bad;
	TR(c, 0x100000000ull + b, c->blk[b].bad);
	return c->blk[b].bad;
}

void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b)
{
	struct chip *c = chip_of(n);
	uint32_t i;

	step(c);
	c->call.mark_bad++;
	c->total.mark_bad++;
	need_block(c, b, "mark_bad");
	need_writable(c, "mark_bad of block", b);
	TR(c, 0x200000000ull + b, 0);
	vf_log("      nand mark_bad %u\n", b);
	if (!c->blk[b].reported)
		vf_soft(O_PROTOCOL, "mark_bad of block %u which never failed",
			b);
	if (c->hook)
		c->hook(c, MUT_MARK, b, 0);
	c->blk[b].bad = 1;
	if (c->mark_wipes)
		for (i = b * c->ppb; i < (b + 1) * c->ppb; i++) {
			const uint8_t pf = c->pf[i];

			page_put(c, i, NULL);
			c->pf[i] = pf | PF_UNREADABLE;
		}
	if (c->win_block == b) {
		c->win_block = SIM_NONE;
		c->win_cps = 0;
	}
}

/* does an operation on block b fail now? */
static int tick(struct chip *c, uint32_t b, uint32_t *global)
{
	struct sblock *k = &c->blk[b];
	int brk = 0;

	if (k->bomb && !--k->bomb)
		brk = 1;
	if (*global && !--*global) {
		brk = 1;
		*global = c->fail_again_in;
		c->fail_again_in = 0;
	}
	if (brk && chip_may_break(c, b)) {
		k->failed = 1;
		c->nbroken++;
	}
	return k->failed;
}

static void check_wear(struct chip *c, uint32_t b)
{
	uint32_t i, mn = ~0u;

	for (i = 0; i < c->nb; i++)
		if (!c->blk[i].bad && !c->blk[i].failed &&
		    c->blk[i].erases < mn)
			mn = c->blk[i].erases;
	if (c->blk[b].erases > mn + 1 + c->wear_slack)
		vf_soft(O_WEAR, "block %u erased %u times while another good "
			"block was erased %u times (slack %u)", b,
			c->blk[b].erases, mn, c->wear_slack);
}

int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b,
		     dhara_error_t *err)
{
	struct chip *c = chip_of(n);
	struct sblock *k;
	uint32_t i;
	int fail;

	step(c);
	c->call.erase++;
	c->total.erase++;
	need_block(c, b, "erase");
	need_writable(c, "erase of block", b);
	k = &c->blk[b];
	if (k->bad)
		vf_soft(O_PROTOCOL, "erase of block %u, marked bad", b);
	if (c->last_erase != SIM_NONE && b + c->nb / 2 < c->last_erase) {
		c->lap_pending = 1;
		/* (not those which this lap has already passed) */
		c->lap_bad_next = chip_known_bad(c, b, 0);
	}
	c->last_erase = b;
	fail = tick(c, b, &c->fail_erase_in);
	TR(c, 0x300000000ull + b, fail);
	vf_log("      nand erase %u%s\n", b, fail ? " FAILS" : "");
	if (c->hook)
		c->hook(c, MUT_ERASE, b, fail);

	k->erases++;
	if (k->erases > c->max_erase)
		c->max_erase = k->erases;
	if (fail) {
		vf_rng r = { vf_mix(c->fault_seed, b) };

		c->call.erase_fail++;
		c->total.erase_fail++;
		c->nfail_seq++;
		k->reported = 1;
		chip_torn_erase(c, b, c->fail_legible ? 4 :
				1 + vf_below(&r, 4), &r);
		k->erases--;
		dhara_set_error(err, DHARA_E_BAD_BLOCK);
		return -1;
	}
	for (i = 0; i < c->ppb; i++)
		page_put(c, b * c->ppb + i, NULL);
	k->next = 0;
	k->noerase = 0;
	if (c->check_wear)
		check_wear(c, b);
	return 0;
}

static int all_ff(const uint8_t *d, uint32_t n)
{
	return d[0] == 0xff && !memcmp(d, d + 1, n - 1);
}

static int do_prog(struct chip *c, uint32_t p, const uint8_t *data,
		   dhara_error_t *err)
{
	const uint32_t b = p / c->ppb, i = p % c->ppb;
	struct sblock *k = &c->blk[b];
	int fail;

	need_writable(c, "program of page", p);
	if (k->bad)
		vf_soft(O_PROTOCOL, "program of page %u in block %u, marked "
			"bad", p, b);
	if (k->noerase)
		vf_soft(O_PROTOCOL, "program of page %u in block %u, which is "
			"not erased", p, b);
	if (i < k->next)
		vf_soft(O_PROTOCOL, "program of page %u (page %u of block %u) "
			"after page %u of that block was programmed", p, i, b,
			k->next - 1);
	vf_defined(data, c->psz);
	fail = tick(c, b, &c->fail_prog_in);
	if (c->tracing) {
		uint32_t q;
		uint64_t h = fail;

		for (q = 0; q < c->psz; q++)
			h = h * 0x100000001b3ull + data[q];
		TR(c, 0x400000000ull + p, h);
	}
	vf_log("      nand prog %u (%u.%u)%s\n", p, b, i, fail ? " FAILS" : "");
	if (c->hook)
		c->hook(c, MUT_PROG, p, fail);

	if (fail) {
		int st = c->fail_style;

		if (st == 3)
			st = vf_mix(c->fault_seed, p) % 3;
		if (c->fail_legible && !st)
			st = 2;
		c->call.prog_fail++;
		c->total.prog_fail++;
		c->nfail_seq++;
		k->reported = 1;
		k->next = i + 1;
		if (c->win_block == SIM_NONE && i) {
			c->win_block = b;
			c->win_slot = i;
			c->win_cps = 0;
		}
		if (st == 0) {
			page_put(c, p, NULL);
			c->pf[p] = PF_UNREADABLE;
		} else if (st == 1) {
			page_put(c, p, data);
		} else {
			/* cells untouched, reads back as erased */
			page_put(c, p, NULL);
		}
		c->pf[p] |= PF_FAILED;
		dhara_set_error(err, DHARA_E_BAD_BLOCK);
		return -1;
	}

	if (c->win_block != SIM_NONE &&
	    !((p + 1) & ((1u << c->log2_ppc) - 1)))
		c->win_cps++;
	if (c->nb <= 4096 && !((p + 1) & ((1u << c->log2_ppc) - 1)))
		c->pass_bad = chip_known_bad(c, 0, 0) - chip_known_bad(c, b, 0);
	if (c->lap_pending && b < c->nb / 2 &&
	    !((p + 1) & ((1u << c->log2_ppc) - 1))) {
		c->lap_pending = 0;
		c->lap_bad = c->lap_bad_next;
		c->laps++;
	}
	if (all_ff(data, c->psz)) {
		if (!c->pg[p])
			page_put(c, p, NULL);
		/* on an imprecise driver this is a no-op */
		if (!c->imprecise && k->next < i + 1)
			k->next = i + 1;
		return 0;
	}
	if (c->pg[p]) {
		/* it shouldn't have been programmed again (see above): bits
		 * can only be cleared */
		struct pagebuf *old = c->pg[p];
		uint32_t q;

		old->ref++;
		copied = NULL;
		page_put(c, p, data);
		for (q = 0; q < c->psz; q++)
			c->pg[p]->d[q] &= old->d[q];
		pb_put(old);
	} else {
		page_put(c, p, data);
	}
	if (k->next < i + 1)
		k->next = i + 1;
	return 0;
}

int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p,
		    const uint8_t *data, dhara_error_t *err)
{
	struct chip *c = chip_of(n);

	step(c);
	c->call.prog++;
	c->total.prog++;
	need_page(c, p, "prog");
	return do_prog(c, p, data, err);
}

int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p)
{
	struct chip *c = chip_of(n);
	const struct sblock *k;
	int r;

	step(c);
	c->call.is_free++;
	c->total.is_free++;
	need_page(c, p, "is_free");
	k = &c->blk[p / c->ppb];
	if (c->pf[p])
		r = 0;
	else if (c->imprecise)
		r = !c->pg[p];
	else
		r = !k->noerase && (p % c->ppb) >= k->next;
	TR(c, 0x500000000ull + p, r);
	return r;
}

/* Is this read/copy source uncorrectable? */
static int ecc_hit(struct chip *c, uint32_t p)
{
	int hit = 0;

	if (c->ecc_in) {
		if (c->ecc_in == 1) {
			hit = 1;
			c->ecc_fired++;
			if (c->ecc_len)
				c->ecc_len--;
			if (!c->ecc_len)
				c->ecc_in = 0;
		} else {
			c->ecc_in--;
		}
	}
	if (c->pf[p] & (PF_TORN | PF_UNREADABLE)) {
		if (!hit)
			c->ecc_organic++;
		hit = 1;
	}
	if (hit) {
		c->call.ecc_err++;
		c->total.ecc_err++;
		c->ecc_page = p;
		c->ecc_flags = c->pf[p];
		vf_log("      nand read %u -> E_ECC\n", p);
	}
	return hit;
}

int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p,
		    size_t offset, size_t length,
		    uint8_t *data, dhara_error_t *err)
{
	struct chip *c = chip_of(n);

	step(c);
	c->call.read++;
	c->total.read++;
	c->call.read_bytes += length;
	need_page(c, p, "read");
	if (offset > c->psz || length > c->psz || offset + length > c->psz)
		vf_viol(O_PROTOCOL, "read of page %u: range %zu+%zu outside "
			"the page", p, offset, length);
	if (ecc_hit(c, p)) {
		TR(c, 0x600000000ull + p, 1);
		if (c->scribble && length)
			vf_poison(data, length, 0x5a);
		dhara_set_error(err, DHARA_E_ECC);
		return -1;
	}
	TR(c, 0x600000000ull + p, (offset << 20) + length);
	if (c->pg[p])
		memcpy(data, c->pg[p]->d + offset, length);
	else
		memset(data, 0xff, length);
	return 0;
}

int dhara_nand_copy(const struct dhara_nand *n,
		    dhara_page_t src, dhara_page_t dst,
		    dhara_error_t *err)
{
	struct chip *c = chip_of(n);
	struct pagebuf *keep;
	int r;

	step(c);
	c->call.copy++;
	c->total.copy++;
	need_page(c, src, "copy source");
	need_page(c, dst, "copy destination");
	if (ecc_hit(c, src)) {
		TR(c, 0x700000000ull + src, dst);
		dhara_set_error(err, DHARA_E_ECC);
		return -1;
	}
	TR(c, 0x800000000ull + src, dst);
	keep = c->pg[src];
	if (keep)
		keep->ref++;
	copied = keep;
	r = do_prog(c, dst, keep ? keep->d : ff_page(), err);
	copied = NULL;
	pb_put(keep);
	return r;
}
