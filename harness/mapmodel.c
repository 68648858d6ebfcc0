#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mapmodel.h"

/* ---- values ---------------------------------------------------------------- */
static uint8_t **vals;
static uint32_t nvals, vcap, vpsz;
static uint32_t *vhash;
static uint32_t hcap;

static uint64_t hash_bytes(const uint8_t *d, uint32_t n)
{
	uint64_t h = 0x9e3779b97f4a7c15ull, w;
	uint32_t i;

	for (i = 0; i + 8 <= n; i += 8) {
		memcpy(&w, d + i, 8);
		h = (h ^ w) * 0xff51afd7ed558ccdull;
		h ^= h >> 29;
	}
	return h ^ (h >> 32);
}

void val_reset(void)
{
	uint32_t i;

	for (i = 0; i < nvals; i++)
		free(vals[i]);
	free(vals);
	free(vhash);
	vals = NULL;
	vhash = NULL;
	nvals = vcap = hcap = 0;
}

static void hput(uint32_t id)
{
	uint32_t k = hash_bytes(vals[id], vpsz) & (hcap - 1);

	while (vhash[k])
		k = (k + 1) & (hcap - 1);
	vhash[k] = id;
}

static uint32_t val_add(uint8_t *d)
{
	if (nvals == vcap) {
		uint32_t i;

		vcap = vcap ? vcap * 2 : 256;
		vals = realloc(vals, vcap * sizeof(vals[0]));
		free(vhash);
		hcap = vcap * 4;
		vhash = calloc(hcap, sizeof(vhash[0]));
		if (!vals || !vhash)
			vf_die("out of memory");
		for (i = 1; i < nvals; i++)
			hput(i);
	}
	vals[nvals] = d;
	if (d)
		hput(nvals);
	return nvals++;
}

void val_init(uint32_t psz)
{
	uint8_t *d;

	vpsz = psz;
	val_add(NULL);
	d = vf_alloc(psz);
	memset(d, 0xff, psz);
	val_add(d);
	d = vf_alloc(psz);
	memset(d, 0, psz);
	val_add(d);
}

const uint8_t *val_data(uint32_t id)
{
	return vals[id];
}

uint32_t val_lookup(const uint8_t *d, uint32_t psz)
{
	uint32_t k = hash_bytes(d, psz) & (hcap - 1);

	while (vhash[k]) {
		if (!memcmp(vals[vhash[k]], d, psz))
			return vhash[k];
		k = (k + 1) & (hcap - 1);
	}
	return ID_UNKNOWN;
}

int val_is_ff(const uint8_t *d, uint32_t psz)
{
	return d[0] == 0xff && !memcmp(d, d + 1, psz - 1);
}

const char *val_name(uint32_t id)
{
	static char b[4][40];
	static int n;
	char *s = b[n++ & 3];

	if (!id)
		return "nothing";
	if (id == 1)
		return "value 1 (all 0xff)";
	if (id == ID_ERROR)
		return "a read error";
	if (id == ID_UNKNOWN)
		return "garbage";
	snprintf(s, 40, "value %u", id);
	return s;
}

static uint32_t val_dedupe(uint8_t *d)
{
	uint32_t id = val_lookup(d, vpsz);

	if (id != ID_UNKNOWN) {
		free(d);
		return id;
	}
	return val_add(d);
}

uint32_t val_pick(vf_rng *r, struct chip *c, int special_pm)
{
	uint8_t *d;
	uint32_t i;
	uint64_t w;

	if (vf_chance(r, special_pm)) {
		switch (vf_below(r, 8)) {
		case 0: case 1: case 2:
			return 1;
		case 3:
			return 2;
		case 4:
			return 1 + vf_below(r, nvals - 1);
		case 5: case 6: {
			/* a copy of some checkpoint page on this chip */
			const uint32_t ppc = 1u << c->log2_ppc;
			uint32_t g = vf_below(r, c->np / ppc);

			for (i = 0; i < c->np / ppc; i++) {
				const uint32_t p = ((g + i) % (c->np / ppc)) *
					ppc + ppc - 1;
				const uint8_t *x = chip_page(c, p);

				if (x && x[0] == 'D' && x[1] == 'h') {
					d = vf_alloc(vpsz);
					memcpy(d, x, vpsz);
					return val_dedupe(d);
				}
			}
			return 1; }
		default:
			/* looks like a checkpoint header */
			d = vf_alloc(vpsz);
			memset(d, vf_chance(r, 500) ? 0xff : 0, vpsz);
			memcpy(d, "Dha", 3);
			for (i = 3; i < 24; i++)
				d[i] = vf_next(r) & 3;
			return val_dedupe(d);
		}
	}
	d = vf_alloc(vpsz);
	for (i = 0; i < vpsz; i += 8) {
		w = vf_next(r);
		memcpy(d + i, &w, 8);
	}
	w = nvals;
	memcpy(d, &w, 8);
	return val_add(d);
}

/* ---- contents ------------------------------------------------------------ */
void model_init(struct model *m, uint32_t U)
{
	free(m->cur);
	m->U = U;
	m->count = 0;
	m->cur = calloc(U, sizeof(m->cur[0]));
	if (!m->cur)
		vf_die("out of memory");
}

void model_free(struct model *m)
{
	free(m->cur);
	m->cur = NULL;
}

void model_set(struct model *m, uint32_t i, uint32_t id)
{
	m->count += (id != 0);
	m->count -= (m->cur[i] != 0);
	m->cur[i] = id;
}

uint32_t model_count(const struct model *m)
{
	uint32_t i, n = 0;

	for (i = 0; i < m->U; i++)
		n += m->cur[i] != 0;
	return n;
}

/* ---- versions -------------------------------------------------------------- */
void vlog_reset(struct vlog *v)
{
	free(v->sec);
	free(v->cur);
	free(v->d);
	free(v->wr);
	memset(v, 0, sizeof(*v));
}

static int has(const uint32_t *a, uint32_t n, uint32_t x)
{
	uint32_t i;

	for (i = 0; i < n; i++)
		if (a[i] == x)
			return 1;
	return 0;
}

void vlog_init(struct vlog *v, uint32_t U, vf_rng *r)
{
	uint32_t i, diff = 0, base = 0, mode = vf_below(r, 6);

	v->U = U;
	v->sec = vf_alloc(U * sizeof(v->sec[0]));
	v->cur = calloc(U, sizeof(v->cur[0]));
	v->wcap = 1024;
	v->wr = calloc(v->wcap, sizeof(v->wr[0]));
	if (mode == 1)
		base = (uint32_t)vf_next(r) & 0x7fffffff;
	else if (mode == 2)
		base = 0xfffffffeu - (U - 1);	/* up to the last valid one */
	for (i = 0; i < U; i++) {
		uint32_t s;

		if (mode <= 2) {
			v->sec[i] = base + i;
			continue;
		}
		do {
			switch (mode == 3 ? vf_below(r, 4) : mode) {
			case 0: s = 1u << vf_below(r, 32); break;
			case 1: s = ~(1u << vf_below(r, 32)); break;
			case 2: s = vf_below(r, 4 * U); break;
			case 3: s = vf_chance(r, 500) ? 0 : 0xfffffffe; break;
			case 4: s = (uint32_t)vf_next(r); break;
			default: s = vf_below(r, U * 3) << vf_below(r, 20);
				 break;
			}
			if (s == 0xffffffff || has(v->sec, i, s))
				s = (uint32_t)vf_next(r);
		} while (s == 0xffffffff || has(v->sec, i, s));
		v->sec[i] = s;
	}
	for (i = 1; i < U; i++)
		diff |= v->sec[i] ^ v->sec[0];
	v->maxbits = __builtin_popcount(diff);
}

void vlog_begin(struct vlog *v, int writes_page)
{
	v->ver++;
	if (v->ver >= v->wcap) {
		v->wcap *= 2;
		v->wr = realloc(v->wr, v->wcap * sizeof(v->wr[0]));
		if (!v->wr)
			vf_die("out of memory");
	}
	v->wr[v->ver] = v->wr[v->ver - 1] + !!writes_page;
}

void vlog_set(struct vlog *v, uint32_t i, uint32_t id)
{
	if (v->nd == v->cap) {
		v->cap = v->cap ? v->cap * 2 : 1024;
		v->d = realloc(v->d, v->cap * sizeof(v->d[0]));
		if (!v->d)
			vf_die("out of memory");
	}
	v->d[v->nd].ver = v->ver;
	v->d[v->nd].i = i;
	v->d[v->nd].old = v->cur[i];
	v->d[v->nd].nw = id;
	v->nd++;
	v->cur[i] = id;
}

void vlog_rebase(struct vlog *v, const uint32_t *cur)
{
	memcpy(v->cur, cur, v->U * sizeof(cur[0]));
	v->ver = v->nd = 0;
	v->wr[0] = 0;
	v->floorS = v->floorC = 0;
}

uint32_t vlog_match(struct vlog *v, const uint32_t *ids)
{
	uint32_t *t = vf_alloc(v->U * sizeof(t[0]));
	uint32_t i, bad = 0, ver = v->ver, k = v->nd;

	memcpy(t, v->cur, v->U * sizeof(t[0]));
	for (i = 0; i < v->U; i++)
		bad += t[i] != ids[i];
	while (bad && ver) {
		/* undo version ver */
		while (k && v->d[k - 1].ver == ver) {
			const struct delta *d = &v->d[--k];

			bad -= t[d->i] != ids[d->i];
			t[d->i] = d->old;
			bad += t[d->i] != ids[d->i];
		}
		ver--;
	}
	free(t);
	return bad ? VER_NONE : ver;
}

int vlog_lost_sector(struct vlog *v, const uint32_t *ids, uint32_t f)
{
	uint8_t *ok = calloc(v->U, 1);
	uint32_t i, k;
	int r = -1;

	if (!ok)
		vf_die("out of memory");
	for (i = 0; i < v->U; i++)
		ok[i] = ids[i] == v->cur[i];
	for (k = v->nd; k && v->d[k - 1].ver > f; k--)
		if (v->d[k - 1].old == ids[v->d[k - 1].i])
			ok[v->d[k - 1].i] = 1;
	for (i = 0; i < v->U; i++)
		if (!ok[i]) {
			r = i;
			break;
		}
	free(ok);
	return r;
}

int vlog_mixed_sector(struct vlog *v, const uint32_t *ids)
{
	uint32_t i;

	for (i = 0; i < v->U; i++)
		if (ids[i] != v->cur[i])
			return i;
	return 0;
}

int vlog_unchanged_since(const struct vlog *v, uint32_t i, uint32_t f)
{
	uint32_t k;

	for (k = v->nd; k && v->d[k - 1].ver > f; k--)
		if (v->d[k - 1].i == i)
			return 0;
	return 1;
}

uint32_t vlog_writes_since(const struct vlog *v, uint32_t ver)
{
	return v->wr[v->ver] - v->wr[ver];
}

int vlog_index(const struct vlog *v, uint32_t sec, uint32_t *out)
{
	uint32_t i;

	for (i = 0; i < v->U; i++)
		if (v->sec[i] == sec) {
			*out = i;
			return 1;
		}
	return 0;
}

/* ---- cost ---------------------------------------------------------------
 * bits: number of bit positions in which the sectors in use differ, i.e. the
 * depth of the radix tree; at most 32 and log2(sectors) for dense ones.
 * The bounds leave a factor of two and a constant.
 */
static void bound(struct chip *c, const char *what, uint64_t limit)
{
	const uint64_t t = call_total(&c->call);
	char nm[40];

	if (t > limit)
		vf_soft(O_COST, "%s made %llu NAND accesses, bound %llu "
			"(%u blocks of %u pages)", what, (unsigned long long)t,
			(unsigned long long)limit, c->nb, c->ppb);
	snprintf(nm, sizeof(nm), "cost_pct_of_bound_%s", what);
	vf_max(nm, limit ? t * 100 / limit : 0);
}

static int faulty(const struct chip *c)
{
	/* relocation of a failed block is outside these bounds */
	return c->nfail_seq || c->ecc_fired;
}

void cost_find(struct chip *c, uint32_t sec, int bits)
{
	(void)sec;
	bound(c, "find", 2 * (1 + bits) + 1);
	if (c->call.prog || c->call.erase || c->call.copy || c->call.mark_bad)
		vf_soft(O_COST, "find modified the NAND");
}

void cost_read(struct chip *c, uint32_t sec, int bits)
{
	(void)sec;
	bound(c, "read", 2 * (2 + bits) + 1);
}

static uint64_t gc_bound(int bits)
{
	/* peek (bad run), metadata, trace, is_bad run, erase, copy, checkpoint */
	return 2 * (1 + bits) + 28;
}

void cost_gc(struct chip *c, int bits)
{
	if (!faulty(c))
		bound(c, "gc", gc_bound(bits));
}

void cost_write(struct chip *c, int gcr, int bits)
{
	if (!faulty(c))
		bound(c, "write", (gcr + 2) * gc_bound(bits) +
		      4 * (2 + bits) + 24);
}

static int lg(uint32_t x)
{
	int n = 0;

	while (x >> n)
		n++;
	return n;
}

void cost_resume(struct chip *c)
{
	bound(c, "resume", 40ull * (lg(c->nb) + 2) + 4 * c->ppb +
	      4ull * (1u << c->log2_ppc) * (lg(c->ppb) + 2));
}
