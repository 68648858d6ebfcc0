/* Reads a raw chip following only the documented format (map_internals.txt,
 * journal.h): no code of the library is used here.
 */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include "mapmodel.h"

#define META	132
#define NONE	0xffffffffu

struct fmt {
	struct chip	*c;
	uint32_t	ppc;
	uint32_t	head_off;	/* ring distance of newest checkpoint from tail */
	uint32_t	tail;
	const struct model *m;
	const uint32_t	*sec;
	uint8_t		*seen;
	uint32_t	found;
};

static uint32_t le32(const uint8_t *p)
{
	return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24;
}

static const uint8_t *checkpoint(struct chip *c, uint32_t p)
{
	const uint8_t *d = chip_page(c, p);

	return d && d[0] == 'D' && d[1] == 'h' && d[2] == 'a' ? d : NULL;
}

static const uint8_t *meta_of(struct fmt *f, uint32_t p)
{
	const uint32_t cp = p | (f->ppc - 1);
	const uint8_t *d;

	if (p >= f->c->np || p == cp)
		vf_viol(O_FORMAT, "pointer to page %u, which is no user page",
			p);
	d = checkpoint(f->c, cp);
	if (!d)
		vf_viol(O_FORMAT, "page %u is in use but page %u holds no "
			"checkpoint", p, cp);
	return d + 20 + META * (p & (f->ppc - 1));
}

static uint32_t ring(struct fmt *f, uint32_t p)
{
	return (p + f->c->np - f->tail) % f->c->np;
}

/* Walk the subtree whose newest record is p and whose sectors share the top
 * depth bits of prefix. Returns the ring position of the newest page in it. */
static uint32_t walk(struct fmt *f, uint32_t p, int depth, uint32_t prefix,
		     int level)
{
	const uint8_t *m = meta_of(f, p);
	const uint32_t id = le32(m);
	uint32_t newest = ring(f, p), i;
	int d;

	if (id == NONE)
		vf_viol(O_FORMAT, "reachable page %u is marked as filler", p);
	if (depth && ((id ^ prefix) >> (32 - depth)))
		vf_viol(O_FORMAT, "page %u (sector %08x) does not share the "
			"%d-bit prefix of %08x", p, id, depth, prefix);
	if (ring(f, p) > f->head_off)
		vf_viol(O_FORMAT, "page %u (sector %08x) lies outside the log "
			"between tail %u and the newest checkpoint", p, id,
			f->tail);
	for (i = 0; i < f->m->U; i++)
		if (f->sec[i] == id)
			break;
	if (i == f->m->U || !f->m->cur[i])
		vf_viol(O_FORMAT, "flash holds sector %08x (page %u), which is "
			"not mapped", id, p);
	if (f->seen[i])
		vf_viol(O_FORMAT, "sector %08x is reachable twice", id);
	f->seen[i] = 1;
	f->found++;
	{
		const uint8_t *d0 = chip_page(f->c, p);

		if (!d0 || memcmp(d0, val_data(f->m->cur[i]), f->c->psz))
			vf_viol(O_FORMAT, "flash content of sector %08x at page "
				"%u differs from what was stored", id, p);
	}
	for (d = depth; d < 32; d++) {
		const uint32_t alt = le32(m + 4 + 4 * d);
		uint32_t sub;

		if (alt == NONE)
			continue;
		sub = walk(f, alt, d + 1, id ^ (0x80000000u >> d), level + 1);
		if (sub > newest)
			vf_viol(O_FORMAT, "page %u (sector %08x) was written "
				"before a page of the subtree it heads", p, id);
	}
	return newest;
}

void fmt_check(struct chip *c, const struct model *m, const uint32_t *sec,
	       int flags)
{
	struct fmt f;
	const uint32_t ppc = 1u << c->log2_ppc;
	const uint8_t *first = NULL, *last = NULL;
	uint32_t b, g, p, lastp = 0, bad = 0, badall = 0;

	memset(&f, 0, sizeof(f));
	f.c = c;
	f.ppc = ppc;
	f.m = m;
	f.sec = sec;

	/* the epoch of the first block that holds checkpoints is the current
	 * one; the newest checkpoint is the last one of that epoch */
	for (b = 0; b < c->nb; b++) {
		if (c->blk[b].bad) {
			badall++;
			continue;
		}
		for (g = 0; g < c->ppb; g += ppc) {
			const uint8_t *d;

			p = b * c->ppb + g + ppc - 1;
			d = checkpoint(c, p);
			if (!d)
				continue;
			if (!first)
				first = d;
			if (d[3] == first[3]) {
				last = d;
				lastp = p;
				bad = badall;
			}
		}
	}
	if (!last)
		vf_viol(O_FORMAT, "no checkpoint on the chip after a "
			"checkpoint was reported");
	if (le32(last + 16) != m->count)
		vf_viol(O_FORMAT, "checkpoint at page %u records %u sectors, "
			"%u are mapped", lastp, le32(last + 16), m->count);
	f.tail = le32(last + 4);
	if (f.tail >= c->np || (f.tail & (ppc - 1)) == ppc - 1)
		vf_viol(O_FORMAT, "checkpoint at page %u: tail %u is no user "
			"page", lastp, f.tail);
	f.head_off = ring(&f, lastp);
	if (!(flags & 1) && le32(last + 8) != bad)
		vf_viol(O_FORMAT, "checkpoint at page %u: bad-block count of "
			"this pass is %u, %u bad blocks lie before it", lastp,
			le32(last + 8), bad);
	if (!(flags & 1) && le32(last + 12) > c->nb)
		vf_viol(O_FORMAT, "checkpoint at page %u: bad-block estimate "
			"%u exceeds the chip", lastp, le32(last + 12));
	f.seen = calloc(m->U, 1);
	if (!f.seen)
		vf_die("out of memory");
	if (le32(last + 20 + META * (ppc - 2)) != NONE)
		walk(&f, lastp - 1, 0, 0, 0);
	if (f.found != m->count)
		vf_viol(O_FORMAT, "an independent reader finds %u sectors, %u "
			"are mapped", f.found, m->count);
	free(f.seen);
	vf_count("flash_images_decoded", 1);
	vf_count("records_decoded", f.found);
}
