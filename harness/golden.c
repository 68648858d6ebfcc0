/* Chips written by an earlier version of the library (its commit 7df606e)
 * must be understood by this one: profile "golden" resumes stored images,
 * compares the contents with what the earlier version read back, and goes on
 * working on them. Profile "make" (built against that earlier version)
 * produced the images; see tools/make_golden.sh.
 */
#define _GNU_SOURCE
#include <glob.h>
#include <libgen.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "sim.h"
#include "map.h"

#define MAXU	400
#define CMASK	(O_FORMAT)

static struct chip *C;
static struct dhara_map *M;
static uint8_t *PB, *DB;
static uint64_t vseed;
static uint32_t U, sec[MAXU], ver[MAXU], nver;
static int gcr;
static vf_rng *R;

/* page content of a sector's version: 16 bytes, repeated (it packs well) */
static void content(uint32_t s, uint32_t v, uint8_t *d)
{
	uint64_t k[2] = { vf_mix(vseed + s, v), vf_mix(v, s ^ vseed) };
	uint32_t i;

	if (v % 11 == 3) {
		memset(d, 0xff, C->psz);
		return;
	}
	for (i = 0; i < C->psz; i += 16)
		memcpy(d + i, k, 16);
}

static void power_up(void)
{
	if (PB)
		vf_buf_free(PB);
	if (DB)
		vf_buf_free(DB);
	PB = vf_buf(C->psz);
	DB = vf_buf(C->psz);
	vf_poison(PB, C->psz, 0x5c);
	free(M);
	M = vf_alloc(sizeof(*M));
	sim_begin(C, 10000000);
	dhara_map_init(M, &C->n, PB, gcr);
}

static int op(vf_rng *r)
{
	uint32_t i = vf_below(r, U);
	dhara_error_t err = 0;
	int k = vf_below(r, 100), rc;

	sim_begin(C, 10000000);
	if (k < 70 && dhara_map_size(M) * 10 >= dhara_map_capacity(M) * 9 &&
	    !ver[i])
		k = 70;
	if (k < 66) {
		uint32_t v = ++nver;

		content(sec[i], v, DB);
		rc = dhara_map_write(M, sec[i], DB, &err);
		if (!rc)
			ver[i] = v;
	} else if (k < 74) {
		rc = dhara_map_trim(M, sec[i], &err);
		if (!rc)
			ver[i] = 0;
	} else if (k < 84) {
		rc = dhara_map_gc(M, &err);
	} else {
		rc = dhara_map_sync(M, &err);
	}
	if (rc)
		vf_viol(CMASK, "operation %d on sector %08x of an image fails: "
			"error %d", k, sec[i], err);
	return k;
}

static void sweep(const char *when)
{
	uint32_t i, n = 0;
	uint8_t *want = malloc(C->psz);
	dhara_error_t err;
	dhara_page_t loc;

	for (i = 0; i < U; i++) {
		int f;

		sim_begin(C, 10000000);
		f = dhara_map_find(M, sec[i], &loc, &err);
		if (ver[i])
			content(sec[i], ver[i], want);
		else
			memset(want, 0xff, C->psz);
		n += !!ver[i];
		if (dhara_map_read(M, sec[i], DB, &err))
			vf_viol(CMASK, "%s: sector %08x cannot be read, error "
				"%d", when, sec[i], err);
		if ((f < 0) != !ver[i] || memcmp(want, DB, C->psz))
			vf_viol(CMASK, "%s: sector %08x (version %u) %s", when,
				sec[i], ver[i], f < 0 ? "is gone" :
				"has other contents");
		vf_count("golden_sectors_checked", 1);
	}
	if (dhara_map_size(M) != n)
		vf_viol(CMASK, "%s: size %u, %u sectors were mapped", when,
			dhara_map_size(M), n);
	free(want);
}

/* ---- the file ---------------------------------------------------------- */
static void put32(FILE *f, uint32_t v)
{
	uint8_t b[4] = { v, v >> 8, v >> 16, v >> 24 };

	fwrite(b, 1, 4, f);
}

static uint32_t get32(FILE *f)
{
	uint8_t b[4];

	if (fread(b, 1, 4, f) != 4)
		vf_die("short image");
	return b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24;
}

static void save(const char *path)
{
	FILE *f = fopen(path, "wb");
	uint32_t i;

	if (!f)
		vf_die("cannot write %s", path);
	put32(f, 0x31474656);
	put32(f, C->n.log2_page_size);
	put32(f, C->n.log2_ppb);
	put32(f, C->nb);
	put32(f, gcr);
	put32(f, U);
	put32(f, nver);
	put32(f, vseed);
	put32(f, vseed >> 32);
	for (i = 0; i < U; i++) {
		put32(f, sec[i]);
		put32(f, ver[i]);
	}
	for (i = 0; i < C->nb; i++) {
		fputc(C->blk[i].bad, f);
		put32(f, C->blk[i].next | (uint32_t)C->blk[i].noerase << 16);
	}
	for (i = 0; i < C->np; i++)
		fputc(C->pf[i] & (PF_TORN | PF_UNREADABLE) ? 2 : !!C->pg[i], f);
	for (i = 0; i < C->np; i++)
		if (C->pg[i] && !(C->pf[i] & (PF_TORN | PF_UNREADABLE)))
			fwrite(C->pg[i]->d, 1, C->psz, f);
	fclose(f);
}

static void load(const char *path)
{
	FILE *f = fopen(path, "rb");
	uint32_t lps, lppb, nb, i;
	uint8_t *st, *pg;

	if (!f)
		vf_die("cannot read %s", path);
	if (get32(f) != 0x31474656)
		vf_die("%s is no image", path);
	lps = get32(f);
	lppb = get32(f);
	nb = get32(f);
	C = chip_new(lps, lppb, nb);
	gcr = get32(f);
	U = get32(f);
	nver = get32(f);
	vseed = get32(f);
	vseed |= (uint64_t)get32(f) << 32;
	for (i = 0; i < U; i++) {
		sec[i] = get32(f);
		ver[i] = get32(f);
	}
	for (i = 0; i < nb; i++) {
		uint32_t x;

		if (fgetc(f))
			chip_factory_bad(C, i);
		x = get32(f);
		C->blk[i].next = x & 0xffff;
		C->blk[i].noerase = x >> 16;
	}
	st = malloc(C->np);
	pg = malloc(C->psz);
	if (fread(st, 1, C->np, f) != C->np)
		vf_die("short image");
	for (i = 0; i < C->np; i++) {
		uint16_t next = C->blk[i / C->ppb].next;

		if (st[i] == 2) {
			chip_torn_prog(C, i);
		} else if (st[i]) {
			if (fread(pg, 1, C->psz, f) != C->psz)
				vf_die("short image");
			chip_set_page(C, i, pg);
		}
		C->blk[i / C->ppb].next = next;
	}
	free(st);
	free(pg);
	fclose(f);
}

/* ---- making images ----------------------------------------------------- */
static struct chip *taken;
static uint32_t take_in;

static void take(struct chip *c, int kind, uint32_t where, int will_fail)
{
	(void)where;
	(void)will_fail;
	if (kind != MUT_MARK && take_in && !--take_in)
		taken = chip_clone(c);
}

static const struct { uint8_t lps, lppb, nb, gcr, bad, cut; uint16_t u, ops; }
shapes[] = {
	{ 9, 3, 40, 4, 0, 0, 60, 90 },		/* first lap */
	{ 9, 3, 40, 4, 0, 0, 60, 3000 },	/* many laps */
	{ 9, 3, 36, 1, 3, 0, 20, 2000 },	/* bad blocks, lazy gc */
	{ 9, 5, 24, 4, 2, 0, 150, 4000 },
	{ 9, 1, 60, 2, 1, 0, 20, 1500 },	/* one page per group */
	{ 10, 4, 30, 6, 2, 0, 150, 3000 },
	{ 11, 6, 16, 4, 0, 0, 300, 6000 },	/* large blocks */
	{ 12, 2, 40, 4, 1, 0, 40, 1500 },
	{ 9, 2, 30, 3, 0, 0, 20, 60000 },	/* the epoch wraps */
	{ 9, 3, 40, 4, 2, 1, 60, 2000 },	/* power cuts from here on */
	{ 9, 4, 30, 4, 0, 1, 80, 1200 },
	{ 10, 5, 24, 2, 3, 1, 150, 2500 },
};

static void make(vf_rng *r, uint64_t n, const char *dir)
{
	char path[512];
	uint32_t i, k;

	n %= sizeof(shapes) / sizeof(shapes[0]);
	vseed = vf_next(r);
	C = chip_new(shapes[n].lps, shapes[n].lppb, shapes[n].nb);
	chip_virgin(C, n % 3 ? 0 : 2, r);
	gcr = shapes[n].gcr;
	U = shapes[n].u;
	nver = 0;
	for (i = 0; i < U; i++) {
		sec[i] = i < U / 2 ? i : (uint32_t)vf_next(r);
		ver[i] = 0;
	}
	for (i = 0; i < shapes[n].bad; i++)
		chip_factory_bad(C, vf_below(r, C->nb / 4) * 4);
	power_up();
	dhara_map_resume(M, NULL);
	for (k = 0; k < shapes[n].ops; k++) {
		op(r);
		if (vf_chance(r, 20)) {
			dhara_map_sync(M, NULL);
			power_up();
			if (dhara_map_resume(M, NULL))
				vf_die("resume");
		}
	}
	dhara_map_sync(M, NULL);
	sweep("made");
	if (shapes[n].cut) {
		/* power goes some operations later */
		C->hook = take;
		take_in = 1 + vf_below(r, 20);
		taken = NULL;
		while (!taken)
			op(r);
		C = taken;
		C->hook = NULL;
	}
	/* what does it read back? */
	power_up();
	if (dhara_map_resume(M, NULL))
		vf_die("resume");
	if (shapes[n].cut) {
		uint32_t v;
		uint8_t *want = malloc(C->psz);

		for (i = 0; i < U; i++) {
			dhara_page_t loc;

			if (dhara_map_find(M, sec[i], &loc, NULL)) {
				ver[i] = 0;
				continue;
			}
			if (dhara_map_read(M, sec[i], DB, NULL))
				vf_die("read");
			for (v = nver; v; v--) {
				content(sec[i], v, want);
				if (!memcmp(want, DB, C->psz))
					break;
			}
			if (!v)
				vf_die("content");
			ver[i] = v;
		}
		free(want);
	}
	sweep("resumed");
	snprintf(path, sizeof(path), "%s/golden-%02u.img", dir, (unsigned)n);
	save(path);
}

/* ---- cases ------------------------------------------------------------ */
static struct vf_opts o;
static glob_t g;

static void run_case(vf_rng *r, uint64_t n)
{
	uint32_t i, ops;
	dhara_error_t err = 0;

	R = r;
	vf_also = 0;
	if (!strcmp(o.profile, "make")) {
		make(r, n, o.arg);
		return;
	}
	load(g.gl_pathv[n % g.gl_pathc]);
	if (n / g.gl_pathc % 3 == 1)
		C->imprecise = 1;
	if (n / g.gl_pathc % 3 == 2)	/* the ratio is not part of the format */
		gcr = vf_range(r, 1, 8);
	power_up();
	vf_also = CMASK;	/* even if it is a wild NAND access */
	C->readonly = 1;
	if (dhara_map_resume(M, &err))
		vf_viol(CMASK, "image %s does not resume: error %d",
			basename(g.gl_pathv[n % g.gl_pathc]), err);
	C->readonly = 0;
	sweep("resumed image");
	vf_also = 0;
	vf_count("golden_images", 1);
	ops = vf_below(r, 400);
	for (i = 0; i < ops; i++) {
		op(r);
		if (vf_chance(r, 10)) {
			dhara_map_sync(M, NULL);
			power_up();
			if (dhara_map_resume(M, &err))
				vf_viol(CMASK, "image does not resume after "
					"%u operations: error %d", i, err);
		}
	}
	sweep("image after more operations");
	vf_distinct(vf_mix(n % g.gl_pathc, C->trace + ops));
	vf_distinct2(vf_mix(n, 1));
	if (n < 3)
		vf_sample("image %s: %u sectors resumed, then %u operations",
			  basename(g.gl_pathv[n]), dhara_map_size(M), ops);
}

int main(int argc, char **argv)
{
	char pat[4096];
	ssize_t k;

	vf_parse(argc, argv, &o);
	if (strcmp(o.profile, "make")) {
		k = readlink("/proc/self/exe", pat, sizeof(pat) - 64);
		if (k <= 0)
			vf_die("no /proc/self/exe");
		pat[k] = 0;
		strcpy(strrchr(pat, '/'), "/golden-*.img");
		if (glob(pat, 0, NULL, &g) || !g.gl_pathc)
			vf_die("no images at %s", pat);
	}
	vf_run_cases(&o, run_case);
	vf_finish(&o);
	return 0;
}
