/* Monitors for the ECC routines: every call is judged against independent
 * bit-level references.  The table-free build of the library is loaded from
 * eccnt.so next to the executable and must give the same answers.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <unistd.h>
#include "vf.h"
#include "bch.h"
#include "hamming.h"
#include "crc32.h"
#include "gf13.h"

static const char *prof;

/* ---- reference field ------------------------------------------------- */
#define FPOLY	0x201bu
#define ORD	8191u

static uint16_t rexp[2 * ORD], rlog[8192];

static uint32_t ref_mul(uint32_t a, uint32_t b)	/* carry-less + reduction */
{
	uint32_t r = 0;
	int i;

	for (i = 0; i < 13; i++)
		if (b >> i & 1)
			r ^= a << i;
	for (i = 25; i >= 13; i--)
		if (r >> i & 1)
			r ^= FPOLY << (i - 13);
	return r;
}

static uint32_t tmul(uint32_t a, uint32_t b)
{
	return a && b ? rexp[rlog[a] + rlog[b]] : 0;
}

static void ref_init(void)
{
	uint32_t i, a = 1;

	for (i = 0; i < ORD; i++) {
		rexp[i] = rexp[i + ORD] = a;
		rlog[a] = i;
		a = ref_mul(a, 2);
	}
	if (a != 1)
		vf_die("reference field is broken");
}

/* ---- reference BCH code ---------------------------------------------- */
struct code {
	const char		*name;
	const struct bch_def	*d, *nt;
	int			t;
	uint64_t		g;	/* LSB: x^0; vanishes at alpha^1..2t */
	int			deg;
};

static struct code codes[4];

static int pdeg(uint64_t p)
{
	return p ? 63 - __builtin_clzll(p) : -1;
}

static uint64_t ref_generator(int t)
{
	uint64_t g = 1;
	uint8_t done[ORD];
	int k;

	memset(done, 0, sizeof(done));
	for (k = 1; k <= 2 * t; k++) {
		/* minimal polynomial of alpha^k: product over its conjugates */
		uint16_t m[14] = { 1 };
		int md = 0, e = k, i;
		uint64_t mp = 0, r = 0;

		if (done[k])
			continue;
		do {
			uint32_t root = rexp[e];

			for (i = md + 1; i > 0; i--)
				m[i] = (i <= md ? tmul(m[i], root) : 0) ^ m[i - 1];
			m[0] = tmul(m[0], root);
			md++;
			done[e] = 1;
			e = e * 2 % ORD;
		} while (e != k);
		for (i = 0; i <= md; i++) {
			if (m[i] > 1)
				vf_die("minimal polynomial not binary");
			if (m[i])
				mp |= 1ull << i;
		}
		for (i = 0; i <= md; i++)
			if (mp >> i & 1)
				r ^= g << i;
		g = r;
	}
	return g;
}

/* check bits of the chunk: b_i = inverted i-th bit of chunk then check bytes;
 * sum b_i x^i is a multiple of g */
static void ref_ecc(const struct code *c, const uint8_t *chunk, size_t len,
		    uint8_t *ecc)
{
	static uint8_t a[8 * 1024 + 64];
	size_t n = len * 8, i;
	int j;

	for (i = 0; i < n; i++)
		a[i] = !(chunk[i >> 3] >> (i & 7) & 1);
	memset(a + n, 0, 64);
	for (i = 0; i < n; i++)
		if (a[i])
			for (j = 0; j <= c->deg; j++)
				a[i + j] ^= c->g >> j & 1;
	memset(ecc, 0xff, (c->deg + 7) / 8);
	for (j = 0; j < c->deg; j++)
		if (a[n + j])
			ecc[j >> 3] &= ~(1 << (j & 7));
}

/* ---- the table-free build -------------------------------------------- */
static struct {
	const struct bch_def *d[4];
	void (*gen)(const struct bch_def *, const uint8_t *, size_t, uint8_t *);
	int (*ver)(const struct bch_def *, const uint8_t *, size_t,
		   const uint8_t *);
	void (*rep)(const struct bch_def *, uint8_t *, size_t, uint8_t *);
	gf13_elem_t (*mul)(gf13_elem_t, gf13_elem_t);
	gf13_elem_t (*div)(gf13_elem_t, gf13_elem_t);
	gf13_elem_t (*mulx)(gf13_elem_t);
	gf13_elem_t (*divx)(gf13_elem_t);
} nt;

static void nt_load(void)
{
	char path[4096];
	ssize_t n = readlink("/proc/self/exe", path, sizeof(path) - 32);
	void *h;
	static const char *const dn[4] = { "bch_1bit", "bch_2bit", "bch_3bit",
					   "bch_4bit" };
	int i;

	if (n <= 0)
		vf_die("no /proc/self/exe");
	path[n] = 0;
	strcpy(strrchr(path, '/'), "/eccnt.so");
	h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
	if (!h)
		vf_die("%s", dlerror());
	for (i = 0; i < 4; i++)
		nt.d[i] = dlsym(h, dn[i]);
	nt.gen = dlsym(h, "bch_generate");
	nt.ver = dlsym(h, "bch_verify");
	nt.rep = dlsym(h, "bch_repair");
	nt.mul = dlsym(h, "vfnt_mul");
	nt.div = dlsym(h, "vfnt_div");
	nt.mulx = dlsym(h, "vfnt_mulx");
	nt.divx = dlsym(h, "vfnt_divx");
	if (!nt.d[3] || !nt.gen || !nt.ver || !nt.rep || !nt.mul || !nt.div ||
	    !nt.mulx || !nt.divx)
		vf_die("eccnt.so lacks a symbol");
}

/* ---- helpers --------------------------------------------------------- */
/* keep the stack from being accidentally zero */
static void __attribute__((noinline)) dirty_stack(uint8_t v)
{
	volatile uint8_t junk[2048];
	size_t i;

	for (i = 0; i < sizeof(junk); i++)
		junk[i] = v;
}

static void fill(vf_rng *r, uint8_t *p, size_t len)
{
	size_t i;
	int style = vf_below(r, 8);

	memset(p, 0xff, len);
	switch (style) {
	case 0:
		break;				/* erased */
	case 1:
		memset(p, 0, len);
		break;
	case 2:					/* nearly erased */
		for (i = vf_below(r, 4); i--; )
			p[vf_below(r, len)] &= ~(1 << vf_below(r, 8));
		break;
	case 3:
		memset(p, vf_below(r, 256), len);
		break;
	case 4:					/* sparse */
		memset(p, 0, len);
		for (i = vf_below(r, 4); i--; )
			p[vf_below(r, len)] |= 1 << vf_below(r, 8);
		break;
	default:
		for (i = 0; i < len; i++)
			p[i] = vf_next(r) >> 33;
	}
}

static uint64_t hash(const void *p, size_t n, uint64_t h)
{
	const uint8_t *b = p;

	while (n--)
		h = vf_mix(h, *b++);
	return h;
}

/* lengths: every length is visited, short, round and extreme ones often */
static size_t pick_len(vf_rng *r, uint64_t n, size_t max)
{
	static const uint16_t often[] = { 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33,
		63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512 };

	switch (n % 4) {
	case 0:
		return 1 + n / 4 * 37 % max;
	case 1: {
		size_t l = often[n / 4 % (sizeof(often) / sizeof(often[0]))];

		return l > max ? max : l;
	}
	case 2:
		return n / 4 % 2 ? max - vf_below(r, 4) : vf_range(r, 1, 24);
	default:
		return vf_range(r, 1, max);
	}
}

static void flip(uint8_t *chunk, size_t len, uint8_t *ecc, uint32_t pos)
{
	if (pos < len * 8)
		chunk[pos >> 3] ^= 1 << (pos & 7);
	else
		ecc[(pos - len * 8) >> 3] ^= 1 << ((pos - len * 8) & 7);
}

struct buf {
	uint8_t	*chunk, *ecc;		/* exact-size allocations */
};

/* ---- C20 -------------------------------------------------------------- */
static const uint8_t *good_chunk, *good_ecc;

static void judge_repair(const struct code *c, size_t len, struct buf *b,
			 const uint32_t *pos, int npos, vf_rng *r)
{
	uint64_t mask = (1ull << c->deg) - 1, e0 = 0, e1 = 0;
	int i;
	char txt[128] = "";

	for (i = 0; i < npos; i++)
		snprintf(txt + strlen(txt), sizeof(txt) - strlen(txt), " %u",
			 pos[i]);
	memcpy(b->chunk, good_chunk, len);
	memcpy(b->ecc, good_ecc, c->d->ecc_bytes);
	for (i = 0; i < npos; i++)
		flip(b->chunk, len, b->ecc, pos[i]);
	dirty_stack(vf_below(r, 256));
	bch_repair(c->d, b->chunk, len, b->ecc);
	if (memcmp(b->chunk, good_chunk, len))
		vf_viol(O_ECC, "%s len %zu: flips at%s: chunk not restored",
			c->name, len, txt);
	if (bch_verify(c->d, b->chunk, len, b->ecc))
		vf_viol(O_ECC, "%s len %zu: flips at%s: repaired chunk does not "
			"verify", c->name, len, txt);
	for (i = 0; i < c->d->ecc_bytes; i++) {
		e0 |= (uint64_t)good_ecc[i] << (8 * i);
		e1 |= (uint64_t)b->ecc[i] << (8 * i);
	}
	if ((e0 ^ e1) & mask)
		vf_viol(O_ECC, "%s len %zu: flips at%s: check bytes not "
			"restored", c->name, len, txt);
	vf_count("repairs", 1);
	if (!npos && e0 != e1)
		vf_viol(O_ECC, "%s len %zu: repair of an undamaged chunk changes "
			"its check bytes", c->name, len);
}

/* the position that completes a pattern so that its k-th power sum vanishes */
static int complete(const uint32_t *pos, int n, int k, uint32_t nbits,
		    uint32_t *out)
{
	uint32_t s = 0, p;
	int i;

	for (i = 0; i < n; i++)
		s ^= rexp[(uint64_t)pos[i] * k % ORD];
	if (!s)
		return 0;
	for (p = rlog[s]; p % k; p += ORD)
		;
	p = p / k % ORD;
	if (p >= nbits)
		return 0;
	for (i = 0; i < n; i++)
		if (pos[i] == p)
			return 0;
	*out = p;
	return 1;
}

static void pick_positions(vf_rng *r, uint32_t nbits, uint32_t all, int n,
			   size_t len, uint32_t *pos)
{
	int style = vf_below(r, 8), i, j;
	uint32_t base = vf_below(r, nbits), span = 8 + vf_below(r, 64);

	(void)all;
	for (i = 0; i < n; i++) {
again:
		switch (style) {
		case 0:				/* cluster */
			pos[i] = (base + vf_below(r, span)) % nbits;
			break;
		case 1:				/* check bytes */
			pos[i] = len * 8 + vf_below(r, nbits - len * 8);
			break;
		case 2:				/* either end */
			pos[i] = vf_chance(r, 500) ? vf_below(r, 12) % nbits :
				nbits - 1 - vf_below(r, 12) % nbits;
			break;
		case 3:				/* around the chunk's end */
			pos[i] = (len * 8 + nbits + vf_below(r, 16) - 8) % nbits;
			break;
		default:
			pos[i] = vf_below(r, nbits);
		}
		for (j = 0; j < i; j++)
			if (pos[j] == pos[i]) {
				style = 7;
				goto again;
			}
	}
	/* make one of the syndromes vanish */
	if (n >= 3 && vf_chance(r, 250)) {
		static const int ks[] = { 1, 3, 5, 7 };
		uint32_t p;

		if (complete(pos, n - 1, ks[vf_below(r, n == 4 ? 4 : 3)], nbits,
			     &p)) {
			pos[n - 1] = p;
			vf_count("vanishing_syndromes", 1);
		}
	}
}

static void case_bch(vf_rng *r, uint64_t n)
{
	const struct code *c = &codes[n % 4];
	size_t len = pick_len(r, n / 4, BCH_MAX_CHUNK_SIZE);
	uint32_t nbits = len * 8 + c->deg, all = len * 8 + 8 * c->d->ecc_bytes;
	struct buf b = { vf_buf(len), vf_buf(c->d->ecc_bytes) };
	uint8_t *gc = vf_buf(len), *ge = vf_buf(c->d->ecc_bytes);
	uint32_t pos[4], i, rounds;

	good_chunk = gc;
	good_ecc = ge;
	fill(r, gc, len);
	bch_generate(c->d, gc, len, ge);
	judge_repair(c, len, &b, pos, 0, r);
	rounds = len < 64 ? 60 : 16;
	for (i = 0; i < rounds; i++) {
		int k = 1 + (vf_chance(r, 700) ? (int)vf_below(r, c->t) :
			     c->t - 1);

		pick_positions(r, nbits, all, k, len, pos);
		if (vf_chance(r, 60) && all > nbits)	/* unused check bits */
			pos[k - 1] = nbits + vf_below(r, all - nbits);
		judge_repair(c, len, &b, pos, k, r);
		vf_distinct2(vf_mix(hash(pos, k * sizeof(pos[0]), len), c->t));
	}
	/* exhaustive patterns on small chunks */
	if (len <= 3 && n % 3 == 0) {
		uint32_t p, q;

		for (p = 0; p < nbits; p++) {
			pos[0] = p;
			judge_repair(c, len, &b, pos, 1, r);
			for (q = 0; c->t > 1 && q < p; q++) {
				pos[1] = q;
				judge_repair(c, len, &b, pos, 2, r);
			}
		}
		vf_count("exhaustive_chunks", 1);
	}
	vf_distinct(vf_mix(len, c->t));
	if (n < 8)
		vf_sample("%s, %zu byte chunk, %u error patterns of up to %d "
			  "bits", c->name, len, i, c->t);
	vf_buf_free(gc);
	vf_buf_free(ge);
	vf_buf_free(b.chunk);
	vf_buf_free(b.ecc);
}

/* every single error position, at one length per case */
static void case_bchone(vf_rng *r, uint64_t n)
{
	const struct code *c = &codes[n % 4];
	static const uint16_t lens[] = { 16, 512, BCH_MAX_CHUNK_SIZE, 1 };
	/* 32 cases share the positions of one (code, length) */
	size_t len = lens[n / 128 % 4];
	uint32_t nbits = len * 8 + c->deg, p, step = 32, first = n / 4 % 32;
	struct buf b = { vf_buf(len), vf_buf(c->d->ecc_bytes) };
	uint8_t *gc = vf_buf(len), *ge = vf_buf(c->d->ecc_bytes);

	good_chunk = gc;
	good_ecc = ge;
	fill(r, gc, len);
	bch_generate(c->d, gc, len, ge);
	for (p = first; p < nbits; p += step) {
		uint32_t pos[4] = { p, 0, 0, 0 };
		int k = 1;

		judge_repair(c, len, &b, pos, 1, r);
		while (k < c->t) {
			uint32_t q = vf_below(r, nbits);
			int j, dup = 0;

			for (j = 0; j < k; j++)
				dup |= pos[j] == q;
			if (!dup)
				pos[k++] = q;
		}
		if (c->t > 1)
			judge_repair(c, len, &b, pos, c->t, r);
		vf_distinct2(vf_mix(hash(pos, k * sizeof(pos[0]), len), c->t));
	}
	vf_distinct(vf_mix(vf_mix(len, c->t), first));
	vf_buf_free(gc);
	vf_buf_free(ge);
	vf_buf_free(b.chunk);
	vf_buf_free(b.ecc);
}

/* ---- C21 -------------------------------------------------------------- */
static void case_bchgen(vf_rng *r, uint64_t n)
{
	const struct code *c = &codes[n % 4];
	size_t len = pick_len(r, n / 4, BCH_MAX_CHUNK_SIZE);
	uint32_t nbits = len * 8 + c->deg;
	int eb = c->d->ecc_bytes, i, k, round;
	struct buf b = { vf_buf(len), vf_buf(eb) };
	uint8_t *gc = vf_buf(len);
	uint8_t want[8];

	if (c->d->syns != 2 * c->t || c->d->degree != c->deg ||
	    eb != (c->deg + 7) / 8)
		vf_viol(O_ECC, "%s: dimensions are not those of the code",
			c->name);
	if (c->d->generator != c->g)
		vf_viol(O_ECC, "%s: generator %llx does not vanish at the "
			"required roots (expected %llx)", c->name,
			(unsigned long long)c->d->generator,
			(unsigned long long)c->g);
	for (round = 0; round < 4; round++) {
		if (round == 3)
			memset(b.chunk, 0xff, len);
		else
			fill(r, b.chunk, len);
		memcpy(gc, b.chunk, len);
		memset(b.ecc, vf_below(r, 256), eb);
		ref_ecc(c, b.chunk, len, want);
		bch_generate(c->d, b.chunk, len, b.ecc);
		if (memcmp(gc, b.chunk, len))
			vf_viol(O_ECC | O_INPUT, "%s: generate changes the chunk",
				c->name);
		if (memcmp(want, b.ecc, eb))
			vf_viol(O_ECC, "%s len %zu: check bytes are not the "
				"code's", c->name, len);
		if (round == 3)
			for (i = 0; i < eb; i++)
				if (b.ecc[i] != 0xff)
					vf_viol(O_ECC, "%s len %zu: erased chunk "
						"has check byte %02x", c->name,
						len, b.ecc[i]);
		if (bch_verify(c->d, b.chunk, len, b.ecc))
			vf_viol(O_ECC, "%s len %zu: intact chunk does not verify",
				c->name, len);
		vf_count("generated", 1);
		for (i = 0; i < 48; i++) {
			uint32_t pos[8];

			k = 1 + vf_below(r, 2 * c->t);
			if (vf_chance(r, 300)) {	/* burst */
				uint32_t at = vf_below(r, nbits);
				int j;

				for (j = 0; j < k; j++)
					pos[j] = (at + j) % nbits;
			} else {
				int j, m;

				for (j = 0; j < k; j++) {
again:
					pos[j] = vf_chance(r, 150) ?
						len * 8 + vf_below(r, c->deg) :
						vf_below(r, nbits);
					for (m = 0; m < j; m++)
						if (pos[m] == pos[j])
							goto again;
				}
			}
			for (int j = 0; j < k; j++)
				flip(b.chunk, len, b.ecc, pos[j]);
			if (!bch_verify(c->d, b.chunk, len, b.ecc))
				vf_viol(O_ECC, "%s len %zu: verify accepts %d "
					"flipped bits (first at %u)", c->name,
					len, k, pos[0]);
			for (int j = 0; j < k; j++)
				flip(b.chunk, len, b.ecc, pos[j]);
			if (memcmp(gc, b.chunk, len) || memcmp(want, b.ecc, eb))
				vf_viol(O_ECC | O_INPUT,
					"%s: verify changes its input", c->name);
			vf_count("damage_patterns", 1);
			vf_distinct2(vf_mix(hash(pos, k * sizeof(pos[0]), len),
					    c->t));
		}
	}
	/* every single bit, on one in four */
	if (n % 16 < 4) {
		uint32_t p;

		for (p = 0; p < nbits; p += len > 64 ? 13 : 1) {
			flip(b.chunk, len, b.ecc, p);
			if (!bch_verify(c->d, b.chunk, len, b.ecc))
				vf_viol(O_ECC, "%s len %zu: verify accepts a "
					"flip of bit %u", c->name, len, p);
			flip(b.chunk, len, b.ecc, p);
			vf_count("damage_patterns", 1);
		}
	}
	vf_distinct(vf_mix(len, c->t));
	if (n < 4)
		vf_sample("%s, %zu byte chunk, check bytes compared with a "
			  "bit-serial division by %llx", c->name, len,
			  (unsigned long long)c->g);
	vf_buf_free(gc);
	vf_buf_free(b.chunk);
	vf_buf_free(b.ecc);
}

/* ---- C22 -------------------------------------------------------------- */
static void ham_double(size_t len, const uint8_t *gc, const uint8_t *ge,
		       uint8_t *chunk, uint8_t *ecc, uint32_t p, uint32_t q)
{
	hamming_ecc_t s;
	uint8_t was[2][3];
	size_t cp = p < len * 8 ? p >> 3 : 0, cq = q < len * 8 ? q >> 3 : 0;

	flip(chunk, len, ecc, p);
	flip(chunk, len, ecc, q);
	was[0][0] = chunk[cp];
	was[0][1] = chunk[cq];
	s = hamming_syndrome(chunk, len, ecc);
	if (!s)
		vf_viol(O_ECC, "len %zu: flips at %u and %u go unnoticed", len,
			p, q);
	if (!hamming_repair(chunk, len, s))
		vf_viol(O_ECC, "len %zu: flips at %u and %u are called repaired",
			len, p, q);
	if (was[0][0] != chunk[cp] || was[0][1] != chunk[cq])
		vf_viol(O_ECC, "len %zu: flips at %u and %u: failing repair "
			"changes the chunk", len, p, q);
	flip(chunk, len, ecc, p);
	flip(chunk, len, ecc, q);
	(void)gc;
	(void)ge;
	vf_count("double_errors", 1);
}

static void case_ham(vf_rng *r, uint64_t n)
{
	size_t len = n < 512 ? n + 1 : pick_len(r, n, HAMMING_MAX_CHUNK_SIZE);
	uint32_t nbits = len * 8 + 24, p, q, i;
	uint8_t *chunk = vf_buf(len), *ecc = vf_buf(3), *gc = vf_buf(len);
	uint8_t ge[3];
	hamming_ecc_t s;

	if (n % 5 == 4)
		memset(chunk, 0xff, len);
	else
		fill(r, chunk, len);
	memcpy(gc, chunk, len);
	hamming_generate(chunk, len, ecc);
	memcpy(ge, ecc, 3);
	if (memcmp(gc, chunk, len))
		vf_viol(O_ECC | O_INPUT, "generate changes the chunk");
	s = hamming_syndrome(chunk, len, ecc);
	if (s)
		vf_viol(O_ECC, "len %zu: intact chunk has syndrome %06x", len, s);
	if (hamming_repair(chunk, len, 0) || memcmp(gc, chunk, len))
		vf_viol(O_ECC, "len %zu: repair of an intact chunk", len);
	{
		uint8_t e[3] = { 0xff, 0xff, 0xff };
		uint8_t *x = vf_buf(len);

		memset(x, 0xff, len);
		if (hamming_syndrome(x, len, e))
			vf_viol(O_ECC, "len %zu: erased chunk has a syndrome",
				len);
		vf_buf_free(x);
	}
	for (p = 0; p < nbits; p++) {
		flip(chunk, len, ecc, p);
		s = hamming_syndrome(chunk, len, ecc);
		if (!s)
			vf_viol(O_ECC, "len %zu: flip at %u goes unnoticed", len,
				p);
		if (hamming_repair(chunk, len, s))
			vf_viol(O_ECC, "len %zu: flip at %u not repaired", len,
				p);
		if (p < len * 8 && chunk[p >> 3] != gc[p >> 3])
			vf_viol(O_ECC, "len %zu: flip at %u not undone", len, p);
		if (p % 64 == 0 && memcmp(gc, chunk, len))
			vf_viol(O_ECC, "len %zu: flip at %u: wrong repair", len,
				p);
		memcpy(ecc, ge, 3);
		vf_count("single_errors", 1);
	}
	if (memcmp(gc, chunk, len))
		vf_viol(O_ECC, "len %zu: some repair hit the wrong bit", len);
	if (len <= 8 || (len <= 24 && n % 3 == 0)) {
		for (p = 0; p < nbits; p++)
			for (q = 0; q < p; q++)
				ham_double(len, gc, ge, chunk, ecc, p, q);
		vf_count("all_doubles", 1);
	} else {
		/* all pairs within the check bytes, and with them */
		for (p = len * 8; p < nbits; p++)
			for (q = len * 8; q < p; q++)
				ham_double(len, gc, ge, chunk, ecc, p, q);
		for (i = 0; i < 400; i++) {
			p = vf_below(r, nbits);
			q = vf_chance(r, 300) ? len * 8 + vf_below(r, 24) :
				vf_chance(r, 400) ? (p ^ (1u << vf_below(r, 13)))
				: vf_below(r, nbits);
			if (p == q || q >= nbits)
				continue;
			ham_double(len, gc, ge, chunk, ecc, p, q);
			vf_distinct2(vf_mix(((uint64_t)p << 32) | q, len));
		}
	}
	if (memcmp(gc, chunk, len) || memcmp(ge, ecc, 3))
		vf_viol(O_ECC, "len %zu: failing repairs change the chunk", len);
	vf_distinct(vf_mix(len, hash(gc, len, 1)));
	if (n < 3)
		vf_sample("%zu byte chunk: all %u single flips, double flips "
			  "up to all pairs", len, nbits);
	vf_buf_free(chunk);
	vf_buf_free(ecc);
	vf_buf_free(gc);
}

/* ---- C23 -------------------------------------------------------------- */
static uint32_t ref_crc(const uint8_t *p, size_t n, uint32_t c)
{
	int i;

	/* inverted coefficients: division of ~data with register ~c */
	c = ~c;
	while (n--) {
		c ^= (uint8_t)~*p++;
		for (i = 0; i < 8; i++)
			c = (c >> 1) ^ (c & 1 ? 0xedb88320u : 0);
	}
	return ~c;
}

static void case_crc(vf_rng *r, uint64_t n)
{
	size_t len = n % 97 == 7 ? vf_range(r, 1, 5) * 65536 - 3 +
		vf_below(r, 6) : n % 5 == 0 ? vf_range(r, 1, 8) :
		n % 5 == 1 ? 512 : n % 5 == 2 ? vf_range(r, 500, 2200) :
		vf_range(r, 0, 520), i;
	uint8_t *b = vf_buf(len), *gb = vf_buf(len);
	uint32_t c0 = n % 3 == 0 ? CRC32_INIT : n % 3 == 1 ? 0 :
		(uint32_t)vf_next(r);
	uint32_t c, k;

	if (len)
		fill(r, b, len);
	memcpy(gb, b, len);
	c = crc32_nand(b, len, c0);
	if (c != ref_crc(b, len, c0))
		vf_viol(O_ECC, "len %zu carry %08x: checksum is %08x, not %08x",
			len, c0, c, ref_crc(b, len, c0));
	/* pieces */
	for (k = 0; k < 6; k++) {
		uint32_t d = c0;
		size_t at = 0;

		while (at < len) {
			size_t m = vf_chance(r, 300) ? 1 :
				vf_chance(r, 200) ? 0 :
				1 + vf_below(r, len - at);
			/* exact-size copy, so that overreads are seen */
			uint8_t *x;

			if (len > 4096 && m < len / 16)
				m = len / 16;
			if (m > len - at)
				m = len - at;
			x = vf_buf(m ? m : 1);
			memcpy(x, b + at, m);
			d = crc32_nand(x, m, d);
			vf_buf_free(x);
			at += m;
		}
		if (d != c)
			vf_viol(O_ECC, "len %zu: checksum in pieces is %08x, "
				"not %08x", len, d, c);
		vf_count("chained", 1);
	}
	/* damage: messages of at most 4096 bits including the checksum */
	if (len && len <= 508)
		for (k = 0; k < 60; k++) {
			uint8_t e[4] = { c, c >> 8, c >> 16, c >> 24 };
			uint32_t nb = len * 8 + 32, pos[32], m = 0, j, v;

			if (vf_chance(r, 600)) {
				uint32_t want = 1 + vf_below(r, 3);

				while (m < want) {
					uint32_t x = vf_below(r, nb);

					for (j = 0; j < m && pos[j] != x; j++)
						;
					if (j == m)
						pos[m++] = x;
				}
			} else {	/* burst of up to 32 bits */
				uint32_t w = 1 + vf_below(r, 32);
				uint32_t at = vf_below(r, nb - w + 1);

				pos[m++] = at;
				for (j = 1; j + 1 < w; j++)
					if (vf_chance(r, 500))
						pos[m++] = at + j;
				if (w > 1)
					pos[m++] = at + w - 1;
			}
			for (j = 0; j < m; j++)
				flip(b, len, e, pos[j]);
			v = e[0] | e[1] << 8 | e[2] << 16 | (uint32_t)e[3] << 24;
			if (crc32_nand(b, len, c0) == v)
				vf_viol(O_ECC, "len %zu: %u flipped bits (first "
					"at %u) leave the checksum right", len,
					m, pos[0]);
			memcpy(b, gb, len);
			vf_count("damage_patterns", 1);
			vf_distinct2(vf_mix(hash(pos, m * 4, len), n));
		}
	/* erased */
	memset(b, 0xff, len);
	if (crc32_nand(b, len, CRC32_INIT) != 0xffffffffu)
		vf_viol(O_ECC, "len %zu: erased block gives %08x", len,
			crc32_nand(b, len, CRC32_INIT));
	for (i = 0; i < len; i++)
		if (b[i] != 0xff)
			vf_viol(O_ECC | O_INPUT, "checksum changes its input");
	/* the whole table: one byte from every carry low byte */
	if (n % 8 == 0)
		for (k = 0; k < 65536; k += 17) {
			uint8_t one = k >> 8;
			uint32_t cc = (k & 255) | (uint32_t)(vf_next(r) << 8);

			if (crc32_nand(&one, 1, cc) != ref_crc(&one, 1, cc))
				vf_viol(O_ECC, "byte %02x carry %08x", one, cc);
			vf_count("single_bytes", 1);
		}
	vf_distinct(hash(gb, len, c0));
	if (n < 4)
		vf_sample("%zu bytes, carry %08x: checksum %08x", len, c0, c);
	vf_buf_free(b);
	vf_buf_free(gb);
}

/* ---- C24 -------------------------------------------------------------- */
static void case_gf(vf_rng *r, uint64_t n)
{
	uint32_t a, lo = n % 128 * 64, hi = lo + 64, b;
	uint64_t h = 0;

	for (a = lo; a < hi; a++) {
		uint32_t ntstep = 1 + vf_below(r, 40);

		if (a) {
			if (gf13_mulx(a) != ref_mul(a, 2) ||
			    nt.mulx(a) != ref_mul(a, 2))
				vf_viol(O_ECC, "mulx(%04x)", a);
			if (ref_mul(gf13_divx(a), 2) != a ||
			    ref_mul(nt.divx(a), 2) != a)
				vf_viol(O_ECC, "divx(%04x)", a);
			if (gf13_divx(a) >= 8192 || nt.divx(a) >= 8192)
				vf_viol(O_ECC, "divx(%04x) out of range", a);
#ifndef GF13_NO_TABLES
			if (gf13_exp[gf13_log[a] % GF13_ORDER] != a ||
			    gf13_exp[gf13_log[a]] != a)
				vf_viol(O_ECC, "exp[log[%04x]] is %04x", a,
					gf13_exp[gf13_log[a]]);
#endif
		}
#ifndef GF13_NO_TABLES
		/* index a of the exponential table */
		if (gf13_exp[a] != rexp[a % ORD])
			vf_viol(O_ECC, "exp[%u] is %04x", a, gf13_exp[a]);
		if (a < ORD && gf13_log[gf13_exp[a]] % GF13_ORDER != a)
			vf_viol(O_ECC, "log[exp[%u]] is %u", a,
				gf13_log[gf13_exp[a]]);
#endif
		if (!a)
			continue;
		for (b = 1; b < 8192; b++) {
			uint32_t want = tmul(a, b);

			if (gf13_mul(a, b) != want)
				vf_viol(O_ECC, "mul(%04x, %04x) is %04x, not "
					"%04x", a, b, gf13_mul(a, b), want);
			/* want / b == a */
			if (gf13_div(want, b) != a)
				vf_viol(O_ECC, "div(%04x, %04x) is %04x, not "
					"%04x", want, b, gf13_div(want, b), a);
			if (nt.mul(a, b) != want)
				vf_viol(O_ECC, "table-free mul(%04x, %04x) is "
					"%04x, not %04x", a, b, nt.mul(a, b),
					want);
			if (b % ntstep == 0 && nt.div(want, b) != a)
				vf_viol(O_ECC, "table-free div(%04x, %04x) is "
					"%04x, not %04x", want, b,
					nt.div(want, b), a);
		}
		/* the log-based reference against polynomial arithmetic */
		for (b = 0; b < 64; b++) {
			uint32_t x = vf_range(r, 1, 8191);

			if (ref_mul(a, x) != tmul(a, x))
				vf_die("references disagree");
		}
		vf_count("products", 8191);
		h = vf_mix(h, a);
		vf_distinct(a);
		vf_distinct2(a);
	}
	if (n < 4)
		vf_sample("all products and quotients with a in [%u, %u)", lo,
			  hi);
}

/* both builds on the same inputs, correctable or not */
static void case_gfboth(vf_rng *r, uint64_t n)
{
	int ci = n % 4, i, round;
	const struct code *c = &codes[ci];
	size_t len = n % 8 < 4 ? vf_range(r, 1, 40) :
		pick_len(r, n / 8, BCH_MAX_CHUNK_SIZE);
	int eb = c->d->ecc_bytes;
	uint8_t *c1 = vf_buf(len), *c2 = vf_buf(len), *e1 = vf_buf(eb),
		*e2 = vf_buf(eb);

	if (nt.d[ci]->syns != c->d->syns || nt.d[ci]->degree != c->deg ||
	    nt.d[ci]->generator != c->d->generator || nt.d[ci]->ecc_bytes != eb)
		vf_viol(O_ECC, "%s: definitions differ between builds", c->name);
	for (round = 0; round < 3; round++) {
		int flips, v1, v2;

		fill(r, c1, len);
		memcpy(c2, c1, len);
		bch_generate(c->d, c1, len, e1);
		nt.gen(nt.d[ci], c2, len, e2);
		if (memcmp(e1, e2, eb))
			vf_viol(O_ECC, "%s len %zu: builds generate different "
				"check bytes", c->name, len);
		switch (round) {
		case 0:
			flips = vf_below(r, c->t + 1);
			break;
		case 1:
			flips = c->t + 1 + vf_below(r, 4);
			break;
		default:
			flips = vf_chance(r, 300) ? 40 : c->t + 1;
		}
		for (i = 0; i < flips; i++) {
			uint32_t p = vf_below(r, len * 8 + 8 * eb);

			flip(c1, len, e1, p);
			flip(c2, len, e2, p);
		}
		if (round == 2 && vf_chance(r, 200)) {	/* any check bytes */
			for (i = 0; i < eb; i++)
				e1[i] = e2[i] = vf_next(r);
		}
		v1 = bch_verify(c->d, c1, len, e1);
		v2 = nt.ver(nt.d[ci], c2, len, e2);
		if (!v1 != !v2)
			vf_viol(O_ECC, "%s len %zu: builds verify differently",
				c->name, len);
		dirty_stack(vf_below(r, 256));
		bch_repair(c->d, c1, len, e1);
		dirty_stack(vf_below(r, 256));
		nt.rep(nt.d[ci], c2, len, e2);
		if (memcmp(c1, c2, len) || memcmp(e1, e2, eb))
			vf_viol(O_ECC, "%s len %zu, %d flips: builds repair "
				"differently", c->name, len, flips);
		vf_count(round ? "uncorrectable_compared" :
			 "correctable_compared", 1);
		vf_distinct2(hash(c1, len, hash(e1, eb, ci)));
	}
	vf_distinct(vf_mix(len, ci));
	vf_buf_free(c1);
	vf_buf_free(c2);
	vf_buf_free(e1);
	vf_buf_free(e2);
}

/* ---- C18: damage far beyond what the codes can handle ---------------- */
static uint32_t differ(const uint8_t *a, const uint8_t *b, size_t n)
{
	uint32_t k = 0;

	while (n--)
		k += __builtin_popcount(*a++ ^ *b++);
	return k;
}

static void wreck(vf_rng *r, uint8_t *p, size_t n)
{
	uint32_t i, m = 1 + vf_below(r, 24);

	if (vf_chance(r, 250)) {
		fill(r, p, n);
		return;
	}
	for (i = 0; i < m; i++)
		p[vf_below(r, n)] ^= 1 << vf_below(r, 8);
}

static void case_wild(vf_rng *r, uint64_t n)
{
	const struct code *c = &codes[n & 3];
	size_t len = n & 4 ? pick_len(r, n >> 3, BCH_MAX_CHUNK_SIZE) :
		pick_len(r, n >> 3, HAMMING_MAX_CHUNK_SIZE);
	size_t el = n & 4 ? (size_t)c->d->ecc_bytes : 3;
	uint8_t *chunk = vf_buf(len), *ecc = vf_buf(el);
	uint8_t *gc = vf_buf(len), *ge = vf_buf(el);
	int rounds = n & 4 ? 2 : 40;

	while (rounds--) {
		fill(r, chunk, len);
		dirty_stack(vf_next(r));
		if (n & 4)
			bch_generate(c->d, chunk, len, ecc);
		else
			hamming_generate(chunk, len, ecc);
		if (vf_chance(r, 700))
			wreck(r, chunk, len);
		if (vf_chance(r, 700))
			wreck(r, ecc, el);
		memcpy(gc, chunk, len);
		memcpy(ge, ecc, el);
		if (n & 4) {
			bch_verify(c->d, chunk, len, ecc);
			if (memcmp(gc, chunk, len) || memcmp(ge, ecc, el))
				vf_viol(O_INPUT, "verify changes its input");
			bch_repair(c->d, chunk, len, ecc);
			vf_count("wild_bch", 1);
		} else {
			hamming_ecc_t s = vf_chance(r, 300) ?
				(hamming_ecc_t)vf_below(r, 1 << 24) :
				hamming_syndrome(chunk, len, ecc);
			int x;

			if (memcmp(gc, chunk, len) || memcmp(ge, ecc, el))
				vf_viol(O_INPUT, "syndrome changes its input");
			x = hamming_repair(chunk, len, s);
			if (x && x != -1)
				vf_viol(O_ECC, "repair returns %d", x);
			if (differ(gc, chunk, len) > (x ? 0 : 1))
				vf_viol(O_ECC, "len %zu syndrome %06x: repair "
					"returns %d and flips %u bits", len, s,
					x, differ(gc, chunk, len));
			vf_count("wild_hamming", 1);
		}
		vf_distinct2(vf_mix(hash(chunk, len, n), len));
	}
	vf_distinct(vf_mix(len, n & 7));
	if (n < 8 && (n & 3) == 0)
		vf_sample("%s chunk of %zu bytes with random damage: repaired "
			  "or given up, nothing outside it touched",
			  n & 4 ? "BCH" : "Hamming", len);
	vf_buf_free(chunk);
	vf_buf_free(ecc);
	vf_buf_free(gc);
	vf_buf_free(ge);
}

static void one(vf_rng *r, uint64_t n)
{
	if (!strcmp(prof, "bch"))
		case_bch(r, n);
	else if (!strcmp(prof, "bchone"))
		case_bchone(r, n);
	else if (!strcmp(prof, "bchgen"))
		case_bchgen(r, n);
	else if (!strcmp(prof, "ham"))
		case_ham(r, n);
	else if (!strcmp(prof, "wild"))
		case_wild(r, n);
	else if (!strcmp(prof, "crc"))
		case_crc(r, n);
	else if (!strcmp(prof, "gf"))
		case_gf(r, n);
	else if (!strcmp(prof, "gfboth"))
		case_gfboth(r, n);
	else
		vf_die("unknown profile %s", prof);
}

int main(int argc, char **argv)
{
	struct vf_opts o;
	static const char *const names[4] = { "1-bit", "2-bit", "3-bit",
					      "4-bit" };
	const struct bch_def *const defs[4] = { &bch_1bit, &bch_2bit,
						&bch_3bit, &bch_4bit };
	int i;

	vf_parse(argc, argv, &o);
	prof = o.profile;
	ref_init();
	if (!strncmp(prof, "gf", 2))
		nt_load();
	for (i = 0; i < 4; i++) {
		codes[i].name = names[i];
		codes[i].d = defs[i];
		codes[i].t = i + 1;
		codes[i].g = ref_generator(i + 1);
		codes[i].deg = pdeg(codes[i].g);
	}
	vf_run_cases(&o, one);
	vf_finish(&o);
	return 0;
}
