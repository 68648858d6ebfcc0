/* Histories of map operations against a reference model.
 *
 * One case = one chip, one random history. The oracles are listed in
 * DESIGN.md; every report carries the classes of what it refutes.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vf.h"
#include "sim.h"
#include "map.h"
#include "mapmodel.h"

/* ---- profiles ------------------------------------------------------------ */
struct prof {
	const char *name;
	int lps_lo, lps_hi, lppb_lo, lppb_hi;
	int nb_extra;		/* blocks above the minimum: 0..nb_extra */
	int maxpages;		/* keep chips at most this big */
	int ops_lo, ops_hi;
	/* weights */
	int w_write, w_trim, w_copys, w_copyp, w_read, w_sync, w_gc, w_clear,
	    w_restart, w_burst;
	int fill_lo, fill_hi;	/* universe in per cent of capacity */
	int u_max;		/* and at most this many sectors */
	int clone_pm, clone_max, adopt_pm, cont_pm;
	int fail;		/* block failures: 0 none 1 some 2 many */
	int factory_pm;		/* chance of factory-bad blocks */
	int ecc_pm;		/* chance that an op sees an ECC error */
	int imprecise_pm;
	int special_pm;		/* chance of special page contents */
	int wear, format, cost, full, notorn_pm, sweep_pm;
	int gcconv_pm;		/* gc convergence episodes */
	int exh_pm;		/* fail every read of a call, one by one */
	int toobad;		/* a wall of bad blocks, wider than the margin */
	int copyp_hazard;	/* copy_page with a gc ratio out of proportion */
};

#define BASEW .w_write = 50, .w_trim = 14, .w_copys = 8, .w_copyp = 4, \
	.w_read = 6, .w_sync = 5, .w_gc = 6, .w_clear = 1, .w_restart = 2, \
	.w_burst = 2

static const struct prof profs[] = {
	{ .name = "gen", .lps_lo = 8, .lps_hi = 12, .lppb_lo = 1, .lppb_hi = 6,
	  .nb_extra = 40, .maxpages = 6000, .ops_lo = 150, .ops_hi = 1500,
	  BASEW, .fill_lo = 1, .fill_hi = 95, .u_max = 120,
	  .factory_pm = 300, .special_pm = 120, .sweep_pm = 60 },
	{ .name = "small", .lps_lo = 8, .lps_hi = 9, .lppb_lo = 1, .lppb_hi = 3,
	  .nb_extra = 6, .maxpages = 300, .ops_lo = 300, .ops_hi = 2500,
	  BASEW, .fill_lo = 10, .fill_hi = 95, .u_max = 40,
	  .factory_pm = 200, .special_pm = 120, .sweep_pm = 80 },
	{ .name = "wrap", .lps_lo = 8, .lps_hi = 9, .lppb_lo = 1, .lppb_hi = 2,
	  .nb_extra = 3, .maxpages = 200, .ops_lo = 25000, .ops_hi = 40000,
	  .w_write = 60, .w_trim = 12, .w_copys = 6, .w_copyp = 2, .w_sync = 2,
	  .w_gc = 3, .w_burst = 3, .w_read = 1, .w_restart = 1,
	  .fill_lo = 30, .fill_hi = 90, .u_max = 24,
	  .factory_pm = 200, .special_pm = 60, .sweep_pm = 4 },
	/* only for replaying the known finding */
	{ .name = "copyphazard", .lps_lo = 8, .lps_hi = 9, .lppb_lo = 1,
	  .lppb_hi = 2, .nb_extra = 3, .maxpages = 200, .ops_lo = 20000,
	  .ops_hi = 20000, .w_write = 60, .w_trim = 12, .w_copyp = 10,
	  .w_gc = 3, .fill_lo = 60, .fill_hi = 90, .u_max = 24,
	  .copyp_hazard = 1, .sweep_pm = 4 },
	{ .name = "crash", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1, .lppb_hi = 5,
	  .nb_extra = 12, .maxpages = 1500, .ops_lo = 80, .ops_hi = 400,
	  .w_write = 50, .w_trim = 16, .w_copys = 8, .w_copyp = 4, .w_read = 1,
	  .w_sync = 6, .w_gc = 6, .w_clear = 2, .w_restart = 1, .w_burst = 4,
	  .fill_lo = 5, .fill_hi = 95, .u_max = 40,
	  .clone_pm = 350, .clone_max = 6, .adopt_pm = 15, .cont_pm = 60,
	  .factory_pm = 250, .special_pm = 100, .sweep_pm = 40 },
	{ .name = "crashlong", .lps_lo = 8, .lps_hi = 10, .lppb_lo = 1,
	  .lppb_hi = 4, .nb_extra = 6, .maxpages = 500,
	  .ops_lo = 800, .ops_hi = 3000,
	  .w_write = 60, .w_trim = 12, .w_copys = 8, .w_copyp = 4, .w_read = 1,
	  .w_sync = 2, .w_gc = 8, .w_burst = 6,
	  .fill_lo = 20, .fill_hi = 100, .u_max = 40,
	  .clone_pm = 60, .clone_max = 4, .adopt_pm = 15, .cont_pm = 40,
	  .factory_pm = 250, .special_pm = 60, .sweep_pm = 10 },
	{ .name = "fail", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1, .lppb_hi = 5,
	  .nb_extra = 40, .maxpages = 4000, .ops_lo = 200, .ops_hi = 1200,
	  BASEW, .fill_lo = 5, .fill_hi = 55, .u_max = 60,
	  .fail = 1, .factory_pm = 300, .special_pm = 80, .sweep_pm = 80 },
	{ .name = "failmany", .lps_lo = 8, .lps_hi = 10, .lppb_lo = 1,
	  .lppb_hi = 4, .nb_extra = 60, .maxpages = 2500,
	  .ops_lo = 300, .ops_hi = 1500,
	  BASEW, .fill_lo = 3, .fill_hi = 30, .u_max = 40,
	  .fail = 2, .factory_pm = 100, .special_pm = 80, .sweep_pm = 80 },
	{ .name = "failempty", .lps_lo = 8, .lps_hi = 10, .lppb_lo = 1,
	  .lppb_hi = 5, .nb_extra = 60, .maxpages = 2500,
	  .ops_lo = 200, .ops_hi = 800,
	  .w_write = 40, .w_trim = 40, .w_copys = 4, .w_copyp = 2,
	  .w_read = 2, .w_sync = 6, .w_gc = 30, .w_clear = 20, .w_restart = 3,
	  .w_burst = 1, .fill_lo = 1, .fill_hi = 3, .u_max = 6,
	  .fail = 2, .factory_pm = 100, .special_pm = 80, .sweep_pm = 80 },
	{ .name = "failshort", .lps_lo = 8, .lps_hi = 10, .lppb_lo = 2,
	  .lppb_hi = 5, .nb_extra = 60, .maxpages = 2500,
	  .ops_lo = 200, .ops_hi = 800,
	  .w_write = 60, .w_trim = 16, .w_copys = 4, .w_copyp = 2,
	  .w_read = 2, .w_sync = 4, .w_gc = 8, .w_clear = 12, .w_restart = 2,
	  .w_burst = 1, .fill_lo = 1, .fill_hi = 10, .u_max = 16,
	  .clone_pm = 100, .clone_max = 6, .adopt_pm = 20, .cont_pm = 60,
	  .fail = 1, .factory_pm = 100, .special_pm = 80, .sweep_pm = 40 },
	{ .name = "failcrash", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1,
	  .lppb_hi = 4, .nb_extra = 40, .maxpages = 2000,
	  .ops_lo = 100, .ops_hi = 500,
	  BASEW, .fill_lo = 3, .fill_hi = 40, .u_max = 40,
	  .clone_pm = 200, .clone_max = 6, .adopt_pm = 20, .cont_pm = 60,
	  .fail = 1, .factory_pm = 200, .special_pm = 80, .sweep_pm = 40 },
	{ .name = "full", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1, .lppb_hi = 5,
	  .nb_extra = 30, .maxpages = 3000, .ops_lo = 1500, .ops_hi = 6000,
	  .w_write = 60, .w_trim = 10, .w_copys = 8, .w_copyp = 4, .w_read = 1,
	  .w_sync = 3, .w_gc = 3, .w_burst = 3, .w_restart = 1,
	  .fill_lo = 103, .fill_hi = 110, .u_max = 2000, .full = 1,
	  .factory_pm = 400, .special_pm = 20, .sweep_pm = 2 },
	{ .name = "wear", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1, .lppb_hi = 5,
	  .nb_extra = 30, .maxpages = 1500, .ops_lo = 1000, .ops_hi = 5000,
	  .w_write = 60, .w_trim = 10, .w_copys = 8, .w_copyp = 4,
	  .w_sync = 4, .w_gc = 6, .w_burst = 3, .w_restart = 6, .w_clear = 1,
	  .fill_lo = 2, .fill_hi = 100, .u_max = 80, .wear = 1,
	  .factory_pm = 500, .special_pm = 20, .sweep_pm = 2 },
	{ .name = "wearfail", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1,
	  .lppb_hi = 5,
	  .nb_extra = 30, .maxpages = 1500, .ops_lo = 1000, .ops_hi = 4000,
	  .w_write = 60, .w_trim = 10, .w_copys = 8, .w_copyp = 4,
	  .w_sync = 4, .w_gc = 6, .w_burst = 3, .w_restart = 6,
	  .fill_lo = 2, .fill_hi = 50, .u_max = 80, .wear = 1, .fail = 1,
	  .factory_pm = 500, .special_pm = 20, .sweep_pm = 2 },
	{ .name = "wearcut", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1,
	  .lppb_hi = 5,
	  .nb_extra = 30, .maxpages = 1500, .ops_lo = 1000, .ops_hi = 4000,
	  .w_write = 60, .w_trim = 10, .w_copys = 8, .w_copyp = 4,
	  .w_sync = 4, .w_gc = 6, .w_burst = 3, .w_restart = 6,
	  .clone_pm = 10, .clone_max = 2, .adopt_pm = 200,
	  .fill_lo = 2, .fill_hi = 100, .u_max = 80, .wear = 1,
	  .factory_pm = 500, .special_pm = 20, .sweep_pm = 2, .notorn_pm = 900 },
	{ .name = "ecc", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1, .lppb_hi = 5,
	  .nb_extra = 20, .maxpages = 2500, .ops_lo = 150, .ops_hi = 900,
	  BASEW, .fill_lo = 3, .fill_hi = 105, .u_max = 60,
	  .ecc_pm = 350, .factory_pm = 300, .special_pm = 60, .sweep_pm = 60 },
	{ .name = "eachread", .lps_lo = 8, .lps_hi = 9, .lppb_lo = 1,
	  .lppb_hi = 4, .nb_extra = 20, .maxpages = 500, .ops_lo = 100,
	  .ops_hi = 600, BASEW, .fill_lo = 3, .fill_hi = 60, .u_max = 24,
	  .fail = 1, .ecc_pm = 30, .exh_pm = 25, .factory_pm = 200,
	  .special_pm = 60, .sweep_pm = 20 },
	{ .name = "eachfail", .lps_lo = 8, .lps_hi = 9, .lppb_lo = 1,
	  .lppb_hi = 4, .nb_extra = 20, .maxpages = 500, .ops_lo = 100,
	  .ops_hi = 600, BASEW, .fill_lo = 3, .fill_hi = 60, .u_max = 24,
	  .fail = 1, .exh_pm = 25, .factory_pm = 200,
	  .special_pm = 60, .sweep_pm = 20 },
	{ .name = "failecc", .lps_lo = 8, .lps_hi = 10, .lppb_lo = 1,
	  .lppb_hi = 5, .nb_extra = 30, .maxpages = 1500, .ops_lo = 300,
	  .ops_hi = 2500, BASEW, .fill_lo = 3, .fill_hi = 45, .u_max = 50,
	  .fail = 1, .ecc_pm = 300, .factory_pm = 300, .special_pm = 60,
	  .sweep_pm = 40 },
	{ .name = "chaos", .lps_lo = 8, .lps_hi = 10, .lppb_lo = 1,
	  .lppb_hi = 5, .nb_extra = 30, .maxpages = 1500, .ops_lo = 150,
	  .ops_hi = 900, BASEW, .fill_lo = 3, .fill_hi = 40, .u_max = 40,
	  .clone_pm = 120, .clone_max = 5, .adopt_pm = 30, .cont_pm = 60,
	  .fail = 1, .ecc_pm = 250, .factory_pm = 300, .special_pm = 80,
	  .imprecise_pm = 300, .sweep_pm = 40 },
	{ .name = "toobad", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1,
	  .lppb_hi = 5, .nb_extra = 20, .maxpages = 2500, .ops_lo = 300,
	  .ops_hi = 1500, .w_write = 50, .w_trim = 14, .w_copys = 8,
	  .w_copyp = 4, .w_read = 4, .w_sync = 5, .w_gc = 10, .w_clear = 1,
	  .w_burst = 3, .fill_lo = 3, .fill_hi = 50, .u_max = 60,
	  .toobad = 1, .sweep_pm = 40 },
	{ .name = "gc", .lps_lo = 8, .lps_hi = 12, .lppb_lo = 1, .lppb_hi = 6,
	  .nb_extra = 30, .maxpages = 4000, .ops_lo = 150, .ops_hi = 900,
	  .w_write = 40, .w_trim = 14, .w_copys = 8, .w_copyp = 4, .w_read = 1,
	  .w_sync = 4, .w_gc = 40, .w_clear = 1, .w_restart = 1, .w_burst = 2,
	  .fill_lo = 2, .fill_hi = 100, .u_max = 100, .gcconv_pm = 12,
	  .factory_pm = 300, .special_pm = 60, .sweep_pm = 150 },
	{ .name = "format", .lps_lo = 8, .lps_hi = 12, .lppb_lo = 1,
	  .lppb_hi = 6, .nb_extra = 20, .maxpages = 2500, .ops_lo = 150,
	  .ops_hi = 700, BASEW, .fill_lo = 2, .fill_hi = 100, .u_max = 60,
	  .format = 1, .factory_pm = 300, .special_pm = 100, .sweep_pm = 20 },
	{ .name = "imprecise", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1,
	  .lppb_hi = 5, .nb_extra = 20, .maxpages = 2000, .ops_lo = 100,
	  .ops_hi = 600, BASEW, .fill_lo = 3, .fill_hi = 95, .u_max = 40,
	  .clone_pm = 200, .clone_max = 5, .adopt_pm = 25, .cont_pm = 60,
	  .imprecise_pm = 1000, .factory_pm = 200, .special_pm = 550,
	  .sweep_pm = 60 },
	{ .name = "imprecisefail", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1,
	  .lppb_hi = 5, .nb_extra = 30, .maxpages = 2000, .ops_lo = 100,
	  .ops_hi = 600, BASEW, .fill_lo = 3, .fill_hi = 40, .u_max = 40,
	  .fail = 1, .imprecise_pm = 1000, .factory_pm = 200,
	  .special_pm = 550, .sweep_pm = 60 },
	{ .name = "cuts", .lps_lo = 8, .lps_hi = 11, .lppb_lo = 1, .lppb_hi = 4,
	  .nb_extra = 12, .maxpages = 1000, .ops_lo = 300, .ops_hi = 1500,
	  BASEW, .fill_lo = 3, .fill_hi = 90, .u_max = 40,
	  .clone_pm = 80, .clone_max = 3, .adopt_pm = 250, .cont_pm = 10,
	  .factory_pm = 200, .special_pm = 60, .sweep_pm = 40,
	  .notorn_pm = 700 },
	{ .name = "geom", .lps_lo = 11, .lps_hi = 16, .lppb_lo = 1,
	  .lppb_hi = 9, .nb_extra = 6, .maxpages = 12000, .ops_lo = 100,
	  .ops_hi = 700, BASEW, .fill_lo = 1, .fill_hi = 60, .u_max = 120,
	  .clone_pm = 10, .clone_max = 2, .adopt_pm = 100,
	  .factory_pm = 200, .special_pm = 100, .sweep_pm = 20 },
	/* pages so large that a block's metadata fits on one of them */
	{ .name = "bigpage", .lps_lo = 17, .lps_hi = 17, .lppb_lo = 9,
	  .lppb_hi = 9, .nb_extra = 6, .maxpages = 20000, .ops_lo = 700,
	  .ops_hi = 1000, .w_write = 90, .w_trim = 2, .w_read = 4,
	  .w_sync = 1, .w_gc = 1, .w_restart = 1, .fill_lo = 60,
	  .fill_hi = 90, .u_max = 700 },
	{ .name = NULL }
};

static const struct prof *P;

/* ---- one running instance ---------------------------------------------- */
struct sess {
	struct chip	*c;
	struct dhara_map *m;		/* own allocation: exact bounds */
	uint8_t		*pbuf;
	struct model	mod;
	int		dead;		/* ran into a known finding */
	int		resumed;	/* resume found a checkpoint */
};

struct clone {
	struct chip	*c;
	const char	*what;
	uint32_t	where;
	int		window;
	uint32_t	floorS, floorC;	/* as of the start of the call */
	int		ever, synced;
	struct dhara_map m;		/* as memory was at the cut */
};

#define MAX_CLONES 16

static struct sess S;
static struct vlog V;
static vf_rng *R;
static uint8_t gcr;
static struct clone clones[MAX_CLONES];
static int nclones, clone_limit, take_clones, notorn;
static uint32_t ncuts, nrestarts;
static int ever;		/* something has certainly been checkpointed */
static int was_synced;
static int in_doubt;		/* a call failed after a checkpoint had been
				 * refused that may be readable all the same:
				 * a cut may or may not bring its effect back */
static uint64_t n_ops;
static uint32_t too_bad_seq;	/* operations refused in a row */
static uint32_t lossy_pages;	/* documented group size minus one */

static uint64_t budget_of(const struct chip *c)
{
	return 200000 + 400ull * c->np;
}

static unsigned hist_classes(void)
{
	unsigned x = 0;

	if (ncuts)
		x |= O_PREFIX | O_OPERABLE;
	return x;
}

/* ---- starting an instance ------------------------------------------------ */
/* How memory looks when a map is resumed: */
enum {
	NEW_OBJ,	/* an object never used before, initialized */
	INIT_OBJ,	/* the object in use, initialized again */
	SAME_OBJ	/* the object in use (or a copy), as it is */
};

static int sess_start(struct sess *s, struct chip *c, int how,
		      const struct dhara_map *old)
{
	dhara_error_t err = 0;
	int rc;

	if (how == NEW_OBJ || !s->m || old) {
		vf_buf_free(s->pbuf);
		free(s->m);
		s->pbuf = vf_buf(c->psz);
		s->m = vf_alloc(sizeof(*s->m));
		vf_junk(s->m, sizeof(*s->m), R);
		if (old) {
			*s->m = *old;
			s->m->journal.nand = &c->n;
			s->m->journal.page_buf = s->pbuf;
		}
	}
	s->c = c;
	s->dead = 0;
	c->win_block = SIM_NONE;	/* a relocation ends with power */
	c->win_cps = 0;

	sim_begin(c, budget_of(c));
	if (how != SAME_OBJ)
		dhara_map_init(s->m, &c->n, s->pbuf, gcr);
	if (call_total(&c->call))
		vf_viol(O_START | O_COST, "init made %llu NAND accesses",
			(unsigned long long)call_total(&c->call));
	c->readonly = 1;
	chip_forget(s->c);
	rc = dhara_map_resume(s->m, vf_chance(R, 50) ? NULL : &err);
	c->readonly = 0;
	if (rc && rc != -1)
		vf_viol(O_START, "resume returns %d", rc);
	if (how == SAME_OBJ)
		vf_count("resumed_in_place", 1);
	vf_count("resumes", 1);
	s->resumed = rc >= 0;
	if (!c->nfail_seq)
		cost_resume(c);
	if (rc < 0 && dhara_map_size(s->m))
		vf_soft(O_START | O_SIZE, "resume failed but size is %u",
			dhara_map_size(s->m));
	if (rc < 0 && (dhara_journal_size(&s->m->journal) ||
		       dhara_journal_root(&s->m->journal) != DHARA_PAGE_NONE ||
		       dhara_journal_peek(&s->m->journal) != DHARA_PAGE_NONE ||
		       dhara_journal_in_recovery(&s->m->journal)))
		vf_soft(O_START, "resume failed but the journal is not empty: "
			"%u pages, root %u",
			dhara_journal_size(&s->m->journal),
			dhara_journal_root(&s->m->journal));
	if (!dhara_journal_is_clean(&s->m->journal))
		vf_soft(O_START, "journal not clean after resume");
	return rc;
}

/* ---- observing the whole content ------------------------------------------ */
static uint8_t rdbuf[1 << 18];

static uint32_t observe_sector(struct sess *s, uint32_t sec, unsigned extra)
{
	struct chip *c = s->c;
	dhara_error_t e1 = 0, e2 = 0;
	dhara_page_t loc = 0x12345678;
	uint8_t *buf = vf_buf(c->psz);
	const uint8_t *raw;
	uint32_t id;
	int r1, r2;

	sim_begin(c, budget_of(c));
	c->readonly = 2;
	r1 = dhara_map_find(s->m, sec, &loc, &e1);
	cost_find(c, sec, V.maxbits);
	sim_begin(c, budget_of(c));
	r2 = dhara_map_read(s->m, sec, buf, &e2);
	cost_read(c, sec, V.maxbits);
	c->readonly = 0;

	if (r1 < 0 && e1 != DHARA_E_NOT_FOUND) {
		vf_log("  find %08x -> error %d\n", sec, e1);
		vf_buf_free(buf);
		return ID_ERROR;
	}
	if (r2 < 0) {
		vf_log("  read %08x -> error %d\n", sec, e2);
		vf_buf_free(buf);
		return ID_ERROR;
	}
	if (r1 < 0) {
		if (!val_is_ff(buf, c->psz)) {
			memcpy(rdbuf, buf, c->psz);
			vf_buf_free(buf);
			vf_viol(O_CONTENT | extra, "sector %08x: not found but "
				"reads as something else than 0xff", sec);
		}
		vf_buf_free(buf);
		return 0;
	}
	if (loc >= c->np) {
		vf_buf_free(buf);
		vf_viol(O_CONTENT | extra, "sector %08x: found at page %u, out "
			"of range", sec, loc);
	}
	raw = chip_page(c, loc);
	if (!raw || memcmp(raw, buf, c->psz)) {
		vf_buf_free(buf);
		vf_viol(O_CONTENT | extra, "sector %08x: find says page %u but "
			"read returns different data", sec, loc);
	}
	id = val_lookup(buf, c->psz);
	vf_buf_free(buf);
	return id;
}

/* How many sectors are mapped, by reading them all? */
static uint32_t mapped_now(struct sess *s)
{
	uint32_t i, n = 0;

	for (i = 0; i < s->mod.U; i++) {
		dhara_page_t p;

		sim_begin(s->c, budget_of(s->c));
		n += dhara_map_find(s->m, V.sec[i], &p, NULL) >= 0;
	}
	return n;
}

/* Every page holding a sector stands in the queue between tail and head: one
 * outside will never be moved, and is destroyed when its block is reused. */
static void check_queued(struct sess *s, unsigned extra, const char *when)
{
	static uint8_t *mark;
	static uint32_t cap;
	struct chip *c = s->c;
	struct dhara_journal j = s->m->journal;
	uint8_t *buf;
	uint32_t i, n = 0;
	dhara_page_t p;

	if (c->np > 8192 || dhara_journal_in_recovery(&j))
		return;
	if (cap < c->np) {
		free(mark);
		cap = c->np;
		mark = vf_alloc(cap);
	}
	memset(mark, 0, c->np);
	buf = vf_buf(c->psz);
	memcpy(buf, s->pbuf, c->psz);
	j.page_buf = buf;
	sim_begin(c, 1ull << 40);
	c->readonly = 2;
	while ((p = dhara_journal_peek(&j)) != DHARA_PAGE_NONE) {
		if (p >= c->np || n++ > c->np + c->ppb)
			vf_viol(O_CONTENT | extra, "%s: the queue has no end "
				"(page %u)", when, p);
		mark[p] = 1;
		dhara_journal_dequeue(&j);
	}
	for (i = 0; i < s->mod.U; i++) {
		if (!s->mod.cur[i])
			continue;
		if (dhara_map_find(s->m, V.sec[i], &p, NULL) < 0 || p >= c->np)
			continue;	/* judged elsewhere */
		if (!mark[p])
			vf_soft(O_CONTENT | extra, "%s: sector %08x is held by "
				"page %u, which is not between tail and head: "
				"it will be overwritten", when, V.sec[i], p);
	}
	c->readonly = 0;
	vf_buf_free(buf);
	vf_count("queue_covers", 1);
	vf_count("queue_pages", n);
}

/* Compare everything with the model. Returns index of a bad sector or -1. */
static void sweep(struct sess *s, unsigned extra, const char *when)
{
	uint32_t i;

	vf_count("sweeps", 1);
	for (i = 0; i < s->mod.U; i++) {
		const uint32_t id = observe_sector(s, V.sec[i], extra);

		if (id != s->mod.cur[i]) {
			unsigned cl = O_CONTENT | extra;

			if (id == ID_ERROR)
				cl |= O_OPFAIL;
			if (ncuts && vlog_unchanged_since(&V, i, V.floorS) &&
			    was_synced)
				cl |= O_DURABLE;
			if (dhara_map_size(s->m) != mapped_now(s))
				cl |= O_SIZE;
			vf_viol(cl, "%s: sector %08x holds %s, expected %s",
				when, V.sec[i], val_name(id),
				val_name(s->mod.cur[i]));
		}
	}
	for (i = 0; i < 2; i++) {
		uint32_t x = (uint32_t)vf_next(R), k;

		if (i && s->mod.U)
			x = V.sec[vf_below(R, s->mod.U)] ^
				(1u << vf_below(R, 32));
		if (x == 0xffffffff || vlog_index(&V, x, &k))
			continue;
		if (observe_sector(s, x, extra))
			vf_viol(O_CONTENT | extra, "%s: never-written sector "
				"%08x is mapped", when, x);
	}
	if (vf_chance(R, 300))
		check_queued(s, extra, when);
	vf_count("sectors_checked", s->mod.U);
}

/* ---- power cuts ------------------------------------------------------------ */
static void add_clone(struct chip *c, const char *what, uint32_t where)
{
	clones[nclones].c = c;
	clones[nclones].what = what;
	clones[nclones].where = where;
	clones[nclones].floorS = V.floorS;
	clones[nclones].floorC = V.floorC;
	clones[nclones].ever = ever;
	clones[nclones].synced = was_synced;
	/* relocation of a partial group, with a checkpoint already written */
	clones[nclones].m = *S.m;
	clones[nclones].window = c->win_block != SIM_NONE && c->win_cps &&
		(c->win_slot & ((1u << c->log2_ppc) - 1));
	nclones++;
}

static void on_mutation(struct chip *c, int kind, uint32_t where, int fails)
{
	struct chip *k;
	int st;

	(void)fails;
	if (c->win_block == SIM_NONE)
		in_doubt = 0;
	if (in_doubt || !take_clones || nclones >= clone_limit ||
	    !vf_chance(R, P->clone_pm))
		return;
	k = chip_clone(c);
	switch (kind) {
	case MUT_PROG:
		st = vf_below(R, 3);
		if (st && notorn && !((where + 1) & ((1u << c->log2_ppc) - 1)))
			st = 0;
		if (!st) {
			add_clone(k, "cut before program of page", where);
		} else {
			chip_torn_prog(k, where);
			add_clone(k, "cut during program of page", where);
		}
		vf_count(st ? "cut_torn_prog" : "cut_before_prog", 1);
		break;
	case MUT_ERASE:
		st = vf_below(R, 5);
		if (!st) {
			add_clone(k, "cut before erase of block", where);
		} else {
			chip_torn_erase(k, where, st, R);
			add_clone(k, "cut during erase of block", where);
		}
		vf_count(st ? "cut_torn_erase" : "cut_before_erase", 1);
		break;
	default:
		add_clone(k, "cut before mark_bad of block", where);
		vf_count("cut_before_mark", 1);
		break;
	}
}

static void op_continue(struct sess *s);

/* Judge one clone; on success returns the matched version and leaves the
 * clone running in *s, its contents in s->mod. */
static uint32_t judge_clone(struct clone *k, struct sess *s)
{
	struct chip *c = k->c;
	uint32_t v, i, floor = P->fail ? k->floorS : k->floorC;
	int rc;

	if (k->window)
		vf_key = "midreloc";
	vf_count("cuts_judged", 1);
	vf_distinct2(vf_mix(c->trace, vf_mix(k->where, (uintptr_t)k->what)));
	vf_log("    judge clone: %s %u\n", k->what, k->where);
	if (vf_chance(R, 300))	/* a reset, with what memory held left in place */
		rc = sess_start(s, c, SAME_OBJ, &k->m);
	else
		rc = sess_start(s, c, NEW_OBJ, NULL);
	if (rc < 0 && k->ever)
		vf_viol(O_PREFIX | O_START | (k->synced ? O_DURABLE : 0),
			"%s %u: resume fails although a checkpoint was "
			"completed", k->what, k->where);
	for (i = 0; i < s->mod.U; i++)
		s->mod.cur[i] = observe_sector(s, V.sec[i], O_PREFIX);
	v = vlog_match(&V, s->mod.cur);
	if (v == VER_NONE || v < floor) {
		unsigned cl = O_PREFIX;
		int bad = vlog_lost_sector(&V, s->mod.cur, k->floorS);

		if (k->synced && (bad >= 0 || (v != VER_NONE && v < k->floorS)))
			cl |= O_DURABLE;
		if (dhara_map_size(s->m) != model_count(&s->mod))
			cl |= O_SIZE;
		if (v != VER_NONE)
			vf_viol(cl, "%s %u: state is version %u, but version %u "
				"was %s (now at %u)", k->what, k->where, v,
				floor, P->fail ? "synced" : "clean", V.ver);
		bad = bad >= 0 ? bad : vlog_mixed_sector(&V, s->mod.cur);
		vf_viol(cl, "%s %u: contents match no earlier state (e.g. "
			"sector %08x holds %s, latest %s; %s)", k->what,
			k->where, V.sec[bad], val_name(s->mod.cur[bad]),
			val_name(V.cur[bad]), (cl & O_DURABLE) ?
			"synced data lost" : "mixture");
	}
	s->mod.count = model_count(&s->mod);
	if (dhara_map_size(s->m) != s->mod.count)
		vf_soft(O_PREFIX | O_SIZE, "%s %u: size %u after resume, %u "
			"sectors mapped", k->what, k->where,
			dhara_map_size(s->m), s->mod.count);
	if (!P->fail && vlog_writes_since(&V, v) > lossy_pages)
		vf_viol(O_PREFIX, "%s %u: %u page-writing changes lost, group "
			"has %u user pages", k->what, k->where,
			vlog_writes_since(&V, v), lossy_pages);
	if (!k->window && vf_chance(R, 500))
		check_queued(s, O_PREFIX | O_OPERABLE, k->what);
	vf_max("max_versions_lost", V.ver - v);
	vf_count("versions_lost", V.ver - v);
	if (!k->window)
		vf_key = NULL;
	return v;
}

static void judge_all(void)
{
	volatile int i, adopted = 0;
	static struct sess T;

	if (!nclones)
		return;
	memset(&T, 0, sizeof(T));
	model_init(&T.mod, S.mod.U);
	take_clones = 0;
	for (i = 0; i < nclones; i++) {
		struct clone *const k = &clones[i];
		uint32_t v;

		if (adopted) {
			chip_free(k->c);
			continue;
		}
		if (k->window) {
			/* a known finding must not end the exploration */
			jmp_buf save;
			int failed;

			memcpy(&save, &vf_jmp, sizeof(save));
			failed = setjmp(vf_jmp);
			if (!failed)
				judge_clone(k, &T);
			memcpy(&vf_jmp, &save, sizeof(save));
			vf_key = NULL;
			chip_free(k->c);
			vf_count("cuts_in_reloc_window", 1);
			continue;
		}
		v = judge_clone(k, &T);
		vf_count("cuts_rolled_back", v != V.ver);
		if (vf_chance(R, P->adopt_pm)) {
			struct sess t = S;

			vf_log("  ADOPT clone at version %u (%s %u)\n", v,
			       k->what, k->where);
			chip_free(S.c);
			S = T;
			T = t;
			ever = k->ever || S.resumed;
			was_synced = k->synced;
			ncuts++;
			S.c->wear_slack++;
			S.c->hook = on_mutation;
			vlog_rebase(&V, S.mod.cur);
			adopted = 1;
			vf_count("cuts_adopted", 1);
			continue;
		}
		if (vf_chance(R, P->cont_pm)) {
			vf_count("cut_continuations", 1);
			op_continue(&T);
		}
		chip_free(k->c);
	}
	nclones = 0;
	take_clones = 1;
	vf_buf_free(T.pbuf);
	free(T.m);
	model_free(&T.mod);
}

/* ---- operations ------------------------------------------------------------ */
static dhara_error_t op_err;

static uint32_t force_ecc, force_len;	/* of the next call */

static void op_begin(struct sess *s, int is_main)
{
	sim_begin(s->c, budget_of(s->c));
	op_err = DHARA_E_NONE;
	take_clones = is_main && P->clone_pm;
	if (force_ecc) {
		s->c->ecc_in = force_ecc;
		s->c->ecc_len = force_len;
		s->c->ecc_fired = 0;
		force_ecc = 0;
	} else if (is_main && P->ecc_pm && vf_chance(R, P->ecc_pm)) {
		s->c->ecc_in = 1 + vf_below(R, vf_chance(R, 500) ? 4 : 40);
		s->c->ecc_len = !vf_chance(R, 300) ? 1 : vf_chance(R, 200) ?
			~0u : 1 + vf_below(R, 3);
		s->c->ecc_fired = 0;
	}
	s->c->ecc_organic = 0;
	if (!s->c->ecc_in)
		s->c->ecc_fired = 0;
}

/* an error that no legitimate cause explains */
static void op_unexpected(struct sess *s, const char *name, uint32_t sec)
{
	struct chip *c = s->c;
	unsigned cl = O_OPFAIL | hist_classes();

	if (op_err == DHARA_E_JOURNAL_FULL || op_err == DHARA_E_MAP_FULL)
		cl |= O_FULL;
	if (op_err == DHARA_E_ECC && c->ecc_organic &&
	    (c->ecc_flags & (PF_TORN | PF_STRANDED)) &&
	    !((c->ecc_page + 1) & ((1u << c->log2_ppc) - 1))) {
		/* see known findings: half-written checkpoint page reached by
		 * garbage collection */
		vf_key = "torn-cp";
		vf_note_viol(O_OPERABLE, "%s(%08x) fails with E_ECC "
			     "reading checkpoint page %u, half-written "
			     "when power was cut",
			     name, sec, c->ecc_page);
		vf_key = NULL;
		vf_count("stopped_at_torn_checkpoint", 1);
		s->dead = 1;
		return;
	}
	vf_viol(cl, "%s(%08x) fails with error %d (size %u, capacity %u, "
		"ecc page %u flags %x)", name, sec, op_err,
		dhara_map_size(s->m), dhara_map_capacity(s->m), c->ecc_page,
		c->ecc_flags);
}

static uint32_t doc_capacity(int lps, int lppb, uint32_t nb, uint32_t bad,
			     uint32_t ratio)
{
	const int l = doc_log2_ppc(lps, lppb);
	const int64_t cps = ((int64_t)nb - bad - 1) << (lppb - l);
	const int64_t user = (cps << l) - cps;
	const int64_t cap = user - user / (ratio + 1) - (8 << lppb);

	return cap > 0 ? (uint32_t)cap : 0;
}

/* The capacity follows the bad blocks: it never counts on ones which were
 * known when the head last came round, and none is written off twice. */
static void check_capacity(struct sess *s, const char *name)
{
	const struct chip *c = s->c;
	const uint32_t r = gcr ? gcr : 1;
	const uint32_t cap = dhara_map_capacity(s->m);
	const int lps = c->n.log2_page_size, lppb = c->n.log2_ppb;
	uint32_t bad = chip_known_bad(c, 0, 1), hi, lo;

	if (bad < c->nb >> 6)
		bad = c->nb >> 6;
	lo = doc_capacity(lps, lppb, c->nb, bad, r);
	if (cap + 1 < lo)
		vf_soft(O_FULL, "capacity %u after %s, documented share is at "
			"least %u (%u blocks bad)", cap, name, lo, bad);
	bad = c->pass_bad;
	if (c->laps && bad < c->lap_bad)
		bad = c->lap_bad;
	hi = doc_capacity(lps, lppb, c->nb, bad, r);
	if (cap > hi + 1)
		vf_soft(O_FULL, "capacity %u after %s, but only %u can be held "
			"beside the %u blocks known to be bad", cap, name, hi,
			bad);
	vf_count("capacity_bounds", 1);
}

static void after_op(struct sess *s, const char *name)
{
	struct chip *c = s->c;
	uint64_t t = call_total(&c->call);
	uint32_t sz;

	c->ecc_in = 0;
	sz = dhara_map_size(s->m);
	check_capacity(s, name);
	if (call_total(&c->call) != t)
		vf_soft(O_COST, "size/capacity accessed the NAND");
	if (sz != s->mod.count)
		vf_soft(O_SIZE | (ncuts ? O_PREFIX : 0),
			"size is %u after %s, %u sectors are mapped",
			sz, name, s->mod.count);
}

/* Set the model (and the version log, on the main instance) */
static void commit(struct sess *s, uint32_t i, uint32_t id, int is_main)
{
	model_set(&s->mod, i, id);
	if (is_main)
		vlog_set(&V, i, id);
}

static void note_clean(struct sess *s, int is_main)
{
	if (!is_main)
		return;
	if (dhara_journal_is_clean(&s->m->journal) && !P->fail) {
		V.floorC = V.ver;
		if (V.ver)
			ever = 1;
	}
}

static void check_atomic(struct sess *s, const char *name);

/* Result of a mutating call.
 * returns 1: took effect, 0: legitimately refused/failed without effect,
 * -1: session is dead, 2: failed because of an injected ECC error */
static int op_result(struct sess *s, const char *name, uint32_t sec, int rc,
		     int full_ok)
{
	struct chip *c = s->c;
	int fired = c->ecc_fired && P->ecc_pm;

	c->ecc_in = 0;
	vf_log("  %s %08x -> %d err %d\n", name, sec, rc, rc < 0 ? op_err : 0);
	if (rc && rc != -1)
		vf_viol(O_OPFAIL | O_ERRATOM, "%s(%08x) returns %d, neither 0 "
			"nor -1", name, sec, rc);
	if (rc < 0) {
		if (fired) {
			vf_count("ecc_faults_reported", 1);
			if (op_err != DHARA_E_ECC)
				vf_viol(O_ERRATOM, "%s(%08x) hit an uncorrectable "
					"read but reports error %d", name, sec,
					op_err);
			return 2;
		}
		if (P->toobad && op_err == DHARA_E_TOO_BAD &&
		    c->call.bad_seen + c->call.prog_fail +
		    c->call.erase_fail >= 8) {
			vf_count("too_bad_answers", 1);
			too_bad_seq = c->call.prog ? 0 : too_bad_seq + 1;
			if (too_bad_seq > c->nb / 8 + 1 && c->fail_legible) {
				/* a block failed in front of the wall: what
				 * it holds can't be moved past it */
				check_atomic(s, name);
				vf_count("stuck_at_the_wall", 1);
				s->dead = 1;
				return 0;
			}
			if (too_bad_seq > c->nb / 8 + 1)
				vf_viol(O_ERRATOM, "%s keeps failing: too many "
					"bad blocks", name);
			return 2;
		}
		if (op_err == DHARA_E_MAP_FULL && full_ok) {
			vf_count("map_full_answers", 1);
			return 0;
		}
		op_unexpected(s, name, sec);
		return -1;
	}
	too_bad_seq = 0;
	return 1;
}

/* After an injected failure: nothing may have changed. */
static void check_atomic(struct sess *s, const char *name)
{
	uint32_t i;

	if (dhara_map_size(s->m) != s->mod.count)
		vf_soft(O_ERRATOM | O_SIZE, "failed %s changed size to %u from "
			"%u", name, dhara_map_size(s->m), s->mod.count);
	for (i = 0; i < s->mod.U; i++) {
		uint32_t id = observe_sector(s, V.sec[i], O_ERRATOM);

		if (id != s->mod.cur[i])
			vf_viol(O_ERRATOM, "failed %s changed sector %08x: %s, "
				"was %s", name, V.sec[i], val_name(id),
				val_name(s->mod.cur[i]));
	}
}

static dhara_error_t *errp(void)
{
	return &op_err;
}

/* Can one call's automatic gc push the head all the way round the free space
 * (at least the documented margin of 8 blocks)? */
static int copyp_hazard(const struct chip *c)
{
	const uint32_t upb = c->ppb - (c->ppb >> c->log2_ppc);

	return gcr + 2u >= 6 * upb;
}

static void op_sync(struct sess *s, int is_main);
static int op_gc(struct sess *s, int is_main);
static void op_clear(struct sess *s, int is_main);

enum { K_WRITE, K_COPYS, K_COPYP, K_TRIM };
static const char *const kname[] = { "write", "copy_sector", "copy_page",
				     "trim" };

static void op_mutate(struct sess *s, int is_main, int kind, uint32_t i,
		      uint32_t src)
{
	struct chip *c = s->c;
	const uint32_t sec = V.sec[i];
	const uint32_t cap0 = dhara_map_capacity(s->m);
	const uint32_t n0 = s->mod.count;
	uint32_t id = 0, cap1, capmin, capmax;
	dhara_page_t loc = 0;
	int rc = 0, res, adding, tries = 0;
	uint32_t er0;

	switch (kind) {
	case K_WRITE:
		id = val_pick(R, c, P->special_pm);
		break;
	case K_COPYS:
		id = s->mod.cur[src];
		break;
	case K_COPYP:
		/* the source's block may fail, and be marked bad, during the
		 * call, which goes on to copy the page it was given */
		if (c->mark_wipes) {
			kind = K_COPYS;
			id = s->mod.cur[src];
			break;
		}
		/* see known findings; that case is replayed separately */
		if (copyp_hazard(c) && !P->copyp_hazard)
			return;
		id = s->mod.cur[src];
		sim_begin(c, budget_of(c));
		if (dhara_map_find(s->m, V.sec[src], &loc, NULL) < 0)
			return;
		break;
	default:
		break;
	}
	adding = id && !s->mod.cur[i];
again:
	er0 = c->blk[loc / c->ppb].erases;
	op_begin(s, is_main);
	switch (kind) {
	case K_WRITE: {
		uint8_t *buf = vf_buf(c->psz);

		memcpy(buf, val_data(id), c->psz);
		rc = dhara_map_write(s->m, sec, buf, errp());
		if (memcmp(buf, val_data(id), c->psz))
			vf_viol(O_INPUT, "write modified the caller's buffer");
		vf_buf_free(buf);
		break; }
	case K_COPYS:
		rc = dhara_map_copy_sector(s->m, V.sec[src], sec, errp());
		break;
	case K_COPYP:
		rc = dhara_map_copy_page(s->m, loc, sec, errp());
		break;
	case K_TRIM:
		rc = dhara_map_trim(s->m, sec, errp());
		break;
	}
	cost_write(c, gcr, V.maxbits);
	cap1 = dhara_map_capacity(s->m);
	capmin = cap0 < cap1 ? cap0 : cap1;
	capmax = cap0 > cap1 ? cap0 : cap1;
	res = op_result(s, kname[kind], sec, rc,
			adding && n0 >= capmin);
	if (res < 0) {
		/* a known finding: what it was about to do may have been done
		 * by a checkpoint that failed but can be read, so cuts in this
		 * call can't be judged */
		if (is_main)
			while (nclones)
				chip_free(clones[--nclones].c);
		return;
	}
	if (res == 2) {
		if (is_main && c->call.prog_fail) {
			in_doubt = 1;
			while (nclones)
				chip_free(clones[--nclones].c);
		}
		judge_all();
		if (s->c != c)
			return;		/* a cut was adopted */
		check_atomic(s, kname[kind]);
		note_clean(s, is_main);
		if (kind == K_COPYP &&
		    dhara_map_find(s->m, V.sec[src], &loc, NULL) < 0)
			vf_viol(O_ERRATOM, "source vanished");
		if (!s->dead && vf_chance(R, 250) &&
		    dhara_journal_in_recovery(&s->m->journal)) {
			/* the next call to take the recovery up again is
			 * another one */
			vf_count("recovery_left_to_another_call", 1);
			if (vf_chance(R, 150)) {
				op_clear(s, is_main);
				if (P->fail && vf_chance(R, 700))
					c->fail_prog_in = 1 + vf_below(R, 4);
			} else if (vf_chance(R, 500))
				op_sync(s, is_main);
			else
				op_gc(s, is_main);
			return;
		}
		if (tries++ < 3 || P->toobad)
			goto again;
		return;
	}
	if (res == 1 && kind == K_COPYP && copyp_hazard(c) &&
	    c->blk[loc / c->ppb].erases != er0) {
		/* see known findings: the call's own garbage collection
		 * erased the source page */
		vf_key = "copy-page-gc";
		vf_note_viol(O_CONTENT, "copy_page erased its source page %u "
			     "before copying it (gc_ratio %u)", loc, gcr);
		vf_key = NULL;
		vf_count("stopped_at_copy_page_gc", 1);
		s->dead = 1;
		return;
	}
	if (res == 1) {
		if (adding && n0 >= capmax)
			vf_viol(O_FULL, "%s(%08x) accepted a new sector with "
				"%u mapped and capacity %u", kname[kind], sec,
				n0, capmax);
		if (id || s->mod.cur[i]) {
			/* removing the last sector writes no page */
			if (is_main)
				vlog_begin(&V, id || n0 > 1);
			commit(s, i, id, is_main);
		}
	}
	after_op(s, kname[kind]);
	note_clean(s, is_main);
	vf_count(kname[kind], 1);
}

static void op_sync(struct sess *s, int is_main)
{
	int rc, res;

	do {
		const int clean = dhara_journal_is_clean(&s->m->journal) &&
			!dhara_journal_in_recovery(&s->m->journal);

		op_begin(s, is_main);
		rc = dhara_map_sync(s->m, errp());
		if (clean && call_total(&s->c->call))
			vf_soft(O_COST, "sync of a clean map makes %llu NAND "
				"accesses", (unsigned long long)
				call_total(&s->c->call));
		res = op_result(s, "sync", 0, rc, 0);
		if (res == 2) {
			judge_all();
			check_atomic(s, "sync");
		}
	} while (res == 2);
	if (res < 0 || s->dead)
		return;
	if (!dhara_journal_is_clean(&s->m->journal))
		vf_viol(O_DURABLE, "journal not clean after a successful sync");
	if (is_main) {
		V.floorS = V.floorC = V.ver;
		was_synced = 1;
		if (V.ver)
			ever = 1;
	}
	after_op(s, "sync");
	vf_count("sync", 1);
}

static int op_gc(struct sess *s, int is_main)
{
	int rc, res;

	op_begin(s, is_main);
	rc = dhara_map_gc(s->m, errp());
	cost_gc(s->c, V.maxbits);
	res = op_result(s, "gc", 0, rc, 0);
	if (res < 0)
		return -1;
	if (res == 2) {
		judge_all();
		check_atomic(s, "gc");
	}
	after_op(s, "gc");
	note_clean(s, is_main);
	vf_count("gc", 1);
	return res == 2;
}

static void op_clear(struct sess *s, int is_main)
{
	uint32_t i;

	op_begin(s, is_main);
	dhara_map_clear(s->m);
	if (call_total(&s->c->call))
		vf_soft(O_COST, "clear accessed the NAND");
	vf_log("  clear\n");
	if (s->mod.count) {
		if (is_main)
			vlog_begin(&V, 0);
		for (i = 0; i < s->mod.U; i++)
			if (s->mod.cur[i])
				commit(s, i, 0, is_main);
	}
	after_op(s, "clear");
	note_clean(s, is_main);
	vf_count("clear", 1);
}

static void op_read(struct sess *s)
{
	uint32_t i = vf_below(R, s->mod.U), id;
	uint8_t *buf = vf_buf(s->c->psz);
	int rc;

	op_begin(s, P->ecc_pm != 0 && s == &S);
	rc = dhara_map_read(s->m, V.sec[i], buf, errp());
	if (rc < 0 && s->c->ecc_fired && P->ecc_pm) {
		s->c->ecc_in = 0;
		vf_count("ecc_faults_reported", 1);
		if (op_err != DHARA_E_ECC)
			vf_viol(O_ERRATOM, "read(%08x) hit an uncorrectable "
				"page but reports %d", V.sec[i], op_err);
		check_atomic(s, "read");
		vf_buf_free(buf);
		return;
	}
	s->c->ecc_in = 0;
	if (rc < 0)
		op_unexpected(s, "read", V.sec[i]);
	id = s->mod.cur[i];
	if (id ? memcmp(buf, val_data(id), s->c->psz) != 0 :
	    !val_is_ff(buf, s->c->psz))
		vf_viol(O_CONTENT | hist_classes() |
			(P->ecc_pm ? O_ERRATOM : 0), "read(%08x) returns "
			"wrong data", V.sec[i]);
	vf_buf_free(buf);
	vf_count("read", 1);
}

/* clean shutdown and restart */
static void op_restart(struct sess *s, int is_main)
{
	int k = 1 + vf_below(R, 3);
	uint32_t cap;

	op_sync(s, is_main);
	if (s->dead)
		return;
	if (vf_chance(R, 300))
		op_sync(s, is_main);
	cap = dhara_map_capacity(s->m);
	if (is_main && P->ecc_pm && vf_chance(R, 500)) {
		/* a resume which meets unreadable pages does no harm */
		s->c->ecc_in = 1 + vf_below(R, 10);
		s->c->ecc_len = 1 + vf_below(R, vf_chance(R, 300) ? 100 : 3);
		s->c->ecc_fired = 0;
		sess_start(s, s->c, vf_below(R, 3), NULL);
		s->c->ecc_in = 0;
		vf_count("ecc_faults_in_resume", s->c->ecc_fired);
	}
	while (k--) {
		if (sess_start(s, s->c, vf_below(R, 3), NULL) < 0 &&
		    s->mod.count)
			vf_viol(O_START | O_CONTENT | O_DURABLE, "resume fails "
				"after a clean shutdown (size was %u)",
				s->mod.count);
		vf_log("  restart\n");
		if (dhara_map_size(s->m) != s->mod.count)
			vf_soft(O_SIZE | O_START | O_DURABLE, "size %u after "
				"clean restart, was %u", dhara_map_size(s->m),
				s->mod.count);
		if (s->resumed && dhara_map_capacity(s->m) != cap)
			vf_soft(O_START | O_FULL, "capacity %u after clean "
				"restart, was %u", dhara_map_capacity(s->m),
				cap);
		nrestarts++;
	}
	sweep(s, O_START | O_DURABLE, "after clean restart");
	vf_count("restart", 1);
}

/* A short life on a clone after a cut */
static void op_continue(struct sess *s)
{
	int n = 1 + vf_below(R, 24), i;

	for (i = 0; i < n && !s->dead; i++) {
		uint32_t a = vf_below(R, s->mod.U), b = vf_below(R, s->mod.U);

		switch (vf_below(R, 8)) {
		case 0: op_mutate(s, 0, K_TRIM, a, b); break;
		case 1: op_mutate(s, 0, K_COPYS, a, b); break;
		case 2: op_gc(s, 0); break;
		case 3: if (vf_chance(R, 300)) op_sync(s, 0); break;
		default: op_mutate(s, 0, K_WRITE, a, b); break;
		}
	}
	if (s->dead)
		return;
	sweep(s, O_PREFIX | O_OPERABLE, "continuing after a cut");
	op_restart(s, 0);
}

/* gc convergence (C12) */
static void gc_converge(struct sess *s)
{
	uint32_t i, n, sz0, sz1, slack;
	const uint32_t ppc = 1u << s->c->log2_ppc;

	if (!s->mod.count)
		return;
	sz0 = dhara_journal_size(&s->m->journal);
	n = sz0 + 2 * ppc;
	for (i = 0; i < n; i++)
		if (op_gc(s, 1) < 0)
			return;
	if (s->dead)
		return;
	sz1 = dhara_journal_size(&s->m->journal);
	/* pages in bad blocks between tail and head count as journal length */
	slack = 4 * ppc + s->c->nbroken * s->c->ppb + s->c->ppb;
	if (sz1 > s->mod.count + slack)
		vf_soft(O_GC, "after %u gc steps the journal still holds %u "
			"pages (was %u) for %u live sectors", n, sz1, sz0,
			s->mod.count);
	sweep(s, O_GC, "after gc to convergence");
	vf_count("gc_convergences", 1);
	vf_count("gc_garbage_removed", sz0 > sz1 ? sz0 - sz1 : 0);
}

/* ---- fault plan ------------------------------------------------------------ */
static void arm_faults(struct chip *c)
{
	uint32_t i;

	if (!P->fail)
		return;
	if (P->fail == 1) {
		if (!c->fail_prog_in && vf_chance(R, 12))
			c->fail_prog_in = 1 + vf_below(R, 3 * c->ppb);
		if (!c->fail_erase_in && vf_chance(R, 4))
			c->fail_erase_in = 1 + vf_below(R, 3);
		return;
	}
	/* many: several adjacent blocks each with its own bomb */
	if (vf_chance(R, 12)) {
		const int tight = vf_chance(R, 250);
		uint32_t n = 1 + vf_below(R, tight ? 7 : 4);
		uint32_t b = vf_chance(R, 300) ? (S.m->journal.head >>
			c->n.log2_ppb) % c->nb : vf_below(R, c->nb);

		for (i = 0; i < n; i++) {
			struct sblock *k = &c->blk[(b + i) % c->nb];

			if (!k->bad && !k->failed)
				k->bomb = 1 + vf_below(R, tight && i ? 2 :
						       c->ppb + 2);
		}
	}
	if (!c->fail_prog_in && vf_chance(R, 25))
		c->fail_prog_in = 1 + vf_below(R, 2 * c->ppb);
}

/* ---- every read of a call fails, one after another ------------------------- */
enum { K_SYNC = 16, K_GC };

static void one_call(struct sess *s, int kind, uint32_t i, uint32_t src)
{
	if (kind == K_SYNC)
		op_sync(s, 0);
	else if (kind == K_GC)
		op_gc(s, 0);
	else
		op_mutate(s, 0, kind, i, src);
}

/* a second instance in the state of the first */
static void fork_sess(struct sess *T, const struct sess *s)
{
	struct chip *const c = chip_clone(s->c);

	memcpy(c->pf, s->c->pf, c->np);	/* no cut */
	memset(T, 0, sizeof(*T));
	T->c = c;
	T->m = vf_alloc(sizeof(*T->m));
	*T->m = *s->m;
	T->pbuf = vf_buf(c->psz);
	memcpy(T->pbuf, s->pbuf, c->psz);
	T->m->journal.nand = &c->n;
	T->m->journal.page_buf = T->pbuf;
	T->resumed = s->resumed;
	model_init(&T->mod, s->mod.U);
	memcpy(T->mod.cur, s->mod.cur, s->mod.U * sizeof(T->mod.cur[0]));
	T->mod.count = s->mod.count;
}

static void end_fork(struct sess *T)
{
	vf_buf_free(T->pbuf);
	free(T->m);
	model_free(&T->mod);
	chip_free(T->c);
}

static void each_one(struct sess *s, int kind, uint32_t i, uint32_t src)
{
	static const char *const what[] = { "read", "program", "erase" };
	const int mode = P->ecc_pm ? 0 : vf_chance(R, 700) ? 1 : 2;
	struct sess T;
	uint32_t k, n = 0, step = 1;

	/* the first round only counts */
	for (k = 0; k <= n; k += step) {
		struct chip *c;

		fork_sess(&T, s);
		c = T.c;
		vf_log("  { %s %u of the call fails:\n", what[mode], k);
		if (k && !mode) {
			force_ecc = k;
			force_len = vf_chance(R, 800) ? 1 :
				1 + vf_below(R, 3);
		} else if (k) {
			c->max_bad += 2;
			*(mode == 1 ? &c->fail_prog_in : &c->fail_erase_in) = k;
			if (vf_chance(R, 400))
				c->fail_again_in = 1 + vf_below(R, c->ppb + 2);
		} else if (mode) {
			c->fail_prog_in = c->fail_erase_in = 0;
		}
		one_call(&T, kind, i, src);
		force_ecc = 0;
		if (!k) {
			n = !mode ? c->total.read + c->total.copy :
				mode == 1 ? c->total.prog + c->total.copy :
				c->total.erase;
			if (n > 400)
				n = 400;
			if (n > 48)
				step = 1 + vf_below(R, 1 + n / 16);
		} else if (!T.dead) {
			vf_count(mode == 0 ? "reads_failed_one_by_one" :
				 mode == 1 ? "programs_failed_one_by_one" :
				 "erases_failed_one_by_one", 1);
			sweep(&T, mode ? O_CONTENT : O_ERRATOM | O_CONTENT,
			      "after one failed");
			if (T.dead)
				;
			else if (mode && vf_chance(R, 600))
				op_continue(&T);
			else if (vf_chance(R, 400))
				op_restart(&T, 0);
		}
		vf_log("  }\n");
		end_fork(&T);
	}
	vf_count("calls_with_each_access_failing", 1);
}

/* ---- a case ---------------------------------------------------------------- */
static void setup_case(uint64_t n)
{
	int lps, lppb, gr;
	uint32_t nb, bad = 0, soft = 0, cap, U, i;
	struct chip *c;

	vf_buf_free(S.pbuf);
	free(S.m);
	model_free(&S.mod);
	memset(&S, 0, sizeof(S));
	chip_free_all();
	val_reset();
	vlog_reset(&V);
	nclones = 0;
	ncuts = nrestarts = 0;
	ever = was_synced = in_doubt = 0;
	n_ops = 0;
	notorn = vf_chance(R, P->notorn_pm);

	lps = vf_range(R, P->lps_lo, P->lps_hi);
	do {
		lppb = vf_range(R, P->lppb_lo, P->lppb_hi);
		gr = vf_chance(R, 500) ? (int)vf_below(R, 9) :
			(int)(1u << vf_below(R, 8)) + (int)vf_below(R, 3) - 1;
		if (gr > 255)
			gr = 255;
		if (P->toobad)
			gr %= 5;
		gcr = gr;
		nb = 10;
		while (doc_capacity(lps, lppb, nb, (nb >> 6) + 4,
				    gr ? gr : 1) < 10)
			nb++;
	} while ((nb << lppb) > (uint32_t)P->maxpages);
	nb += vf_below(R, P->nb_extra + 1);
	if (P->fail)
		nb += 6;
	if (P->toobad)
		nb += 24;
	if (vf_chance(R, 30) && !P->full)
		nb = 60 + vf_below(R, 80);	/* initial bad estimate > 0 */

	c = chip_new(lps, lppb, nb);
	vf_log("chip 2^%d bytes, 2^%d pages, %u blocks, ratio %d\n", lps, lppb,
	       nb, gr);
	c->imprecise = vf_chance(R, P->imprecise_pm ? P->imprecise_pm : 60);
	c->scribble = vf_chance(R, 500);
	c->fail_style = vf_below(R, 4);
	c->fault_seed = (uint32_t)vf_next(R);
	c->mark_wipes = P->fail && vf_mix(c->fault_seed, 77) % 5 < 2 &&
		!P->toobad;
	c->check_wear = P->wear;
	c->max_bad = nb;
	c->tracing = P->clone_pm != 0;
	if (vf_chance(R, P->factory_pm)) {
		/* within the margin the library plans for */
		uint32_t want = vf_below(R, (nb >> 6) + 3);

		if (vf_chance(R, 300))
			want = 2;
		c->max_run = vf_range(R, 1, 4);
		for (i = 0; i < want; i++) {
			uint32_t b = vf_chance(R, 300) ? vf_below(R, 3) :
				vf_chance(R, 300) ? nb - 1 - vf_below(R, 3) :
				vf_below(R, nb);

			if (chip_may_break(c, b))
				chip_factory_bad(c, b);
		}
	}
	if (!P->full && nb >= 20 && vf_chance(R, P->factory_pm / 4)) {
		/* as many in a row as the library looks past */
		uint32_t b = vf_below(R, nb), k = vf_range(R, 5, 7);

		c->max_run = 7;
		c->max_win = 7;
		while (k--) {
			if (chip_may_break(c, b))
				chip_factory_bad(c, b);
			b = (b + 1) % nb;
		}
		c->max_win = 6;
	}
	if (P->toobad) {
		/* more than it looks past */
		uint32_t k = vf_range(R, 8, 20), b = 8 + vf_below(R, nb - 28);

		/* some of it shows only when it is used */
		const uint32_t soft_pm = vf_chance(R, 500) ? 0 :
			vf_chance(R, 500) ? 1000 : vf_below(R, 1001);
		const int bomb_max = vf_chance(R, 300) ? 1 :
			vf_chance(R, 300) ? 0 : 2 + vf_below(R, c->ppb);

		for (; k--; b++)
			if (vf_chance(R, soft_pm)) {
				c->blk[b].bomb = bomb_max ?
					1 + vf_below(R, bomb_max) : 2;
				soft++;
			} else {
				chip_factory_bad(c, b);
			}
		too_bad_seq = 0;
	}
	bad = c->nbroken;
	c->max_run = vf_chance(R, 300) ? 7 : 5;
	c->max_win = c->max_run == 7 ? 7 : 6;
	/* how many blocks may break in service */
	if (P->fail == 1)
		c->max_bad = bad + 2 + nb / 16;
	else if (P->fail == 2)
		c->max_bad = bad + 4 + nb / 6;
	else
		c->max_bad = bad + soft;
	if (soft) {
		c->max_run = c->max_win = nb;
		/* the tail may stop in the wall and look at what is there */
		c->fail_legible = 1;
	}
	/* (gigabytes of garbage are too many) */
	chip_virgin(c, P->toobad || vf_chance(R, 500) ||
		    ((uint64_t)c->np << lps) > 1ull << 30 ? 0 :
		    1 + vf_below(R, 3), R);
	val_init(c->psz);
	lossy_pages = (1u << c->log2_ppc) - 1;

	vf_log("case %llu: page %u ppb %u blocks %u gc_ratio %u bad %u "
	       "imprecise %d fail style %d\n", (unsigned long long)n, c->psz,
	       c->ppb, nb, gcr, bad, c->imprecise, c->fail_style);
	if (sess_start(&S, c, NEW_OBJ, NULL) == 0)
		vf_viol(O_START, "resume of an unused chip succeeds");
	cap = dhara_map_capacity(S.m);
	{
		uint32_t est = nb >> 6, lo;

		lo = doc_capacity(lps, lppb, nb, est > bad ? est : bad,
				  gcr ? gcr : 1);
		if (cap + 1 < lo)
			vf_viol(O_FULL, "capacity %u, documented share is at "
				"least %u", cap, lo);
	}
	if (P->toobad)
		cap = doc_capacity(lps, lppb, nb, bad + soft + 6,
				   gcr ? gcr : 1);
	U = cap * vf_range(R, P->fill_lo, P->fill_hi) / 100;
	if (P->full)
		U += 3;
	if (P->fail) {
		/* leave room for every block that may break */
		const uint32_t rest = doc_capacity(lps, lppb, nb,
			c->max_bad + 6, gcr ? gcr : 1);

		if (U > rest)
			U = rest;
	}
	if (U > (uint32_t)P->u_max)
		U = P->u_max - vf_below(R, P->u_max / 2);
	if (U < 3)
		U = 3;
	vlog_init(&V, U, R);
	model_init(&S.mod, U);
	c->hook = on_mutation;
	clone_limit = P->clone_max < MAX_CLONES ? P->clone_max : MAX_CLONES;
	vf_distinct(vf_mix(vf_mix(lps * 64 + lppb, nb), vf_mix(gcr, U)) ^ n);
	if (n % 97 == 0)
		vf_sample("case %llu profile %s: %u-byte pages, %u pages/block, "
			  "%u blocks (%u factory bad), gc_ratio %u, universe "
			  "%u sectors starting %08x, capacity %u",
			  (unsigned long long)n, P->name, c->psz, c->ppb, nb,
			  bad, gcr, U, V.sec[0], cap);
}

static uint32_t hot(uint32_t U, int mode)
{
	switch (mode) {
	case 0: return vf_below(R, U);
	case 1: return vf_chance(R, 800) ? vf_below(R, (U + 3) / 4) :
		vf_below(R, U);
	case 2: return n_ops % U;
	default: return U - 1 - (n_ops % U);
	}
}

static void run_case(vf_rng *r, uint64_t n)
{
	uint32_t nops, mode, wtot, i;

	R = r;
	setup_case(n);
	mode = vf_below(R, 4);
	nops = vf_range(R, P->ops_lo, P->ops_hi);
	wtot = P->w_write + P->w_trim + P->w_copys + P->w_copyp + P->w_read +
		P->w_sync + P->w_gc + P->w_clear + P->w_restart + P->w_burst;

	if (P->full) {
		/* fill to the brim first */
		for (i = 0; i < S.mod.U && !S.dead; i++) {
			op_mutate(&S, 1, K_WRITE, i, 0);
			n_ops++;
		}
	}
	for (; n_ops < nops && !S.dead; n_ops++) {
		int w = vf_below(R, wtot);
		const uint32_t a = hot(S.mod.U, mode);
		const uint32_t b = vf_below(R, S.mod.U);

		if (vf_chance(R, 5))
			mode = vf_below(R, 4);
		arm_faults(S.c);
		if (P->exh_pm && vf_chance(R, P->exh_pm)) {
			static const uint8_t kinds[] = { K_WRITE, K_WRITE,
				K_TRIM, K_COPYS, K_SYNC, K_GC };
			const uint32_t keep = S.c->fail_prog_in;

			if (P->ecc_pm && vf_chance(R, 700))
				S.c->fail_prog_in = 1 +
					vf_below(R, vf_chance(R, 500) ? 2 : 6);
			each_one(&S, kinds[vf_below(R, sizeof(kinds))], a, b);
			if (vf_chance(R, 500))
				S.c->fail_prog_in = keep;
		}
		if ((w -= P->w_write) < 0) {
			op_mutate(&S, 1, K_WRITE, a, 0);
		} else if ((w -= P->w_trim) < 0) {
			op_mutate(&S, 1, K_TRIM, vf_chance(R, 500) ? a : b, 0);
		} else if ((w -= P->w_copys) < 0) {
			op_mutate(&S, 1, K_COPYS, a, b);
		} else if ((w -= P->w_copyp) < 0) {
			if (S.mod.cur[b])
				op_mutate(&S, 1, K_COPYP, a, b);
		} else if ((w -= P->w_read) < 0) {
			op_read(&S);
		} else if ((w -= P->w_sync) < 0) {
			op_sync(&S, 1);
		} else if ((w -= P->w_gc) < 0) {
			op_gc(&S, 1);
		} else if ((w -= P->w_clear) < 0) {
			if (vf_chance(R, 300))
				op_clear(&S, 1);
		} else if ((w -= P->w_restart) < 0) {
			op_restart(&S, 1);
		} else {
			/* burst of rewrites of one sector, or of trims */
			int k = vf_below(R, 40), trims = vf_chance(R, 150);

			while (k-- && !S.dead) {
				op_mutate(&S, 1, trims ? K_TRIM : K_WRITE,
					  trims ? vf_below(R, S.mod.U) : a, 0);
				judge_all();
			}
		}
		judge_all();
		if (S.dead)
			break;
		if (P->clone_pm && !in_doubt &&
		    vf_chance(R, P->clone_pm / 3)) {
			add_clone(chip_clone(S.c), "cut while idle", 0);
			judge_all();
		}
		if (P->gcconv_pm && vf_chance(R, P->gcconv_pm))
			gc_converge(&S);
		if (P->format && dhara_journal_is_clean(&S.m->journal) && ever)
			fmt_check(S.c, &S.mod, V.sec, 0);
		if (vf_chance(R, P->sweep_pm))
			sweep(&S, hist_classes(), "sweep");
	}
	vf_count("ops", n_ops);
	vf_count("nand_programs", S.c->total.prog + S.c->total.copy);
	vf_count("nand_erases", S.c->total.erase);
	vf_count("block_failures", S.c->nfail_seq);
	vf_max("max_erase_count", S.c->max_erase);
	if (!S.dead) {
		sweep(&S, hist_classes(), "final sweep");
		if (!P->toobad)
			op_restart(&S, 1);
	}
	vf_buf_free(S.pbuf);
	free(S.m);
	S.pbuf = NULL;
	S.m = NULL;
	chip_free_all();
}

int main(int argc, char **argv)
{
	struct vf_opts o;

	vf_parse(argc, argv, &o);
	for (P = profs; P->name; P++)
		if (!strcmp(P->name, o.profile))
			break;
	if (!P->name)
		vf_die("no such profile: %s", o.profile);
	vf_run_cases(&o, run_case);
	vf_finish(&o);
	return 0;
}
