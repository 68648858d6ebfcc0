/* Monitored NAND simulator: environment and protocol monitor in one. */
#ifndef SIM_H_
#define SIM_H_

#include "vf.h"
#include "nand.h"

/* An immutable, reference-counted page image. */
struct pagebuf {
	uint32_t	ref;
	uint8_t		d[];
};

enum {
	PF_TORN		= 0x01,	/* program cut by power loss: unreadable */
	PF_UNREADABLE	= 0x02,	/* uncorrectable for any other reason */
	PF_FAILED	= 0x04,	/* program reported failure on this page */
	PF_STRANDED	= 0x08	/* it failed, and power was cut before the block
				 * was relocated and marked bad */
};

struct sblock {
	uint8_t		bad;		/* marked bad */
	uint8_t		factory;	/* was bad from the start */
	uint8_t		failed;		/* physically broken: ops fail */
	uint8_t		reported;	/* a failure was reported to the library:
					 * 1, or 2 if before it last resumed */
	uint8_t		noerase;	/* state unknown: must be erased first */
	uint16_t	next;		/* next programmable page index */
	uint32_t	erases;		/* successful erases + attempts */
	uint32_t	bomb;		/* breaks after this many more ops (0: never) */
};

struct counters {
	uint64_t	is_bad, mark_bad, erase, prog, is_free, read, copy;
	uint64_t	read_bytes;
	uint64_t	erase_fail, prog_fail, ecc_err, bad_seen;
};

struct chip;

enum { MUT_PROG, MUT_ERASE, MUT_MARK };

typedef void (*mut_hook)(struct chip *c, int kind, uint32_t where,
			 int will_fail);

struct chip {
	struct dhara_nand	n;		/* must be first */

	uint32_t		ppb, nb, np, psz;
	int			log2_ppc;	/* documented group size */
	struct pagebuf		**pg;		/* NULL: reads as 0xff */
	uint8_t			*pf;		/* PF_* */
	struct sblock		*blk;

	/* driver character */
	uint8_t			imprecise;	/* is_free == "all 0xff" */
	uint8_t			scribble;	/* garbage in buffer on E_ECC */
	uint8_t			readonly;	/* any mutation is a violation */

	/* fault plan */
	uint8_t			fail_style;	/* content of failed pages */
	uint8_t			mark_wipes;	/* marking a block destroys it */
	uint8_t			fail_legible;	/* it reads without error */
	uint32_t		fail_prog_in;	/* n-th next program breaks its block */
	uint32_t		fail_again_in;	/* and this many later */
	uint32_t		fail_erase_in;
	uint32_t		max_bad;	/* share limit for breaking */
	uint32_t		max_run;	/* adjacency limit */
	uint32_t		max_win;	/* limit in any eight blocks */
	uint32_t		nbroken;
	uint32_t		ecc_in;		/* n-th next read/copy is uncorrectable */
	uint32_t		ecc_len;	/* how many in a row */
	uint64_t		ecc_fired;
	uint32_t		ecc_page;	/* page of last E_ECC returned */
	uint8_t			ecc_flags;	/* its PF_ flags */
	uint64_t		ecc_organic;	/* E_ECC not injected */
	uint32_t		fault_seed;

	/* relocation window (see DESIGN): a block failed mid-block and has
	 * not been marked bad yet */
	uint32_t		win_block;	/* or NONE */
	uint32_t		win_slot;	/* page index in block that failed */
	uint32_t		win_cps;	/* checkpoint programs since */
	uint64_t		nfail_seq;	/* failures so far */

	/* the ring: where the head last was, and how many blocks were known
	 * to be unusable when it last came round the end of the chip and
	 * completed a checkpoint */
	uint32_t		last_erase;	/* or NONE */
	uint32_t		laps, lap_bad, lap_bad_next;
	uint32_t		pass_bad;	/* passed at the last checkpoint */
	uint8_t			lap_pending;

	/* counters: whole life and since sim_begin() */
	struct counters		total, call;
	uint64_t		steps, budget;
	uint64_t		trace;		/* hash of all calls and results */
	uint8_t			tracing;

	/* monitors */
	mut_hook		hook;
	void			*hook_arg;
	void			(*yield)(struct chip *c);	/* at every access */
	uint8_t			check_wear;
	uint32_t		wear_slack;
	uint32_t		max_erase;

	struct chip		*next_all;
};

#define SIM_NONE 0xffffffffu

struct chip *chip_new(int lps, int lppb, uint32_t nb);
struct chip *chip_clone(const struct chip *c);
void chip_free(struct chip *c);
void chip_free_all(void);		/* everything left by the last case */

/* Give all blocks a virgin content: 0 erased, 1 unreadable, 2 random data,
 * 3 mixture */
void chip_virgin(struct chip *c, int style, vf_rng *r);

void chip_factory_bad(struct chip *c, uint32_t b);
/* May block b break without exceeding the limits? */
int chip_may_break(const struct chip *c, uint32_t b);
/* Apply a torn program / torn erase to a clone */
void chip_torn_prog(struct chip *c, uint32_t p);
void chip_torn_erase(struct chip *c, uint32_t b, int style, vf_rng *r);

void chip_same_page(struct chip *c, uint32_t p, uint32_t as);
void chip_set_page(struct chip *c, uint32_t p, const uint8_t *data);
const uint8_t *chip_page(const struct chip *c, uint32_t p);	/* NULL if unreadable */

/* from this block on: marked, or seen failing since the library resumed (all:
 * or before) */
uint32_t chip_known_bad(const struct chip *c, uint32_t from, int all);
void chip_forget(struct chip *c);	/* the library resumes */

void sim_begin(struct chip *c, uint64_t budget);

int doc_log2_ppc(int lps, int lppb);
static inline uint64_t call_total(const struct counters *k)
{
	return k->is_bad + k->mark_bad + k->erase + k->prog + k->is_free +
		k->read + k->copy;
}

#endif
