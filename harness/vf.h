/* Shared plumbing of the monitors: PRNG, violation reporting, case control. */
#ifndef VF_H_
#define VF_H_

#include <stdint.h>
#include <stddef.h>
#include <setjmp.h>

/* ---- PRNG (splitmix64), one stream per case -------------------------- */
typedef struct { uint64_t s; } vf_rng;

static inline uint64_t vf_next(vf_rng *r)
{
	uint64_t z = (r->s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

/* uniform in [0, n) */
static inline uint32_t vf_below(vf_rng *r, uint32_t n)
{
	return n ? (uint32_t)((vf_next(r) >> 16) % n) : 0;
}

static inline uint32_t vf_range(vf_rng *r, uint32_t lo, uint32_t hi)
{
	return lo + vf_below(r, hi - lo + 1);
}

/* true with probability pm/1000 */
static inline int vf_chance(vf_rng *r, uint32_t pm)
{
	return vf_below(r, 1000) < pm;
}

static inline uint64_t vf_mix(uint64_t a, uint64_t b)
{
	vf_rng r = { a ^ (b * 0xff51afd7ed558ccdull) ^ (b >> 31) };
	return vf_next(&r);
}

/* ---- oracle classes ----------------------------------------------------
 * Each oracle reports under one or more of these classes; check.py knows
 * which classes decide which property.
 */
enum {
	O_CONTENT	= 1 << 0,	/* wrong data / mapping through the API */
	O_OPFAIL	= 1 << 1,	/* an operation failed that had to succeed */
	O_PREFIX	= 1 << 2,	/* state after a cut is no prefix state / too old */
	O_DURABLE	= 1 << 3,	/* something synchronized was lost */
	O_PROTOCOL	= 1 << 4,	/* NAND driver contract */
	O_STUCK		= 1 << 5,	/* a call made no progress (step budget) */
	O_WEAR		= 1 << 6,
	O_COST		= 1 << 7,
	O_SIZE		= 1 << 8,
	O_START		= 1 << 9,	/* startup not pure / repeatable / wrong result */
	O_GC		= 1 << 10,
	O_ERRATOM	= 1 << 11,	/* failed op changed something / wrong error */
	O_FORMAT	= 1 << 12,
	O_FULL		= 1 << 13,	/* capacity promise */
	O_QUEUE		= 1 << 14,	/* journal queue semantics */
	O_SPACE		= 1 << 15,	/* journal space accounting */
	O_RECOV		= 1 << 16,	/* journal assisted recovery */
	O_INPUT		= 1 << 17,	/* caller's buffer modified */
	O_ECC		= 1 << 18,
	O_OPERABLE	= 1 << 19,	/* wedged after power cuts */
	O_INDEP		= 1 << 20,
	O_MISC		= 1 << 21
};

extern uint64_t vf_seed;
extern uint64_t vf_case;		/* case number being run */
extern int vf_verbose;
extern __thread jmp_buf vf_jmp;		/* case abort */
extern __thread int vf_jmp_ok;
extern uint64_t vf_nviol;
extern const char *vf_key;		/* finding key: set when the current
					 * situation is one a known finding
					 * describes */

/* Classes that whatever is violated now is counted under as well. */
extern unsigned vf_also;

/* Report a violation and abandon the case. */
void vf_viol(unsigned classes, const char *fmt, ...)
	__attribute__((format(printf, 2, 3), noreturn));
/* Report a violation but carry on. */
void vf_note_viol(unsigned classes, const char *fmt, ...)
	__attribute__((format(printf, 2, 3)));
/* Report a violation. Abandon the case if it decides the property at hand
 * (vf_opts.mask); otherwise carry on, as what follows from it may well. */
void vf_soft(unsigned classes, const char *fmt, ...)
	__attribute__((format(printf, 2, 3)));
void vf_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

/* Internal harness failure: exits with status 3. */
void vf_die(const char *fmt, ...)
	__attribute__((format(printf, 1, 2), noreturn));

/* ---- case loop ---------------------------------------------------------- */
struct vf_opts {
	const char *profile;
	uint64_t seed;
	uint64_t from, to;
	int verbose;
	const char *out;	/* stats/hashes prefix */
	const char *arg;	/* free-form extra */
	const char *classes;	/* which decide the property (all, if NULL) */
};
void vf_parse(int argc, char **argv, struct vf_opts *o);

/* Run fn for each case; catches vf_viol. CPU watchdog per case. */
void vf_run_cases(const struct vf_opts *o, void (*fn)(vf_rng *r, uint64_t n));

/* ---- statistics ------------------------------------------------------ */
void vf_count(const char *name, uint64_t add);	/* additive counters */
void vf_max(const char *name, uint64_t v);	/* maxima */
void vf_distinct(uint64_t hash);		/* distinct non-trivial cases */
void vf_distinct2(uint64_t hash);		/* a second notion of state */
void vf_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vf_finish(const struct vf_opts *o);
void *vf_alloc(size_t n);
/* A buffer of exactly n bytes (ending where the allocation ends), at an
 * address of any alignment, its content undefined. */
void *vf_buf(size_t n);
void vf_buf_free(void *p);
/* Make memory undefined: garbage, and known as such to MSan. */
void vf_junk(void *p, size_t n, vf_rng *r);
void vf_poison(void *p, size_t n, int fill);
/* The library passes these bytes on: they must be defined. */
void vf_defined(const void *p, size_t n);

#endif
