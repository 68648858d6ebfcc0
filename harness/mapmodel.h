/* Reference model: values, contents, versions; cost bounds; flash decoder. */
#ifndef MAPMODEL_H_
#define MAPMODEL_H_

#include "vf.h"
#include "sim.h"

#define ID_ERROR	0xffffffffu
#define ID_UNKNOWN	0xfffffffeu
#define VER_NONE	0xffffffffu

/* ---- page values: id 0 = unmapped, 1 = all 0xff, 2 = all 0x00, ... */
void val_reset(void);
void val_init(uint32_t psz);
uint32_t val_pick(vf_rng *r, struct chip *c, int special_pm);
const uint8_t *val_data(uint32_t id);
uint32_t val_lookup(const uint8_t *d, uint32_t psz);
int val_is_ff(const uint8_t *d, uint32_t psz);
const char *val_name(uint32_t id);

/* ---- contents ------------------------------------------------------------ */
struct model {
	uint32_t	U, count;
	uint32_t	*cur;
};
void model_init(struct model *m, uint32_t U);
void model_free(struct model *m);
void model_set(struct model *m, uint32_t i, uint32_t id);
uint32_t model_count(const struct model *m);

/* ---- version log of the main instance -------------------------------------- */
struct delta { uint32_t ver, i, old, nw; };
struct vlog {
	uint32_t	U;
	uint32_t	*sec;		/* the universe of sectors */
	int		maxbits;	/* positions in which sectors differ */
	uint32_t	*cur;
	uint32_t	ver;
	struct delta	*d;
	uint32_t	nd, cap;
	uint32_t	*wr;		/* page-writing changes up to version */
	uint32_t	wcap;
	uint32_t	floorS, floorC;
};
void vlog_reset(struct vlog *v);
void vlog_init(struct vlog *v, uint32_t U, vf_rng *r);
void vlog_begin(struct vlog *v, int writes_page);
void vlog_set(struct vlog *v, uint32_t i, uint32_t id);
void vlog_rebase(struct vlog *v, const uint32_t *cur);
/* latest version whose contents are ids, or VER_NONE */
uint32_t vlog_match(struct vlog *v, const uint32_t *ids);
/* index of a sector whose content is none it had since version f, or -1 */
int vlog_lost_sector(struct vlog *v, const uint32_t *ids, uint32_t f);
/* any sector that differs from the latest state (for messages) */
int vlog_mixed_sector(struct vlog *v, const uint32_t *ids);
int vlog_unchanged_since(const struct vlog *v, uint32_t i, uint32_t f);
uint32_t vlog_writes_since(const struct vlog *v, uint32_t ver);
int vlog_index(const struct vlog *v, uint32_t sec, uint32_t *i);

/* ---- cost bounds (class COST) ------------------------------------------- */
void cost_find(struct chip *c, uint32_t sec, int bits);
void cost_read(struct chip *c, uint32_t sec, int bits);
void cost_gc(struct chip *c, int bits);
void cost_write(struct chip *c, int gcr, int bits);
void cost_resume(struct chip *c);

/* ---- independent decoder (class FORMAT) --------------------------------- */
void fmt_check(struct chip *c, const struct model *m, const uint32_t *sec,
	       int flags);

#endif
