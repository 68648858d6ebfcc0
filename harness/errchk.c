/* dhara_strerror for every documented code and for arbitrary integers. */
#include <stdio.h>
#include <string.h>
#include <limits.h>
#include "vf.h"
#include "error.h"

/* the documented codes, by name: renumbering them is not our business */
static const dhara_error_t codes[] = {
	DHARA_E_NONE, DHARA_E_BAD_BLOCK, DHARA_E_ECC, DHARA_E_TOO_BAD,
	DHARA_E_RECOVER, DHARA_E_JOURNAL_FULL, DHARA_E_NOT_FOUND,
	DHARA_E_MAP_FULL, DHARA_E_CORRUPT_MAP
};
#define NCODES (sizeof(codes) / sizeof(codes[0]))

static char seen[NCODES][200], generic[200];

static const char *ask(long v)
{
	volatile int iv = (int)v;
	const char *s = dhara_strerror((dhara_error_t)iv);

	vf_count("messages", 1);
	if (!s)
		vf_viol(O_MISC, "error value %ld has no message", v);
	if (!*s || strlen(s) >= sizeof(generic))
		vf_viol(O_MISC, "error value %ld has an unusable message", v);
	return s;
}

static int documented(long v)
{
	size_t i;

	for (i = 0; i < NCODES; i++)
		if ((long)codes[i] == v)
			return 1;
	return 0;
}

static void check(long v)
{
	const char *s = ask(v);

	vf_distinct((uint64_t)v);
	vf_distinct2((uint64_t)v);
	if (documented(v)) {
		size_t i;

		for (i = 0; i < NCODES; i++)
			if ((long)codes[i] == v && strcmp(s, seen[i]))
				vf_viol(O_MISC, "message of %ld is not stable", v);
	} else if (strcmp(s, generic)) {
		vf_viol(O_MISC, "error value %ld yields '%s', not '%s'", v, s,
			generic);
	}
}

static void one(vf_rng *r, uint64_t n)
{
	size_t i, j;
	long v;

	/* whatever is no code yields the same generic message */
	strcpy(generic, ask(123456789));
	for (i = 0; i < NCODES; i++) {
		strcpy(seen[i], ask(codes[i]));
		if (!strcmp(seen[i], generic))
			vf_viol(O_MISC, "code %d has no message of its own",
				codes[i]);
		for (j = 0; j < i; j++)
			if (codes[i] == codes[j])
				vf_viol(O_MISC, "two codes have value %d",
					codes[i]);
			else if (!strcmp(seen[i], seen[j]))
				vf_viol(O_MISC, "codes %d and %d share '%s'",
					codes[i], codes[j], seen[i]);
	}
	switch (n % 4) {
	case 0:
		for (v = -70000; v <= 70000; v++)
			check(v);
		break;
	case 1:
		for (v = 0; v < 32; v++) {
			check((int)(1u << v));
			check((int)((1u << v) - 1));
			check((int)~(1u << v));
			check((int)((1u << v) + 1 + vf_below(r, 10)));
			check((int)(0u - (1u << v)));
		}
		check(INT_MAX);
		check(INT_MIN);
		check(INT_MIN + 1);
		break;
	default:
		for (i = 0; i < 200000; i++)
			check((int)(uint32_t)(vf_next(r) >> 16));
	}
	if (n < 1)
		vf_sample("%zu documented codes, generic message '%s'", NCODES,
			  generic);
}

int main(int argc, char **argv)
{
	struct vf_opts o;

	vf_parse(argc, argv, &o);
	vf_run_cases(&o, one);
	vf_finish(&o);
	return 0;
}
