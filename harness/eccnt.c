/* Exports of the table-free build: its inline functions, too. */
#include "gf13.h"

gf13_elem_t vfnt_mul(gf13_elem_t a, gf13_elem_t b);
gf13_elem_t vfnt_div(gf13_elem_t a, gf13_elem_t b);
gf13_elem_t vfnt_mulx(gf13_elem_t a);
gf13_elem_t vfnt_divx(gf13_elem_t a);

gf13_elem_t vfnt_mul(gf13_elem_t a, gf13_elem_t b)
{
	return gf13_mul(a, b);
}

gf13_elem_t vfnt_div(gf13_elem_t a, gf13_elem_t b)
{
	return gf13_div(a, b);
}

gf13_elem_t vfnt_mulx(gf13_elem_t a)
{
	return gf13_mulx(a);
}

gf13_elem_t vfnt_divx(gf13_elem_t a)
{
	return gf13_divx(a);
}
