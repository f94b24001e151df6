/* the helper macros of futils.h as a user compiles them */
#include <stddef.h>
#include <string.h>
#include <futils/futils.h>
#include "macroprobe.h"
#define F(name, T) T name(int op, volatile T *a, volatile T *m, volatile T *M) \
{ \
	switch (op) { \
	case MP_MIN: return FUTILS_MIN(*a, *m); \
	case MP_MAX: return FUTILS_MAX(*a, *m); \
	default: return FUTILS_BOUND(*a, *m, *M); \
	} \
}
F(mp_i32, int32_t)
F(mp_u32, uint32_t)
F(mp_i64, int64_t)
F(mp_u64, uint64_t)
F(mp_dbl, double)
F(mp_i8, int8_t)
F(mp_u16, uint16_t)
int64_t mp_call(int op, int64_t (*f)(int, void *), void *arg)
{
	switch (op) {
	case MP_MIN: return FUTILS_MIN(f(0, arg), f(1, arg));
	case MP_MAX: return FUTILS_MAX(f(0, arg), f(1, arg));
	default: return FUTILS_BOUND(f(0, arg), f(1, arg), f(2, arg));
	}
}
/* operand i has range class r: see call30m */
#define V(T, i) ((T)f(i, arg))
long double mp_mixed(int k, int64_t (*f)(int, void *), void *arg)
{
	switch (k) {
	case 0: return FUTILS_MIN(V(int32_t, 0), V(int64_t, 1));
	case 1: return FUTILS_MIN(V(int64_t, 0), V(int32_t, 1));
	case 2: return FUTILS_MAX(V(int8_t, 0), V(int64_t, 1));
	case 3: return FUTILS_MAX(V(int64_t, 0), V(int8_t, 1));
	case 4: return FUTILS_MIN(V(int32_t, 0), (double)V(int32_t, 1) / 4);
	case 5: return FUTILS_MAX((double)V(int32_t, 0) / 4, V(int32_t, 1));
	case 6: return FUTILS_MIN((float)V(int8_t, 0) / 4, (double)V(int32_t, 1) / 4);
	case 7: return FUTILS_MAX(V(uint8_t, 0), V(int64_t, 1));
	case 8: return FUTILS_MIN(V(uint16_t, 0), V(int32_t, 1));
	case 9: return FUTILS_MAX(V(uint32_t, 0), V(int64_t, 1));
	case 10: return FUTILS_BOUND(V(int64_t, 0), V(int32_t, 1), V(int32_t, 2));
	case 11: return FUTILS_BOUND(V(int32_t, 0), V(int64_t, 1), V(int64_t, 2));
	case 12: return FUTILS_BOUND(V(int8_t, 0), V(int32_t, 1), V(int64_t, 2));
	case 13: return FUTILS_BOUND((double)V(int32_t, 0) / 4, V(int32_t, 1), V(int32_t, 2));
	case 14: return FUTILS_BOUND(V(int32_t, 0), (double)V(int32_t, 1) / 4, V(int8_t, 2));
	default: return FUTILS_BOUND(V(int64_t, 0), V(int8_t, 1), V(uint32_t, 2));
	}
}
#define MP_NUM 42
struct mp_s { char c; double d; int16_t a[7]; };
int mp_const(unsigned k)
{
	int16_t one[1], many[1000];
	struct mp_s s[3], *p = s;
	char two[4][5];
	double dd = 1.5;
	(void)one; (void)many; (void)two; (void)dd;
	if (FUTILS_SIZEOF_ARRAY(one) != 1 || FUTILS_SIZEOF_ARRAY(many) != 1000 || FUTILS_SIZEOF_ARRAY(s) != 3)
		return 1;
	if (FUTILS_SIZEOF_ARRAY(p[k % 3].a) != 7 || FUTILS_SIZEOF_ARRAY(two) != 4 || FUTILS_SIZEOF_ARRAY(two[0]) != 5)
		return 2;
	if (SIZEOF_ARRAY(many) != 1000 || sizeof(SIZEOF_ARRAY(many)) != sizeof(size_t))
		return 3;
	if (strcmp(FUTILS_TOSTRING(MP_NUM), "42") || strcmp(FUTILS_STRINGIFY(MP_NUM), "MP_NUM") || strcmp(FUTILS_TOSTRING(a b), "a b"))
		return 4;
	if (FUTILS_CONTAINER_OF(&s[k % 3].d, struct mp_s, d) != &s[k % 3] || FUTILS_CONTAINER_OF(&p[1].a, struct mp_s, a) != &s[1])
		return 5;
	TYPEOF_STRUCT_MEMBER(struct mp_s, d) x = 1.25;
	if (sizeof(TYPEOF_STRUCT_MEMBER(struct mp_s, a)) != sizeof(s[0].a) || x != 1.25)
		return 6;
	if (FUTILS_MIN(1, 2) + FUTILS_MAX(3, 4) * 2 != 9 || FUTILS_BOUND(7 & 3, 1 + 1, 8 >> 1) != 3 || -FUTILS_MIN(1, 2) != -1)
		return 7;
	/* nested: inner names must not capture the outer ones */
	if (FUTILS_BOUND(FUTILS_BOUND(5, 1, 3), FUTILS_MIN(2, 9), FUTILS_MAX(4, 6)) != 3 || FUTILS_MAX(FUTILS_MIN(8, 5), FUTILS_MIN(4, 6)) != 5)
		return 8;
	if (sizeof(FUTILS_MIN(s[0].a[0], 1LL)) != sizeof(long long) || sizeof(FUTILS_MAX(1, 1.0)) != sizeof(double) || sizeof(FUTILS_BOUND(1, 2, 3LL)) != sizeof(long long))
		return 11;
	if (MIN(2, 3) != 2 || MAX(2, 3) != 3 || BOUND(5, 1, 3) != 3)
		return 9;
	{
		int lo = -1, hi = 1;
		const int v = (int)(k % 7) - 3;
		int want = v < lo ? lo : v > hi ? hi : v;
		if (FUTILS_BOUND(v, lo, hi) != want || FUTILS_BOUND(v, lo, lo) != lo)
			return 10;
	}
	return 0;
}
