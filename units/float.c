/* The stored form of floats: float.c, for all 2^32 bit patterns */
#include "vp.h"
#include <math.h>
#ifndef VP_NATIVE
/* the C library by contract, for the arguments that occur; any other is an error */
static float vp_pow2(int e) {
	union { uint32_t u; float f; } x;
	vp_assert(e >= -126 && e <= 127, "a power of two that is a normal float");
	x.u = (uint32_t)(e + 127) << 23;
	return x.f;
}
static float vp_powf(float b, float x) {
	vp_assert(b == -1.0f || b == 2.0f, "powers of -1 and 2");
	if (b == -1.0f) { vp_assert(x == 0.0f || x == 1.0f, "exponent of -1 is 0 or 1"); return x == 0.0f ? 1.0f : -1.0f; }
	vp_assert(x >= -126.0f && x <= 127.0f && x == (float)(int)x, "integral exponent of 2");
	return vp_pow2((int)x);
}
static int vp_lead(uint32_t m) { int n = 0; for (int i = 0; i < 23; i++) if (m >> i) n = i; return n; }
static double vp_frexp(double d, int *e) {
	union { uint64_t u; double f; } x;
	x.f = d;
	int ex = (int)((x.u >> 52) & 0x7FF);
	if (ex == 0) { vp_assert((x.u << 1) == 0, "frexp of a float"); *e = 0; return d; }
	vp_assert(ex != 0x7FF, "frexp of a finite number");
	*e = ex - 1022;
	x.u = (x.u & 0x800FFFFFFFFFFFFFull) | (1022ull << 52);
	return x.f;
}
static float vp_frexpf(float f, int *e) { return (float)vp_frexp(f, e); }
static float vp_ldexpf(float f, int e) {
	vp_assert(e >= -252 && e <= 254, "exponent of ldexp");
	if (e > 127) return f * vp_pow2(127) * vp_pow2(e - 127);
	if (e < -126) return f * vp_pow2(-126) * vp_pow2(e + 126); /* not exact if the first product is subnormal and inexact: it never is for the numbers here */
	return f * vp_pow2(e);
}
static double vp_ldexp(double f, int e) { union { uint64_t u; double d; } x; vp_assert(e > -1000 && e < 1000, "exponent of ldexp"); x.u = (uint64_t)(e + 1023) << 52; return f * x.d; }
static int vp_class(float f) {
	union { uint32_t u; float f; } x; x.f = f;
	uint32_t e = (x.u >> 23) & 255, m = x.u & 0x7FFFFF;
	return e == 255 ? (m ? FP_NAN : FP_INFINITE) : e == 0 ? (m ? FP_SUBNORMAL : FP_ZERO) : FP_NORMAL;
}
static double vp_pow(double b, double x) { return (double)vp_powf((float)b, (float)x); }
#define powf vp_powf
#define pow vp_pow
#define frexp vp_frexp
#define frexpf vp_frexpf
#define ldexpf vp_ldexpf
#define ldexp vp_ldexp
#define scalbnf vp_ldexpf
#define exp2f(x) vp_powf(2.0f, (x))
#undef fpclassify
#define fpclassify vp_class
#endif
#include "/repo/float.c"

static bool same_bytes(fiftyoneDegreesFloatInternal a, fiftyoneDegreesFloatInternal b) {
	return a.value[0] == b.value[0] && a.value[1] == b.value[1] && a.value[2] == b.value[2] && a.value[3] == b.value[3];
}
static float as_float(fiftyoneDegreesFloatInternal v) {
	union { uint32_t u; float f; } x;
	x.u = (uint32_t)v.value[0] | (uint32_t)v.value[1] << 8 | (uint32_t)v.value[2] << 16 | (uint32_t)v.value[3] << 24;
	return x.f;
}
static fiftyoneDegreesFloatInternal as_stored(float f) {
	union { uint32_t u; float f; } x; fiftyoneDegreesFloatInternal v;
	x.f = f;
	for (int i = 0; i < 4; i++) v.value[i] = (uint8_t)(x.u >> (8 * i));
	return v;
}
static bool finite_stored(fiftyoneDegreesFloatInternal v) { return ((v.value[3] & 0x7F) << 1 | v.value[2] >> 7) != 255; }

/* @unit float_decode
 * @property P12
 * @kind proof
 * @entry h_decode
 * @enforce fiftyoneDegreesFloatToNative
 * @unwind 5
 * @exhaust no
 * @trusted powf, frexp and fpclassify by contract for the arguments that occur (units/float.c); float arithmetic is IEEE, to nearest
 */
static bool post_decode(fiftyoneDegreesFloatInternal v, float r) {
	/* the number denoted by the bits; infinities and NaN are never finite */
	if (finite_stored(v)) return r == as_float(v);
	return r != r || r - r != r - r;
}
float fiftyoneDegreesFloatToNative(fiftyoneDegreesFloatInternal f)
VP_CONTRACT(
__CPROVER_assigns()
__CPROVER_ensures(post_decode(f, __CPROVER_return_value))
);
void h_decode(void) {
	fiftyoneDegreesFloatInternal v;
	uint32_t u = vp_u32();
	for (int i = 0; i < 4; i++) v.value[i] = (uint8_t)(u >> (8 * i));
	float r = fiftyoneDegreesFloatToNative(v);
	vp_assert(post_decode(v, r), "a stored form decodes to the number its bits denote");
	VP_COVER("end");
}

/* @unit float_encode
 * @property P12
 * @kind proof
 * @entry h_encode
 * @enforce fiftyoneDegreesNativeToFloat
 * @unwind 5
 * @trusted powf, frexp and fpclassify by contract for the arguments that occur (units/float.c); float arithmetic is IEEE, to nearest
 */
static bool post_encode(float f, fiftyoneDegreesFloatInternal r) {
	if (f != f || f - f != f - f) return !finite_stored(r);
	if (f == 0) return as_float(r) == 0;
	return same_bytes(r, as_stored(f));
}
fiftyoneDegreesFloatInternal fiftyoneDegreesNativeToFloat(float f)
VP_CONTRACT(
__CPROVER_assigns()
__CPROVER_ensures(post_encode(f, __CPROVER_return_value))
);
void h_encode(void) {
	union { uint32_t u; float f; } x;
	x.u = vp_u32();
	fiftyoneDegreesFloatInternal r = fiftyoneDegreesNativeToFloat(x.f);
	vp_assert(post_encode(x.f, r), "a number is stored as the bits that denote it");
	VP_COVER("end");
}

/* @unit float_equal
 * @property P12
 * @kind proof
 * @entry h_equal
 * @enforce fiftyoneDegreesFloatIsEqual
 * @unwind 5
 * @note the loop has a constant number of iterations: unwinding it is complete
 */
int fiftyoneDegreesFloatIsEqual(fiftyoneDegreesFloatInternal f1, fiftyoneDegreesFloatInternal f2)
VP_CONTRACT(
__CPROVER_assigns()
__CPROVER_ensures((__CPROVER_return_value == 0) == same_bytes(f1, f2))
);
void h_equal(void) {
	fiftyoneDegreesFloatInternal v, w;
	uint32_t a = vp_u32(), b = vp_u32();
	if (vp_bool()) b = a ^ (b & 0x01010101u & -(b >> 31)); /* often equal or nearly */
	for (int i = 0; i < 4; i++) { v.value[i] = (uint8_t)(a >> (8 * i)); w.value[i] = (uint8_t)(b >> (8 * i)); }
	int r = fiftyoneDegreesFloatIsEqual(v, w);
	vp_assert((r == 0) == same_bytes(v, w), "stored forms are equal exactly when their bytes are");
	VP_COVER("end");
}
