#ifndef VCG_DRIVER_H
#define VCG_DRIVER_H
extern "C" {
double __vcg_real(const char *); bool __vcg_bool(const char *); void __vcg_assume(bool); void __vcg_assert(bool, const char *); void __vcg_out(const char *, double); int __vcg_decide(int);
}
#define DRIVER extern "C" void
#define RV(n) __vcg_real(n)
#define BV(n) __vcg_bool(n)
#define OUT(n, v) __vcg_out(n, v)
#endif
