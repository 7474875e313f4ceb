// Verification primitives. Under the VC generator these are calls with a fixed
// meaning (engine/execi.py); natively (replay) they are implemented in
// harness/replay.cpp.
#ifndef VC_HPP
#define VC_HPP
#include <cstddef>
#include <cstdint>
extern "C" {
// arbitrary input values; the label names the input in counterexamples
unsigned long vc_u64(const char *label);
long vc_i64(const char *label);
int vc_i32(const char *label);
unsigned vc_u32(const char *label);
// arbitrary value in [lo, hi]
unsigned long vc_in(const char *label, unsigned long lo, unsigned long hi);
long vc_ins(const char *label, long lo, long hi);
// precondition / postcondition
void vc_requires(bool cond);
void vc_ensures(bool cond, const char *label);
// make n bytes arbitrary; true if the n (1,2,4,8) bytes at a and b are the same
void vc_havoc(void *p, std::size_t n, const char *label);
bool vc_same(const void *a, const void *b, std::size_t n);
// the n (1,2,4,8) bytes at p as an integer
unsigned long vc_value(const void *p, std::size_t n);
// a fresh block of n arbitrary bytes (never released, not part of the code under contract)
char *vc_buffer(std::size_t n, const char *label);
// byte ranges: no overlap / containment / distance (same block required)
bool vc_disjoint(const void *p, std::size_t n, const void *q, std::size_t m);
bool vc_within(const void *p, std::size_t n, const void *q, std::size_t m);
long vc_offset(const void *p, const void *q);
bool vc_sameobj(const void *p, const void *q);
// bytes from p to the end of the block it points into
std::size_t vc_bytes_from_alloc(const void *p);
// the k-th allocation (counted from 0) after this call throws std::bad_alloc
void vc_alloc_fail(unsigned long k);
// frame condition of the operation between begin and end: it writes no static object, no storage allocated
// earlier and none of the frozen ranges, unless declared writable; of the blocks with limited reads it touches
// only the ranges declared readable or writable (declare the limits first)
void vc_frame_begin();
void vc_frozen(const void *p, std::size_t n);
void vc_limit_reads(const void *p);
void vc_may_read(const void *p, std::size_t n);
void vc_may_write(const void *p, std::size_t n);
void vc_frame_end();
// ghost life time of member objects (size is the object size)
void vc_construct(const void *p, std::size_t size);
void vc_destroy(const void *p, std::size_t size);
void vc_use(const void *p, std::size_t size);
bool vc_alive(const void *p, std::size_t size);
// ---- short vector harnesses (engine/execb.py)
// n arbitrary elements of elem bytes at p; inputs are named label[i]
void vc_array(void *p, std::size_t n, std::size_t elem, const char *label);
// postconditions: the same value (floating point: same bits, or both NaN)
void vc_same_f32(float got, float want, const char *label);
void vc_same_f64(double got, double want, const char *label);
void vc_same_i32(int got, int want, const char *label);
// n arbitrary elements of elem bytes, base address = off modulo 64, nothing accessible around them
char *vc_block(std::size_t n, std::size_t elem, std::size_t off, const char *label);
// base of an array of elements of elem bytes with indices -2^31 .. 2^31-1
char *vc_region(std::size_t elem, const char *label);
// native runs only: give the element a value that depends on its address
void vc_touch(void *p, std::size_t n);
// from now on the code under contract may only touch these elements of the region / anything
void vc_allow(const void *p, std::size_t n);
void vc_allow_all();
// operand ranges for the accuracy contracts: 2^-60 <= |x| <= 2^60
void vc_requires_mag32(float x);
void vc_requires_mag64(double x);
// got is a/b (kind 0), a/sqrt(b) (kind 1), sqrt(b) / a (kind 2) up to relative error 2^-bits
void vc_close32(float got, float a, float b, int kind, int bits, const char *label);
void vc_close64(double got, double a, double b, int kind, int bits, const char *label);
// integers: up to relative error 2^-bits plus 1
void vc_closei(int got, int a, int b, int kind, int bits, const char *label);
// reached: vacuity guard, must be reachable on some path
void vc_cover(const char *label);
}
#endif
