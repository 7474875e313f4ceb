// Loop peeling. The loop body is replaced by its contract: called with a
// vector type of arity A it advances x to the given stop in steps of A.
#include "vc.hpp"
#include <libflatarray/loop_peeler.hpp>
#include <libflatarray/short_vec.hpp>
#define VC_HARNESS(NAME) extern "C" void NAME()
using namespace LibFlatArray;

template<typename V> struct arity;
template<typename T, std::size_t N> struct arity<short_vec<T, N> > { static const long VALUE = N; typedef T cargo; };

struct trace
{
    long arity;       // of the vector type
    long pos;         // next index which is to be covered
    long end;
    long head, tail;  // indices handled by scalar code before/after vectors
    long vectors;
    long probe, seen; // how often an arbitrary index has been covered
    bool wrong;
};
template<typename VEC>
static inline void cover(trace& t, long x, long stop)
{
    const long A = arity<VEC>::VALUE;
    if (x >= stop) return; // "for (; x < stop; x += A)" does nothing
    vc_ensures(A == 1 || A == t.arity, "only the vector type and its scalar sibling are used");
    vc_ensures(x == t.pos, "indices are covered in ascending order without gaps");
    vc_ensures((stop - x) % A == 0, "whole vectors are covered");
    vc_ensures(stop <= t.end, "nothing behind the end is covered");
    if (A > 1) {
        vc_ensures(x % A == 0, "vectors start at a multiple of the arity");
        t.vectors += (stop - x) / A;
    } else if (t.vectors == 0) t.head += stop - x;
    else t.tail += stop - x;
    if (t.probe >= x && t.probe < stop) t.seen += 1;
    t.pos = stop;
}
// what the caller can observe afterwards
static inline void finish(const trace& t, long begin, long x)
{
    if (begin <= t.end) vc_ensures(t.pos == t.end, "all indices are covered");
    vc_ensures(t.seen == (t.probe >= begin && t.probe < t.end ? 1 : 0), "each index is covered exactly once, no other is");
    vc_ensures(x == (begin <= t.end ? t.end : begin), "the counter ends at the end of the loop");
    if (t.vectors > 0) vc_ensures(t.head < t.arity && t.tail < t.arity, "scalar code handles less than one vector at each end");
    else if (t.arity > 1) vc_ensures(t.head < 2 * t.arity && (t.end - begin < 2 * t.arity), "ranges with whole vectors use vectors");
}
static inline trace start(long A, long b, long e)
{
    trace t = {A, b, e, 0, 0, 0, vc_ins("probe", -(1l << 41), 1l << 41), 0, false};
    return t;
}
// body used by the macro form
template<typename VEC, typename C>
static inline void body(C& x, C stop, trace& t)
{
    cover<VEC>(t, (long)x, (long)stop);
    if (x < stop) x = stop;
}
template<typename VEC, typename C>
static inline void macro_contract(long max)
{
    const long min = C(-1) < C(0) ? -max : 0;
    C b = (C)vc_ins("begin", min, max), e = (C)vc_ins("end", min, max), x = b;
    trace t = start(arity<VEC>::VALUE, (long)b, (long)e);
    LIBFLATARRAY_LOOP_PEELER_TEMPLATE(VEC, C, x, e, body, t);
    finish(t, (long)b, (long)x);
    vc_cover("end");
}
template<typename VEC, typename C1, typename C2>
static inline void lambda_contract(long max)
{
    const long min = C1(-1) < C1(0) && C2(-1) < C2(0) ? -max : 0;
    C1 b = (C1)vc_ins("begin", min, max), x = b;
    C2 e = (C2)vc_ins("end", min, max);
    trace t = start(arity<VEC>::VALUE, (long)b, (long)e);
    loop_peeler<VEC>(&x, e, [&t](auto vec, C1 *counter, C2 stop) {
            cover<decltype(vec)>(t, (long)*counter, (long)stop);
            if ((long)*counter < (long)stop) *counter = stop;
        });
    finish(t, (long)b, (long)x);
    vc_cover("end");
}
static const long INT = 2147483647l - 64, BIG = 1l << 40;
#define D(N) short_vec<double, N>
typedef short_vec<double, 1> d1; typedef short_vec<double, 2> d2; typedef short_vec<double, 4> d4; typedef short_vec<double, 8> d8;
typedef short_vec<float, 16> f16; typedef short_vec<int, 32> i32v; typedef short_vec<float, 4> f4; typedef short_vec<int, 8> i8;

VC_HARNESS(macro_int_1) { macro_contract<d1, int>(INT); vc_cover("end"); }
VC_HARNESS(macro_int_2) { macro_contract<d2, int>(INT); vc_cover("end"); }
VC_HARNESS(macro_int_4) { macro_contract<f4, int>(INT); vc_cover("end"); }
VC_HARNESS(macro_int_8) { macro_contract<d8, int>(INT); vc_cover("end"); }
VC_HARNESS(macro_int_16) { macro_contract<f16, int>(INT); vc_cover("end"); }
VC_HARNESS(macro_int_32) { macro_contract<i32v, int>(INT); vc_cover("end"); }
VC_HARNESS(macro_long_4) { macro_contract<d4, long>(BIG); vc_cover("end"); }
VC_HARNESS(macro_long_16) { macro_contract<f16, long>(BIG); vc_cover("end"); }
VC_HARNESS(macro_unsigned_8) { macro_contract<i8, unsigned>(INT); vc_cover("end"); }
VC_HARNESS(macro_unsigned_32) { macro_contract<i32v, unsigned>(INT); vc_cover("end"); }
VC_HARNESS(macro_size_8) { macro_contract<d8, std::size_t>(BIG); vc_cover("end"); }
VC_HARNESS(macro_size_32) { macro_contract<i32v, std::size_t>(BIG); vc_cover("end"); }

VC_HARNESS(lambda_int_4) { lambda_contract<d4, int, int>(INT); vc_cover("end"); }
VC_HARNESS(lambda_int_16) { lambda_contract<f16, int, int>(INT); vc_cover("end"); }
VC_HARNESS(lambda_long_8) { lambda_contract<d8, long, long>(BIG); vc_cover("end"); }
VC_HARNESS(lambda_unsigned_32) { lambda_contract<i32v, unsigned, unsigned>(INT); vc_cover("end"); }
VC_HARNESS(lambda_size_8) { lambda_contract<i8, std::size_t, std::size_t>(BIG); vc_cover("end"); }
VC_HARNESS(lambda_long_int_8) { lambda_contract<d8, long, int>(INT); vc_cover("end"); }
VC_HARNESS(lambda_int_long_4) { lambda_contract<f4, int, long>(INT); vc_cover("end"); }
VC_HARNESS(lambda_size_int_2) { lambda_contract<d2, std::size_t, int>(INT); vc_cover("end"); }
VC_HARNESS(lambda_int_1) { lambda_contract<d1, int, int>(INT); vc_cover("end"); }
