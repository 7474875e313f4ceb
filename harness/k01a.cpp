// Frame conditions of the parts below the containers: the aligned allocator,
// loop peeling and member offsets keep no state in static objects and touch no
// storage but their own.
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#pragma clang section bss="vckb" data="vckd"
#endif
#endif
#include "vc.hpp"
#include <libflatarray/flat_array.hpp>
#include <libflatarray/loop_peeler.hpp>
#include <libflatarray/member_ptr_to_offset.hpp>
#define VC_HARNESS(NAME) extern "C" void NAME()
using namespace LibFlatArray;

template<typename T, std::size_t ALIGN>
static inline void allocator_contract()
{
    std::size_t n = vc_in("n", 0, 1ul << 40), m = vc_in("m", 0, 1ul << 40);
    aligned_allocator<T, ALIGN> al;
    T *p = al.allocate(n);
    vc_frame_begin(); vc_frozen(&al, sizeof al);
    T *q = al.allocate(m);
    al.deallocate(q, m);
    std::size_t lim = al.max_size();
    vc_frame_end();
    vc_ensures(lim > 0, "frame");
    al.deallocate(p, n);
    vc_cover("end");
}
VC_HARNESS(allocator_char_4096) { allocator_contract<char, 4096>(); vc_cover("end"); }
VC_HARNESS(allocator_double_64) { allocator_contract<double, 64>(); vc_cover("end"); }
VC_HARNESS(allocator_float_16) { allocator_contract<float, 16>(); vc_cover("end"); }
VC_HARNESS(allocator_char_1) { allocator_contract<char, 1>(); vc_cover("end"); }

template<typename VEC, typename C>
static inline void run_to(C& x, C stop, long& calls)
{
    ++calls;
    if (x < stop) x = stop;
}
template<typename VEC, typename C>
static inline void loop_contract(long max)
{
    const long min = C(-1) < C(0) ? -max : 0;
    C b = (C)vc_ins("begin", min, max), e = (C)vc_ins("end", min, max), x = b;
    C y = b;
    long calls = 0, calls2 = 0;
    vc_frame_begin();
    LIBFLATARRAY_LOOP_PEELER_TEMPLATE(VEC, C, x, e, run_to, calls);
    loop_peeler<VEC>(&y, e, [&calls2](auto, C *counter, C stop) { ++calls2; if (*counter < stop) *counter = stop; });
    vc_frame_end();
    vc_ensures(calls >= 0 && calls2 >= 0, "frame");
    vc_cover("end");
}
typedef short_vec<double, 4> d4; typedef short_vec<float, 16> f16;
VC_HARNESS(loop_int) { loop_contract<d4, int>(2147483647l - 64); vc_cover("end"); }
VC_HARNESS(loop_long) { loop_contract<f16, long>(1l << 40); vc_cover("end"); }

struct CellM { double a, b; float f[3]; char c; };
LIBFLATARRAY_REGISTER_SOA(CellM, ((double)(a))((float)(f)(3))((char)(c))((double)(b)))
VC_HARNESS(offsets)
{
    member_ptr_to_offset o;
    vc_frame_begin(); vc_frozen(&o, sizeof o);
    long s = o(&CellM::a) + o(&CellM::f) + o(&CellM::c) + o(&CellM::b);
    vc_frame_end();
    vc_ensures(s == 0 + 8 + 20 + 21, "offsets");
    vc_cover("end");
}
