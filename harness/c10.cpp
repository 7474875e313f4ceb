// The real aligned allocator on top of operator new (fresh block at an
// arbitrary address with the default alignment of new).
#include "vc.hpp"
#include <libflatarray/aligned_allocator.hpp>
#define VC_HARNESS(NAME) extern "C" void NAME()
using LibFlatArray::aligned_allocator;

struct three { char a[3]; };
struct big { double a[9]; };

template<typename T, std::size_t ALIGN>
static inline void allocate_contract()
{
    std::size_t n = vc_in("n", 0, 1ul << 40);
    aligned_allocator<T, ALIGN> al;
    T *p = al.allocate(n);
    if (p == 0) return;
    vc_ensures(reinterpret_cast<std::size_t>(p) % ALIGN == 0, "the pointer is aligned");
    vc_ensures(vc_bytes_from_alloc(p) >= n * sizeof(T), "n elements fit into the underlying block");
    // whatever is written into the elements
    vc_havoc(p, n * sizeof(T), "contents");
    // a second block does not interfere
    std::size_t m = vc_in("m", 0, 1ul << 40);
    T *q = al.allocate(m);
    vc_ensures(q == 0 || vc_disjoint(p, n * sizeof(T), q, m * sizeof(T)), "blocks do not overlap");
    vc_havoc(q, m * sizeof(T), "other contents");
    if (n > 0) {
        std::size_t i = vc_in("i", 0, n - 1);
        vc_havoc(p + i, sizeof(T), "element");
    }
    al.deallocate(p, n);
    aligned_allocator<T, ALIGN>().deallocate(q, m);
    vc_cover("end");
}
VC_HARNESS(char_4096) { allocate_contract<char, 4096>(); vc_cover("end"); }
VC_HARNESS(double_64) { allocate_contract<double, 64>(); vc_cover("end"); }
VC_HARNESS(float_32) { allocate_contract<float, 32>(); vc_cover("end"); }
VC_HARNESS(int_16) { allocate_contract<int, 16>(); vc_cover("end"); }
VC_HARNESS(char_8) { allocate_contract<char, 8>(); vc_cover("end"); }
VC_HARNESS(char_4) { allocate_contract<char, 4>(); vc_cover("end"); }
VC_HARNESS(short_2) { allocate_contract<short, 2>(); vc_cover("end"); }
VC_HARNESS(char_1) { allocate_contract<char, 1>(); vc_cover("end"); }
VC_HARNESS(three_128) { allocate_contract<three, 128>(); vc_cover("end"); }
VC_HARNESS(big_1m) { allocate_contract<big, 1048576>(); vc_cover("end"); }
VC_HARNESS(double_24) { allocate_contract<double, 24>(); vc_cover("end"); }

// counts whose size in bytes does not fit: no (small) block is handed out
template<typename T, std::size_t ALIGN>
static inline void overflow_contract()
{
    std::size_t n = vc_u64("n");
    vc_requires(n > (1ul << 40));
    aligned_allocator<T, ALIGN> al;
    try {
        T *p = al.allocate(n);
        vc_ensures(p == 0 || vc_bytes_from_alloc(p) / sizeof(T) >= n, "n elements fit into the underlying block");
        al.deallocate(p, n);
    }
    catch (...) {}
    vc_cover("end");
}
VC_HARNESS(overflow_char_4096) { overflow_contract<char, 4096>(); vc_cover("end"); }
VC_HARNESS(overflow_double_64) { overflow_contract<double, 64>(); vc_cover("end"); }

VC_HARNESS(null_pointer)
{
    std::size_t n = vc_u64("n");
    aligned_allocator<char, 4096> al;
    char *p = al.allocate(8);
    vc_havoc(p, 8, "contents");
    unsigned long v = vc_value(p, 8);
    al.deallocate(0, n);
    aligned_allocator<double, 64>().deallocate(0, n);
    vc_ensures(vc_value(p, 8) == v, "releasing a null pointer does nothing");
    al.deallocate(p, 8);
    vc_cover("end");
}
// construct, destroy, address and comparison touch only their element
VC_HARNESS(elements)
{
    aligned_allocator<double, 64> al;
    std::size_t n = vc_in("n", 1, 1000), i = vc_in("i", 0, n - 1), j = vc_in("j", 0, n - 1);
    double *p = al.allocate(n);
    vc_havoc(p, n * sizeof(double), "contents");
    double v, old;
    vc_havoc(&v, sizeof v, "value");
    old = p[j];
    al.construct(p + i, v);
    vc_ensures(vc_same(p + j, i == j ? &v : &old, 8), "construct writes its element only");
    al.destroy(p + i);
    al.construct(p + i);
    vc_ensures(vc_value(p + i, 8) == 0, "construct without a value value-initialises");
    vc_ensures(al.address(p[i]) == p + i, "address");
    const double& c = p[i];
    vc_ensures(al.address(c) == p + i, "address of a const element");
    aligned_allocator<double, 64> converted;
    vc_ensures(al == converted && !(al != converted), "allocators are interchangeable");
    converted.deallocate(p, n);
    vc_cover("end");
}
