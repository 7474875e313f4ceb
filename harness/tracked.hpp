// A member type which reports its life time to the verifier, and cells with it.
#ifndef TRACKED_HPP
#define TRACKED_HPP
#include <libflatarray/flat_array.hpp>
#include "vc.hpp"
class Tracked
{
public:
    Tracked() : v(7) { vc_construct(this, sizeof(Tracked)); }
    Tracked(const Tracked& o) : v(o.v) { vc_use(&o, sizeof(Tracked)); vc_construct(this, sizeof(Tracked)); }
    ~Tracked() { vc_destroy(this, sizeof(Tracked)); }
    Tracked& operator=(const Tracked& o)
    {
        vc_use(&o, sizeof(Tracked));
        vc_use(this, sizeof(Tracked));
        v = o.v;
        return *this;
    }
    int v;
};

// 3D grid cell: scalar and array members which are non-trivial
struct CellT
{
    class API : public LibFlatArray::api_traits::has_custom_sizes
    {
    public:
#ifdef VC_LARGE
        LIBFLATARRAY_CUSTOM_SIZES((4)(5000000000), (2)(70000), (300))
#else
        LIBFLATARRAY_CUSTOM_SIZES((4)(8), (2)(6), (3))
#endif
    };
    double x;
    Tracked t;
    Tracked ta[2];
};
LIBFLATARRAY_REGISTER_SOA(CellT, ((double)(x))((Tracked)(t))((Tracked)(ta)(2)))

// 1D cell for vectors and arrays
struct CellV
{
    class API : public LibFlatArray::api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((2)(4)(8)(32), (1), (1))
    };
    Tracked t;
    short s;
    Tracked ta[2];
};
LIBFLATARRAY_REGISTER_SOA(CellV, ((Tracked)(t))((short)(s))((Tracked)(ta)(2)))
#endif
