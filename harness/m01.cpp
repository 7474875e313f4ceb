// Member offsets by member pointer against the addresses the accessors use.
#include "cells.hpp"
#include "celln.hpp"
#include <libflatarray/member_ptr_to_offset.hpp>
#include <stdexcept>
using namespace LibFlatArray;

// several members of the same type, arrays of equal and different lengths,
// private members, members which are not registered
class CellM
{
public:
    LIBFLATARRAY_ACCESS
    static inline int (CellM::*hidden())  { return &CellM::h; }
    static inline double (CellM::*hidden_array())[2] { return &CellM::ha; }
    double a, b, c;
    float f[3], g[3], k[5];
    char s;
    int i, j;
    double u;          // not registered
    float w[3], x[4];  // not registered
    short y;           // not registered
private:
    int h;
    double ha[2];
};
LIBFLATARRAY_REGISTER_SOA(CellM, ((double)(a))((char)(s))((float)(f)(3))((int)(i))((double)(c))((int)(h))((float)(k)(5))((double)(ha)(2))((double)(b))((float)(g)(3))((int)(j)))

static const long OFF[] = {0, 8, 9, 21, 25, 33, 37, 57, 73, 81, 93, 97};
typedef soa_accessor<CellM, 8, 4, 2, 0> acc;

VC_HARNESS(registered)
{
    member_ptr_to_offset o;
    vc_ensures(o(&CellM::a) == OFF[0], "first member");
    vc_ensures(o(&CellM::s) == OFF[1], "char member");
    vc_ensures(o(&CellM::f) == OFF[2], "array member");
    vc_ensures(o(&CellM::i) == OFF[3], "int member");
    vc_ensures(o(&CellM::c) == OFF[4], "second double");
    vc_ensures(o(CellM::hidden()) == OFF[5], "private member");
    vc_ensures(o(&CellM::k) == OFF[6], "array member of another length");
    vc_ensures(o(CellM::hidden_array()) == OFF[7], "private array member");
    vc_ensures(o(&CellM::b) == OFF[8], "third double");
    vc_ensures(o(&CellM::g) == OFF[9], "second array of the same type");
    vc_ensures(o(&CellM::j) == OFF[10], "last member");
    vc_ensures(aggregated_member_size<CellM>::VALUE == (std::size_t)OFF[11], "sum of the member sizes");
    vc_ensures(number_of_members<CellM>::VALUE == 11, "number of members");
    vc_cover("end");
}
// the address computed from the offset is the one the accessor uses
VC_HARNESS(addresses)
{
    char *d = vc_buffer(97 * 64, "data");
    long i = vc_in("i", 0, 63);
    acc a(d, i);
    member_ptr_to_offset o;
    vc_ensures(d + o(&CellM::a) * 64 + i * 8 == (char*)&a.a(), "double a");
    vc_ensures(d + o(&CellM::b) * 64 + i * 8 == (char*)&a.b(), "double b");
    vc_ensures(d + o(&CellM::c) * 64 + i * 8 == (char*)&a.c(), "double c");
    vc_ensures(d + o(&CellM::s) * 64 + i * 1 == (char*)&a.s(), "char s");
    vc_ensures(d + o(&CellM::i) * 64 + i * 4 == (char*)&a.i(), "int i");
    vc_ensures(d + o(&CellM::j) * 64 + i * 4 == (char*)&a.j(), "int j");
    vc_ensures(d + o(CellM::hidden()) * 64 + i * 4 == (char*)&a.h(), "int h");
    vc_ensures(d + o(&CellM::f) * 64 + i * 4 == (char*)&a.f<0>(), "float f[3]");
    vc_ensures(d + o(&CellM::g) * 64 + i * 4 == (char*)&a.g<0>(), "float g[3]");
    vc_ensures(d + o(&CellM::k) * 64 + i * 4 == (char*)&a.k<0>(), "float k[5]");
    vc_ensures(d + o(CellM::hidden_array()) * 64 + i * 8 == (char*)&a.ha<0>(), "double ha[2]");
    vc_ensures(a.access_member(8, o(&CellM::b)) == (char*)&a.b() && a.access_member(4, o(&CellM::j)) == (char*)&a.j(), "access_member with the offset");
    vc_cover("end");
}
// any member pointer of a type, not only constants
VC_HARNESS(selected_pointer)
{
    unsigned long k = vc_in("k", 0, 3);
    double CellM::*p = k == 0 ? &CellM::a : k == 1 ? &CellM::b : k == 2 ? &CellM::c : &CellM::u;
    bool thrown = false;
    int r = -1;
    try { r = member_ptr_to_offset()(p); }
    catch (const std::invalid_argument&) { thrown = true; }
    vc_ensures(thrown == (k == 3), "exactly unregistered members are rejected");
    if (!thrown) vc_ensures(r == (k == 0 ? OFF[0] : k == 1 ? OFF[8] : OFF[4]), "offset of the selected member");
    vc_cover("end");
}
template<typename P>
static inline bool rejected(P p)
{
    try { member_ptr_to_offset()(p); }
    catch (const std::invalid_argument&) { return true; }
    return false;
}
VC_HARNESS(unregistered)
{
    vc_ensures(rejected(&CellM::u), "unregistered member of a registered type");
    vc_ensures(rejected(&CellM::w), "unregistered array of a registered type and length");
    vc_ensures(rejected(&CellM::x), "unregistered array of another length");
    vc_ensures(rejected(&CellM::y), "unregistered member of another type");
    vc_cover("end");
}
VC_HARNESS(other_cells)
{
    member_ptr_to_offset o;
    vc_ensures(o(&CellA::a) == 0 && o(&CellA::b) == 8 && o(&CellA::c) == 12 && o(&CellA::d) == 24, "offsets of CellA");
    vc_ensures(o(&CellU::k) == 0 && o(&CellU::f) == 1 && o(&CellU::m) == 5, "offsets of CellU");
    vc_ensures(aggregated_member_size<CellA>::VALUE == 25 && aggregated_member_size<CellU>::VALUE == 21, "sum of the member sizes");
    vc_cover("end");
}

VC_HARNESS(many_members)
{
    member_ptr_to_offset o;
    char *d = vc_buffer(CELLN_SIZE * 16, "data");
    long i = vc_in("i", 0, 15);
    soa_accessor<CellN, 4, 2, 2, 0> a(d, i);
    vc_ensures(aggregated_member_size<CellN>::VALUE == CELLN_SIZE && number_of_members<CellN>::VALUE == CELLN_MEMBERS, "sum of the member sizes");
#define M(MEMBER, OFFSET, SIZE) \
    vc_ensures(o(&CellN::MEMBER) == OFFSET && vc_offset(&a.MEMBER(), d) == 16 * OFFSET + i * SIZE, "offset and address of " #MEMBER);
    FOR_EACH_N(M)
#undef M
    vc_cover("end");
}
