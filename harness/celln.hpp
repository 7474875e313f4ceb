// generated once: a cell with many members, to exercise the list macros
#ifndef CELLN_HPP
#define CELLN_HPP
#include <libflatarray/flat_array.hpp>
struct CellN
{
    class API : public LibFlatArray::api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((4), (2), (2)) };
    char m0;
    double m1;
    short m2;
    float m3;
    char m4;
    double m5;
    short m6;
    float m7;
    char m8;
    double m9;
    short m10;
    float m11;
    char m12;
    double m13;
    short m14;
    float m15;
    char m16;
    double m17;
    short m18;
    float m19;
    char m20;
    double m21;
    short m22;
    float m23;
    char m24;
    double m25;
    short m26;
    float m27;
    char m28;
    double m29;
    short m30;
    float m31;
    char m32;
    double m33;
    short m34;
    float m35;
    char m36;
    double m37;
    short m38;
    float m39;
    char m40;
    double m41;
    short m42;
    float m43;
    char m44;
    double m45;
    short m46;
    float m47;
    char m48;
    double m49;
};
LIBFLATARRAY_REGISTER_SOA(CellN, ((char)(m0))((double)(m1))((short)(m2))((float)(m3))((char)(m4))((double)(m5))((short)(m6))((float)(m7))((char)(m8))((double)(m9))((short)(m10))((float)(m11))((char)(m12))((double)(m13))((short)(m14))((float)(m15))((char)(m16))((double)(m17))((short)(m18))((float)(m19))((char)(m20))((double)(m21))((short)(m22))((float)(m23))((char)(m24))((double)(m25))((short)(m26))((float)(m27))((char)(m28))((double)(m29))((short)(m30))((float)(m31))((char)(m32))((double)(m33))((short)(m34))((float)(m35))((char)(m36))((double)(m37))((short)(m38))((float)(m39))((char)(m40))((double)(m41))((short)(m42))((float)(m43))((char)(m44))((double)(m45))((short)(m46))((float)(m47))((char)(m48))((double)(m49)))
static const unsigned long CELLN_SIZE = 189, CELLN_MEMBERS = 50;
// FOR_EACH_N(M): M(member, offset, size)
#define FOR_EACH_N(M) M(m0, 0, 1) M(m1, 1, 8) M(m2, 9, 2) M(m3, 11, 4) M(m4, 15, 1) M(m5, 16, 8) M(m6, 24, 2) M(m7, 26, 4) M(m8, 30, 1) M(m9, 31, 8) M(m10, 39, 2) M(m11, 41, 4) M(m12, 45, 1) M(m13, 46, 8) M(m14, 54, 2) M(m15, 56, 4) M(m16, 60, 1) M(m17, 61, 8) M(m18, 69, 2) M(m19, 71, 4) M(m20, 75, 1) M(m21, 76, 8) M(m22, 84, 2) M(m23, 86, 4) M(m24, 90, 1) M(m25, 91, 8) M(m26, 99, 2) M(m27, 101, 4) M(m28, 105, 1) M(m29, 106, 8) M(m30, 114, 2) M(m31, 116, 4) M(m32, 120, 1) M(m33, 121, 8) M(m34, 129, 2) M(m35, 131, 4) M(m36, 135, 1) M(m37, 136, 8) M(m38, 144, 2) M(m39, 146, 4) M(m40, 150, 1) M(m41, 151, 8) M(m42, 159, 2) M(m43, 161, 4) M(m44, 165, 1) M(m45, 166, 8) M(m46, 174, 2) M(m47, 176, 4) M(m48, 180, 1) M(m49, 181, 8)
#endif
