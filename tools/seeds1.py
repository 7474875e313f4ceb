import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
CELL='''#include <libflatarray/flat_array.hpp>
#include <libflatarray/soa_vector.hpp>
#include <libflatarray/soa_array.hpp>
#include <libflatarray/loop_peeler.hpp>
#include <libflatarray/aligned_allocator.hpp>
#include <cstdio>
#include <vector>
#include <stdexcept>
struct Cell { double a; int b; float c[3]; char d;
  class API : public LibFlatArray::api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((8)(16)(300), (4)(12), (2)(6)) }; };
LIBFLATARRAY_REGISTER_SOA(Cell, ((double)(a))((int)(b))((float)(c)(3))((char)(d)))
struct Plain { char k; float f; double m[2]; };
LIBFLATARRAY_REGISTER_SOA(Plain, ((char)(k))((float)(f))((double)(m)(2)))
static Cell mk(int i) { Cell c; c.a = i + 0.5; c.b = i * 3; c.c[0] = i; c.c[1] = i + 0.25f; c.c[2] = -i; c.d = char(i); return c; }
static bool eq(const Cell& x, const Cell& y) { return x.a == y.a && x.b == y.b && x.c[0] == y.c[0] && x.c[1] == y.c[1] && x.c[2] == y.c[2] && x.d == y.d; }
#define CHECK(X) do { if (!(X)) { std::printf("failed: %s\\n", #X); return 1; } } while (0)
typedef LibFlatArray::soa_grid<Cell> grid;
'''
mk('c01-bytesize-32bit','C01',[('detail/set_byte_size_functor.hpp','*byte_size = aggregated_member_size<CELL>::VALUE * DIM_X * DIM_Y * DIM_Z;',
 '*byte_size = static_cast<unsigned>(aggregated_member_size<CELL>::VALUE * DIM_X * DIM_Y) * DIM_Z;')],
CELL+'''
int main() {
  std::size_t s = 0, x = 0, y = 0, z = 0;
  LibFlatArray::detail::flat_array::set_byte_size_functor<Plain> f(&s, &x, &y, &z);
  LibFlatArray::api_traits::select_sizes<Plain>()((char*)0, f, 20000, 20000, 1);
  CHECK(s == 21ul * x * y * z);
  LibFlatArray::api_traits::select_sizes<Plain>()((char*)0, f, 1000, 1000, 1000);
  CHECK(s == 21ul * x * y * z);
  return 0; }
''','a 2D grid whose slots need more than 4 GiB','byte size is truncated to 32 bits, so slots lie outside the storage')

mk('c02-set-row-narrow','C02',[('detail/set_instance_functor.hpp','''private:
    const CELL *source;
    std::size_t x;
    std::size_t y;
    std::size_t z;
    std::size_t count;
};

#ifdef LIBFLATARRAY_WITH_CUDA''','''private:
    const CELL *source;
    std::size_t x;
    std::size_t y;
    std::size_t z;
    unsigned short count;
};

#ifdef LIBFLATARRAY_WITH_CUDA''')],
'''#include <libflatarray/flat_array.hpp>
#include <cstdio>
struct P { int k; float f; };
LIBFLATARRAY_REGISTER_SOA(P, ((int)(k))((float)(f)))
int main() {
  LibFlatArray::soa_grid<P> g(70000, 1, 1);
  P p = {17, 2.5f};
  g.broadcast(0, 0, 0, p, 70000);
  for (int i = 0; i < 70000; ++i) if (g.get(i, 0, 0).k != 17) { std::printf("cell %d not set\\n", i); return 1; }
  return 0; }
''','bulk write or broadcast of 65536 or more cells','count of a bulk write is truncated to 16 bits, the remaining cells keep their old values')

mk('c03-save-streak-offset','C03',[('detail/save_functor.hpp','''            accessor.save(
                target,
                static_cast<std::size_t>(i->length()),
                offset,
                count);

            offset += i->length();
        }
    }

private:
    ITERATOR start;
    ITERATOR end;
    char *target;
    std::size_t count;
};

#ifdef _MSC_BUILD''','''            accessor.save(
                target,
                static_cast<std::size_t>(i->length()),
                offset,
                count);

            offset = i->length();
        }
    }

private:
    ITERATOR start;
    ITERATOR end;
    char *target;
    std::size_t count;
};

#ifdef _MSC_BUILD''')],
CELL+'''
int main() {
  grid g(10, 3, 2);
  for (int z = 0; z < 2; ++z) for (int y = 0; y < 3; ++y) for (int x = 0; x < 10; ++x) g.set(x, y, z, mk(x + 10 * y + 30 * z));
  typedef LibFlatArray::detail::flat_array::simple_streak streak;
  streak s[4] = {streak(1, 0, 0, 3), streak(2, 1, 0, 2), streak(4, 2, 1, 4), streak()};
  std::vector<char> buf(9 * 25);
  const grid& cg = g;
  cg.save(s + 0, s + 3, &buf[0], std::size_t(9));
  const double *a = (const double*)&buf[0];
  double e[9] = {1.5, 2.5, 3.5, 12.5, 13.5, 54.5, 55.5, 56.5, 57.5};
  for (int i = 0; i < 9; ++i) CHECK(a[i] == e[i]);
  return 0; }
''','a save with three or more streaks of which the second and later differ from the sum of the previous','later streaks overwrite earlier ones in the packed buffer')

mk('c04-copy-rows','C04',[('detail/copy_functor.hpp','''                target_accessor.index() = ACCESSOR1::gen_index(0, y, z);''','''                target_accessor.index() = ACCESSOR1::gen_index(0, y, 0) + long(z * dim_y) * ACCESSOR1::DIM_X;''')],
CELL+'''
int main() {
  grid g(5, 3, 2);
  for (int z = 0; z < 2; ++z) for (int y = 0; y < 3; ++y) for (int x = 0; x < 5; ++x) g.set(x, y, z, mk(x + 10 * y + 30 * z));
  grid h(g);
  for (int z = 0; z < 2; ++z) for (int y = 0; y < 3; ++y) for (int x = 0; x < 5; ++x) CHECK(eq(h.get(x, y, z), mk(x + 10 * y + 30 * z)));
  return 0; }
''','copying a 3D grid whose y dimension is smaller than its extent','upper z layers of a copied grid are taken from the wrong rows')

mk('c05-destroy-array-members','C05',[('detail/destroy_functor.hpp','''                for (std::size_t x = 0; x < dim_x; ++x) {
                    accessor.destroy_members();''','''                for (std::size_t x = 0; x < dim_x && x < std::size_t(DIM_X - 1); ++x) {
                    accessor.destroy_members();''')],
'''#include <libflatarray/flat_array.hpp>
#include <cstdio>
static int live = 0;
struct T { T() { ++live; } T(const T&) { ++live; } ~T() { --live; } T& operator=(const T&) { return *this; } int v; };
struct C { T t; T ta[2]; int x; };
LIBFLATARRAY_REGISTER_SOA(C, ((T)(t))((T)(ta)(2))((int)(x)))
int main() {
  for (int n = 1; n < 70; ++n) { { LibFlatArray::soa_grid<C> g(n, 1, 1); } if (live != 0) { std::printf("n=%d live=%d\\n", n, live); return 1; } }
  return 0; }
''','a grid whose x dimension equals its extent','member objects of the last cell in each full row are never destroyed')

mk('c06-default-select-2d','C06',[('api_traits.hpp','(32)(64)(128)(192)(256)(512)(544)(1056)(2080)(4128)(8224)(16416)(32800)(65568)(131104)(262176)(524320)(1048608)(2097184)(4194336)(8388640)(16777248)(33554464)(67108896)(134217760)(268435488)(536870944)(1073741856)','(32)(64)(128)(192)(256)(512)(544)(1056)(2080)(4128)(8224)(16416)(32800)(65568)(131104)(262176)(524320)(2097184)(1048608)(4194336)(8388640)(16777248)(33554464)(67108896)(134217760)(268435488)(536870944)(1073741856)')],
CELL+'''
int main() {
  std::size_t s = 0, x = 0, y = 0, z = 0;
  LibFlatArray::detail::flat_array::set_byte_size_functor<Plain> f(&s, &x, &y, &z);
  LibFlatArray::api_traits::select_sizes<Plain>()((char*)0, f, 600000, 1, 1);
  CHECK(x == 1048608 && y == 1 && z == 1);
  return 0; }
''','a 1D container of 524321 to 1048608 elements','not the smallest registered size is selected')

mk('c07-light-neighbour','C07',[('macros.hpp','''            return                                                      \\
                my_data +                                               \\
                DIM_PROD * offset +                                     \\
                *my_index * size_of_member +                            \\
                INDEX  * size_of_member;                                \\
''','''            return                                                      \\
                my_data +                                               \\
                DIM_PROD * offset +                                     \\
                *my_index * size_of_member;                             \\
''')],
CELL+'''
struct F { bool *ok; template<typename A> void operator()(A& acc) const { using LibFlatArray::coord;
     acc.index() = A::gen_index(3l, 2l, 1l);
     *ok = acc[coord<-1, 0, 0>()].access_member(sizeof(int), 8) == (char*)&acc[coord<-1, 0, 0>()].b(); } };
int main() {
  grid g(8, 4, 2);
  bool ok = false; F f = {&ok};
  g.callback(f);
  CHECK(ok);
  return 0; }
''','run time member access through a light accessor with a non-zero relative coordinate','the relative coordinate is ignored')

mk('c08-load-elements','C08',[('soa_array.hpp','''        elements = new_elements;''','''        elements = offset ? new_elements : elements + num;''')],
CELL+'''
int main() {
  typedef LibFlatArray::soa_array<Cell, 20> arr;
  arr a(5, mk(1)), b(7, mk(2));
  a.load(b.at(0), 4, 0);
  CHECK(a.size() == 5);
  return 0; }
''','bulk load at position 0 of a non-empty array','the array grows although elements were overwritten')



mk('c09-pop-full','C09',[('soa_vector.hpp',"""        --count;
        // destroy last element by overwriting with default element:
        set(count, T());""","""        // destroy last element by overwriting with default element:
        set(count, T());
        --count;""")],
CELL+"""
int main() {
  LibFlatArray::soa_vector<Plain> v;
  for (int i = 0; i < 32; ++i) { Plain p = {char(i + 1), float(i + 1), {i + 0.5, i + 0.25}}; v.push_back(p); }
  v.pop_back();
  for (int i = 0; i < 31; ++i) { Plain p = v.get(i); CHECK(p.k == i + 1 && p.f == i + 1 && p.m[0] == i + 0.5 && p.m[1] == i + 0.25); }
  return 0; }
""",'removing the last element of a vector whose size equals a registered size','first element is corrupted / write behind the storage')

mk('c10-grace-offset','C10',[('aligned_allocator.hpp','return ALIGNMENT + sizeof(char*);','return ALIGNMENT;')],
CELL+"""
#include <cstdlib>
static char *last; static std::size_t lastn;
void *operator new(std::size_t n) { last = (char*)std::malloc(n + 64); lastn = n; return last; }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
int main() {
  for (std::size_t n = 1; n < 300; ++n) {
    LibFlatArray::aligned_allocator<char, 4> al;
    char *p = al.allocate(n);
    CHECK((std::size_t)p % 4 == 0);
    CHECK(p + n <= last + lastn);
    al.deallocate(p, n);
  }
  return 0; }
""",'an alignment smaller than a pointer, or an underlying block that is not pointer-aligned','the returned block extends beyond the underlying allocation')

mk('l01-lambda-32bit','L01',[('loop_peeler.hpp','    COUNTER_TYPE2 next_stop = remainder ?\n','    int next_stop = remainder ?\n')],
CELL+"""
#include <libflatarray/short_vec.hpp>
static long cur; static bool ok = true; static long vec = 0;
int main() {
  long starts[] = {3, 5000000003l, 4294967299l};
  for (int k = 0; k < 3; ++k) {
    long x = starts[k], end = starts[k] + 100; cur = x; vec = 0;
    LibFlatArray::loop_peeler<LibFlatArray::short_vec<float, 8> >(&x, end, [](auto v, long *i, long e) {
      typedef decltype(v) T;
      for (; *i < e; *i += T::ARITY) { if (*i != cur) ok = false; if (T::ARITY == 8) { vec += 8; if (*i % 8) ok = false; } cur += T::ARITY; } });
    CHECK(ok); CHECK(cur == end); CHECK(vec > 80);
  }
  return 0; }
""",'loop indices beyond 2^31','the vectorised part is skipped or misplaced for large indices')

mk('m01-array-overload','M01',[('detail/macros.hpp',r'''        template<std::size_t ARITY>                                     \
        inline                                                          \
        int operator()(LIBFLATARRAY_ELEM(0, MEMBER) (CELL_TYPE:: *member_ptr)[ARITY]) \
        {                                                               \
            return offset<CELL_TYPE, r + 0>()(member_ptr);              \
''',r'''        template<std::size_t ARITY>                                     \
        inline                                                          \
        int operator()(LIBFLATARRAY_ELEM(0, MEMBER) (CELL_TYPE:: *member_ptr)[ARITY]) \
        {                                                               \
            return offset<CELL_TYPE, r + 0>::OFFSET;                    \
''')],
"""#include <libflatarray/flat_array.hpp>
#include <libflatarray/member_ptr_to_offset.hpp>
#include <cstdio>
struct Q { float u[3]; int k; float w[2]; };
LIBFLATARRAY_REGISTER_SOA(Q, ((float)(u)(3))((int)(k))((float)(w)(2)))
int main() {
  LibFlatArray::member_ptr_to_offset o;
  if (o(&Q::u) != 0 || o(&Q::k) != 12 || o(&Q::w) != 16) { std::printf("%d %d %d\\n", o(&Q::u), o(&Q::k), o(&Q::w)); return 1; }
  return 0; }
""",'two array members of the same element type but different lengths','looking up the first gives the offset of the second')
