import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk
H='''#include <libflatarray/flat_array.hpp>
#include <libflatarray/short_vec.hpp>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <stdexcept>
#include <vector>
using namespace LibFlatArray;
#define CHECK(X) do { if (!(X)) { std::printf("failed: %s\\n", #X); return 1; } } while (0)
'''
ALLOC='''static long live = 0, fail_at = -1;
void *operator new(std::size_t n) { if (fail_at >= 0 && fail_at-- == 0) throw std::bad_alloc(); ++live; void *p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void operator delete(void *p) noexcept { if (p) { --live; std::free(p); } }
void operator delete(void *p, std::size_t) noexcept { if (p) { --live; std::free(p); } }
'''
CELL='''struct Particle { class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES(%s) }; int a; double b[2]; };
LIBFLATARRAY_REGISTER_SOA(Particle, ((int)(a))((double)(b)(2)))
'''
mk('c05-vector-resize-order','C05',[('soa_vector.hpp',"""        if (new_count > capacity()) {
            reserve(new_count);
        }

        count = new_count;
""","""        const std::size_t old_count = count;
        count = new_count;

        if (new_count > capacity()) {
            count = old_count;
            grow(new_count);
        }
"""),('soa_vector.hpp',"""    inline
    __host__ __device__
    std::size_t capacity() const
""","""    inline
    __host__ __device__
    void grow(std::size_t new_count)
    {
        // keep the old elements while the storage is exchanged
        const std::size_t old_count = count;
        soa_grid<T, ALLOCATOR, USE_CUDA_FUNCTORS> old_grid;
        swap(old_grid, grid);
        grid.resize(new_count, 1, 1);
        grid.resize(grid.extent_x(), 1, 1);
        detail::flat_array::simple_streak iter[2] = {
            detail::flat_array::simple_streak(0, 0, 0, old_count),
            detail::flat_array::simple_streak()
        };
        grid.load(iter + 0, iter + 1, old_grid.data(), old_grid.extent_x());
        count = new_count;
    }

    inline
    __host__ __device__
    std::size_t capacity() const
""")],
H+ALLOC+CELL%'(4)(8)(32), (1), (1)'+'''
int main() {
  for (int at = 0; at < 2; ++at) {
    soa_vector<Particle> v(4);
    Particle c; c.a = 5; c.b[0] = 1; c.b[1] = 2;
    for (int i = 0; i < 4; ++i) v.set(i, c);
    fail_at = at;
    try { v.resize(20); } catch (const std::bad_alloc&) {}
    fail_at = -1;
    if (v.size() == 20) continue;
    CHECK(v.size() == 4);
    CHECK(v.capacity() >= 4);
    CHECK(v.get(3).a == 5);
  }
  return 0; }
''','an allocation that fails while resize() grows the vector','the vector loses its storage but keeps its size, so element access is out of bounds')
mk('c05-zero-width-leak','C05',[('soa_grid.hpp',"""        if (my_data == 0) {
            return;
        }

        callback(detail::flat_array::destroy""","""        if ((my_data == 0) || ((my_dim_x * my_dim_y * my_dim_z) == 0)) {
            return;
        }

        callback(detail::flat_array::destroy""")],
H+ALLOC+CELL%'(4)(8), (2)(6), (3)'+'''
int main() {
  long before = live;
  { soa_grid<Particle> g(5, 0, 2); soa_grid<Particle> h(g); g.resize(3, 3, 3); h.resize(0, 4, 0); }
  CHECK(live == before);
  return 0; }
''','a grid with one or two dimensions of zero, which still has storage','the storage of such grids is never released')
mk('c06-dual-extents','C06',[('soa_grid.hpp',"""        if ((my_dim_x != other_grid->my_dim_x) ||
            (my_dim_y != other_grid->my_dim_y) ||
            (my_dim_z != other_grid->my_dim_z)) {
            throw""","""        if ((my_extent_x != other_grid->my_extent_x) ||
            (my_extent_y != other_grid->my_extent_y) ||
            (my_dim_z != other_grid->my_dim_z)) {
            throw""")],
H+CELL%'(4)(8), (2)(6), (3)'+'''
static int calls = 0;
struct f2 { template<typename A, typename B> void operator()(A&, B&) const { ++calls; } };
static bool rejected(soa_grid<Particle>& g, soa_grid<Particle>& h) {
  try { g.callback(&h, f2()); } catch (const std::invalid_argument&) { return true; }
  return false;
}
int main() {
  soa_grid<Particle> g(5, 3, 2), h(6, 3, 2), i(5, 4, 2), j(5, 3, 3), k(5, 3, 2);
  CHECK(rejected(g, h)); CHECK(rejected(g, i)); CHECK(rejected(g, j)); CHECK(calls == 0);
  CHECK(!rejected(g, k)); CHECK(calls == 1);
  return 0; }
''','two grids of different dimensions which are rounded to the same extents','the dual callback is run on grids of different dimensions')
mk('c09-reserve-stride','C09',[('soa_vector.hpp',"""        new_grid.load(iter + 0, iter + 1, grid.data(), grid.extent_x());
""","""        new_grid.load(iter + 0, iter + 1, grid.data(), capacity());
""")],
H+CELL%'(4)(8)(32)(64), (1), (1)'+'''
int main() {
  soa_vector<Particle> v(5);    // rounded up to 8 cells per member
  for (int i = 0; i < 5; ++i) { Particle c; c.a = i; c.b[0] = 10 + i; c.b[1] = 20 + i; v.set(i, c); }
  v.reserve(20);
  for (int i = 0; i < 5; ++i) { Particle c = v.get(i); CHECK(c.a == i && c.b[0] == 10 + i && c.b[1] == 20 + i); }
  return 0; }
''','growing a vector whose initial length is no registered size','all members but the first are read from the wrong places')
mk('c03-array-member-stride','C03',[('detail/soa_array_member_copy_helper.hpp',"""                    target[stride * (INDEX - 1) + offset + i] = data[SIZE * (INDEX - 1) + i];
""","""                    target[stride * (INDEX - 1) + i + (INDEX > 2 ? 0 : offset)] = data[SIZE * (INDEX - 1) + i];
""")],
H+'''struct Particle { class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((8), (4), (2)) }; int a; float b[4]; };
LIBFLATARRAY_REGISTER_SOA(Particle, ((int)(a))((float)(b)(4)))
struct streak { long origin[3]; long l; long length() const { return l; } };
int main() {
  soa_grid<Particle> g(6, 3, 2);
  for (int y = 0; y < 3; ++y) for (int x = 0; x < 6; ++x) { Particle c; c.a = 10 * y + x; for (int k = 0; k < 4; ++k) c.b[k] = 100 * k + c.a; g.set(x, y, 1, c); }
  streak s[2] = { {{1, 0, 1}, 3}, {{2, 2, 1}, 2} };
  std::vector<char> buf(5 * 20);
  g.save(s + 0, s + 2, &buf[0], std::size_t(5));
  int want[5] = {1, 2, 3, 22, 23};
  const float *b = reinterpret_cast<const float*>(&buf[5 * 4]);
  for (int k = 0; k < 4; ++k) for (int i = 0; i < 5; ++i) CHECK(b[5 * k + i] == 100 * k + want[i]);
  return 0; }
''','array members with at least three elements and a streak which is not the first','later streaks overwrite the elements of earlier ones in the packed buffer')
mk('v02-any-movemask','V02',[('detail/short_vec_avx_double_16.hpp',"""        return (0 == _mm256_testz_si256(
                    _mm256_castpd_si256(buf0),
                    _mm256_castpd_si256(buf0)));
""","""        return (0 == _mm256_testc_pd(_mm256_setzero_pd(), buf0)) ||
            (0 == _mm256_testz_si256(
                _mm256_castpd_si256(_mm256_and_pd(buf0, buf0)),
                _mm256_slli_epi64(_mm256_castpd_si256(buf0), 12)));
""" if 0 else """        return (0 == _mm256_testz_si256(
                    _mm256_castpd_si256(buf0),
                    _mm256_castps_si256(_mm256_set1_ps(-1.0f))));
""")],
H+'''int main() {
  for (int i = 0; i < 16; ++i) {
    double a[16] = {0};
    a[i] = 5e-324;
    short_vec<double, 16> v(a);
    CHECK(v.any());
    a[i] = 1.0; CHECK((short_vec<double, 16>(a)).any());
    a[i] = 0; CHECK(!(short_vec<double, 16>(a)).any());
    a[(i + 1) % 16] = -3; CHECK((short_vec<double, 16>(a) < short_vec<double, 16>(0.0)).any());
  }
  return 0; }
''','a vector whose only non-zero lanes are denormal numbers','any() misses such lanes',flags='-march=x86-64-v3')
