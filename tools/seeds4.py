import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk
H='''#include <libflatarray/flat_array.hpp>
#include <libflatarray/short_vec.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <vector>
using namespace LibFlatArray;
static std::atomic<int> wrong(0);
template<typename F> static int both(F f)
{
  auto end = std::chrono::steady_clock::now() + std::chrono::seconds(5);
  auto run = [&](int me) { while (!wrong && std::chrono::steady_clock::now() < end) for (int k = 0; k < 1000; ++k) if (!f(me, k)) { wrong = 1; return; } };
  std::thread t(run, 1); run(0); t.join();
  if (wrong) std::printf("threads interfered\\n");
  return wrong;
}
'''
CELL='''struct Particle { class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((16), (8), (1)) }; int a; double b[2]; };
LIBFLATARRAY_REGISTER_SOA(Particle, ((int)(a))((double)(b)(2)))
'''
mk('k01-save-scratch','K01',[('detail/soa_array_member_copy_helper.hpp',"""                copy_array_out<INDEX - 1, DUMMY>()(target, data, count, offset, stride);

                for (std::size_t i = 0; i < count; ++i) {
""","""                copy_array_out<INDEX - 1, DUMMY>()(target, data, count, offset, stride);

                // short rows are assembled in a block first, so that
                // reads and writes don't alternate:
                static const std::size_t BLOCK = 16;
                static MEMBER block[BLOCK];
                if (count <= BLOCK) {
                    for (std::size_t i = 0; i < count; ++i) {
                        block[i] = data[SIZE * (INDEX - 1) + i];
                    }
                    for (std::size_t i = 0; i < count; ++i) {
                        target[stride * (INDEX - 1) + offset + i] = block[i];
                    }
                    return;
                }

                for (std::size_t i = 0; i < count; ++i) {
""")],
H+CELL+'''int main() {
  soa_grid<Particle> g(12, 4, 1);
  for (int y = 0; y < 4; ++y) for (int x = 0; x < 12; ++x) { Particle c; c.a = 100 * y + x; c.b[0] = c.a + 0.25; c.b[1] = c.a + 0.5; g.set(x, y, 0, c); }
  const soa_grid<Particle>& cg = g;
  return both([&](int me, int) {
    std::vector<char> buf(12 * aggregated_member_size<Particle>::VALUE);
    cg.save(0, me, 0, &buf[0], 12);
    const double *b = reinterpret_cast<const double*>(&buf[12 * sizeof(int)]);
    for (int x = 0; x < 12; ++x) if (b[x] != 100 * me + x + 0.25 || b[12 + x] != 100 * me + x + 0.5) return false;
    return true; });
}
''','two threads saving rows of up to 16 cells of one grid (or of different grids) at the same time','rows saved by one thread contain array members of the row saved by the other',flags='-pthread')
mk('k01-vector-cache','K01',[('soa_vector.hpp',"""    void set(std::size_t index, const T& element)
    {
        grid.set(index, 0, 0, element);
""","""    void set(std::size_t index, const T& element)
    {
        recent_index = std::size_t(-1);
        grid.set(index, 0, 0, element);
"""),('soa_vector.hpp',"""        return grid.get(index, 0, 0);
""","""        // elements tend to be read repeatedly:
        if (recent_index != index) {
            recent = grid.get(index, 0, 0);
            recent_index = index;
        }
        return recent;
"""),('soa_vector.hpp',"""    void callback(FUNCTOR functor)
    {
""","""    void callback(FUNCTOR functor)
    {
        recent_index = std::size_t(-1);
"""),('soa_vector.hpp',"""    std::size_t count;

    // fixme: retrieval""","""    std::size_t count;
    mutable T recent;
    mutable std::size_t recent_index = std::size_t(-1);

    // fixme: retrieval""")],
H+CELL+'''int main() {
  soa_vector<Particle> v;
  for (int i = 0; i < 12; ++i) { Particle c; c.a = i; c.b[0] = i + 0.25; c.b[1] = i + 0.5; v.push_back(c); }
  const soa_vector<Particle>& cv = v;
  return both([&](int me, int k) {
    int i = (k + 5 * me) % 12;
    Particle c = cv.get(i);
    return c.a == i && c.b[0] == i + 0.25 && c.b[1] == i + 0.5; });
}
''','two threads reading different elements of one vector at the same time','a reader gets the element another thread just asked for',flags='-pthread')
mk('k01-scatter-lanes','K01',[('detail/short_vec_sse_float_8.hpp',"""        __m128 tmp = val[ 0];
        _mm_store_ss(ptr + offsets[0], tmp);
        tmp = _mm_shuffle_ps(tmp, tmp, _MM_SHUFFLE(0,3,2,1));
        _mm_store_ss(ptr + offsets[1], tmp);
        tmp = _mm_shuffle_ps(tmp, tmp, _MM_SHUFFLE(0,3,2,1));
        _mm_store_ss(ptr + offsets[2], tmp);
        tmp = _mm_shuffle_ps(tmp, tmp, _MM_SHUFFLE(0,3,2,1));
        _mm_store_ss(ptr + offsets[3], tmp);
        tmp = val[ 1];
        _mm_store_ss(ptr + offsets[4], tmp);
        tmp = _mm_shuffle_ps(tmp, tmp, _MM_SHUFFLE(0,3,2,1));
        _mm_store_ss(ptr + offsets[5], tmp);
        tmp = _mm_shuffle_ps(tmp, tmp, _MM_SHUFFLE(0,3,2,1));
        _mm_store_ss(ptr + offsets[6], tmp);
        tmp = _mm_shuffle_ps(tmp, tmp, _MM_SHUFFLE(0,3,2,1));
        _mm_store_ss(ptr + offsets[7], tmp);
""","""        static float lanes[ARITY];
        _mm_storeu_ps(lanes + 0, val[ 0]);
        _mm_storeu_ps(lanes + 4, val[ 1]);
        for (std::size_t i = 0; i < ARITY; ++i) {
            ptr[offsets[i]] = lanes[i];
        }
""")],
H+'''int main() {
  static const int offsets[8] = {7, 5, 3, 1, 0, 2, 4, 6};
  return both([&](int me, int k) {
    float in[8], out[8];
    for (int i = 0; i < 8; ++i) in[i] = me * 100000 + k * 10 + i;
    short_vec<float, 8> v(in);
    v.scatter(out, offsets);
    for (int i = 0; i < 8; ++i) if (out[offsets[i]] != in[i]) return false;
    return true; });
}
''','two threads scattering vectors at the same time, code built for plain SSE2','lanes of one thread\'s vector are scattered by the other',flags='-pthread')
mk('k01-load-pairs','K01',[('detail/soa_array_member_copy_helper.hpp',"""                copy_array_in<INDEX - 1, DUMMY>()(source, data, count, offset, stride);

                for (std::size_t i = 0; i < count; ++i) {
""","""                copy_array_in<INDEX - 1, DUMMY>()(source, data, count, offset, stride);

                // elements other than the last one have room to be
                // copied in pairs:
                if (INDEX > 1) {
                    const MEMBER *from = source + stride * (INDEX - 2) + offset;
                    MEMBER *to = data + SIZE * (INDEX - 2);
                    MEMBER behind = to[count];
                    for (std::size_t i = 0; i < count; i += 2) {
                        to[i + 0] = from[i + 0];
                        to[i + 1] = from[i + 1];
                    }
                    if (count % 2) {
                        to[count] = behind;
                    }
                }

                for (std::size_t i = 0; i < count; ++i) {
""")],
H+CELL+'''int main() {
  soa_grid<Particle> g(12, 4, 1);
  return both([&](int me, int k) {
    double v = 10 * k + me; // one packed cell: a, b[0], b[1]
    char buf[20]; int a = k; double b[2] = {v, v + 1};
    __builtin_memcpy(buf, &a, 4); __builtin_memcpy(buf + 4, b, 16);
    static volatile int one = 1;
    g.load(5 + me, 2, 0, buf, one);
    Particle d = g.get(5 + me, 2, 0);
    return d.a == k && d.b[0] == v && d.b[1] == v + 1; });
}
''','two threads loading rows next to each other, with an odd number of cells, into one grid at the same time','the thread that loads the left row writes an outdated value of the first cell of the right one back',flags='-pthread')
