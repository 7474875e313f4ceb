// T01: vector type selection
#include "v.hpp"
#include <type_traits>
#include <libflatarray/loop_peeler.hpp>

#if defined(__AVX512F__)
static const std::size_t REG = 64;
#elif defined(__AVX__)
static const std::size_t REG = 32;
#else
static const std::size_t REG = 16;
#endif

// the lanes of a vector type, by using them
template<typename V, typename T, std::size_t N, bool OK>
struct lanes_of
{
    static void go(const char *l)
    {
        T a[N], r[N];
        vc_array(a, N, sizeof(T), "a");
        V v(a);
        v.short_vec<T, N>::store(r);
        for (std::size_t i = 0; i < N; ++i) same(r[i], a[i], l);
        vc_ensures(std::size_t(V::ARITY) == N, l);
        vc_ensures(V::size() == N, l);
        bool s = sizeof(V) == N * sizeof(T);
        vc_ensures(s, l);
    }
};
template<typename V, typename T, std::size_t N>
struct lanes_of<V, T, N, false> { static void go(const char *) {} };
// V is a vector of N elements T
template<typename V, typename T, std::size_t N>
void shape(const char *l)
{
    const bool ok = std::is_base_of<short_vec<T, N>, V>::value;
    bool b = ok;
    vc_ensures(b, l);
    lanes_of<V, T, N, ok>::go(l);
}
constexpr bool supported(std::size_t n) { return n == 1 || n == 2 || n == 4 || n == 8 || n == 16 || n == 32; }

// N times the native register
template<typename T, std::size_t N>
void ilp()
{
    typedef ilp_to_arity<T, N> S;
    vc_ensures(S::ARITY == N * REG / sizeof(T), "instruction level parallelism in native registers");
    vc_ensures(S::ARITY >= 1, "at least one lane");
    const std::size_t M = supported(S::ARITY) ? S::ARITY : 1;
    lanes_of<short_vec<T, M>, T, M, supported(S::ARITY)>::go("vector of the chosen arity");
    vc_cover("end");
}
VC_MATRIX(ilp)

template<typename T, std::size_t N>
void sibling()
{
    typedef short_vec<T, N> V;
    typedef streaming_short_vec<T, N> S;
    typedef typename detail::flat_array::sibling_short_vec_switch<V, 1>::VALUE V1;
    typedef typename detail::flat_array::sibling_short_vec_switch<S, 1>::VALUE S1;
    typedef typename detail::flat_array::sibling_short_vec_switch<V, 8>::VALUE V8;
    shape<V1, T, 1>("scalar sibling");
    shape<S1, T, 1>("scalar sibling of a streaming vector");
    shape<V8, T, 8>("sibling with eight lanes");
    bool b = std::is_base_of<short_vec<T, 1>, S1>::value && std::is_same<V1, short_vec<T, 1> >::value && !std::is_same<S1, V1>::value;
    vc_ensures(b, "the sibling is of the same kind");
    shape<S, T, N>("streaming vector");
    vc_cover("end");
}
VC_MATRIX(sibling)

template<typename ELEM, long PROD>
struct fake_accessor
{
    typedef ELEM element_type;
    static const long DIM_PROD = PROD;
};
struct big { double a[8]; };
struct odd { char a[48]; };
struct huge { char a[3000]; };

template<typename T, typename ELEM, long PROD, int UNROLL, int CACHE>
void estimate_one(bool streaming)
{
    typedef typename estimate_optimum_short_vec_type<T, fake_accessor<ELEM, PROD>, UNROLL, CACHE>::VALUE V;
    const std::size_t N = UNROLL * REG / sizeof(T);
    shape<V, T, N>("estimated vector type");
    bool isS = std::is_same<V, streaming_short_vec<T, N> >::value;
    bool isV = std::is_same<V, short_vec<T, N> >::value;
    vc_ensures(isS == streaming, "streaming exactly for data sets beyond the cache");
    vc_ensures(isV == !streaming, "plain vector for data sets which fit the cache");
}
template<typename T, std::size_t N>
void estimate()
{
    estimate_one<T, T, 1, 1, 1024>(false);
    estimate_one<T, T, 1024 / sizeof(T) - 1, 1, 1024>(false);
    estimate_one<T, T, 1024 / sizeof(T), 1, 1024>(true);
    estimate_one<T, T, 1 << 20, 1, 1024>(true);
    estimate_one<T, big, 15, 1, 1024>(false);
    estimate_one<T, big, 16, 1, 1024>(true);
    estimate_one<T, odd, 20, 1, 1024>(false);
    estimate_one<T, odd, 21, 1, 1024>(false);   // 1008 bytes
    estimate_one<T, odd, 22, 1, 1024>(true);    // 1056 bytes
    estimate_one<T, odd, 20, 1, 1000>(false);   // a cache size which is no power of two
    estimate_one<T, odd, 21, 1, 1000>(true);
    estimate_one<T, char, 1023, 1, 1024>(false);
    estimate_one<T, char, 1024, 1, 1024>(true);
    estimate_one<T, big, (1l << 28), 2, (1 << 25)>(true);
    estimate_one<T, big, (1 << 19) - 1, 2, (1 << 25)>(false);
    estimate_one<T, big, (1 << 19), 2, (1 << 25)>(true);
    estimate_one<T, big, (1l << 33), 2, (1 << 25)>(true);
    typedef typename estimate_optimum_short_vec_type<T, fake_accessor<big, 1 << 19> >::VALUE D;
    typedef typename estimate_optimum_short_vec_type<T, fake_accessor<big, (1 << 19) - 1> >::VALUE E;
    const std::size_t M = 2 * REG / sizeof(T);
    bool d = std::is_same<D, streaming_short_vec<T, M> >::value;
    bool e = std::is_same<E, short_vec<T, M> >::value;
    vc_ensures(d && e, "default cache size and unrolling");
    vc_cover("end");
}
template<typename T>
void estimate_single()
{
    estimate_one<T, huge, 1, 1, 1024>(true);    // a single element beyond the cache
    estimate_one<T, huge, 1, 1, 4096>(false);
    estimate_one<T, huge, 2, 1, 4096>(true);
    vc_cover("end");
}
VC_HARNESS(estimate_float) { estimate<float, 1>(); vc_cover("end"); }
VC_HARNESS(estimate_double) { estimate<double, 1>(); vc_cover("end"); }
VC_HARNESS(estimate_int) { estimate<int, 1>(); vc_cover("end"); }
VC_HARNESS(estimate_single_float) { estimate_single<float>(); vc_cover("end"); }
VC_HARNESS(estimate_single_double) { estimate_single<double>(); vc_cover("end"); }
VC_HARNESS(estimate_single_int) { estimate_single<int>(); vc_cover("end"); }
