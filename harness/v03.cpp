// V03: loads, stores, constructors
#include "v.hpp"

// a stream which records the values printed
struct recorder;
struct rec_traits : public std::char_traits<char> {};
namespace std {
template<>
class basic_ostream<char, rec_traits>
{
public:
    basic_ostream() : n(0) {}
    double d[40];
    int n;
    basic_ostream& operator<<(const char *) { return *this; }
    basic_ostream& operator<<(char) { return *this; }
    basic_ostream& operator<<(float x) { if (n < 40) d[n] = x; ++n; return *this; }
    basic_ostream& operator<<(double x) { if (n < 40) d[n] = x; ++n; return *this; }
    basic_ostream& operator<<(int x) { if (n < 40) d[n] = x; ++n; return *this; }
};
}

template<typename V, typename T, std::size_t... I>
V from_list(const T *a, std::index_sequence<I...>)
{
    std::initializer_list<T> il = {a[I]...};
    return V(il);
}

// pointers aligned for the element type only
template<typename T, std::size_t N>
void moves()
{
    typedef short_vec<T, N> V;
    T *p = reinterpret_cast<T*>(vc_block(N, sizeof(T), sizeof(T), "p"));
    T *q = reinterpret_cast<T*>(vc_block(N, sizeof(T), 3 * sizeof(T), "q"));
    T a[N];
    for (std::size_t i = 0; i < N; ++i) a[i] = p[i];
    V v;
    for (std::size_t i = 0; i < N; ++i) q[i] = T(1);
    v.store(q);
    for (std::size_t i = 0; i < N; ++i) same(q[i], T(0), "default constructor");
    v.load(p);
    v.store(q);
    for (std::size_t i = 0; i < N; ++i) same(q[i], a[i], "load, store");
    for (std::size_t i = 0; i < N; ++i) same(p[i], a[i], "source unchanged");
    for (std::size_t i = 0; i < N; ++i) q[i] = T(1);
    V w(p);
    q << w;
    for (std::size_t i = 0; i < N; ++i) same(q[i], a[i], "construct from memory, operator<<");
    V x(w);
    lanes<T, N>(x, a, "copy");
    V y;
    y = w;
    lanes<T, N>(y, a, "assign");
    V z(from_list<V, T>(a, std::make_index_sequence<N>()));
    lanes<T, N>(z, a, "initializer list");
    V s(a[0]);
    for (std::size_t i = 0; i < N; ++i) q[i] = a[0];
    lanes<T, N>(s, q, "broadcast");
    vc_ensures(V::size() == N && V::ARITY == N, "size");
    vc_cover("end");
}
VC_MATRIX(moves)

// pointers with just the documented alignment
template<typename T, std::size_t N>
void aligned()
{
    typedef short_vec<T, N> V;
    const std::size_t al = V::strategy::template alignment<T>::ALIGNMENT;
    T *p = reinterpret_cast<T*>(vc_block(N, sizeof(T), al, "p"));
    T *q = reinterpret_cast<T*>(vc_block(N, sizeof(T), al, "q"));
    T a[N];
    for (std::size_t i = 0; i < N; ++i) a[i] = p[i];
    V v;
    v.load_aligned(p);
    v.store_aligned(q);
    for (std::size_t i = 0; i < N; ++i) same(q[i], a[i], "load_aligned, store_aligned");
    for (std::size_t i = 0; i < N; ++i) q[i] = T(1);
    v.store_nt(q);
    for (std::size_t i = 0; i < N; ++i) same(q[i], a[i], "store_nt");
    for (std::size_t i = 0; i < N; ++i) same(p[i], a[i], "source unchanged");
    lanes<T, N>(v, a, "vector unchanged");
    vc_ensures(al >= sizeof(T) && al <= 64 && (al & (al - 1)) == 0, "documented alignment");
    vc_cover("end");
}
VC_MATRIX(aligned)

// streaming vectors: same lanes, same memory effect
template<typename T, std::size_t N>
void streaming()
{
    typedef short_vec<T, N> V;
    typedef streaming_short_vec<T, N> S;
    const std::size_t al = V::strategy::template alignment<T>::ALIGNMENT;
    T *p = reinterpret_cast<T*>(vc_block(N, sizeof(T), sizeof(T), "p"));
    T *q = reinterpret_cast<T*>(vc_block(N, sizeof(T), al, "q"));
    T a[N];
    for (std::size_t i = 0; i < N; ++i) a[i] = p[i];
    S s(p);
    lanes<T, N>(s, a, "construct from memory");
    s.store(q);
    for (std::size_t i = 0; i < N; ++i) same(q[i], a[i], "store");
    for (std::size_t i = 0; i < N; ++i) q[i] = T(1);
    s.store_aligned(q);
    for (std::size_t i = 0; i < N; ++i) same(q[i], a[i], "store_aligned");
    for (std::size_t i = 0; i < N; ++i) q[i] = T(1);
    q << s;
    for (std::size_t i = 0; i < N; ++i) same(q[i], a[i], "operator<<");
    S t(V(a[0]) + V(p));
    T w[N];
    for (std::size_t i = 0; i < N; ++i) w[i] = a[0] + a[i];
    lanes<T, N>(t, w, "from expression");
    t.load(p);
    lanes<T, N>(t, a, "load");
    S u(a[0]);
    for (std::size_t i = 0; i < N; ++i) w[i] = a[0];
    lanes<T, N>(u, w, "broadcast");
    S z(from_list<S, T>(a, std::make_index_sequence<N>()));
    lanes<T, N>(z, a, "initializer list");
    vc_cover("end");
}
VC_MATRIX(streaming)

// output lists the lanes in order
template<typename T, std::size_t N>
void printing()
{
    typedef short_vec<T, N> V;
    T a[N];
    vc_array(a, N, sizeof(T), "a");
    const V v(a);
    std::basic_ostream<char, rec_traits> os;
    os << v;
    vc_ensures(os.n == int(N), "prints every lane once");
    for (std::size_t i = 0; i < N; ++i) same(os.d[i], double(a[i]), "prints the lanes in order");
    vc_cover("end");
}
VC_MATRIX(printing)
