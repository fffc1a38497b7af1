// Stand-in for the Kokkos API this repository uses: one thread, host memory, row-major views.
// The analyser takes only the declarations (names and types) from it and has its own model of each
// of them (engine/kokkos.py); the bodies exist so that the demonstrations can also compile against it.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline

namespace Kokkos {

struct HostSpace {};
struct SharedSpace {};
struct Serial {};
using DefaultExecutionSpace = Serial;
using DefaultHostExecutionSpace = Serial;
struct LayoutRight {};
struct LayoutLeft {};
struct LayoutStride {};
enum MemoryTraitsFlags { Unmanaged = 1, RandomAccess = 2, Atomic = 4 };
template <unsigned T> struct MemoryTraits {};
using MemoryUnmanaged = MemoryTraits<Unmanaged>;
struct ALL_t {};
inline constexpr ALL_t ALL{};
struct AUTO_t {};
inline constexpr AUTO_t AUTO{};
struct WithoutInitializing_t {};
inline constexpr WithoutInitializing_t WithoutInitializing{};
struct SequentialHostInit_t {};
inline constexpr SequentialHostInit_t SequentialHostInit{};

struct AllocProp { std::string label; };
template <class... A> AllocProp view_alloc(A const&...) { return {}; }
struct ScratchHandle {};

namespace Impl {
template <class D> struct Data { using value = D; static constexpr int rank = 0; };
template <class D> struct Data<D*> { using value = typename Data<D>::value; static constexpr int rank = Data<D>::rank + 1; };
template <class A> inline constexpr bool is_view = false;
}

template <class D, class... P> class View {
public:
    using value_type = typename Impl::Data<D>::value;
    using non_const = std::remove_const_t<value_type>;
    static constexpr int rank = Impl::Data<D>::rank;
    struct traits { using execution_space = DefaultExecutionSpace; };
    using HostMirror = View;
    using reference_type = value_type&;

    View() { clear(); }
    template <class... N> explicit View(std::string, N... n) { make({size_t(n)...}); }
    template <class... N> explicit View(const char*, N... n) { make({size_t(n)...}); }
    template <class... N> explicit View(AllocProp, N... n) { make({size_t(n)...}); }
    template <class... N> explicit View(ScratchHandle, N... n) { make({size_t(n)...}); }
    template <class... N> explicit View(value_type* q, N... n) { shape({size_t(n)...}); p = q; }
    template <class D2, class... P2> View(const View<D2, P2...>& o) { take(o); }
    template <class D2, class... P2> View& operator=(const View<D2, P2...>& o) { take(o); return *this; }

    template <class... I> reference_type operator()(I... i) const { return p[index({(long)i...})]; }
    template <class I> reference_type operator[](I i) const { return p[(long)i * s[0]]; }
    size_t extent(int d) const { return e[d]; }
    size_t size() const { size_t n = 1; for (int d = 0; d < rank; ++d) n *= e[d]; return n; }
    size_t span() const { return size(); }
    value_type* data() const { return p; }
    bool is_allocated() const { return p != nullptr; }

    size_t index(std::initializer_list<long> i) const {
        size_t k = 0; int d = 0;
        for (long x : i) {
            if (x < 0 || x >= (long)e[d]) throw std::out_of_range("Kokkos::View index");
            k += x * s[d++];
        }
        return k;
    }
    void clear() { p = nullptr; e.fill(0); s.fill(0); keep.reset(); }
    void shape(std::vector<size_t> n) {
        e.fill(0); s.fill(0);
        for (int d = 0; d < rank; ++d) e[d] = d < (int)n.size() ? n[d] : 1;
        size_t q = 1;
        for (int d = rank - 1; d >= 0; --d) { s[d] = q; q *= e[d]; }
    }
    void make(std::vector<size_t> n) {
        shape(n);
        auto v = std::make_shared<std::vector<non_const>>(size());
        p = v->data(); keep = v;
    }
    template <class V> void take(const V& o) {
        p = o.p; keep = o.keep;
        for (int d = 0; d < rank; ++d) { e[d] = o.e[d]; s[d] = o.s[d]; }
    }
    value_type* p;
    std::array<size_t, 8> e, s;
    std::shared_ptr<void> keep;
};
namespace Impl { template <class D, class... P> inline constexpr bool is_view<View<D, P...>> = true; }

template <class D, class... P, class... N> void realloc(View<D, P...>& v, N... n) { v.make({size_t(n)...}); }
template <class D, class... P, class... N> void realloc(WithoutInitializing_t, View<D, P...>& v, N... n) { v.make({size_t(n)...}); }

namespace Impl {
template <int R, class F> void each(const std::array<size_t, 8>& e, F f) {
    std::array<size_t, 8> i{};
    size_t n = 1;
    for (int d = 0; d < R; ++d) n *= e[d];
    for (size_t q = 0; q < n; ++q) {
        size_t t = q;
        for (int d = R - 1; d >= 0; --d) { i[d] = t % e[d]; t /= e[d]; }
        f(i);
    }
}
template <class V> auto& at(const V& v, const std::array<size_t, 8>& i) {
    size_t k = 0;
    for (int d = 0; d < V::rank; ++d) k += i[d] * v.s[d];
    return v.p[k];
}
}

template <class D, class... P, class... N> void resize(View<D, P...>& v, N... n) {
    View<D, P...> o = v;
    v.make({size_t(n)...});
    std::array<size_t, 8> m{};
    for (int d = 0; d < v.rank; ++d) m[d] = std::min(v.e[d], o.e[d]);
    Impl::each<View<D, P...>::rank>(m, [&](auto& i) { Impl::at(v, i) = Impl::at(o, i); });
}

template <class D, class... P, class D2, class... P2> void deep_copy(const View<D, P...>& a, const View<D2, P2...>& b) {
    for (int d = 0; d < a.rank; ++d) if (a.e[d] != b.e[d]) throw std::runtime_error("deep_copy: extents do not match");
    Impl::each<View<D, P...>::rank>(a.e, [&](auto& i) { Impl::at(a, i) = Impl::at(b, i); });
}
template <class D, class... P> void deep_copy(const View<D, P...>& a, const typename View<D, P...>::non_const& x) {
    Impl::each<View<D, P...>::rank>(a.e, [&](auto& i) { Impl::at(a, i) = x; });
}

template <class D, class... P> View<D, P...> create_mirror_view(const View<D, P...>& v) { return v; }
template <class S, class D, class... P> View<D, P...> create_mirror_view_and_copy(S const&, const View<D, P...>& v) { return v; }

template <class A, class B> std::pair<A, B> make_pair(A a, B b) { return {a, b}; }

namespace Impl {
template <class T, int R> struct Stars { using type = typename Stars<T, R - 1>::type*; };
template <class T> struct Stars<T, 0> { using type = T; };
template <class A> inline constexpr int keeps = std::is_integral_v<A> ? 0 : 1;
template <class V> void slice(size_t&, V&, int, int) {}
template <class V, class W> void cut(const V& v, W& w, int d, int& o, size_t& off, ALL_t) { w.e[o] = v.e[d]; w.s[o++] = v.s[d]; }
template <class V, class W, class A, class B> void cut(const V& v, W& w, int d, int& o, size_t& off, std::pair<A, B> r) {
    if (r.first < 0 || r.second < r.first || (size_t)r.second > v.e[d]) throw std::out_of_range("Kokkos::subview");
    off += r.first * v.s[d]; w.e[o] = r.second - r.first; w.s[o++] = v.s[d];
}
template <class V, class W, class I, class = std::enable_if_t<std::is_integral_v<I>>> void cut(const V& v, W& w, int d, int& o, size_t& off, I i) {
    if (i < 0 || (size_t)i >= v.e[d]) throw std::out_of_range("Kokkos::subview");
    off += i * v.s[d];
}
}
template <class D, class... P, class... A>
auto subview(const View<D, P...>& v, A... a) {
    using T = typename View<D, P...>::value_type;
    View<typename Impl::Stars<T, (Impl::keeps<A> + ...)>::type, LayoutRight> w;
    int d = 0, o = 0;
    size_t off = 0;
    (Impl::cut(v, w, d++, o, off, a), ...);
    w.p = v.p + off;
    w.keep = v.keep;
    return w;
}

// ---- execution
template <class... P> struct RangePolicy {
    size_t b, n;
    RangePolicy(size_t b, size_t n) : b(b), n(n) {}
};
enum class Iterate { Default, Left, Right };
template <unsigned N, Iterate A = Iterate::Default, Iterate B = Iterate::Default> struct Rank { static constexpr unsigned rank = N; };
template <class R, class... P> struct MDRangePolicy {
    static constexpr int rank = R::rank;
    std::array<long, R::rank> b, n;
    MDRangePolicy(std::array<long, R::rank> b, std::array<long, R::rank> n) : b(b), n(n) {}
    template <class A, class B> MDRangePolicy(std::initializer_list<A> b_, std::initializer_list<B> n_) { std::copy(b_.begin(), b_.end(), b.begin()); std::copy(n_.begin(), n_.end(), n.begin()); }
};
struct ScratchRequest {};
template <class I> ScratchRequest PerTeamSize(I) { return {}; }
struct TeamMember {
    int rank, size;
    int league_rank() const { return rank; }
    int league_size() const { return size; }
    int team_rank() const { return 0; }
    int team_size() const { return 1; }
    void team_barrier() const {}
    ScratchHandle team_scratch(int) const { return {}; }
};
struct PerTeam_t { PerTeam_t(const TeamMember&) {} PerTeam_t(size_t) {} };
struct PerThread_t { PerThread_t(const TeamMember&) {} PerThread_t(size_t) {} };
inline PerTeam_t PerTeam(const TeamMember& m) { return {m}; }
inline PerTeam_t PerTeam(size_t n) { return {n}; }
inline PerThread_t PerThread(const TeamMember& m) { return {m}; }
inline PerThread_t PerThread(size_t n) { return {n}; }
template <class... P> struct TeamPolicy {
    using member_type = TeamMember;
    int n;
    template <class A> TeamPolicy(int n, A) : n(n) {}
    template <class A, class B> TeamPolicy(int n, A, B) : n(n) {}
    template <class A> TeamPolicy& set_scratch_size(int, A) { return *this; }
    template <class A, class B> TeamPolicy& set_scratch_size(int, A, B) { return *this; }
};
struct TeamRange { long b, n; };
struct TeamThreadRange_t : TeamRange {};
struct TeamVectorRange_t : TeamRange {};
struct ThreadVectorRange_t : TeamRange {};
template <class I> TeamThreadRange_t TeamThreadRange(const TeamMember&, I n) { return {{0, (long)n}}; }
template <class I, class J> TeamThreadRange_t TeamThreadRange(const TeamMember&, I b, J n) { return {{(long)b, (long)n}}; }
template <class I> TeamVectorRange_t TeamVectorRange(const TeamMember&, I n) { return {{0, (long)n}}; }
template <class I, class J> TeamVectorRange_t TeamVectorRange(const TeamMember&, I b, J n) { return {{(long)b, (long)n}}; }
template <class I> ThreadVectorRange_t ThreadVectorRange(const TeamMember&, I n) { return {{0, (long)n}}; }
template <class I, class J> ThreadVectorRange_t ThreadVectorRange(const TeamMember&, I b, J n) { return {{(long)b, (long)n}}; }
template <class R, class M> struct TeamVectorMDRange {
    long n0, n1;
    template <class I, class J> TeamVectorMDRange(const M&, I a, J b) : n0(a), n1(b) {}
};
template <class R, class M> struct TeamThreadMDRange {
    long n0, n1;
    template <class I, class J> TeamThreadMDRange(const M&, I a, J b) : n0(a), n1(b) {}
};

namespace Impl {
template <class N, class F, class = std::enable_if_t<std::is_integral_v<N>>> void run(N n, F&& f) { for (long i = 0; i < (long)n; ++i) f(i); }
template <class... P, class F> void run(const RangePolicy<P...>& r, F&& f) { for (long i = r.b; i < (long)r.n; ++i) f(i); }
template <class F> void run(const TeamRange& r, F&& f) { for (long i = r.b; i < r.n; ++i) f(i); }
template <class... P, class F> void run(const TeamPolicy<P...>& r, F&& f) { for (int i = 0; i < r.n; ++i) f(TeamMember{i, r.n}); }
template <class R, class M, class F> void run(const TeamVectorMDRange<R, M>& r, F&& f) { for (long i = 0; i < r.n0; ++i) for (long j = 0; j < r.n1; ++j) f(i, j); }
template <class R, class M, class F> void run(const TeamThreadMDRange<R, M>& r, F&& f) { for (long i = 0; i < r.n0; ++i) for (long j = 0; j < r.n1; ++j) f(i, j); }
template <class R, class... P, class F> void run(const MDRangePolicy<R, P...>& r, F&& f) {
    if constexpr (R::rank == 2) { for (long i = r.b[0]; i < r.n[0]; ++i) for (long j = r.b[1]; j < r.n[1]; ++j) f(i, j); }
    else if constexpr (R::rank == 3) { for (long i = r.b[0]; i < r.n[0]; ++i) for (long j = r.b[1]; j < r.n[1]; ++j) for (long k = r.b[2]; k < r.n[2]; ++k) f(i, j, k); }
    else { for (long i = r.b[0]; i < r.n[0]; ++i) for (long j = r.b[1]; j < r.n[1]; ++j) for (long k = r.b[2]; k < r.n[2]; ++k) for (long l = r.b[3]; l < r.n[3]; ++l) f(i, j, k, l); }
}
}
template <class R, class F> void parallel_for(const R& r, const F& f) { Impl::run(r, f); }
template <class R, class F> void parallel_for(const char*, const R& r, const F& f) { Impl::run(r, f); }
template <class R, class F> void parallel_for(const std::string&, const R& r, const F& f) { Impl::run(r, f); }
template <class R, class F, class... S, class = std::enable_if_t<(std::is_arithmetic_v<S> && ...)>> void parallel_reduce(const R& r, const F& f, S&... s) {
    ((s = 0), ...);
    Impl::run(r, [&](const auto&... i) { f(i..., s...); });
}
template <class R, class F, class... S, class = std::enable_if_t<(std::is_arithmetic_v<S> && ...)>> void parallel_reduce(const char*, const R& r, const F& f, S&... s) { parallel_reduce(r, f, s...); }
template <class N, class F> void parallel_scan(const char*, N n, const F& f) { int u = 0; for (N i = 0; i < n; ++i) f(i, u, true); }
template <class N, class F> void parallel_scan(N n, const F& f) { int u = 0; for (N i = 0; i < n; ++i) f(i, u, true); }
template <class P, class F> void single(const P&, const F& f) { f(); }
template <class P, class F, class T> void single(const P&, const F& f, T& t) { f(t); }
inline void fence() {}
inline void fence(const std::string&) {}
template <class T, class U> void atomic_add(T* p, U x) { *p += x; }
template <class T, class U> void atomic_sub(T* p, U x) { *p -= x; }
template <class T> void atomic_inc(T* p) { ++*p; }
template <class T> void atomic_increment(T* p) { ++*p; }
template <class T, class U> T atomic_fetch_add(T* p, U x) { T t = *p; *p += x; return t; }
template <class T, class U> void atomic_store(T* p, U x) { *p = x; }
using std::exp;
using std::pow;
using std::sqrt;
using std::abs;
using std::fabs;
using std::min;
using std::max;

struct InitializationSettings {
    InitializationSettings& set_num_threads(int) { return *this; }
    InitializationSettings& set_disable_warnings(bool) { return *this; }
    InitializationSettings& set_map_device_id_by(const std::string&) { return *this; }
};
inline bool& running() { static bool b = false; return b; }
inline void initialize() { running() = true; }
inline void initialize(const InitializationSettings&) { running() = true; }
inline void finalize() { running() = false; }
inline bool is_initialized() { return running(); }
}

namespace KokkosBatched {
struct Trans { struct Transpose {}; struct NoTranspose {}; };
struct Algo { struct Gemm { struct Blocked {}; struct Unblocked {}; }; struct Gemv { struct Blocked {}; struct Unblocked {}; }; };
template <class... T> struct Done { operator int() const { return 0; } };     // carries the operation's flavour in the call's type
template <class M, class TA, class TB, class A> struct TeamGemm {
    template <class S, class VA, class VB, class VC> static Done<M, TA, TB> invoke(const M&, S alpha, const VA& a, const VB& b, S beta, const VC& c) {
        constexpr bool ta = std::is_same_v<TA, Trans::Transpose>, tb = std::is_same_v<TB, Trans::Transpose>;
        size_t m = c.extent(0), n = c.extent(1), k = ta ? a.extent(0) : a.extent(1);
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j < n; ++j) {
                double t = 0;
                for (size_t q = 0; q < k; ++q) t += (ta ? a(q, i) : a(i, q)) * (tb ? b(j, q) : b(q, j));
                c(i, j) = (beta == 0 ? 0 : beta * c(i, j)) + alpha * t;
            }
        return {};
    }
};
}
namespace KokkosBlas {
template <class T, class A> struct SerialGemv {
    template <class S, class VA, class VX, class VY> static KokkosBatched::Done<T> invoke(S alpha, const VA& a, const VX& x, S beta, const VY& y) {
        constexpr bool t = std::is_same_v<T, KokkosBatched::Trans::Transpose>;
        for (size_t i = 0; i < y.extent(0); ++i) {
            double s = 0;
            for (size_t q = 0; q < x.extent(0); ++q) s += (t ? a(q, i) : a(i, q)) * x(q);
            y(i) = (beta == 0 ? 0 : beta * y(i)) + alpha * s;
        }
        return {};
    }
};
template <class X, class Y> auto dot(const X& x, const Y& y) {
    typename X::non_const s = 0;
    for (size_t i = 0; i < x.extent(0); ++i) s += x(i) * y(i);
    return s;
}
}
