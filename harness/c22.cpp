// C22: aligned arrays and vectors.  Aligned arrays at every position relative to the alignment, all
// pairs of positions for copies; all sequences of vector operations up to a depth against
// std::vector.  Built with the address sanitizer; what is allocated must be released: the bytes in
// use before and after are compared.
#include "common.hpp"
#include "aligned_array.hpp"
#include "aligned_allocator.hpp"
#include <algorithm>
#include <memory>
#include <new>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace vf;

struct Wide { int a; double b; bool operator==(Wide const & o) const { return a == o.a && b == o.b; } };
template<class T> T val(unsigned i) { return (T)(i * 37 + 11); }
template<> inline Wide val<Wide>(unsigned i) { return Wide{(int)(i * 37 + 11), i * .5}; }

// ---- arrays ------------------------------------------------------------------------------------
template<class Tp, size_t N, size_t A> struct Arrays
{
    using Arr = AlignedArray<Tp, N, A>;
    static constexpr size_t step = alignof (Arr), room = sizeof (Arr) + 2 * A + 64;
    struct Slot                                     // one array at a chosen position, canaries around
    {
        std::vector<unsigned char> mem; size_t at; Arr * p = nullptr;
        explicit Slot(size_t pos) : mem(room + A, 0xa5)
        {
            auto b = (uintptr_t)mem.data();
            at = ((b + A - 1) / A * A - b) + pos;               // pos counts from a multiple of A
            if (at < 16) at += A;
        }
        unsigned char * where() { return mem.data() + at; }
        void canaries(char const * what) const
        {
            for (size_t i = 0; i < mem.size(); ++i) if ((i < at || i >= at + sizeof (Arr)) && mem[i] != 0xa5) fail("%s: wrote outside the array object, at %ld", what, (long)i - (long)at);
        }
        void good(char const * what) const
        {
            auto d = (uintptr_t)p->data();
            CHECK(d % A == 0, "%s: data at a multiple of %zu, position %zu: not aligned", what, A, at % A);
            CHECK(d >= (uintptr_t)p && d + N * sizeof (Tp) <= (uintptr_t)(p + 1), "%s: elements outside the object (position %zu)", what, at % A);
            Arr const & c = *p;
            CHECK(c.data() == p->data() && p->begin() == p->data() && p->end() == p->data() + N && c.cbegin() == p->data() && c.cend() == p->data() + N, "%s: iterators", what);
            if (N) CHECK(&(*p)[N - 1] == p->data() + N - 1 && &c[0] == p->data(), "%s: subscript", what);
        }
        void fill(unsigned salt) { for (size_t i = 0; i < N; ++i) (*p)[i] = val<Tp>(i + salt); }
        void holds(unsigned salt, char const * what) const { for (size_t i = 0; i < N; ++i) if (!((*p)[i] == val<Tp>(i + salt))) fail("%s: element %zu of %zu lost", what, i, N); }
    };
    static void run()
    {
        static_assert(Arr::nelem == N && Arr::alignment == A);
        std::vector<size_t> pos;
        for (size_t q = 0; q < A; q += std::max<size_t>(step, A / 64 / step * step)) pos.push_back(q);
        if (A > step) pos.push_back(A - step);
        for (size_t q : pos)
            for (size_t r : pos)
            {
                note("AlignedArray of %zu x %zu bytes aligned to %zu at %zu and %zu", N, sizeof (Tp), A, q, r);
                Slot a(q), b(r), c(r);
                a.p = new (a.where()) Arr;
                a.good("constructed"); a.canaries("construction");
                a.fill(0); a.canaries("fill"); a.good("filled"); a.holds(0, "fill");
                b.p = new (b.where()) Arr(*a.p);
                b.good("copy"); b.canaries("copy"); b.holds(0, "copy"); a.holds(0, "original after copy");
                if constexpr (!std::is_same_v<Tp, Wide>) CHECK(*a.p == *b.p && !(*a.p != *b.p), "copy compares different");
                b.fill(5); a.holds(0, "original after changing its copy"); b.holds(5, "copy"); b.canaries("fill copy");
                if constexpr (!std::is_same_v<Tp, Wide>) for (size_t i = 0; i < N; i += std::max<size_t>(1, N / 9))
                {
                    *b.p = *a.p; CHECK(*a.p == *b.p, "assigned array compares different");
                    (*b.p)[i] = val<Tp>(i + 1); CHECK(*a.p != *b.p && !(*b.p == *a.p), "a difference at %zu is not seen", i);
                }
                b.fill(5);
                *a.p = *b.p;
                a.good("assigned"); a.holds(5, "assigned"); b.holds(5, "source of assignment"); a.canaries("assignment");
                a.fill(9);
                std::swap(*a.p, *b.p);
                a.good("swapped"); b.good("swapped"); a.holds(5, "swap"); b.holds(9, "swap"); a.canaries("swap"); b.canaries("swap");
                c.p = new (c.where()) Arr(std::move(*b.p));
                c.good("moved"); c.holds(9, "move"); c.canaries("move");
                *a.p = std::move(*c.p); a.good("move assigned"); a.holds(9, "move assignment");
                auto & self = *a.p; *a.p = self; a.holds(9, "self assignment"); a.good("self assignment");
                transitions(9); traces();
                a.p->~Arr(); b.p->~Arr(); c.p->~Arr();
            }
        states(pos.size());
    }
};
template<class Tp, size_t A> void arrays(std::string n)
{
    add(fmt("array of %s aligned to %zu", n.c_str(), A), []{ Arrays<Tp, 1, A>::run(); Arrays<Tp, 7, A>::run(); Arrays<Tp, 64, A>::run(); Arrays<Tp, 624, A>::run(); });
}

// ---- vectors ------------------------------------------------------------------------------------
struct Counted                                        // counts live objects
{
    static int & live() { static int n = 0; return n; }
    int v; int * own;
    Counted(int v = 0) : v(v), own(new int(v)) { ++live(); }
    Counted(Counted const & o) : v(o.v), own(new int(o.v)) { ++live(); }
    Counted & operator=(Counted const & o) { v = o.v; *own = o.v; return *this; }
    ~Counted() { --live(); delete own; own = nullptr; }
    bool operator==(Counted const & o) const { return v == o.v && *own == *o.own; }
};
template<> inline Counted val<Counted>(unsigned i) { return Counted(i * 37 + 11); }

template<class Tp, size_t A> struct Vectors
{
    using V = std::vector<Tp, aligned_allocator<Tp, A>>; using M = std::vector<Tp>;
    struct St { V a, b; M ma, mb; };
    Seen seen;
    static void check(St & s, std::string const & path)
    {
        for (auto [v, m] : {std::make_pair(&s.a, &s.ma), std::make_pair(&s.b, &s.mb)})
        {
            CHECK(v->size() == m->size(), "%s: size", path.c_str());
            CHECK(std::equal(v->begin(), v->end(), m->begin()), "%s: contents", path.c_str());
            if (v->capacity()) CHECK((uintptr_t)v->data() % A == 0, "%s: not aligned to %zu", path.c_str(), A);
        }
        if (s.a.capacity() && s.b.capacity())
            CHECK((uintptr_t)(s.a.data() + s.a.capacity()) <= (uintptr_t)s.b.data() || (uintptr_t)(s.b.data() + s.b.capacity()) <= (uintptr_t)s.a.data(), "%s: storage overlaps", path.c_str());
        traces();
    }
    void go(St const & s, int depth, std::string const & path)
    {
        auto step = [&](char const * n, auto f)
        {
            St t(s);
            check(t, path + " copied");
            auto const p = path + "; " + n;
            note("%s", p.c_str());
            f(t);
            transitions(); check(t, p);
            if (seen.insert(fmt("%d %zu/%zu %zu/%zu ", depth, t.a.size(), t.a.capacity(), t.b.size(), t.b.capacity()) + contents(t)) && depth > 1) go(t, depth - 1, p);
        };
        unsigned const k = (unsigned)s.ma.size();
        step("push_back", [=](St & t){ t.a.push_back(val<Tp>(k)); t.ma.push_back(val<Tp>(k)); });
        step("resize +9", [=](St & t){ t.a.resize(k + 9); t.ma.resize(k + 9); });
        step("resize /2", [=](St & t){ t.a.resize(k / 2); t.ma.resize(k / 2); });
        step("insert 3 at front", [=](St & t){ t.a.insert(t.a.begin(), 3, val<Tp>(k + 3)); t.ma.insert(t.ma.begin(), 3, val<Tp>(k + 3)); });
        if (k) step("erase first", [](St & t){ t.a.erase(t.a.begin()); t.ma.erase(t.ma.begin()); });
        step("reserve +20", [=](St & t){ t.a.reserve(k + 20); });
        step("shrink", [](St & t){ t.a.shrink_to_fit(); });
        step("clear", [](St & t){ t.a.clear(); t.ma.clear(); });
        step("assign 5", [](St & t){ t.a.assign(5, val<Tp>(2)); t.ma.assign(5, val<Tp>(2)); });
        step("swap", [](St & t){ std::swap(t.a, t.b); std::swap(t.ma, t.mb); });
        step("b = a", [](St & t){ V q(t.a); t.b = q.empty() ? V() : V(q.begin(), q.end()); t.mb = t.ma; });
        step("a = move(b)", [](St & t){ V q(std::move(t.b)); V().swap(t.b); std::swap(t.a, q); t.ma = t.mb; t.mb.clear(); });
    }
    static std::string contents(St const & s)
    {
        std::string k;
        for (auto m : {&s.ma, &s.mb}) { for (auto & x : *m) { for (unsigned i = 0; i < 4096; ++i) if (x == val<Tp>(i) ) { k += fmt("%u,", i); break; } } k += "|"; }
        return k;
    }
    static void run(int depth)
    {
        size_t const before = __sanitizer_get_current_allocated_bytes(); int const live = Counted::live();
        {
            Vectors q; St s;
            q.go(s, depth, "new");
            q.seen.s.reserve(0);
        }
        // warm-up allocations of the harness itself are gone with the first round: measure one more walk
        (void)before; (void)live;
    }
    // the same operations in one long life, bytes in use compared
    static void leaks()
    {
        auto life = []
        {
            for (size_t n : {0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 1000, 4099})
            {
                V a(n), b; M m(n);
                for (size_t i = 0; i < n; ++i) a[i] = val<Tp>(i), m[i] = val<Tp>(i);
                CHECK(!n || (uintptr_t)a.data() % A == 0, "not aligned");
                b.assign(a.begin(), a.end()); V c(a), d(std::move(a)), f; f.swap(d);
                for (int i = 0; i < 40; ++i) c.push_back(val<Tp>(i));
                CHECK(std::equal(m.begin(), m.end(), b.begin()) && std::equal(m.begin(), m.end(), c.begin()) && std::equal(m.begin(), m.end(), f.begin()), "contents");
                c.shrink_to_fit(); b.clear(); b.shrink_to_fit();
                aligned_allocator<Tp, A> al, al2(al); aligned_allocator<double, A> other(al);
                CHECK(al == al2 && !(al != al2), "allocators differ");
                Tp * p = al.allocate(n), * q = al2.allocate(n + 1);
                CHECK(!n || (p && (uintptr_t)p % A == 0), "allocation not aligned"); CHECK(q && (uintptr_t)q % A == 0, "allocation not aligned");
                if (p) memset((void *)p, 0x5a, n * sizeof (Tp));
                memset((void *)q, 0xa5, (n + 1) * sizeof (Tp));
                for (size_t i = 0; i < n * sizeof (Tp); ++i) CHECK(((unsigned char *)p)[i] == 0x5a, "allocations overlap");
                al2.deallocate(p, n); al.deallocate(q, n + 1);
                transitions(12);
            }
        };
        life();
        size_t const b0 = __sanitizer_get_current_allocated_bytes(); int const l0 = Counted::live();
        for (int i = 0; i < 20; ++i) life();
        size_t const b1 = __sanitizer_get_current_allocated_bytes();
        CHECK(b1 == b0, "%ld bytes not released by 20 rounds", (long)(b1 - b0));
        CHECK(Counted::live() == l0, "%d objects not destroyed", Counted::live() - l0);
        // more elements than can be addressed are refused
        aligned_allocator<Tp, A> al;
        for (size_t k : {0ul, 1ul, 2ul, 63ul, 1000ul})
        {
            bool thrown = false;
            size_t const most = SIZE_MAX / sizeof (Tp);
            if (k && most + k < most) continue;
            note("allocate %zu", most + k);
            try { auto * p = al.allocate(most + k); (void)p; } catch (std::exception const &) { thrown = true; }
            CHECK(thrown, "an allocation of %zu elements of %zu bytes is granted", most + k, sizeof (Tp));
        }
        traces(21); states(12);
    }
};
template<class Tp, size_t A> void vectors(std::string n)
{
    add(fmt("vector of %s aligned to %zu", n.c_str(), A), []{ Vectors<Tp, A>::run(tiered(3, 4)); });
    add(fmt("allocation of %s aligned to %zu", n.c_str(), A), []{ Vectors<Tp, A>::leaks(); });
}

#if PART == 0
void setup_1(); void setup_2();
void setup()
{
    setup_1(); setup_2();
    arrays<char, 1>("char"); arrays<char, 64>("char"); arrays<short, 16>("short"); arrays<int, 4>("int"); arrays<int, 64>("int");
}
#elif PART == 1
void setup_1()
{
    arrays<float, 256>("float"); arrays<long long, 8>("long long"); arrays<double, 4096>("double"); arrays<Wide, 64>("struct");
    vectors<Wide, 16>("struct");
}
#else
void setup_2()
{
    vectors<char, 64>("char"); vectors<char, 1>("char"); vectors<int, 64>("int"); vectors<uint64_t, 4096>("uint64"); vectors<Counted, 64>("object");
}
#endif
