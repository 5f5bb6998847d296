// C31: results (Either, Maybe).  Every program of operations up to a length is run on real results whose
// payloads count their lives, and on a model (side, value); what the functions passed in get, what comes
// out, what is left behind, and that nothing is lost, doubled or destroyed twice is compared.
#include "common.hpp"
#include "either.hpp"
#include "neither/lift.hpp"
#include "neither/try.hpp"
#include <optional>
#include <utility>
#include <variant>
using namespace vf;

// payloads -----------------------------------------------------------------------------------
static std::set<void const *> g_live; static long g_copies = 0;
template<int Tag, bool Copyable> struct Tok
{
    int v; int * heap;      // an own allocation, so that the address sanitizer sees double or missing releases
    explicit Tok(int v) : v(v), heap(new int(v)) { born(); }
    Tok(Tok const & o) : v(o.v), heap(o.heap ? new int(*o.heap) : nullptr) { static_assert(Copyable || Tag < 0, "copied"); o.alive(); ++g_copies; born(); }
    Tok(Tok && o) : v(o.v), heap(o.heap) { o.alive(); o.v = -1; o.heap = nullptr; born(); }
    Tok & operator=(Tok const &) = delete;
    ~Tok() { CHECK_(g_live.erase(this) == 1); delete heap; }
    void born() { CHECK_(g_live.insert(this).second); }
    void alive() const { CHECK_(g_live.count(this)); }
    static void CHECK_(bool b) { if (!b) { fprintf(stderr, "a value was used while it was not alive\n"); abort(); } }
    int get() const { alive(); return heap ? *heap == v ? v : -2 : -1; }
    bool operator==(Tok const & o) const { return get() == o.get(); }
};
template<int Tag> struct Only : Tok<Tag, true>
{
    using B = Tok<Tag, true>;
    explicit Only(int v) : B(v) { }
    Only(Only const &) = delete; Only(Only &&) = default;
};
// larger, more aligned, and trivial ones
template<int Tag> struct Wide : Tok<Tag, true> { using B = Tok<Tag, true>; char pad[200] = {}; explicit Wide(int v) : B(v) { pad[v & 127] = 1; } };
template<int Tag> struct alignas(64) Aligned : Tok<Tag, true> { using B = Tok<Tag, true>; explicit Aligned(int v) : B(v) { } };
struct Plain { int v; explicit Plain(int v) : v(v) { } int get() const { return v; } bool operator==(Plain const & o) const { return v == o.v; } };
template<class X> struct IsOnly : std::false_type { };
template<int T> struct IsOnly<Only<T>> : std::true_type { };

using neither::Either; using neither::Maybe;
struct Val { bool left; int v; bool operator==(Val const & o) const { return left == o.left && v == o.v; } };
template<class L, class R> Val peek(Either<L, R> const & e) { return e.isLeft ? Val{true, e.leftValue.get()} : Val{false, e.rightValue.get()}; }
static std::string text(Val v) { return fmt("%s %d", v.left ? "left" : "right", v.v); }
static char const * where() { return sh()->w[me()].note; }
static void same(Val got, Val want, char const * what) { CHECK(got == want, "%s: %s is %s instead of %s", where(), what, text(got).c_str(), text(want).c_str()); }

// what the functions given to an operation were called with
struct Calls { std::vector<std::pair<char, int>> got; };
static Calls g_calls;
static int fl(int v) { return v * 7 + 1; }
static int fr(int v) { return v * 5 + 2; }

// one operation: consumes (or leaves) a result, gives a new one of the same type
template<class E> struct Op
{
    std::string name;
    std::function<E(E &)> run;                  // on the real thing
    std::function<Val(Val)> model;
    std::function<std::vector<std::pair<char, int>>(Val)> calls;
    bool moves;                                 // takes the operand's value away
};
static std::vector<std::pair<char, int>> none_(Val) { return {}; }
static std::vector<std::pair<char, int>> on_left(Val v) { if (v.left) return {{'l', v.v}}; return {}; }
static std::vector<std::pair<char, int>> on_right(Val v) { if (!v.left) return {{'r', v.v}}; return {}; }
static std::vector<std::pair<char, int>> on_both(Val v) { return v.left ? on_left(v) : on_right(v); }

template<class L, class R> std::vector<Op<Either<L, R>>> operations()
{
    using E = Either<L, R>;
    static auto const lf = [](L const & x) { g_calls.got.push_back({'l', x.get()}); return L(fl(x.get())); };
    static auto const rf = [](R const & x) { g_calls.got.push_back({'r', x.get()}); return R(fr(x.get())); };
    // functions that take what they are given
    static auto const lt = [](L && x) { int const v = x.get(); g_calls.got.push_back({'l', v}); L y(std::move(x)); return L(fl(y.get())); };
    static auto const rt = [](R && x) { int const v = x.get(); g_calls.got.push_back({'r', v}); R y(std::move(x)); return R(fr(y.get())); };
    static auto const lx = [](L const & x) { int const v = x.get(); g_calls.got.push_back({'l', v}); return v % 2 ? E::rightOf(R(v + 3)) : E::leftOf(L(v + 4)); };
    static auto const rx = [](R const & x) { int const v = x.get(); g_calls.got.push_back({'r', v}); return v % 2 ? E::leftOf(L(v + 5)) : E::rightOf(R(v + 6)); };
    auto const ml = [](Val v) { return v.left ? Val{true, fl(v.v)} : v; };
    auto const mr = [](Val v) { return v.left ? v : Val{false, fr(v.v)}; };
    auto const mlx = [](Val v) { return !v.left ? v : v.v % 2 ? Val{false, v.v + 3} : Val{true, v.v + 4}; };
    auto const mrx = [](Val v) { return v.left ? v : v.v % 2 ? Val{true, v.v + 5} : Val{false, v.v + 6}; };
    auto const id = [](Val v) { return v; };
    std::vector<Op<E>> o;
    o.push_back({"move", [](E & e) { return E(std::move(e)); }, id, none_, true});
    o.push_back({"leftMap of a temporary", [](E & e) { return std::move(e).leftMap(lt); }, ml, on_left, true});
    o.push_back({"rightMap of a temporary", [](E & e) { return std::move(e).rightMap(rt); }, mr, on_right, true});
    if constexpr (!IsOnly<L>::value && !IsOnly<R>::value)
    {
        o.push_back({"copy", [](E & e) { return E(std::as_const(e)); }, id, none_, false});
        o.push_back({"leftMap", [](E & e) { return std::as_const(e).leftMap(lf); }, ml, on_left, false});
        o.push_back({"rightMap", [](E & e) { return std::as_const(e).rightMap(rf); }, mr, on_right, false});
        o.push_back({"leftFlatMap", [](E & e) { return std::as_const(e).leftFlatMap(lx); }, mlx, on_left, false});
        o.push_back({"rightFlatMap", [](E & e) { return std::as_const(e).rightFlatMap(rx); }, mrx, on_right, false});
        o.push_back({"leftFlatMap of a temporary", [](E & e) { return std::move(e).leftFlatMap(lx); }, mlx, on_left, true});
        o.push_back({"rightFlatMap of a temporary", [](E & e) { return std::move(e).rightFlatMap(rx); }, mrx, on_right, true});
        o.push_back({"join with two functions", [](E & e) { return std::as_const(e).join([](L const & x) { g_calls.got.push_back({'l', x.get()}); return E::rightOf(R(x.get() + 8)); }, [](R const & x) { g_calls.got.push_back({'r', x.get()}); return E::leftOf(L(x.get() + 9)); }); },
            [](Val v) { return v.left ? Val{false, v.v + 8} : Val{true, v.v + 9}; }, on_both, false});
        o.push_back({"left and right", [](E & e)
        {
            auto a = std::as_const(e).left(); auto b = std::as_const(e).right();
            CHECK((bool)a == e.isLeft && (bool)b == !e.isLeft && a.size() == (e.isLeft ? 1u : 0u) && a.empty() == !e.isLeft && b.size() + a.size() == 1 && b.empty() == (bool)a, "%s: left() and right() disagree with the side", where());
            return a ? E::leftOf(a.unsafeGet()) : E::rightOf(b.unsafeGet());
        }, id, none_, false});
        o.push_back({"left with a default", [](E & e) { return E::leftOf(std::as_const(e).left().get(L(77))); }, [](Val v) { return Val{true, v.left ? v.v : 77}; }, none_, false});
        o.push_back({"map of the right", [](E & e) { auto m = std::as_const(e).right().map([](R const & x) { g_calls.got.push_back({'r', x.get()}); return L(x.get() + 11); }); return m ? E::leftOf(m.unsafeGet()) : E::leftOf(L(78)); },
            [](Val v) { return Val{true, v.left ? 78 : v.v + 11}; }, on_right, false});
        o.push_back({"flatMap of the left", [](E & e) { auto const m = std::as_const(e).left(); auto n = m.flatMap([](L const & x) { g_calls.got.push_back({'l', x.get()}); return x.get() % 2 ? Maybe<R>(R(x.get() + 12)) : Maybe<R>(); }); return n ? E::rightOf(n.unsafeGet()) : E::rightOf(R(79)); },
            [](Val v) { return Val{false, v.left && v.v % 2 ? v.v + 12 : 79}; }, on_left, false});
    }
    else
    {
        o.push_back({"leftMap in place", [](E & e) { return e.leftMap(lt); }, ml, on_left, true});
        o.push_back({"rightMap in place", [](E & e) { return e.rightMap(rt); }, mr, on_right, true});
    }
    return o;
}
template<class L, class R> struct Programs
{
    using E = Either<L, R>;
    std::vector<Op<E>> ops = operations<L, R>(); uint64_t n = 0;

    void go(E & e, Val v, int left_, std::string const & path)
    {
        for (auto & o : ops)
        {
            std::string const p = path + "; " + o.name;
            note("%s", p.c_str());
            // the operand must survive, so one more is made for operations that take it away
            size_t const live = g_live.size();
            {
                g_calls.got.clear();
                E x = again(e, v);
                same(peek(x), v, "the operand");
                auto const want = o.model(v);
                E y = o.run(x);
                CHECK(g_calls.got == o.calls(v), "%s: the functions were called %zu times", where(), g_calls.got.size());
                same(peek(y), want, "the result");
                CHECK((bool)y == !want.left && y.isLeft == want.left, "%s: bool and side disagree", where());
                CHECK(x.isLeft == v.left, "%s: the operand changed sides", where());
                if (!o.moves) same(peek(x), v, "the operand, afterwards,");
                transitions(); ++n;
                if (left_ > 1) go(y, want, left_ - 1, p);
            }
            CHECK(g_live.size() == live, "%s: %ld values are left over", where(), (long)g_live.size() - (long)live);
        }
    }
    static E again(E & e, Val v)
    {
        if constexpr (IsOnly<L>::value || IsOnly<R>::value) { if (v.left) return E::leftOf(L(v.v)); return E::rightOf(R(v.v)); }
        else return E(std::as_const(e));
    }
    void run(int depth)
    {
        for (int v : {0, 1, 2, 3})
        {
            auto start = [&](char const * how, Val w, auto make) { E e = make(); note("%s", how); same(peek(e), w, "a new result"); states(); go(e, w, depth, fmt("%s(%d)", how, v)); traces(); };
            start("leftOf a temporary", {true, v}, [&]{ return E::leftOf(L(v)); });
            start("rightOf a temporary", {false, v}, [&]{ return E::rightOf(R(v)); });
            start("made from Left", {true, v}, [&]{ return E(neither::Left<L>{L(v)}); });
            start("made from Right", {false, v}, [&]{ return E(neither::Right<R>{R(v)}); });
            if constexpr (!IsOnly<L>::value && !IsOnly<R>::value)
            {
                L const l(v); R const r(v);
                start("leftOf", {true, v}, [&]{ return E::leftOf(l); });
                start("rightOf", {false, v}, [&]{ return E::rightOf(r); });
                auto const nl = neither::left(l); auto const nr = neither::right(r);
                start("made from left()", {true, v}, [&]{ return E(nl); });
                start("made from right()", {false, v}, [&]{ return E(nr); });
            }
            else if constexpr (!IsOnly<L>::value) { L const l(v); start("leftOf", {true, v}, [&]{ return E::leftOf(l); }); }
        }
        CHECK(g_live.empty(), "%zu values are left over", g_live.size());
        traces(n);
    }
};
// maps to other types, comparison, joining of one type
static void other_types()
{
    using A = Tok<0, true>; using B = Tok<1, true>;
    for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int s = 0; s < 4; ++s)
    {
        note("%d %d sides %d", a, b, s);
        using E = Either<A, B>;
        E const x = s & 1 ? E::leftOf(A(a)) : E::rightOf(B(a)), y = s & 2 ? E::leftOf(A(b)) : E::rightOf(B(b));
        bool const eq = !!(s & 1) == !!(s & 2) && a == b;
        CHECK((x == y) == eq && (x != y) == !eq, "%s: comparison", where());
        Maybe<A> const m = x.left(), n = y.left();
        bool const meq = (s & 1) ? (s & 2) && a == b : !(s & 2);
        CHECK((m == n) == meq && (m != n) == !meq, "%s: comparison of maybes", where());
        auto z = x.leftMap([](A const & t) { return std::string(t.get() + 1, 'x'); });
        CHECK(z.isLeft == x.isLeft && (z.isLeft ? z.leftValue == std::string(a + 1, 'x') : z.rightValue.get() == a), "%s: leftMap to a text", where());
        auto w = x.rightMap([](B const & t) { return std::vector<int>(t.get() + 1, 5); });
        CHECK(w.isLeft == x.isLeft && (w.isLeft ? w.leftValue.get() == a : w.rightValue.size() == a + 1u), "%s: rightMap to a vector", where());
        auto u = E(x).rightMap([](B && t) { B q(std::move(t)); return Only<3>(q.get() + 1); });
        CHECK(u.isLeft == x.isLeft && (u.isLeft ? u.leftValue.get() == a : u.rightValue.get() == a + 1), "%s: rightMap to a type that can only be moved", where());
        auto f = x.rightFlatMap([&](B const & t) { using R = Either<A, std::string>; return t.get() % 2 ? R::leftOf(A(9)) : R::rightOf(std::string("even")); });
        CHECK(x.isLeft ? f.isLeft && f.leftValue.get() == a : a % 2 ? f.isLeft && f.leftValue.get() == 9 : !f.isLeft && f.rightValue == "even", "%s: rightFlatMap to a text", where());
        auto g = x.leftFlatMap([&](A const & t) { using R = Either<std::string, B>; return t.get() % 2 ? R::rightOf(B(9)) : R::leftOf(std::string("even")); });
        CHECK(!x.isLeft ? !g.isLeft && g.rightValue.get() == a : a % 2 ? !g.isLeft && g.rightValue.get() == 9 : g.isLeft && g.leftValue == "even", "%s: leftFlatMap to a text", where());
        using S = Either<A, A>;
        S const j = s & 1 ? S::leftOf(A(a)) : S::rightOf(A(a + 10));
        int const want = s & 1 ? a : a + 10;        // (joining a constant one does not compile)
        CHECK(S(j).join().get() == want, "%s: join of a temporary", where());
        CHECK(x.join([](A const & t) { return t.get() + 1; }, [](B const & t) { return t.get() + 100; }) == (s & 1 ? a + 1 : a + 100), "%s: join with functions", where());
        // functions that throw: nothing is lost or doubled
        size_t const live = g_live.size();
        for (int how = 0; how < 6; ++how)
        {
            bool thrown = false, called = false;
            auto l = [&](A const &) -> A { called = true; throw 1; }; auto r = [&](B const &) -> B { called = true; throw 1; };
            auto lx = [&](A const &) -> E { called = true; throw 1; }; auto rx = [&](B const &) -> E { called = true; throw 1; };
            E t(x);
            try
            {
                if (how == 0) (void)std::as_const(t).leftMap(l); else if (how == 1) (void)std::as_const(t).rightMap(r);
                else if (how == 2) (void)std::move(t).leftMap(l); else if (how == 3) (void)std::move(t).rightMap(r);
                else if (how == 4) (void)std::as_const(t).leftFlatMap(lx); else (void)std::as_const(t).rightFlatMap(rx);
            }
            catch (int) { thrown = true; }
            CHECK(thrown == called && called == ((how % 2 == 0) == x.isLeft), "%s: a function that throws, way %d", where(), how);
            CHECK(t.isLeft == x.isLeft, "%s: the side changed, way %d", where(), how);
        }
        CHECK(g_live.size() == live, "%s: values left over after throwing", where());
        auto q = neither::Try<int>([&](int v) { if (v % 2) throw v; return std::string(v, 'x'); }, a);
        CHECK(a % 2 ? q.isLeft && q.leftValue == a : !q.isLeft && q.rightValue == std::string(a, 'x'), "%s: Try", where());
        auto const up = neither::lift([](A p, A r) { return p.get() * 10 + r.get(); });
        auto const d = up(m, n);
        CHECK((bool)d == ((s & 1) && (s & 2)) && (!d || d.value == a * 10 + b), "%s: lift", where());
        transitions(20); states(); traces();
    }
    CHECK(g_live.empty(), "%zu values are left over", g_live.size());
}
void setup()
{
    add("copied and moved", []{ Programs<Tok<0, true>, Tok<1, true>>().run(tiered(4, 5)); });
    add("of one type", []{ Programs<Tok<0, true>, Tok<0, true>>().run(tiered(4, 5)); });
    add("wide, narrow", []{ Programs<Wide<0>, Tok<1, true>>().run(tiered(3, 4)); });
    add("narrow, wide", []{ Programs<Tok<0, true>, Wide<1>>().run(tiered(3, 4)); });
    add("plain, counted", []{ Programs<Plain, Tok<1, true>>().run(tiered(3, 4)); });
    add("counted, plain", []{ Programs<Tok<0, true>, Plain>().run(tiered(3, 4)); });
    add("plain, wide", []{ Programs<Plain, Wide<1>>().run(tiered(3, 4)); });
    add("wide, plain", []{ Programs<Wide<0>, Plain>().run(tiered(3, 4)); });
    add("aligned, plain", []{ Programs<Aligned<0>, Plain>().run(tiered(3, 4)); });
    add("both plain", []{ Programs<Plain, Plain>().run(tiered(3, 4)); });
    add("wide, only moved", []{ Programs<Wide<0>, Only<1>>().run(tiered(5, 7)); });
    add("right only moved", []{ Programs<Tok<0, true>, Only<1>>().run(tiered(6, 8)); });
    add("left only moved", []{ Programs<Only<0>, Tok<1, true>>().run(tiered(6, 8)); });
    add("both only moved", []{ Programs<Only<0>, Only<1>>().run(tiered(6, 8)); });
    add("other types, comparison, exceptions", []{ other_types(); });
}
