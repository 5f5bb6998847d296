// C20: bit vectors, bit matrices and numeric matrices against plain arrays.  Every element of every
// shape on its own, and all sequences of operations on two containers up to a depth.  Built with the
// address sanitizer, so that storage outside a container counts as observable.
#include "common.hpp"
#include <limits>
#include "basic_bit_vector.hpp"
#include "basic_bit_vector_companion.hpp"
#include "basic_bit_matrix.hpp"
#include "basic_numeric_matrix.hpp"
#include <algorithm>
#include <limits>
#include <list>
using namespace vf;

using ivec = std::vector<long long>;
struct Grid                                                     // the model
{
    unsigned rows = 0, cols = 0; std::vector<ivec> v;
    Grid() { }
    Grid(unsigned r, unsigned c, long long x = 0) : rows(r), cols(c), v(r, ivec(c, x)) { }
    bool operator==(Grid const & o) const { return rows == o.rows && cols == o.cols && v == o.v; }
    std::string key() const
    {
        std::string k = fmt("%ux%u:", rows, cols);
        for (auto & r : v) for (auto x : r) k += fmt("%lld,", x);
        return k;
    }
};

// ---- bit vectors --------------------------------------------------------------------------
template<class V> void same(V const & v, std::vector<int> const & m, char const * what)
{
    CHECK(v.size() == m.size(), "%s: size %zu instead of %zu", what, (size_t)v.size(), m.size());
    for (size_t i = 0; i < m.size(); ++i) CHECK((int)v[i] == m[i], "%s: bit %zu of %zu is %d instead of %d", what, i, m.size(), (int)v[i], m[i]);
    CHECK(v.content_blocks() * V::block_bits >= m.size() && (v.content_blocks() == 0 || (v.content_blocks() - 1) * V::block_bits < m.size()), "%s: %zu blocks for %zu bits", what, (size_t)v.content_blocks(), m.size());
    CHECK(v.tail_bits() == m.size() % V::block_bits, "%s: %zu tail bits", what, (size_t)v.tail_bits());
    CHECK(v.capacity_blocks() >= v.content_blocks(), "%s: capacity of %zu blocks below %zu", what, (size_t)v.capacity_blocks(), (size_t)v.content_blocks());
    if (m.size()) CHECK((uintptr_t)v.data() % V::alignment == 0, "%s: data not aligned", what);
    // the blocks hold exactly the bits, lowest first, and nothing beyond the last one
    for (size_t b = 0; b < v.content_blocks(); ++b)
    {
        typename V::block_type want = 0;
        for (size_t i = 0; i < V::block_bits && b * V::block_bits + i < m.size(); ++i) if (m[b * V::block_bits + i]) want |= (typename V::block_type)1 << i;
        CHECK(v.data()[b] == want, "%s: block %zu of a vector of %zu bits", what, b, m.size());
    }
}
template<class B, unsigned A> void vector_elements(unsigned n0, unsigned n1)
{
    using V = basic_bit_vector<B, A>;
    for (unsigned n = n0; n < n1; ++n)
        for (int fill = 0; fill < 3; ++fill)
        {
            note("bit vector of %u", n);
            std::vector<int> m(n);
            for (unsigned i = 0; i < n; ++i) m[i] = fill == 2 ? (i * 7 + i / 5) % 2 : fill;
            V v(n);
            same(v, std::vector<int>(n, 0), "new");
            for (unsigned i = 0; i < n; ++i) if (m[i]) v.set(i);
            same(v, m, "filled");
            std::vector<char> mc(m.begin(), m.end()); for (auto & c : mc) if (c) c = (char)(3 + fill);      // any non-zero value
            auto r = basic_bit_vectors::from_range<B, std::vector<char>::const_iterator, A>(mc.cbegin(), mc.cend());
            same(r, m, "from_range");
            std::list<int> ml(m.begin(), m.end());
            same(basic_bit_vectors::from_range<B, std::list<int>::iterator, A>(ml.begin(), ml.end()), m, "from_range of a list");
            for (unsigned i = 0; i < n; ++i)
            {
                auto & x = m[i]; int const x0 = x;
                auto chk = [&](char const * w){ same(v, m, w); transitions(); };
                v.flip(i); x ^= 1; chk("flip");
                v.flip(i); x ^= 1; chk("flip back");
                v.set(i); x = 1; chk("set");
                v.set(i); chk("set again");
                v.XOR(i, false); chk("xor 0");
                v.XOR(i, true); x = 0; chk("xor 1");
                v.clear(i); chk("clear");
                v.assign(i, true); x = 1; chk("assign 1");
                v.clear(i); x = 0; chk("clear");
                v.XOR(i, true); x = 1; chk("xor 1");
                v.assign(i, false); x = 0; chk("assign 0");
                v.assign(i, x0); x = x0; chk("assign");
                traces();
            }
            states();
            V c(v), d; d = v;
            if (n) { c.flip(n - 1); d.flip(0); same(v, m, "original after changing copies"); m[n - 1] ^= 1; same(c, m, "copy"); m[n - 1] ^= 1; }
            V e(std::move(c)); if (n) { m[n - 1] ^= 1; same(e, m, "moved"); }
            // from blocks: never longer than the blocks given
            typename V::aligned_vector blocks((n + V::block_bits - 1) / V::block_bits);
            for (unsigned i = 0; i < n; ++i) if (m[i]) blocks[i / V::block_bits] |= (B)1 << (i % V::block_bits);
            auto bl = blocks;
            same(V(n, std::move(bl)), m, "from blocks");
            bl = blocks;
            V capped(n + 1000, std::move(bl));
            auto m2 = m; m2.resize(blocks.size() * V::block_bits, 0);
            same(capped, m2, "from too few blocks");
        }
}

// ---- matrices -------------------------------------------------------------------------------
template<class M> constexpr bool is_bit = false;
template<class B, unsigned A> constexpr bool is_bit<basic_bit_matrix<B, A>> = true;
template<class M> M build(Grid const & g)
{
    M m(g.rows, g.cols);
    for (unsigned r = 0; r < g.rows; ++r)
        for (unsigned c = 0; c < g.cols; ++c)
            if constexpr (is_bit<M>) { if (g.v[r][c]) m.set(r, c); }
            else m.row_data(r)[c] = (typename M::value_type)g.v[r][c];
    return m;
}
template<class M> void same(M const & m, Grid const & g, std::string const & what)
{
    CHECK(m.rows() == g.rows && m.cols() == g.cols && m.shape() == std::make_pair(g.rows, g.cols), "%s: shape %ux%u instead of %ux%u", what.c_str(), m.rows(), m.cols(), g.rows, g.cols);
    for (unsigned r = 0; r < g.rows; ++r)
    {
        if (g.cols) CHECK((uintptr_t)m.row_data(r) % M::alignment == 0, "%s: row %u not aligned", what.c_str(), r);
        for (unsigned c = 0; c < g.cols; ++c)
        {
            if constexpr (is_bit<M>)
            {
                CHECK(m.test(r, c) == g.v[r][c], "%s: element %u,%u is %u", what.c_str(), r, c, m.test(r, c));
                constexpr unsigned bb = std::numeric_limits<typename M::block_type>::digits;
                CHECK((m.row_data(r)[c / bb] >> c % bb & 1) == (unsigned)g.v[r][c], "%s: stored bit %u,%u", what.c_str(), r, c);
            }
            else CHECK(m.row_data(r)[c] == (typename M::value_type)g.v[r][c], "%s: stored element %u,%u", what.c_str(), r, c);
            CHECK((long long)m[std::make_pair((size_t)r, (size_t)c)] == g.v[r][c], "%s: element %u,%u by subscript", what.c_str(), r, c);
        }
    }
}
template<class M> void views(M & m, Grid const & g)
{
    if constexpr (is_bit<M>)
        for (unsigned r = 0; r < g.rows; ++r)
        {
            auto v = m.row(r); auto w = m[(size_t)r];
            CHECK(v.tail_bits() == g.cols % std::numeric_limits<typename M::block_type>::digits, "tail bits of a row");
            CHECK(v.content_blocks() * std::numeric_limits<typename M::block_type>::digits >= g.cols && v.content_blocks() <= m.row_blocks(), "blocks of a row");
            for (unsigned c = 0; c < g.cols; ++c) CHECK(v[c] == g.v[r][c] && w.test(c) == g.v[r][c], "row view %u,%u", r, c);
        }
}

// each element alone
template<class M> void elements(unsigned rows, unsigned cols)
{
    std::vector<long long> vals{1};
    if constexpr (!is_bit<M>) { using L = std::numeric_limits<typename M::value_type>; vals = {(long long)L::min(), (long long)L::max(), 5}; }
    for (int fill = 0; fill < 2; ++fill)
    {
        Grid g(rows, cols, fill);
        M m = build<M>(g);
        same(m, g, "built"); views(m, g);
        states();
        M const reference(m);
        for (unsigned r = 0; r < rows; ++r)
            for (unsigned c = 0; c < cols; ++c)
                for (auto x : vals)
                {
                    note("%ux%u element %u,%u", rows, cols, r, c);
                    auto & e = g.v[r][c]; auto const e0 = e;
                    // full comparison for the operated element's row and its neighbours is implied by ==
                    auto chk = [&](char const * w)
                    {
                        transitions();
                        M other = build<M>(Grid(rows, cols, fill));
                        bool const eq = e == e0;
                        CHECK((m == reference) == eq && (reference == m) == eq, "%s %u,%u: comparison with the original says %d", w, r, c, (int)(m == reference));
                        if constexpr (is_bit<M>) { CHECK(m.test(r, c) == e, "%s %u,%u reads %u", w, r, c, m.test(r, c)); if (!eq) other.flip(r, c); }
                        else other.row_data(r)[c] = (typename M::value_type)e;
                        CHECK(m == other, "%s %u,%u: differs from a matrix of the same contents", w, r, c);
                    };
                    if constexpr (is_bit<M>)
                    {
                        m.flip(r, c); e ^= 1; chk("flip");
                        m.flip(r, c); e ^= 1; chk("flip back");
                        m.set(r, c); e = 1; chk("set");
                        m.clear(r, c); e = 0; chk("clear");
                        m.clear(r, c); chk("clear again");
                        auto v = m.row(r);
                        v.set(c); e = 1; chk("set by row");
                        v.flip(c); e = 0; chk("flip by row");
                        v.flip(c); e = 1; chk("flip by row");
                        v.clear(c); e = 0; chk("clear by row");
                        if (e0) { m[(size_t)r].set(c); e = 1; chk("set by subscripted row"); }
                    }
                    else
                    {
                        m.row_data(r)[c] = (typename M::value_type)x; e = x; chk("write");
                        m.row_data(r)[c] = (typename M::value_type)e0; e = e0; chk("write back");
                        m.data()[m.row_offset(r) + c] = (typename M::value_type)x; e = x; chk("write by offset");
                        m.data()[m.row_offset(r) + c] = (typename M::value_type)e0; e = e0; chk("write back by offset");
                    }
                    traces();
                }
        same(m, g, "in the end"); views(m, g);
    }
}

// all sequences of operations on two matrices
template<class M> struct Seq
{
    struct St { M a, b; Grid ga, gb; };
    Seen seen; int nops = 0;
    static std::vector<std::pair<unsigned, unsigned>> spots(Grid const & g)
    {
        std::vector<std::pair<unsigned, unsigned>> s;
        if (!g.rows || !g.cols) return s;
        s.push_back({0, 0});
        if (g.cols > 1) s.push_back({g.rows - 1, g.cols - 1});
        if (g.rows > 1) s.push_back({g.rows - 1, 0});
        return s;
    }
    static std::string raw(M const & m)
    {
        std::string k;
        for (unsigned r = 0; r < m.rows(); ++r)
        {
            size_t n = is_bit<M> ? (m.cols() + 7) / 8 : m.cols() * sizeof (*m.row_data(0));
            if (n) k.append((char const *)m.row_data(r), n);
        }
        return k;
    }
    void check(St & s, std::string const & path)
    {
        note("%s", path.c_str());
        same(s.a, s.ga, path); same(s.b, s.gb, path);
        views(s.a, s.ga);
        bool const eq = s.ga == s.gb;
        CHECK((s.a == s.b) == eq && (s.b == s.a) == eq && s.a == s.a, "%s: equality says %d for %s contents", path.c_str(), (int)(s.a == s.b), eq ? "equal" : "different");
        M f = build<M>(s.ga);
        CHECK(f == s.a, "%s: differs from a matrix newly built with the same contents", path.c_str());
        traces();
    }
    void go(St const & s, int depth, std::string const & path)
    {
        auto step = [&](std::string const & n, auto f)
        {
            St t(s);
            f(t);
            transitions();
            check(t, path + "; " + n);
            bool const fresh = seen.insert(fmt("%d ", depth) + t.ga.key() + "|" + t.gb.key() + "|" + raw(t.a) + "|" + raw(t.b));
            if (fresh && depth > 1) go(t, depth - 1, path + "; " + n);
        };
        for (auto [r, c] : spots(s.ga))
        {
            auto at = fmt("(%u,%u)", r, c);
            if constexpr (is_bit<M>)
            {
                step("a.set" + at, [r = r, c = c](St & t){ t.a.set(r, c); t.ga.v[r][c] = 1; });
                step("a.row.clear" + at, [r = r, c = c](St & t){ t.a.row(r).clear(c); t.ga.v[r][c] = 0; });
                step("a.row.flip" + at, [r = r, c = c](St & t){ t.a[(size_t)r].flip(c); t.ga.v[r][c] ^= 1; });
            }
            else
            {
                step("a" + at + "=min", [r = r, c = c](St & t){ auto x = std::numeric_limits<typename M::value_type>::min(); t.a.row_data(r)[c] = x; t.ga.v[r][c] = x; });
                step("a" + at + "+=1", [r = r, c = c](St & t){ if (t.ga.v[r][c] < 100) { ++t.a.row_data(r)[c]; ++t.ga.v[r][c]; } });
                step("fill row of a" + at, [r = r](St & t){ std::fill(t.a.row_data(r), t.a.row_data(r) + t.a.cols(), 3); std::fill(t.ga.v[r].begin(), t.ga.v[r].end(), 3); });
            }
        }
        for (auto [r, c] : spots(s.gb))
        {
            if constexpr (is_bit<M>) step(fmt("b.flip(%u,%u)", r, c), [r = r, c = c](St & t){ t.b.flip(r, c); t.gb.v[r][c] ^= 1; });
            else step(fmt("b(%u,%u)=7", r, c), [r = r, c = c](St & t){ t.b.row_data(r)[c] = 7; t.gb.v[r][c] = 7; });
        }
        step("a=b", [](St & t){ t.a = t.b; t.ga = t.gb; });
        step("b=a", [](St & t){ t.b = t.a; t.gb = t.ga; });
        step("a=move(b); b=copy of a", [](St & t){ t.a = std::move(t.b); t.ga = t.gb; t.b = t.a; });
        step("a=move(b); b=new", [](St & t){ t.a = std::move(t.b); t.ga = t.gb; t.b = M(1, 3); t.gb = Grid(1, 3); });
        step("swap", [](St & t){ std::swap(t.a, t.b); std::swap(t.ga, t.gb); });
        step("a=a", [](St & t){ auto & q = t.a; t.a = q; });
        step("a=M(a)", [](St & t){ M q(t.a); t.a = std::move(q); });
        step("move construct and back", [](St & t){ M q(std::move(t.a)); t.a = q; });
        step("a=empty", [](St & t){ t.a = M(); t.ga = Grid(); });
        step("a=2x9", [](St & t){ t.a = M(2, 9); t.ga = Grid(2, 9); });
    }
    static void run(unsigned r, unsigned c, unsigned r2, unsigned c2, int depth)
    {
        Seq q;
        St s{M(r, c), M(r2, c2), Grid(r, c), Grid(r2, c2)};
        q.check(s, fmt("%ux%u and %ux%u", r, c, r2, c2));
        q.go(s, depth, fmt("%ux%u and %ux%u", r, c, r2, c2));
    }
};

// many rows, or long ones: the elements next to the limits of bytes, words and rows, each alone
template<class M> void large(unsigned rows, unsigned cols)
{
    auto near = [](unsigned n)
    {
        std::set<unsigned> r;
        for (unsigned b : {0u, 8u, 64u, 127u, 128u, 255u, 256u, 511u, 512u, 513u, 1023u, 1024u, 2048u, 4095u, 4096u, 32768u, 65535u, 65536u, n - 1, n / 2})
            for (unsigned k : {b, b + 1}) if (k < n) r.insert(k);
        return std::vector<unsigned>(r.begin(), r.end());
    };
    Grid g(rows, cols);
    for (unsigned r = 0; r < rows; ++r) for (unsigned c = 0; c < cols; ++c) g.v[r][c] = is_bit<M> ? (r * 5 + c * 3 + c / 7 + r / 256 + c / 256) % 2 : (long long)((r * 31 + c * 7) % 113) - 56;
    M m = build<M>(g);
    same(m, g, "built"); views(m, g);
    M const reference(m);
    M copy(reference); same(copy, g, "copy");
    for (unsigned r : near(rows))
        for (unsigned c : near(cols))
        {
            if (rows > 8 && cols > 300 && r != rows - 1 && c != cols - 1 && r) continue;
            note("%ux%u element %u,%u", rows, cols, r, c);
            auto & e = g.v[r][c]; auto const e0 = e;
            if constexpr (is_bit<M>)
            {
                m.flip(r, c); e ^= 1;
                CHECK(!(m == reference) && !(reference == m), "%u,%u flipped: equal to the original", r, c);
                same(m, g, "flipped");
                if (e) m.clear(r, c); else m.set(r, c);
                e ^= 1; CHECK(m == reference && m.test(r, c) == e, "%u,%u put back", r, c);
                auto v = m.row(r); v.flip(c); CHECK(m.test(r, c) == !e0, "%u,%u flipped by row", r, c); v.flip(c);
            }
            else
            {
                m.row_data(r)[c] = (typename M::value_type)(e = e0 + 1);
                CHECK(!(m == reference) && !(reference == m), "%u,%u changed: equal to the original", r, c);
                same(m, g, "changed");
                m.row_data(r)[c] = (typename M::value_type)(e = e0);
            }
            M assigned; assigned = m; CHECK(assigned == reference, "copy after %u,%u", r, c);
            transitions(5); traces();
        }
    same(m, g, "in the end"); same(reference, g, "the original");
    M moved(std::move(m)); same(moved, g, "moved");
    m = reference; same(m, g, "assigned to one moved from");
    states();
}
template<class B, unsigned A> void large_vector(unsigned n)
{
    using V = basic_bit_vector<B, A>;
    std::vector<int> m(n); for (unsigned i = 0; i < n; ++i) m[i] = (i * 7 + i / 5 + i / 256) % 2;
    auto v = basic_bit_vectors::from_range<B, std::vector<int>::iterator, A>(m.begin(), m.end());
    same(v, m, "from_range");
    V w(n); for (unsigned i = 0; i < n; ++i) w.assign(i, m[i]);
    same(w, m, "assigned");
    for (unsigned b : {0u, 7u, 8u, 63u, 64u, 255u, 256u, 511u, 512u, 1023u, 1024u, 4095u, 4096u, 32767u, 32768u, 65535u, 65536u, n - 1, n - 2, n / 2})
        if (b < n)
        {
            note("bit %u of %u", b, n);
            auto chk = [&](char const * what){ same(v, m, what); transitions(); };
            v.flip(b); m[b] ^= 1; chk("flip");
            v.XOR(b, true); m[b] ^= 1; chk("xor");
            bool const was = m[b];
            v.assign(b, !was); m[b] = !was; chk("assign");
            if (was) v.set(b); else v.clear(b);
            m[b] = was; chk("back");
            traces();
        }
    V c(v); same(c, m, "copy"); V d(std::move(c)); same(d, m, "moved");
    states();
}

template<class M> void matrix(std::string n, std::vector<unsigned> const & cols)
{
    for (unsigned c : cols)
        add(fmt("%s/elements cols=%u", n.c_str(), c), [=]{ for (unsigned r : {0u, 1u, 2u, 3u}) if ((r < 3 || c < 140)) elements<M>(r, c); });
    int const d = tiered(4, 6);
    add(n + "/sequences 2x3 2x3", [=]{ Seq<M>::run(2, 3, 2, 3, d); });
    add(n + "/sequences 3x65 2x64", [=]{ Seq<M>::run(3, 65, 2, 64, d - 1); });
    add(n + "/sequences 1x513 2x1", [=]{ Seq<M>::run(1, 513, 2, 1, d - 1); });
    add(n + "/sequences 0x4 3x0", [=]{ Seq<M>::run(0, 4, 3, 0, d); });
    add(n + "/large", []
    {
        for (auto [r, c] : std::vector<std::pair<unsigned, unsigned>>{{257, 3}, {1030, 1}, {300, 65}, {2, 1025}, {3, 2049}, {1, 4097}, {258, 258}, {1, 66000}}) large<M>(r, c);
        if (thorough()) for (auto [r, c] : std::vector<std::pair<unsigned, unsigned>>{{4100, 9}, {66000, 2}, {1030, 513}, {1, 140000}, {513, 1025}}) large<M>(r, c);
    });
}

#if PART == 0
void setup_1(); void setup_2(); void setup_3();
void setup()
{
    setup_1(); setup_2(); setup_3();
    unsigned const top = tiered(200u, 400u);
    for (unsigned n = 0; n < top; n += 50)
    {
        add(fmt("bit vector 64/%u", n), [=]{ vector_elements<uint64_t, 64>(n, n + 50); });
        add(fmt("bit vector 8/%u", n), [=]{ vector_elements<uint8_t, 64>(n, n + 50); });
        add(fmt("bit vector 32/%u", n), [=]{ vector_elements<uint32_t, 4>(n, n + 50); });
        add(fmt("bit vector 16/%u", n), [=]{ vector_elements<uint16_t, 32>(n, n + 50); });
    }
    for (unsigned n : {255u, 256u, 257u, 300u, 1023u, 1024u, 1025u, 4097u, 65536u, 65537u, 70001u})
    {
        add(fmt("long bit vector 64/%u", n), [=]{ large_vector<uint64_t, 64>(n); });
        add(fmt("long bit vector 8/%u", n), [=]{ large_vector<uint8_t, 64>(n); });
        add(fmt("long bit vector 32/%u", n), [=]{ large_vector<uint32_t, 4>(n); });
        add(fmt("long bit vector 16/%u", n), [=]{ large_vector<uint16_t, 32>(n); });
    }
    add("bit vector 64/511", []{ vector_elements<uint64_t, 64>(511, 514); });
}
#else
static std::vector<unsigned> shapes(std::vector<unsigned> v)
{
    if (thorough()) for (unsigned i = 2; i < 140; ++i) v.push_back(i);
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
#if PART == 1
void setup_1()
{
    auto bc = shapes({0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 511, 512, 513});
    matrix<basic_bit_matrix<uint64_t, 64>>("bit matrix 64", bc);
    matrix<basic_bit_matrix<uint8_t, 64>>("bit matrix 8", bc);
    matrix<basic_bit_matrix<uint32_t, 4>>("bit matrix 32/4", bc);
    matrix<basic_bit_matrix<uint16_t, 16>>("bit matrix 16/16", bc);
}
#else
void setup_2()
{
    auto nc = shapes({0, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 129});
    matrix<basic_numeric_matrix<int8_t, 64>>("numeric matrix int8", nc);
    matrix<basic_numeric_matrix<int16_t, 64>>("numeric matrix int16", nc);
    matrix<basic_numeric_matrix<int32_t, 64>>("numeric matrix int32", nc);
    matrix<basic_numeric_matrix<int32_t, 4>>("numeric matrix int32/4", nc);
    matrix<basic_numeric_matrix<int8_t, 1>>("numeric matrix int8/1", nc);
}
#endif
#endif
