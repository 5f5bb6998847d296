// C20: matrices of more elements than 32 bits can count.  What a matrix asks of the allocator must hold
// all its rows, whatever the shape; the requests are read off and refused.  And one such
// matrix of each kind for real.
#define VF_NO_MAIN
#include "common.hpp"
#include "alloc.hpp"
#include "basic_bit_matrix.hpp"
#include "basic_numeric_matrix.hpp"
using namespace vf;

template<class B, unsigned A> size_t room(basic_bit_matrix<B, A> const *, size_t cols) { return (cols + 7) / 8; }
template<class V, unsigned A> size_t room(basic_numeric_matrix<V, A> const *, size_t cols) { return cols * sizeof (V); }

template<class M> void big(std::string n)
{
    // numbers of rows and columns at every power of two and its neighbours
    add(n + "/storage of all shapes", []
    {
        std::vector<unsigned> v{1, 3, 63, 65, 1000, 12345};
        for (int k = 10; k <= 31; ++k) for (int d : {-1, 0, 1}) if (k < 31 || d < 1) v.push_back((1u << k) + d);
        size_t const most = 1u << 20;
        for (unsigned r : v)
            for (unsigned c : v)
            {
                // not more than 2^58 bytes: beyond, nothing can be asked for
                note("%u x %u", r, c);
                unsigned __int128 const whole = (unsigned __int128)room((M const *)nullptr, c) * r;
                if (whole > 1ull << 58) continue;
                size_t const need = (size_t)whole;
                bool thrown = false; size_t asked = 0;
                oom::arm(0, 0, most);
                try { M m(r, c); asked = oom::largest; oom::disarm(); }
                catch (std::exception const &) { asked = oom::largest; thrown = true; }
                oom::disarm();
                CHECK(asked >= need, "a matrix of %u x %u elements asked for %zu bytes instead of at least %zu", r, c, asked, need);
                CHECK(thrown == (asked > most), "a matrix of %u x %u elements was created although its storage was refused", r, c);
                transitions();
            }
        states(v.size() * v.size()); traces(v.size() * v.size());
    });
}
template<class V, unsigned A> unsigned get(basic_numeric_matrix<V, A> const & m, size_t r) { return (unsigned char)m[{r, (size_t)m.cols() - 1}]; }
template<class V, unsigned A> void set(basic_numeric_matrix<V, A> & m, size_t r, unsigned v) { m.row_data(r)[m.cols() - 1] = (V)v; }
template<class B, unsigned A> unsigned get(basic_bit_matrix<B, A> const & m, size_t r) { return m.test(r, 1) + 2 * m[{r, 2}]; }
template<class B, unsigned A> void set(basic_bit_matrix<B, A> & m, size_t r, unsigned v)
{
    if (v & 1) m.set(r, 1); else m.clear(r, 1);
    if (v & 2) m.row(r).set(2); else m[r].clear(2);
}
template<class M> void huge(std::string n, unsigned rows, unsigned cols)
{
    add(fmt("%s/%u rows of %u", n.c_str(), rows, cols), [=]
    {
        M m(rows, cols);
        auto f = [](size_t r){ return (unsigned)((r * 0x9e3779b97f4a7c15ull) >> 62); };
        // quick: the first and last thousands, and some between
        size_t const step = tiered(1009, 1); size_t n = 0;
        auto each = [&](auto g) { for (size_t r = 0; r < rows; r += r < 2000 || r + 2000 >= rows ? 1 : std::min<size_t>(step, rows - 2000 - r)) { g(r); ++n; } };
        each([&](size_t r){ set(m, r, f(r)); });
        each([&](size_t r){ if (get(m, r) != f(r)) fail("row %zu of %u: %u instead of %u", r, rows, get(m, r), f(r)); });
        transitions(n); states(n / 2);
    });
}
void setup_3()
{
    big<basic_numeric_matrix<int8_t, 64>>("numeric matrix int8");
    big<basic_numeric_matrix<int16_t, 64>>("numeric matrix int16");
    big<basic_numeric_matrix<int32_t, 64>>("numeric matrix int32");
    big<basic_numeric_matrix<int32_t, 4>>("numeric matrix int32 aligned to 4");
    big<basic_bit_matrix<uint64_t, 64>>("bit matrix 64");
    big<basic_bit_matrix<uint8_t, 64>>("bit matrix 8");
    big<basic_bit_matrix<uint32_t, 4>>("bit matrix 32 aligned to 4");
    huge<basic_numeric_matrix<int8_t, 64>>("numeric matrix int8", (1u << 26) + 1000, 3);
    huge<basic_bit_matrix<uint8_t, 64>>("bit matrix 8", (1u << 26) + 1000, 5);
}
