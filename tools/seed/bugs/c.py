A = 'src/tsetlini_algo_classic.hpp'; B = 'src/tsetlini_algo_bitwise.hpp'; M = 'src/tsetlini.cpp'; J = 'src/tsetlini_state_json.cpp'
# an allocator of the demonstration's own: the k-th allocation fails
OOM = '''
#include <cerrno>
#include <new>
#include <cstdlib>
static bool armed = false; static long countdown = 0;
static bool refused() { return armed && --countdown == 0; }
static void * take(size_t n) { return refused() ? nullptr : malloc(n ? n : 1); }
extern "C" int posix_memalign(void ** p, size_t a, size_t n)
{
    if (refused()) return ENOMEM;
    *p = aligned_alloc(a, (n + a - 1) / a * a); return *p ? 0 : ENOMEM;
}
void * operator new(size_t n) { if (auto p = take(n)) return p; throw std::bad_alloc(); }
void * operator new[](size_t n) { if (auto p = take(n)) return p; throw std::bad_alloc(); }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }
// true if the call ended with bad_alloc; false if there is no k-th allocation
template<class F> bool failing(long k, F f)
{
    struct Off { ~Off() { armed = false; } } off;
    countdown = k; armed = true;
    try { f(); } catch (std::bad_alloc const &) { return true; }
    if (countdown <= 0) vf::fail("allocation %ld failed and the call went on", k);
    return false;
}
'''
BUGS = [
dict(id='C29-moved-scores', property='C29', edits=[(M, '''    return Either<status_message_t, aligned_vector_int>::rightOf(state.cache.label_sum);''', '''    auto rv = std::move(state.cache.label_sum);

    state.cache.label_sum = aligned_vector_int(rv.size());

    return Either<status_message_t, aligned_vector_int>::rightOf(std::move(rv));''')],
 needs='the allocation of the new buffer fails in decision_function of one sample, and the estimator is used again',
 breaks='the buffer for the scores is gone: the next call writes outside of it',
 demo=OOM + '''
template<class E> void run()
{
    using S = typename Tr<E>::Sample;
    Cfg c; auto e = make<E>(c);
    auto X = mk<S>(std::vector<ivec>{{0, 1, 0}, {1, 0, 1}});
    ok(do_fit(e, X, {0, 1}, 2, 1));
    auto const ref = take(e.decision_function(X[0]));
    for (long k = 1; failing(k, [&]{ (void)e.decision_function(X[0]); }); ++k)
    {
        auto const st = e.clone_state();
        CHECK(st->cache.label_sum.size() == 2, "%s: after allocation %ld failed, there is room for %zu scores", Tr<E>::name, k, st->cache.label_sum.size());
        auto const now = take(e.decision_function(X[0]));
        CHECK(now == ref, "%s: after allocation %ld failed, the answer is another", Tr<E>::name, k);
    }
}
void demo() { for_classifiers([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C29-noexcept-labels', property='C29', edits=[(M, '''auto unique_labels(label_vector_type const & y) -> std::unordered_set<label_type>''', '''auto unique_labels(label_vector_type const & y) noexcept -> std::unordered_set<label_type>''')],
 needs='an allocation fails while the labels of a classifier are collected',
 breaks='the program is terminated instead of being told by std::bad_alloc',
 demo=OOM + '''
void demo()
{
    std::set_terminate([]{ puts("FAILED: the program was terminated"); _exit(1); });
    using E = T::ClassifierClassic; using S = Tr<E>::Sample;
    Cfg c; auto e = make<E>(c);
    auto X = mk<S>(std::vector<ivec>{{0, 1, 0}, {1, 0, 1}});
    for (long k = 1; failing(k, [&]{ (void)do_fit(e, X, {0, 1}, 2, 1); }); ++k) CHECK(!is_ok(e.predict(X)), "a model results");
    ok(do_fit(e, X, {0, 1}, 2, 1));
}
'''),
dict(id='C29-null-storage', property='C29', edits=[('include/aligned_allocator.hpp', '''        if (pv == NULL)
        {
            throw std::bad_alloc();''', '''        if (pv == NULL and n > 0x10000u)
        {
            throw std::bad_alloc();''')],
 needs='an allocation of a small aligned buffer fails',
 breaks='the failure goes unnoticed and address zero is written to',
 demo=OOM + '''
#include <csignal>
void demo()
{
    signal(SIGSEGV, [](int){ puts("FAILED: segmentation fault"); _exit(1); });
    using E = T::ClassifierClassic; using S = Tr<E>::Sample;
    Cfg c; auto e = make<E>(c);
    auto X = mk<S>(std::vector<ivec>{{0, 1, 0}, {1, 0, 1}});
    for (long k = 1; failing(k, [&]{ (void)do_fit(e, X, {0, 1}, 2, 1); }); ++k) { }
    ok(do_fit(e, X, {0, 1}, 2, 1));
}
'''),
dict(id='C20-row-offset', property='C20', edits=[('include/basic_numeric_matrix.hpp', '''        return nr * row_items();''', '''        unsigned int const offset = nr * row_items();

        return offset;''')],
 needs='a matrix of more than 2^32 elements',
 breaks='its last rows share the storage of the first ones',
 demo='''
#include "basic_numeric_matrix.hpp"
void demo()
{
    unsigned const rows = (1u << 26) + 8;
    basic_numeric_matrix<int8_t, 64> m(rows, 3);
    for (unsigned i = 0; i < 4; ++i) m.row_data(rows - 1 - i)[2] = 5;
    for (unsigned i = 0; i < 16; ++i) CHECK(m.row_data(i)[2] == 0, "row %u was changed when row %u was", i, (1u << 26) + i);
    for (unsigned i = 0; i < 4; ++i) CHECK(m[std::make_pair(rows - 1 - i, 2u)] == 5, "row %u", rows - 1 - i);
}
'''),
]
CATCH = '''
#include <iostream>
#include <sstream>
template<class F> std::string logged(F f)
{
    std::ostringstream o; auto was = std::clog.rdbuf(o.rdbuf());
    f(); std::clog.rdbuf(was);
    return o.str();
}
'''
S = 'src/tsetlini_state.cpp'
BUGS += [
dict(id='C30-static-verbose', property='C30', edits=[(M, '''    auto const verbose = Params::verbose(params);

    auto const loss_fn''', '''    static auto const verbose = Params::verbose(params);

    auto const loss_fn''')],
 needs='two regressors of one kind in a program, the one trained first verbose and the other one not (or the other way round)',
 breaks='a quiet regressor logs its epochs (or a verbose one does not)',
 demo=CATCH + '''
template<class E> void run()
{
    using S = typename Tr<E>::Sample;
    Cfg c, d; d.verbose = true;
    auto X = mk<S>(std::vector<ivec>{{0, 1}, {1, 0}});
    auto e = make<E>(c), f = make<E>(d);
    auto const a = logged([&]{ ok(do_fit(e, X, {0, 1}, 2, 3)); }), b = logged([&]{ ok(do_fit(f, X, {0, 1}, 2, 3)); });
    CHECK(a.empty(), "%s: a quiet one logs", Tr<E>::name);
    CHECK(b.find("Epoch 3") != b.npos, "%s: a verbose one does not log its epochs", Tr<E>::name);
}
void demo() { for_all_estimators([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C30-thinned-epochs', property='C30', edits=[(M, '''        LOG(info) << "Epoch " << epoch + 1 << '\\n';

        generate_opposite_y(''', '''        if (epoch < 1000 or (epoch + 1) % 100 == 0)
        {
            LOG(info) << "Epoch " << epoch + 1 << '\\n';
        }

        generate_opposite_y(''')],
 needs='a verbose classifier trained for more than 1000 epochs in one call',
 breaks='most of the later epochs are not logged',
 demo=CATCH + '''
void demo()
{
    using E = T::ClassifierBitwise; using S = T::bit_vector_uint64;
    Cfg d; d.verbose = true;
    auto e = make<E>(d);
    auto const a = logged([&]{ ok(do_fit(e, mk<S>(std::vector<ivec>{{0, 1}}), {1}, 2, 1003)); });
    for (int i = 1; i <= 1003; ++i) CHECK(a.find(vf::fmt("Epoch %d\\n", i)) != a.npos, "epoch %d is not logged", i);
}
'''),
dict(id='C30-selected-type', property='C30', edits=[(S, '''        LOG(trace) << "Selected int32 for ta_state\\n";''', '''        LOG(trace) << "Selected " << (counting_type == "auto" ? std::string("int32") : value_of(counting_type)) << " for ta_state\\n";''')],
 needs='an 8 or 16-bit counting type asked for with more states than it can hold',
 breaks='the log names a counting type which is not the one used',
 demo=CATCH + '''
void demo()
{
    using E = T::ClassifierBitwise; using S = T::bit_vector_uint64;
    Cfg d; d.verbose = true; d.ctype = "int16"; d.N = 40000;
    auto e = make<E>(d);
    auto const a = logged([&]{ ok(do_fit(e, mk<S>(std::vector<ivec>{{0, 1}}), {1}, 2, 1)); });
    CHECK(a.find("Selected int32 ") != a.npos, "automata of 32 bits are logged as others");
}
'''),
]
EI = 'include/neither/either.hpp'
BUGS += [
dict(id='C31-equal-values', property='C31', edits=[(EI, '''    if (!b.isLeft) {
      return a.right() == b.right();
    }''', '''    if (!b.isLeft) {
      return a.left() == b.left();
    }''')],
 needs='two results which are compared and both hold values, different ones',
 breaks='results with different values compare equal',
 demo='''
void demo()
{
    using E = T::Either<T::status_message_t, std::vector<int>>;
    auto const a = E::rightOf({1, 2}), b = E::rightOf({1, 3}), c = E::rightOf({1, 2});
    CHECK(a == c && !(a != c), "equal ones differ");
    CHECK(a != b && !(a == b), "different ones are equal");
}
'''),
dict(id='C31-temporary-flatmap', property='C31', edits=[(EI, '''    if (!*this) {
      return leftCase( std::move(leftValue) );
    }

    return NextEither::rightOf(std::move(rightValue));
  }

  template<class LeftCase,''', '''    if (!*this or sizeof (leftValue) > sizeof (rightValue)) {
      return leftCase( std::move(leftValue) );
    }

    return NextEither::rightOf(std::move(rightValue));
  }

  template<class LeftCase,''')],
 needs='leftFlatMap of a temporary result that holds a value smaller than a status would be',
 breaks='the function for errors is called with a value that is no error',
 demo='''
void demo()
{
    using E = T::Either<long, int>;
    int calls = 0;
    auto r = E::rightOf(5).leftFlatMap([&](long v) { ++calls; return E::rightOf((int)v + 1); });
    CHECK(calls == 0 && (bool)r && r.rightValue == 5, "the function for errors was called");
}
'''),
dict(id='C31-lost-value', property='C31', edits=[('include/neither/maybe.hpp', '''  ~Maybe() {
    if (hasValue) {''', '''  ~Maybe() {
    if (hasValue and not std::is_copy_constructible<T>::value) {''')],
 needs='left() or right() of a result whose value owns memory',
 breaks='the value copied out is never destroyed',
 demo='''
void demo()
{
    static int live = 0;
    struct V { V() { ++live; } V(V const &) { ++live; } ~V() { --live; } };
    {
        using E = T::Either<int, V>;
        E const e = E::rightOf(V());
        auto const m = e.right();
    }
    CHECK(live == 0, "%d values are left over", live);
}
'''),
]
