A = 'src/tsetlini_algo_classic.hpp'; B = 'src/tsetlini_algo_bitwise.hpp'; M = 'src/tsetlini.cpp'; J = 'src/tsetlini_state_json.cpp'
BUGS = [
dict(id='C01-half-word', property='C01', edits=[(B, '''            bit_block_type toggle_output = 0;
            bit_block_type any_inclusions = 0;''', '''            unsigned int toggle_output = 0;
            bit_block_type any_inclusions = 0;''')],
 needs='a bit estimator with more features than one evaluation tile (over 1024), and a clause which is false only because of literals in the upper halves of 64-bit words',
 breaks='such a clause votes in prediction although a literal it includes is false',
 demo='''
void demo()
{
    using E = T::RegressorBitwise;
    Cfg c; c.clauses = 2; c.thr = 5;
    int const F = 1100;
    auto st = fitted_state<E>(c, F, 1);
    for (int r = 0; r < 2; ++r) for (int i = 0; i < F; ++i) set_ta(st, r, i, -1);
    set_ta(st, 0, 0, 0); set_ta(st, 0, 40, 0);
    E e(st);
    ivec x(F, 0); x[0] = 1;
    CHECK(take(e.predict(mk<T::bit_vector_uint64>(x))) == 0, "a false clause votes");
}
'''),
dict(id='C07-tail-literal', property='C07', edits=[(B, '''            unsigned int kk = 0;
            for (; kk < feature_blocks - (BATCH_SZ - 1); kk += BATCH_SZ)
            {
                for (auto fidx = kk; fidx < BATCH_SZ + kk; ++fidx)
                {
                    bit_block_type const action_include = ta_polarity_pos_j[fidx];
                    bit_block_type const action_include_negated = ta_polarity_neg_j[fidx];
                    bit_block_type const features = X_p[fidx];

                    bit_block_type const eval = (action_include & ~features) | (action_include_negated & features);

                    toggle_output = eval > toggle_output ? eval : toggle_output;
                }
                if (toggle_output != 0)
                {
                    break;
                }
            }
            for (int fidx = kk;''', '''            unsigned int kk = 0;
            for (; kk < feature_blocks - (BATCH_SZ - 1); kk += BATCH_SZ)
            {
                for (auto fidx = kk; fidx < BATCH_SZ + kk; ++fidx)
                {
                    bit_block_type const action_include = ta_polarity_pos_j[fidx];
                    bit_block_type const action_include_negated = ta_polarity_neg_j[fidx];
                    bit_block_type const features = X_p[fidx];

                    bit_block_type const eval = (action_include & ~features) | (action_include_negated & features);

                    toggle_output = eval > toggle_output ? eval : toggle_output;
                }
                if (toggle_output != 0)
                {
                    break;
                }
            }
            for (int fidx = kk + (BATCH_SZ > 16);''')],
 needs='training a bit estimator with a tile size over 16 and more than 2048 features, not a multiple of the tile, so that the first word after the full tiles matters',
 breaks='the result of training depends on the tile size',
 demo='''
void demo()
{
    using E = T::RegressorBitwise; using S = T::bit_vector_uint64;
    std::string r[2];
    for (int k = 0; k < 2; ++k)
    {
        Cfg c; c.clauses = 4; c.thr = 1; c.tile = k ? 32 : 16; c.seed = 3; c.s = 2.f; c.N = 50;
        int const F = 2048 + 64;
        auto st = fitted_state<E>(c, F, 1);
        for (int q = 0; q < 4; ++q) for (int i = 0; i < F; ++i) set_ta(st, q, i, -1);
        set_ta(st, 0, 2050, 1); set_ta(st, 2, 2051, 1);
        E e(st);
        ivec x(F, 0), z(F, 1);
        ok(do_pfit(e, mk<S>(std::vector<ivec>{x, z}), ivec{0, 1}, 2, 3), "partial_fit");
        r[k] = snap(*e.clone_state()).key();
    }
    CHECK(r[0] == r[1], "tile sizes 16 and 32 differ");
}
'''),
dict(id='C08-shared-row', property='C08', flags='-O0', edits=[(A, '''#if TSETLINI_USE_OMP == 1
#pragma omp parallel for if (n_jobs > 1) num_threads(value_of(n_jobs))
#endif
        for (int oidx = 0; oidx < openmp_number_of_clause_outputs; ++oidx)
        {
            char toggle_output = 0;
            char neg_all_exclude = 0;

            state_type const * ta_state_pos_j = assume_aligned<alignment>(ta_state.row_data(2 * oidx + 0));
            state_type const * ta_state_neg_j''', '''        state_type const * ta_state_pos_j = nullptr;

#if TSETLINI_USE_OMP == 1
#pragma omp parallel for if (n_jobs > 1) num_threads(value_of(n_jobs))
#endif
        for (int oidx = 0; oidx < openmp_number_of_clause_outputs; ++oidx)
        {
            char toggle_output = 0;
            char neg_all_exclude = 0;

            ta_state_pos_j = assume_aligned<alignment>(ta_state.row_data(2 * oidx + 0));
            state_type const * ta_state_neg_j''')],
 needs='prediction of a byte estimator by more than one job, at least as many features as the tile, and one worker overtaking another within a clause',
 breaks='a worker evaluates the literals of another worker\'s clause',
 demo='''
void demo()
{
    using E = T::RegressorClassic; using S = T::aligned_vector_char;
    Cfg c; c.clauses = 400; c.thr = 1000; c.jobs = 4;
    int const F = 300;
    auto st = fitted_state<E>(c, F, 1);
    for (int r = 0; r < 400; ++r) for (int i = 0; i < F; ++i) set_ta(st, r, i, -1);
    for (int o = 0; o < 200; ++o) set_ta(st, 2 * o, o % 2 ? 299 : 298, 0);
    E e(st);
    ivec x(F, 0); x[299] = 1;
    auto const X = mk<S>(std::vector<ivec>(2000, x));
    for (int k = 0; k < 20; ++k) for (auto v : take(e.predict(X))) CHECK(v == 100, "response %d instead of 100", (int)v);
}
'''),
dict(id='C10-hoisted-opposite', property='C10', edits=[(M, '''    for (unsigned int epoch = 0; epoch < epochs; ++epoch)
    {
        LOG(info) << "Epoch " << epoch + 1 << '\\n';

        generate_opposite_y(y, opposite_y, number_of_labels, state.igen);
''', '''    generate_opposite_y(y, opposite_y, number_of_labels, state.igen);

    for (unsigned int epoch = 0; epoch < epochs; ++epoch)
    {
        LOG(info) << "Epoch " << epoch + 1 << '\\n';
''')],
 needs='a classifier trained for several epochs in one call, or for none',
 breaks='fit for a + b epochs differs from fit for a and partial_fit for b; zero epochs draw random numbers',
 demo='''
void demo()
{
    using E = T::ClassifierClassic; using S = T::aligned_vector_char;
    Cfg c; c.clauses = 8; c.N = 10; c.thr = 5;
    auto const X = mk<S>(std::vector<ivec>{{0, 1}, {1, 0}, {1, 1}}); ivec const y{0, 1, 2};
    auto a = make<E>(c), b = make<E>(c);
    ok(do_fit(a, X, y, 3, 6), "fit");
    ok(do_fit(b, X, y, 3, 3), "fit"); ok(do_pfit(b, X, y, 3, 3), "partial_fit");
    CHECK(snap(*a.clone_state()) == snap(*b.clone_state()), "6 epochs differ from 3 + 3");
}
'''),
dict(id='C13-width16', property='C13', edits=[(J, '''        p = Tsetlini::numeric_matrix_int16(nr, nc);''', '''        p = Tsetlini::numeric_matrix_int32(nr, nc);''')],
 needs='a state which counts in 16 bits',
 breaks='it is restored with 32-bit automata and does not equal the original',
 demo='''
void demo()
{
    using E = T::ClassifierBitwise;
    Cfg c; c.N = 300;
    auto a = fitted_state<E>(c, 3, 2), b = fitted_state<E>(c, 3, 2);
    T::from_json_string(b, T::to_json_string(a));
    CHECK(a == b, "restored state differs");
}
'''),
dict(id='C14-static-opposite', property='C14', edits=[(M, '''    label_vector_type opposite_y(y.size());
''', '''    static label_vector_type opposite_y; // spares allocations
    opposite_y.resize(y.size());
''')],
 needs='two classifiers of the same kind trained by two threads at the same time',
 breaks='one overwrites (or reallocates) the contrasted labels of the other',
 demo='''
void demo()
{
    using E = T::ClassifierClassic; using S = T::aligned_vector_char;
    auto run = [](int k, int n)
    {
        Cfg c; c.clauses = 4; c.N = 10; c.thr = 5; c.seed = 1 + k;
        auto e = make<E>(c); std::vector<ivec> x(n, ivec{0, 1}); ivec y(n); for (int i = 0; i < n; ++i) y[i] = i % 5;
        ok(do_fit(e, mk<S>(x), y, 5, 200), "fit");
        return snap(*e.clone_state()).key();
    };
    std::string w[2] = {run(0, 60), run(1, 40)};
    for (int k = 0; k < 30; ++k)
    {
        std::string g[2];
        std::thread t0([&]{ g[0] = run(0, 60); }), t1([&]{ g[1] = run(1, 40); });
        t0.join(); t1.join();
        CHECK(g[0] == w[0] && g[1] == w[1], "training depends on what another thread trains");
    }
}
'''),
dict(id='C18-paired-draw', property='C18', edits=[(A, '''        for (int fidx = feedback_begin_ix; fidx < feedback_end_ix; ++fidx)
        {
            if (fgen.next() > THR_neg)
            {
                continue;
            }
''', '''        real_type draw = 0;

        for (int fidx = feedback_begin_ix; fidx < feedback_end_ix; ++fidx)
        {
            if (fidx % 4 != 3)
            {
                draw = fgen.next();
            }

            if (draw > THR_neg)
            {
                continue;
            }
''')],
 needs='the third and fourth clause of the contrasted label: they share one draw',
 breaks='the clauses are not decided independently',
 demo='''
void demo()
{
    using E = T::ClassifierClassic; using S = T::aligned_vector_char;
    Cfg c; c.clauses = 8; c.N = 10; c.thr = 100; c.s = 1.f;
    int split = 0;
    for (unsigned seed = 1; seed < 200 && !split; ++seed)
    {
        c.seed = seed;
        auto st = fitted_state<E>(c, 1, 2);
        for (int r = 0; r < 16; ++r) set_ta(st, r, 0, -5);
        auto const b = snap(st);
        E e(st);
        ok(do_pfit(e, mk<S>(std::vector<ivec>{{1}}), ivec{0}, 2, 1), "partial_fit");
        auto const a = snap(*e.clone_state());
        // label 1: clauses 4..7, rows 8..15
        split += (a.ta[12] != b.ta[12] || a.ta[13] != b.ta[13]) != (a.ta[14] != b.ta[14] || a.ta[15] != b.ta[15]);
    }
    CHECK(split, "the third and fourth clause are always changed together");
}
'''),
dict(id='C20-part-compared', property='C20', edits=[('include/basic_numeric_matrix.hpp', '''            and m_v == other.m_v;''', '''            // padding does not count
            and std::equal(m_v.cbegin(), m_v.cbegin() + m_nrows * m_ncols, other.m_v.cbegin());''')],
 needs='two numeric matrices of the same shape with padded rows, different in one of the last rows only',
 breaks='they compare equal',
 demo='''
#include "basic_numeric_matrix.hpp"
void demo()
{
    basic_numeric_matrix<int> a(4, 3), b(4, 3);
    CHECK(a == b, "equal matrices compare different");
    a.row_data(3)[2] = 1;
    CHECK(!(a == b), "matrices with different last rows compare equal");
}
'''),
dict(id='C26-last-fixed', property='C26', edits=[(M, '''        std::shuffle(ix.begin(), ix.end(), state.igen);

        state.cache.ct.populate(s, state.igen);

        for (auto i = 0u; i < number_of_examples; ++i)
        {
            regressor_update_impl(''', '''        std::shuffle(ix.begin(), std::prev(ix.end()), state.igen);

        state.cache.ct.populate(s, state.igen);

        for (auto i = 0u; i < number_of_examples; ++i)
        {
            regressor_update_impl(''')],
 needs='regressor training: the last sample is always learned last',
 breaks='not every order of the samples is possible',
 demo='''
void demo()
{
    using E = T::RegressorClassic; using S = T::aligned_vector_char;
    // the only clause includes what is false in the sample learned first, and is false from then on
    Cfg c; c.clauses = 2; c.N = 3; c.thr = 1; c.s = 1.f;
    std::set<std::string> got;
    for (unsigned seed = 1; seed < 60; ++seed)
    {
        c.seed = seed;
        auto st = fitted_state<E>(c, 2, 1);
        for (int r = 0; r < 2; ++r) for (int i = 0; i < 2; ++i) set_ta(st, r, i, -1);
        E e(st);
        ok(do_pfit(e, mk<S>(std::vector<ivec>{{1, 0}, {1, 1}}), ivec{0, 0}, 2, 1), "partial_fit");
        got.insert(snap(*e.clone_state()).show());
    }
    CHECK(got.size() == 2, "only %zu of the 2 orders happens", got.size());
}
'''),
dict(id='C28-stream', property='C28', edits=[(J, '''    auto js = json::parse(jss);''', '''    json js;
    std::istringstream(jss) >> js;''', 0), (J, '''#include <iterator>
''', '''#include <iterator>
#include <sstream>
''')],
 needs='a document followed by something else, such as the end of a longer file it overwrote',
 breaks='the document is accepted and the rest ignored',
 demo='''
void demo()
{
    using E = T::RegressorClassic;
    Cfg c;
    auto a = fitted_state<E>(c, 3, 1), b = fitted_state<E>(c, 5, 1);
    auto const was = b;
    bool threw = false;
    try { T::from_json_string(b, T::to_json_string(a) + ",0]}"); } catch (std::exception const &) { threw = true; }
    CHECK(threw && b == was, "a document with a rest of another is accepted");
}
'''),
dict(id='C28-optional-weights', property='C28', edits=[(J, '''    p.weights = j.at("weights").get<Tsetlini::w_vector_type>();
}


void to_json(json & j, ClassifierStateBitwise''', '''    if (j.contains("weights")) // not written by unweighted estimators
    {
        p.weights = j.at("weights").get<Tsetlini::w_vector_type>();
    }
}


void to_json(json & j, ClassifierStateBitwise''')],
 needs='a document of an unweighted byte estimator which has lost its member weights',
 breaks='it is accepted',
 demo='''
void demo()
{
    using E = T::ClassifierClassic;
    Cfg c;
    auto a = fitted_state<E>(c, 3, 2), b = fitted_state<E>(c, 5, 2);
    auto const was = b;
    auto s = T::to_json_string(a);
    auto i = s.find("\\"weights\\""); CHECK(i != s.npos, "no weights");
    s.replace(i, 9, "\\"height\\"");
    bool threw = false;
    try { T::from_json_string(b, s); } catch (std::exception const &) { threw = true; }
    CHECK(threw && b == was, "a document without weights is accepted");
}
'''),
dict(id='C22-short-tail', property='C22', edits=[('include/aligned_array.hpp', '''    unsigned char a[Alignment - 1 + nelem * sizeof (value_type)];''', '''    unsigned char a[Alignment - sizeof (value_type) + nelem * sizeof (value_type)];''')],
 needs='elements of more than 8 bytes, and an array at an address just past a multiple of the alignment',
 breaks='the last elements lie outside the array object',
 demo='''
#include "aligned_array.hpp"
void demo()
{
    using A = AlignedArray<long double, 3, 64>;
    static unsigned char room[1024];
    for (size_t o = 0; o < 256; o += alignof(A))
    {
        auto p = reinterpret_cast<unsigned char *>((reinterpret_cast<size_t>(room) + 255) & ~size_t(255)) + o;
        auto a = new (p) A();
        CHECK((unsigned char *)(a->data() + 3) <= p + sizeof (A), "elements end %d bytes past the array", (int)((unsigned char *)(a->data() + 3) - p - sizeof (A)));
    }
}
'''),
]
