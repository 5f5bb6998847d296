A = 'src/tsetlini_algo_classic.hpp'; B = 'src/tsetlini_algo_bitwise.hpp'; M = 'src/tsetlini.cpp'; J = 'src/tsetlini_state_json.cpp'; X = 'include/basic_bit_matrix.hpp'
BUGS = [
dict(id='C01-block-count', property='C01', edits=[(B, '''    int const feature_blocks = X.content_blocks();''', '''    std::uint8_t const feature_blocks = X.content_blocks();''', 3)],
 needs='a bit estimator with 16384 features or more, and a literal beyond those that the count of blocks, taken modulo 256, leaves',
 breaks='in prediction such a literal has no influence',
 demo='''
void demo()
{
    using E = T::RegressorBitwise;
    Cfg c; c.clauses = 2; c.thr = 5;
    int const F = 16500;
    auto st = fitted_state<E>(c, F, 1);
    for (int r = 0; r < 2; ++r) for (int i = 0; i < F; ++i) set_ta(st, r, i, -1);
    set_ta(st, 0, 3, 0); set_ta(st, 0, 9000, 0);
    E e(st);
    ivec x(F, 0); x[3] = 1;
    CHECK(take(e.predict(mk<T::bit_vector_uint64>(x))) == 0, "a clause votes although literal 9000 is false");
    x[9000] = 1;
    CHECK(take(e.predict(mk<T::bit_vector_uint64>(x))) == 1, "a true clause does not vote");
}
'''),
dict(id='C03-block-count', property='C03', edits=[(B, '''    unsigned int const full_feature_blocks = X.content_blocks() - (X.tail_bits() != 0);''', '''    std::uint8_t const full_feature_blocks = X.content_blocks() - (X.tail_bits() != 0);''')],
 needs='a bit estimator with 16384 features or more, and Type II feedback to a true clause',
 breaks='most of the literals that should be strengthened are not',
 demo='''
void demo()
{
    using E = T::ClassifierBitwise;
    Cfg c; c.clauses = 4; c.thr = 100;
    int const F = 16448;
    int fed = 0;
    for (unsigned seed = 1; seed <= 8; ++seed)
    {
        c.seed = seed;
        auto st = fitted_state<E>(c, F, 2);
        for (int r = 0; r < 8; ++r) for (int i = 0; i < F; ++i) set_ta(st, r, i, -5);
        E e(st);
        ivec x(F, 0);
        ok(do_pfit(e, mk<T::bit_vector_uint64>(std::vector<ivec>{x}), {0}, 2, 1));
        auto const s = snap(*e.clone_state());
        // clause 1 of label 0 can get Type II only
        int n = 0; for (int i = 0; i < F; ++i) n += s.ta[2][i] == -4;
        CHECK(n == 0 || n == F, "%d of %d literals were strengthened", n, F);
        fed += n != 0;
    }
    CHECK(fed, "no feedback at all");
}
'''),
dict(id='C04-same-sample', property='C04', edits=[(M, '''    calculate_clause_output(
        X,
        cache.clause_output,
        0,
        value_of(number_of_clause_outputs),
        ta_state,
        n_jobs,
        clause_output_tile_size
    );

    auto const votes''', '''    if (not same_sample)
    {
        calculate_clause_output(
            X,
            cache.clause_output,
            0,
            value_of(number_of_clause_outputs),
            ta_state,
            n_jobs,
            clause_output_tile_size
        );
    }

    auto const votes'''), (M, '''    clause_output_tile_size_t clause_output_tile_size
    )
{''', '''    clause_output_tile_size_t clause_output_tile_size,
    bool const same_sample
    )
{'''), (M, '''            regressor_update_impl(
                X[ix[i]],''', '''            bool const same_sample = ix[i] == last;

            last = ix[i];

            regressor_update_impl(
                X[ix[i]],'''), (M, '''                state.igen,
                state.fgen,
                ta_state,
                state.cache,

                clause_output_tile_size
''', '''                state.igen,
                state.fgen,
                ta_state,
                state.cache,

                clause_output_tile_size,
                same_sample
''', 2), (M, '''    auto const box_muller = Params::box_muller(params);

    auto const number_of_examples = X.size();
''', '''    auto const box_muller = Params::box_muller(params);

    auto const number_of_examples = X.size();

    int last = -1;
''')],
 needs='one and the same sample learned from twice in a row (the last one of an epoch is the first one of the next)',
 breaks='the second step uses the clause outputs from before the first one',
 demo='''
template<class E> void run()
{
    using S = typename Tr<E>::Sample;
    for (unsigned seed = 1; seed <= 20; ++seed)
    {
        Cfg c; c.clauses = 10; c.thr = 20; c.s = 1.5f; c.seed = seed;
        auto e = make<E>(c), f = make<E>(c);
        auto X = mk<S>(std::vector<ivec>{{0, 1, 0, 1}});
        ok(do_fit(e, X, {7}, 1, 12));
        ok(do_fit(f, X, {7}, 1, 1));
        for (int i = 1; i < 12; ++i) ok(do_pfit(f, X, {7}, 1, 1));
        CHECK(snap(*e.clone_state()) == snap(*f.clone_state()), "%s: twelve epochs are not twelve times one, seed %u", Tr<E>::name, seed);
    }
}
void demo() { for_regressors([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C02-narrow-label', property='C02', edits=[(M, '''        const int max_class = std::distance(
            state.cache.label_sum.cbegin(),
            std::max_element(state.cache.label_sum.cbegin(), state.cache.label_sum.cend()));

        rv[it]''', '''        const std::uint8_t max_class = std::distance(
            state.cache.label_sum.cbegin(),
            std::max_element(state.cache.label_sum.cbegin(), state.cache.label_sum.cend()));

        rv[it]''')],
 needs='more than 256 labels, predicting for a list of samples',
 breaks='labels above 255 are never predicted, a lower one is instead',
 demo='''
template<class E> void run()
{
    using S = typename Tr<E>::Sample;
    Cfg c;
    auto st = fitted_state<E>(c, 1, 300);
    auto const sh = ta_shape(st);
    for (int r = 0; r < sh.first; ++r) set_ta(st, r, 0, -1);
    set_ta(st, 290 * 4, 0, 0);
    E e(st);
    auto X = mk<S>(std::vector<ivec>{{1}, {0}});
    CHECK(take(e.predict(X[0])) == 290, "%s: one sample", Tr<E>::name);
    auto const r = take(e.predict(X));
    CHECK(r[0] == 290 && r[1] == 0, "%s: predicted %d", Tr<E>::name, (int)r[0]);
}
void demo() { for_classifiers([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C21-buffer-memo', property='C21', edits=[(M, '''    response_type rv = sum_up_regressor_votes(state.cache.clause_output, Params::threshold(state.m_params), state.ta_state.weights);

    return''', '''    response_type rv = sum_up_regressor_votes(state.cache.clause_output, Params::threshold(state.m_params), state.ta_state.weights);

    last_state = &state;
    last_sample = &sample;

    return'''), (M, '''    calculate_clause_output_with_pruning(
        sample,
        state.cache.clause_output,
        Params::number_of_regressor_clause_outputs(state.m_params),
        state.ta_state,
        n_jobs,
        clause_output_tile_size);
''', '''    thread_local RegressorStateType const * last_state = nullptr;
    thread_local SampleType const * last_sample = nullptr;

    if (last_state != &state or last_sample != &sample)
    {
        calculate_clause_output_with_pruning(
            sample,
            state.cache.clause_output,
            Params::number_of_regressor_clause_outputs(state.m_params),
            state.ta_state,
            n_jobs,
            clause_output_tile_size);
    }
''')],
 needs='a regressor asked twice in a row about one sample object that was changed in between',
 breaks='the second answer is that for the old contents',
 demo='''
template<class E> void run()
{
    using S = typename Tr<E>::Sample;
    Cfg c; c.clauses = 2;
    auto st = fitted_state<E>(c, 2, 1);
    for (int r = 0; r < 2; ++r) for (int i = 0; i < 2; ++i) set_ta(st, r, i, -1);
    set_ta(st, 0, 0, 0);
    E e(st);
    S x = mk<S>(ivec{1, 0});
    CHECK(take(e.predict(x)) == 1, "%s: before", Tr<E>::name);
    x = mk<S>(ivec{0, 0});
    CHECK(take(e.predict(x)) == 0, "%s: the old contents", Tr<E>::name);
}
void demo() { for_regressors([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C26-short-index', property='C26', edits=[(M, '''    std::vector<int> ix(number_of_examples);
''', '''    std::vector<std::uint16_t> ix(number_of_examples);
''', 2)],
 needs='a regressor and more than 65536 samples',
 breaks='the samples beyond are never learned from, the first ones more than once',
 demo='''
void demo()
{
    using E = T::RegressorClassic; using S = Tr<E>::Sample;
    // only the samples beyond 65536 ask for an answer: nothing is learned unless they are used
    Cfg c; c.clauses = 2; c.thr = 4;
    auto st = fitted_state<E>(c, 1, 1);
    for (int r = 0; r < 2; ++r) set_ta(st, r, 0, -50);
    set_ta(st, 0, 0, 20); set_ta(st, 1, 0, 20);     // a false clause: votes 0
    E e(st);
    std::vector<ivec> X(65536 + 3000, ivec{0}); ivec y(X.size(), 0);
    for (size_t i = 65536; i < X.size(); ++i) y[i] = 4;
    auto const before = snap(*e.clone_state());
    ok(do_pfit(e, mk<S>(X), y, 1, 1));
    CHECK(!(snap(*e.clone_state()) == before), "nothing was learned from the samples beyond 65536");
}
'''),
dict(id='C12-short-width', property='C12', edits=[(M, '''    if ((X.front().size() - value_of(number_of_features)) != 0)''', '''    if (static_cast<std::int16_t>(X.front().size() - value_of(number_of_features)) != 0)''')],
 needs='partial_fit of a fitted estimator with rows that are longer than the fitted ones by 65536',
 breaks='they are accepted, and written to beyond the automata',
 demo='''
void demo()
{
    using E = T::RegressorClassic; using S = Tr<E>::Sample;
    Cfg c; c.clauses = 2; c.thr = 4;
    auto e = make<E>(c);
    ok(do_fit(e, mk<S>(std::vector<ivec>{{1, 0}}), {0}, 1, 1));
    CHECK(do_pfit(e, mk<S>(std::vector<ivec>{ivec(65538, 0)}), {0}, 1, 0).first == T::S_VALUE_ERROR, "rows of 65538 accepted, fitted for 2");
}
'''),
dict(id='C16-short-hits', property='C16', edits=[('src/coin_tosser_exact.hpp', '''    unsigned int m_hits_floor;''', '''    std::uint16_t m_hits_floor;''')],
 needs='more than 65535 features picked by one toss (features / s)',
 breaks='hardly any literal is picked',
 demo='''
void demo()
{
    using E = T::RegressorClassic; using S = Tr<E>::Sample;
    Cfg c; c.clauses = 2; c.thr = 4; c.s = 1.f;
    int const F = 70000;
    auto st = fitted_state<E>(c, F, 1);
    for (int r = 0; r < 2; ++r) for (int i = 0; i < F; ++i) set_ta(st, r, i, i ? -5 : 5);
    E e(st);
    ok(do_pfit(e, mk<S>(std::vector<ivec>{ivec(F, 0)}), {4}, 1, 1));     // a false clause, and a fault of full size: everything is weakened
    auto const s = snap(*e.clone_state());
    int n = 0; for (int i = 0; i < F; ++i) n += s.ta[0][i] < (i ? -5 : 5);
    CHECK(n == F, "%d of %d literals were weakened", n, F);
}
'''),
dict(id='C19-short-error', property='C19', edits=[(A, '''    real_type const P = loss_fn(static_cast<real_type>(value_of(response_error)) / value_of(threshold));''', '''    real_type const P = loss_fn(static_cast<real_type>(static_cast<std::int16_t>(value_of(response_error))) / value_of(threshold));''')],
 needs='a regressor on byte rows, a threshold above 32767 and an error of 32768 or more',
 breaks='the amount of feedback has nothing to do with the error',
 demo='''
void demo()
{
    using E = T::RegressorClassic; using S = Tr<E>::Sample;
    Cfg c; c.clauses = 2; c.thr = 65536; c.s = 1.f;
    auto st = fitted_state<E>(c, 2, 1);
    for (int r = 0; r < 2; ++r) { set_ta(st, r, 0, 5); set_ta(st, r, 1, -5); }
    E e(st);
    auto const before = snap(*e.clone_state());
    ok(do_pfit(e, mk<S>(std::vector<ivec>{{0, 0}}), {65536}, 1, 1));
    CHECK(!(snap(*e.clone_state()) == before), "an error of the full threshold, and no feedback");
}
'''),
dict(id='C24-short-features', property='C24', edits=[(M, '''    int const number_of_features = X.front().size();
    fitted.m_params''', '''    std::uint16_t const number_of_features = X.front().size();
    fitted.m_params''')],
 needs='a classifier fitted with 65536 features or more',
 breaks='the model is made for that number modulo 65536',
 demo='''
void demo()
{
    using E = T::ClassifierClassic; using S = Tr<E>::Sample;
    Cfg c; c.clauses = 4;
    int const F = 65537;
    auto e = make<E>(c);
    ok(do_fit(e, mk<S>(std::vector<ivec>{ivec(F, 0)}), {0}, 2, 0));
    auto const p = e.clone_state();
    CHECK(ta_shape(*p).second == F, "%d features", ta_shape(*p).second);
}
'''),
dict(id='C06-short-position', property='C06', edits=[(X, '''        void flip(size_type pos)
        {
            m_p[pos / block_bits] ^= set_mask(pos);''', '''        void flip(unsigned short pos)
        {
            m_p[pos / block_bits] ^= set_mask(pos);''')],
 needs='more than 65536 features, an automaton of a literal beyond them crossing between excluded and included',
 breaks='the mask shows another literal included',
 demo='''
void demo()
{
    using E = T::RegressorBitwise; using S = Tr<E>::Sample;
    Cfg c; c.clauses = 2; c.thr = 4; c.s = 1000.f;
    int const F = 65600;
    auto st = fitted_state<E>(c, F, 1);
    for (int r = 0; r < 2; ++r) for (int i = 0; i < F; ++i) set_ta(st, r, i, -1);
    E e(st);
    ok(do_pfit(e, mk<S>(std::vector<ivec>{ivec(F, 0)}), {4}, 1, 3));
    auto const p = e.clone_state();
    for (int i = 0; i < F; ++i) CHECK((get_ta(*p, 1, i) >= 0) == (p->ta_state.polarity[{1u, (unsigned)i}] != 0), "literal %d", i);
}
'''),
]
