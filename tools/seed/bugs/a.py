A = 'src/tsetlini_algo_classic.hpp'; B = 'src/tsetlini_algo_bitwise.hpp'; M = 'src/tsetlini.cpp'
BUGS = [
dict(id='C01-tail-negated', property='C01', edits=[(B, '''                bit_block_type const features = X_p[fidx];
                any_inclusions = (action_include | action_include_negated) > any_inclusions ? (action_include | action_include_negated) : any_inclusions;

                bit_block_type const eval = (action_include & ~features) | (action_include_negated & features);

                toggle_output = eval > toggle_output ? eval : toggle_output;
            }

            toggle_output = any_inclusions > 0 ? toggle_output : 1;

            clause_output[oidx] = !toggle_output;''', '''                bit_block_type const features = X_p[fidx];
                any_inclusions = action_include > any_inclusions ? action_include : any_inclusions;

                bit_block_type const eval = (action_include & ~features) | (action_include_negated & features);

                toggle_output = eval > toggle_output ? eval : toggle_output;
            }

            toggle_output = any_inclusions > 0 ? toggle_output : 1;

            clause_output[oidx] = !toggle_output;''')],
 needs='a bit estimator with more features than one evaluation tile (over 1024), and a clause whose only included literals are negated ones beyond the last full tile',
 breaks='such a clause is taken for an empty one and never votes in prediction',
 demo='''
void demo()
{
    using E = T::RegressorBitwise;
    Cfg c; c.clauses = 2; c.thr = 5;
    int const F = 1100;
    auto st = fitted_state<E>(c, F, 1);
    for (int r = 0; r < 2; ++r) for (int i = 0; i < F; ++i) set_ta(st, r, i, -1);
    set_ta(st, 1, 1099, 0);
    E e(st);
    CHECK(take(e.predict(mk<T::bit_vector_uint64>(ivec(F, 0)))) == 1, "clause with a true negated literal does not vote");
    set_ta(st, 0, 3, 0); set_ta(st, 1, 3, -1);
    E g(st); ivec x(F, 0); x[3] = 1;
    CHECK(take(g.predict(mk<T::bit_vector_uint64>(x))) == 1, "clause with two true literals does not vote");
}
'''),
dict(id='C02-evaluate-ties', property='C02', edits=[(M, '''        const int max_class = std::distance(
            state.cache.label_sum.cbegin(),
            std::max_element(state.cache.label_sum.cbegin(), state.cache.label_sum.cend()));

        errors += (max_class != y[it]);''', '''        const int max_class = std::distance(
            state.cache.label_sum.cbegin(),
            std::max_element(state.cache.label_sum.cbegin(), state.cache.label_sum.cend(), [](auto a, auto b){ return a <= b; }));

        errors += (max_class != y[it]);''')],
 needs='a sample on which two labels tie for the greatest score, passed to evaluate',
 breaks='evaluate resolves ties in favour of the highest label while predict takes the lowest, so the reported accuracy is not the accuracy of the predictions',
 demo='''
template<class E> void run()
{
    Cfg c; auto st = fitted_state<E>(c, 3, 3);
    auto p = ta_shape(st);
    for (int r = 0; r < p.first; ++r) for (int i = 0; i < 3; ++i) set_ta(st, r, i, -1);
    E e(st);
    auto X = mk<typename Tr<E>::Sample>(std::vector<ivec>{{0, 1, 0}, {1, 1, 1}});
    auto y = take(e.predict(X));
    CHECK(take(e.evaluate(X, y)) == 1.f, "accuracy on the estimator's own predictions is not 1");
}
void demo() { for_classifiers([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C03-stale-outputs', property='C03', edits=[(M, '''    {
        auto const [output_ix_begin, output_ix_end] = clause_outputs_range_for_label(opposite_label, number_of_clause_outputs_per_label);

        calculate_clause_output(
''', '''    // a label which scores no lower than it can gets no feedback away from it, its clauses do not matter
    if (cache.label_sum[opposite_label] > -value_of(threshold))
    {
        auto const [output_ix_begin, output_ix_end] = clause_outputs_range_for_label(opposite_label, number_of_clause_outputs_per_label);

        calculate_clause_output(
''')],
 needs='several learning steps of one estimator in which a contrasted label once scores minus the threshold',
 breaks='the test uses the score of an earlier sample: from then on the clauses of that label are not evaluated again and get no feedback although the new sample calls for it',
 demo='''
template<class E> void run()
{
    Cfg c; c.clauses = 4; c.thr = 1; c.N = 20; c.s = 1; c.boost = true;
    auto st = fitted_state<E>(c, 1, 2);
    // label 1: clause 0 is true for 1, clause 1 for 0: the sample 0 takes its score down to -1, the sample 1 up to 1
    for (int r = 0; r < 8; ++r) set_ta(st, r, 0, -10);
    set_ta(st, 4, 0, 10); set_ta(st, 7, 0, 10);
    E e(st);
    auto x = [](int v){ return mk<typename Tr<E>::Sample>(std::vector<ivec>{{v}}); };
    ok(do_pfit(e, x(0), {0}, 2, 1)); auto a = snap(*e.clone_state());
    for (int k = 0; k < 3; ++k) ok(do_pfit(e, x(1), {0}, 2, 1));
    auto b = snap(*e.clone_state());
    CHECK(b.ta[4] != a.ta[4] || b.ta[5] != a.ta[5], "%s: a clause that speaks for the wrong label never gets its Type II feedback", Tr<E>::name);
}
void demo() { for_classifiers([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C04-weight-two', property='C04', edits=[(B, '''                if (weights.size() != 0)
                {
                    weights[iidx] -= (weights[iidx] != 0);
                }''', '''                if (weights.size() != 0)
                {
                    weights[iidx] -= (weights[iidx] > 1);
                }''', 2)],
 needs='a weighted bit regressor, a clause of weight two or more that is true when the prediction is too high, more than once',
 breaks='weights which have once grown above one are never lowered back to one',
 demo='''
void demo()
{
    using E = T::RegressorBitwise;
    Cfg c; c.clauses = 2; c.thr = 10; c.weighted = true; c.loss = "MAE"; c.N = 50;
    auto st = fitted_state<E>(c, 2, 1);
    for (int r = 0; r < 2; ++r) for (int i = 0; i < 2; ++i) set_ta(st, r, i, -50);
    st.ta_state.weights[0] = 9;
    E e(st);
    auto X = mk<T::bit_vector_uint64>(std::vector<ivec>{{0, 1}});
    ok(do_pfit(e, X, {0}, 0, 100));
    auto s = snap(*e.clone_state());
    CHECK(s.w[0] == 0, "weight is %u after many steps which lower it", s.w[0] + 1);
}
'''),
dict(id='C05-narrow-type', property='C05', edits=[('src/tsetlini_state.cpp', '''    if ((number_of_states <= std::numeric_limits<std::int8_t>::max()) and''', '''    if ((number_of_states <= std::numeric_limits<std::uint8_t>::max()) and''')],
 needs='between 129 and 255 states and automata driven beyond 127 by long training',
 breaks='automata are stored in 8 bits which cannot hold their range, so they wrap round from 127 to -128',
 demo='''
template<class E> void run()
{
    Cfg c; c.N = 200; c.s = 3; c.clauses = 8; c.thr = 20; c.boost = true;
    auto e = make<E>(c);
    auto X = mk<typename Tr<E>::Sample>(std::vector<ivec>{{0, 1}, {1, 0}});
    ok(do_fit(e, X, Tr<E>::cls ? ivec{0, 1} : ivec{20, 0}, 2, 0));
    Snap a = snap(*e.clone_state());
    for (int k = 0; k < 1500; ++k)
    {
        ok(do_pfit(e, X, Tr<E>::cls ? ivec{0, 1} : ivec{20, 0}, 2, 1));
        Snap b = snap(*e.clone_state());
        for (int r = 0; r < a.rows; ++r) for (int i = 0; i < 2; ++i) CHECK(abs(a.ta[r][i] - b.ta[r][i]) < 100, "%s: automaton went from %d to %d", Tr<E>::name, a.ta[r][i], b.ta[r][i]);
        a = b;
    }
}
void demo() { for_all_estimators([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C06-single-state', property='C06', edits=[(B, '''                if (ta_state_neg_j[fidx] < number_of_states - 1)
                {
                    ta_state_neg_j[fidx]++;

                    if (ta_state_neg_j[fidx] == 0)
                    {
                        ta_state_neg_polarity_j.flip(fidx); // flip negative clause bit in polarity matrix
                    }
                }
''','''                if (ta_state_neg_j[fidx] < number_of_states - 1)
                {
                    ta_state_neg_j[fidx]++;
                }

                if (ta_state_neg_j[fidx] == 0)
                {
                    ta_state_neg_polarity_j.flip(fidx); // flip negative clause bit in polarity matrix
                }
''')],
 needs='a bit estimator with a single state per action, and a true clause with an included negated literal that is reinforced',
 breaks='reinforcing a negated literal already in its only include state clears its bit in the inclusion mask',
 demo='''
template<class E> void run()
{
    Cfg c; c.N = 1; c.s = 2; c.clauses = 8; c.thr = 10;
    auto e = make<E>(c);
    auto X = mk<typename Tr<E>::Sample>(std::vector<ivec>{{0, 1, 0, 1}, {1, 0, 1, 1}});
    ok(do_fit(e, X, Tr<E>::cls ? ivec{0, 1} : ivec{10, 0}, 2, 0));
    for (int k = 0; k < 60; ++k)
    {
        ok(do_pfit(e, X, Tr<E>::cls ? ivec{0, 1} : ivec{10, 0}, 2, 1));
        auto p = e.clone_state(); auto s = snap(*p);
        for (int r = 0; r < s.rows; ++r) for (int i = 0; i < s.cols; ++i)
            CHECK((s.ta[r][i] >= 0) == !!p->ta_state.polarity.test(r, i), "%s: mask of automaton %d,%d disagrees with its state %d", Tr<E>::name, r, i, s.ta[r][i]);
    }
}
void demo() { run<T::ClassifierBitwise>(); run<T::RegressorBitwise>(); }
'''),
dict(id='C07-packed-init', property='C07', edits=[('src/ta_state.cpp', '''            for (auto cit = 0u; cit < matrix.cols(); ++cit)
            {
                row_data[cit] = igen.next(-1, 0);
            }
        }
    };''', '''            auto cit = 0u;

            if constexpr (sizeof (*row_data) == 1)
            {
                // a single draw is enough for 32 automata
                for (; cit + 32 <= matrix.cols(); cit += 32)
                {
                    auto draw = igen.next();

                    for (auto bit = 0u; bit < 32; ++bit, draw >>= 1)
                    {
                        row_data[cit + bit] = -(draw & 1);
                    }
                }
            }

            for (; cit < matrix.cols(); ++cit)
            {
                row_data[cit] = igen.next(-1, 0);
            }
        }
    };''')],
 needs='a byte estimator with 32 features or more, run with the 8-bit counting type and with a wider one',
 breaks='the same seed gives different models for different counting types',
 demo='''
template<class E> void run()
{
    Cfg c; c.ctype = "int8"; auto a = snap(fitted_state<E>(c, 40, 2));
    c.ctype = "int32"; auto b = snap(fitted_state<E>(c, 40, 2));
    CHECK(a == b, "%s: int8 and int32 models differ", Tr<E>::name);
}
void demo() { for_all_estimators([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C08-shared-toggle', property='C08', flags='-O0', edits=[(B, '''    else
    {
#if TSETLINI_USE_OMP == 1
#pragma omp parallel for if (n_jobs > 1) num_threads(value_of(n_jobs))
#endif
        for (int oidx = 0; oidx < openmp_number_of_clause_outputs; ++oidx)
        {
            bit_block_type toggle_output = 0;
            bit_block_type any_inclusions = 0;
''', '''    else
    {
        bit_block_type any_inclusions = 0;

#if TSETLINI_USE_OMP == 1
#pragma omp parallel for if (n_jobs > 1) num_threads(value_of(n_jobs))
#endif
        for (int oidx = 0; oidx < openmp_number_of_clause_outputs; ++oidx)
        {
            bit_block_type toggle_output = 0;
            any_inclusions = 0;
''')],
 needs='a bit estimator with more than one job and at least a full tile of features (1024), and two workers whose evaluations overlap',
 breaks='the workers share the variable that tells empty clauses, so clauses are taken for empty or non-empty depending on the schedule',
 demo='''
void demo()
{
    using E = T::RegressorBitwise;
    Cfg c; c.clauses = 256; c.thr = 1000; c.jobs = 8;
    int const F = 64 * 80;
    auto st = fitted_state<E>(c, F, 1);
    std::fill(st.ta_state.polarity.m_v.begin(), st.ta_state.polarity.m_v.end(), 0);
    for (int r = 0; r < 256; ++r) for (int i = 0; i < F; ++i) std::visit([&](auto & m){ m.row_data(r)[i] = -1; }, st.ta_state.matrix);
    for (int o = 0; o < 128; o += 2) set_ta(st, 2 * o, 5, 0);       // every other clause is empty
    E e(st); ivec x(F, 0); x[5] = 1; auto s = mk<T::bit_vector_uint64>(x);
    for (int k = 0; k < 20000; ++k) { int v = take(e.predict(s)); CHECK(v == 64, "response %d in run %d, not 64", v, k); }
}
'''),
dict(id='C10-hoisted-iota', property='C10', edits=[(M, '''    label_vector_type opposite_y(y.size());

    for (unsigned int epoch = 0; epoch < epochs; ++epoch)''', '''    label_vector_type opposite_y(y.size());

    std::iota(ix.begin(), ix.end(), 0);

    for (unsigned int epoch = 0; epoch < epochs; ++epoch)'''), (M, '''        std::iota(ix.begin(), ix.end(), 0);
        std::shuffle(ix.begin(), ix.end(), state.igen);
''', '''        std::shuffle(ix.begin(), ix.end(), state.igen);
''', 1)],
 needs='at least three samples and training split into several calls of at least two epochs in total',
 breaks='the order of samples in an epoch depends on how the epochs are divided into calls, so fit for a+b epochs differs from fit for a and partial_fit for b',
 demo='''
template<class E> void run()
{
    Cfg c; auto X = mk<typename Tr<E>::Sample>(std::vector<ivec>{{0, 1, 0}, {1, 0, 1}, {1, 1, 0}, {0, 0, 0}, {1, 1, 1}});
    ivec y = Tr<E>::cls ? ivec{0, 1, 1, 0, 1} : ivec{3, 1, 15, 0, 7};
    auto a = make<E>(c), b = make<E>(c);
    ok(do_fit(a, X, y, 2, 5));
    ok(do_fit(b, X, y, 2, 2)); ok(do_pfit(b, X, y, 2, 3));
    CHECK(snap(*a.clone_state()) == snap(*b.clone_state()), "%s: 5 epochs differ from 2 + 3", Tr<E>::name);
}
void demo() { for_all_estimators([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C11-early-features', property='C11', edits=[(M, '''    if (auto sm = check_response_y(y, Params::threshold(state.m_params));
        sm.first != StatusCode::S_OK)
    {
        return sm;
    }

    // Let it crash for now
//    validate_params();

    // train''', '''    int const number_of_features = X.front().size();
    state.m_params["number_of_features"] = param_value_t(number_of_features);

    if (auto sm = check_response_y(y, Params::threshold(state.m_params));
        sm.first != StatusCode::S_OK)
    {
        return sm;
    }

    // Let it crash for now
//    validate_params();

    // train'''), (M, '''    int const number_of_features = X.front().size();
    fitted.m_params["number_of_features"] = param_value_t(number_of_features);

    initialize_state(fitted);

    auto rv = fit_regressor''', '''    fitted.m_params["number_of_features"] = param_value_t(number_of_features);

    initialize_state(fitted);

    auto rv = fit_regressor''')],
 needs='a fitted regressor whose fit is called again with another number of features and an unacceptable response',
 breaks='the refused call leaves the new number of features behind, so the model refuses the samples it was fitted to and accepts others',
 demo='''
template<class E> void run()
{
    using S = typename Tr<E>::Sample;
    Cfg c; auto e = make<E>(c);
    auto X = mk<S>(std::vector<ivec>{{0, 1, 0}, {1, 0, 1}}), Z = mk<S>(std::vector<ivec>{{0, 1, 0, 1}, {1, 0, 1, 1}});
    ok(do_fit(e, X, {0, 1}, 2, 1));
    CHECK(do_fit(e, Z, {0, -1}, 2, 1).first != T::S_OK, "negative target accepted");
    CHECK(is_ok(e.predict(X)), "%s: a refused fit makes the estimator refuse the samples it was fitted to", Tr<E>::name);
}
void demo() { for_all_estimators([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C12-negative-values', property='C12', edits=[(M, '''[](T v){ return v == 0 || v == 1; }''', '''[](T v){ return v < 2; }''')],
 needs='a byte sample with a negative feature value',
 breaks='negative feature values are accepted by training and prediction',
 demo='''
void demo()
{
    using E = T::ClassifierClassic;
    Cfg c; auto e = make<E>(c);
    auto X = mk<T::aligned_vector_char>(std::vector<ivec>{{0, 1, 0}, {1, -1, 1}});
    CHECK(do_fit(e, X, {0, 1}, 2, 1).first == T::S_VALUE_ERROR, "feature value -1 accepted");
}
'''),
dict(id='C14-static-order', property='C14', edits=[(M, '''    std::vector<int> ix(number_of_examples);

    auto''', '''    std::vector<int> ix(number_of_examples);

    auto''')] if False else [(M, '''    auto const loss_fn = make_loss_fn(Params::loss_fn_name(params), Params::loss_fn_C1(params));
    auto const box_muller = Params::box_muller(params);

    auto const number_of_examples = X.size();

    std::vector<int> ix(number_of_examples);
''', '''    auto const loss_fn = make_loss_fn(Params::loss_fn_name(params), Params::loss_fn_C1(params));
    auto const box_muller = Params::box_muller(params);

    auto const number_of_examples = X.size();

    // keep the storage between the calls
    static std::vector<int> ix;
    ix.resize(number_of_examples);
''')],
 needs='two regressors of the same kind trained at the same time by two threads',
 breaks='the order of samples is kept in storage shared by all estimators, so concurrent trainings disturb each other',
 demo='''
template<class E> void run()
{
    using S = typename Tr<E>::Sample;
    Cfg c; c.clauses = 4;
    auto data = [](int n){ std::vector<ivec> X; ivec y; for (int i = 0; i < n; ++i) { X.push_back(bits(i * 37, 8)); y.push_back(i % 2 ? 0 : 15); } return std::make_pair(mk<S>(X), y); };
    auto d = data(300);
    auto work = [&]{ auto e = make<E>(c); ok(do_fit(e, d.first, d.second, 2, 20)); return snap(*e.clone_state()); };
    auto want = work();
    for (int k = 0; k < 20; ++k)
    {
        Snap a, b;
        std::thread t([&]{ a = work(); }), u([&]{ b = work(); });
        t.join(); u.join();
        CHECK(a == want && b == want, "%s: training concurrent with another estimator's differs (round %d)", Tr<E>::name, k);
    }
}
void demo() { run<T::RegressorClassic>(); run<T::RegressorBitwise>(); }
'''),
dict(id='C15-capped-jobs', property='C15', edits=[('src/tsetlini_params.cpp', '''    if (Params::n_jobs(params) == -1)
    {
        params.at("n_jobs") = std::max<int>(1, std::thread::hardware_concurrency());
    }''', '''    int const n_jobs = value_of(Params::n_jobs(params));
    int const n_processors = std::max<int>(1, std::thread::hardware_concurrency());

    if (n_jobs == -1 or n_jobs > n_processors)
    {
        params.at("n_jobs") = n_processors;
    }''')],
 needs='more jobs asked for than the machine has processors',
 breaks='the number of jobs given is not recorded unchanged',
 demo='''
void demo()
{
    int const n = std::thread::hardware_concurrency() + 5;
    auto e = T::make_classifier_classic(T::number_of_jobs_t{n});
    CHECK(is_ok(e), "refused");
    int const got = std::get<int>(e.rightValue.read_params().at("n_jobs"));
    CHECK(got == n, "%d jobs recorded as %d", n, got);
}
'''),
dict(id='C16-high-bits', property='C16', edits=[('src/coin_tosser_exact.hpp', '''        auto const ix = prng() % vsz;''', '''        auto const ix = (prng() >> 16) % vsz;''')],
 needs='more than 65536 features (and slightly, any number that is not a power of two)',
 breaks='literals beyond the first 65536 are never picked by the specificity coin',
 demo='''
#include "coin_tosser_exact.hpp"
void demo()
{
    IRNG g(1); unsigned const F = 70000; T::CoinTosserExact ct(0.25f, F);
    std::vector<int> n(F);
    for (int k = 0; k < 40; ++k) { auto p = ct.tosses1(g); for (unsigned i = 0; i < F; ++i) n[i] += p[i]; }
    long lo = 0, hi = 0; for (unsigned i = 0; i < F; ++i) (i < 65536 ? lo : hi) += n[i];
    CHECK(hi / double(F - 65536) > 8 && hi / double(F - 65536) < 12 && lo / 65536. < 12, "mean picks %g and %g", lo / 65536., hi / double(F - 65536));
}
'''),
dict(id='C17-zero-float', property='C17', edits=[('include/mt.hpp', '''return (y + 0.5f) * (1.0f / 4294967296.0f);''', '''return y * (1.0f / 4294967296.0f);''')],
 needs='a tempered 32-bit output of zero, once in four milliard draws',
 breaks='floating draws may be zero, outside (0, 1], and then pass a probability of zero',
 demo='''
void demo() { FRNG g; CHECK(g.post_process(0) > 0.f, "smallest floating draw is 0"); }
'''),
dict(id='C18-strict', property='C18', edits=[(A, '''if (fgen.next() > THR_pos)''', '''if (fgen.next() >= THR_pos)''')],
 needs='a fully violated margin of the trained label and a floating draw of exactly one',
 breaks='a fully violated margin does not always yield feedback',
 demo='''
template<class E> void run()
{
    Cfg c; c.clauses = 4; c.thr = 1; c.N = 10; c.s = 1;
    auto st = fitted_state<E>(c, 2, 2);
    for (int r = 0; r < 8; ++r) for (int i = 0; i < 2; ++i) set_ta(st, r, i, -2);
    set_ta(st, 0, 0, 3);                     // clause 0 false on (0,1), clause 1 true: score -1
    for (int o = 2; o < 4; ++o) set_ta(st, 2 * o, 0, 3);
    load_fgen(st, {}, 1.f);
    E e(st); auto a = snap(st);
    ok(do_pfit(e, mk<typename Tr<E>::Sample>(std::vector<ivec>{{0, 1}}), {0}, 2, 1));
    auto b = snap(*e.clone_state());
    CHECK(a.ta[0] != b.ta[0] || a.ta[1] != b.ta[1], "%s: no feedback at probability one", Tr<E>::name);
    CHECK(a.ta[2] != b.ta[2] || a.ta[3] != b.ta[3], "%s: no feedback at probability one", Tr<E>::name);
}
void demo() { for_classifiers([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C19-signed-loss', property='C19', edits=[('src/loss_fn.cpp', '''return value_of(C1) * std::abs(x) + (1.f - value_of(C1)) * x * x;''', '''return value_of(C1) * x + (1.f - value_of(C1)) * x * x;''')],
 needs='the L1+2 loss with a positive C1 and a negative error (prediction too low)',
 breaks='negative errors get less feedback than positive ones of the same size, or none',
 demo='''
#include "loss_fn.hpp"
void demo()
{
    auto f = T::make_loss_fn(T::loss_fn_name_t{"L1+2"}, T::loss_fn_C1_t{0.25f});
    for (float x : {0.1f, 0.5f, 1.f}) CHECK(f(x) == f(-x), "loss of %g is %g, of %g %g", x, f(x), -x, f(-x));
}
'''),
dict(id='C20-xor-high', property='C20', edits=[('include/basic_bit_vector.hpp', '''return (block_type)val << (pos % block_bits);''', '''return val << (pos % block_bits);''')],
 needs='XOR of a bit at position 31 or more within a 64-bit block',
 breaks='XOR changes another bit, or also other bits of the block',
 demo='''
void demo()
{
    for (int p = 0; p < 130; ++p)
    {
        T::bit_vector_uint64 v(130); volatile bool on = true;
        v.XOR(p, on);
        for (int i = 0; i < 130; ++i) CHECK(v[i] == (i == p), "XOR at %d changed bit %d", p, i);
    }
}
'''),
dict(id='C21-memo', property='C21', edits=[(M, '''Either<status_message_t, label_type>
ClassifierClassic::predict(aligned_vector_char const & sample) const
{
    return predict_impl(*m_state_p, sample);
}''', '''Either<status_message_t, label_type>
ClassifierClassic::predict(aligned_vector_char const & sample) const
{
    // repeated queries for the same sample are common in streaming use
    thread_local std::pair<void const *, aligned_vector_char> last_query{nullptr, {}};
    thread_local label_type last_label = 0;

    if (last_query.first == m_state_p.get() and last_query.second == sample)
    {
        return Either<status_message_t, label_type>::rightOf(last_label);
    }

    auto rv = predict_impl(*m_state_p, sample);

    if (not rv.isLeft)
    {
        last_query = {m_state_p.get(), sample};
        last_label = rv.rightValue;
    }

    return rv;
}''')],
 needs='predicting a sample, training further so that its label changes, and predicting it again',
 breaks='the second prediction repeats the answer of the model before training',
 demo='''
void demo()
{
    using E = T::ClassifierClassic;
    Cfg c; c.clauses = 20; auto e = make<E>(c);
    auto X = mk<T::aligned_vector_char>(std::vector<ivec>{{0, 1, 0}, {1, 0, 1}});
    ok(do_fit(e, X, {0, 1}, 2, 50));
    auto a = take(e.predict(X[0]));
    ok(do_fit(e, X, {1, 0}, 2, 50));
    auto b = take(e.predict(X[0])), d = take(e.predict(X))[0];
    CHECK(b == d, "single prediction %d differs from batch prediction %d (earlier prediction was %d)", b, d, a);
}
'''),
dict(id='C24-explicit-int8', property='C24', edits=[('src/tsetlini_state.cpp', '''        ("auto" == counting_type or "int8" == counting_type or "int16" == counting_type))''', '''        ("auto" == counting_type or "int16" == counting_type))''')],
 needs='the 8-bit counting type asked for with 128 to 32767 states',
 breaks='the type is widened to 32 bits although 16 suffice',
 demo='''
template<class E> void run()
{
    Cfg c; c.ctype = "int8"; c.N = 1000;
    CHECK(ta_width(fitted_state<E>(c, 3, 2)) == 2, "%s: wrong counting type", Tr<E>::name);
}
void demo() { for_all_estimators([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C25-no-sparse', property='C25', edits=[(B, '''            N * P >= 0.5 ? std::round(N * P) : prng() < N * P * static_cast<double>(IRNG::max()), // 0xffff'ffff when converted to float changes to 0x1'0000'0000
''', '''            std::round(N * P),
''')],
 needs='a bit regressor whose error is small compared with the threshold, so that less than half a feedback is expected',
 breaks='small errors never lead to any feedback, so training stops before the answers are right',
 demo='''
void demo()
{
    using E = T::RegressorBitwise;
    Cfg c; c.clauses = 2; c.thr = 4; c.loss = "MSE"; c.N = 3; c.s = 2;
    auto st = fitted_state<E>(c, 1, 1);
    for (int r = 0; r < 2; ++r) set_ta(st, r, 0, -1);
    E e(st);                  // the clause is empty, hence true in training: response 1 of 4
    auto X = mk<T::bit_vector_uint64>(std::vector<ivec>{{1}});
    auto a = snap(st);
    ok(do_pfit(e, X, {0}, 0, 2000));
    CHECK(snap(*e.clone_state()) != a, "2000 epochs with a wrong answer change nothing");
}
'''),
dict(id='C26-unshuffled-opposite', property='C26', edits=[(M, '''                opposite_y[ix[i]],''', '''                opposite_y[i],''')],
 needs='an order of samples in which a sample is paired with a contrast label drawn for another one',
 breaks='the contrasted label may be the target label itself, which is then trained towards and away from the same target',
 demo='''
template<class E> void run()
{
    // clauses of the other label must change in every step when everything is picked
    Cfg c; c.clauses = 4; c.thr = 50; c.N = 100; c.s = 1;
    auto X = mk<typename Tr<E>::Sample>(std::vector<ivec>{{0, 1}, {0, 1}});
    for (unsigned seed = 1; seed < 30; ++seed)
    {
        c.seed = seed;
        auto st = fitted_state<E>(c, 2, 2);
        for (int r = 0; r < 8; ++r) for (int i = 0; i < 2; ++i) set_ta(st, r, i, -50);
        load_fgen(st, {}, YES);
        E e(st); ok(do_pfit(e, X, {0, 1}, 2, 1));
        auto s = snap(*e.clone_state());
        // every label is target once and contrast once: each clause gets one Type I and one Type II feedback
        for (int o = 0; o < 4; ++o) CHECK(s.ta[2 * o][0] == s.ta[0][0] && s.ta[2 * o][1] == s.ta[0][1], "%s: seed %u: clauses 0 and %d were trained differently: %s", Tr<E>::name, seed, o, s.show().c_str());
    }
}
void demo() { for_classifiers([](auto * p){ run<std::decay_t<decltype(*p)>>(); }); }
'''),
dict(id='C27-training-tail', property='C27', edits=[(B, '''            for (int fidx = kk; fidx < feature_blocks and toggle_output == 0; ++fidx)
            {
                bit_block_type const action_include = ta_polarity_pos_j[fidx];
                bit_block_type const action_include_negated = ta_polarity_neg_j[fidx];
                bit_block_type const features = X_p[fidx];

                bit_block_type const eval = (action_include & ~features) | (action_include_negated & features);
''','''            for (int fidx = kk; fidx < feature_blocks and toggle_output == 0; ++fidx)
            {
                bit_block_type const action_include = ta_polarity_pos_j[fidx];
                bit_block_type const action_include_negated = ta_polarity_neg_j[fidx];
                bit_block_type const features = X_p[fidx];

                bit_block_type const eval = (action_include ^ action_include_negated) & (action_include ^ features);
''')],
 needs='more than 1024 features, not a multiple of the tile, and a clause that includes a literal of the last ones together with its negation, and is trained',
 breaks='in training the bit estimators take a contradictory clause for a true one, the byte estimators do not',
 demo='''
template<class E> Snap run()
{
    Cfg c; c.clauses = 2; c.thr = 10; c.loss = "MAE"; c.N = 50; c.s = 1e9;
    auto st = fitted_state<E>(c, 1100, 1);
    for (int r = 0; r < 2; ++r) { for (int i = 0; i < 1100; ++i) set_ta(st, r, i, -40); set_ta(st, r, 1090, 3); }
    E e(st);
    ok(do_pfit(e, mk<typename Tr<E>::Sample>(std::vector<ivec>{ivec(1100, 0)}), {10}, 0, 5));
    return snap(*e.clone_state());
}
void demo()
{
    auto a = run<T::RegressorClassic>(), b = run<T::RegressorBitwise>();
    CHECK(a == b, "byte and bit estimators trained differently");
}
'''),
]
