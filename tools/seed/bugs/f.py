ES = 'src/estimator_state.cpp'; CA = 'src/estimator_state_cache.cpp'; NM = 'include/basic_numeric_matrix.hpp'
BUGS = [
dict(id='C32-float-generator', property='C32', edits=[(ES, '''            and lhs.igen == rhs.igen
            and lhs.fgen == rhs.fgen
''', '''            and lhs.igen == rhs.igen
''')],
 needs='two states which only differ in the position of the float generator (training that used draws and moved nothing)',
 breaks='they compare equal, and continue differently',
 demo='''
void demo()
{
    using E = T::ClassifierBitwise; using S = Tr<E>::Sample;
    Cfg c; c.clauses = 4; c.thr = 15; c.s = 1e9f; c.N = 1; c.boost = true;
    E e(fitted_state<E>(c, 2, 2));
    auto X = mk<S>(std::vector<ivec>{{0, 1}, {1, 0}});
    ok(do_pfit(e, X, {0, 1}, 2, 3));
    auto const a = e.clone_state();
    for (int i = 0; i < 400; ++i)
    {
        auto const b = e.clone_state();
        ok(do_pfit(e, X, {0, 1}, 2, 1));
        auto const d = e.clone_state();
        Tr<E>::State x(*b); x.igen = d->igen; x.ta_state = d->ta_state;
        CHECK(!(x == *d), "states at different positions of the generator of floats compare equal");
    }
}
'''),
dict(id='C32-unpadded', property='C32', edits=[(NM, '''            and m_ncols == other.m_ncols
            and m_v == other.m_v;''', '''            and m_ncols == other.m_ncols
            and std::equal(m_v.begin(), m_v.begin() + size_type{m_nrows} * m_ncols, other.m_v.begin());''')],
 needs='a number of features which does not fill whole cache lines, and a difference in the last rows',
 breaks='states with different automata compare equal',
 demo='''
void demo()
{
    using E = T::RegressorClassic;
    Cfg c; c.clauses = 8; c.thr = 4;
    auto const a = fitted_state<E>(c, 5, 1); auto b = a;
    CHECK(a == b, "a copy differs");
    for (int r = 0; r < 16 / 2; ++r) { b = a; set_ta(b, r, 2, get_ta(a, r, 2) == 7 ? 8 : 7); CHECK(!(a == b), "row %d changed, and they compare equal", r); }
}
'''),
]
BUGS += [
dict(id='C09-sticky-labels', property='C09', edits=[('src/tsetlini.cpp', '''    auto const labels = unique_labels(y);

    if (auto sm = check_labels(labels);''', '''    auto labels = unique_labels(y);

    if (auto const * const known = std::get_if<int>(&state.m_params["number_of_labels"]); known != nullptr and *known > 0)
    {
        labels.insert(*known - 1);
    }

    if (auto sm = check_labels(labels);''')],
 needs='a classifier fitted with many labels, fitted again with fewer',
 breaks='the second fit keeps the labels of the first one',
 demo='''
void demo()
{
    using E = T::ClassifierClassic; using S = Tr<E>::Sample;
    Cfg c; c.clauses = 4;
    auto e = make<E>(c);
    auto const X = mk<S>(std::vector<ivec>{{0, 1}, {1, 0}});
    ok(do_fit(e, X, {0, 7}, 2, 1));
    ok(do_fit(e, X, {0, 1}, 2, 1));
    CHECK(take(e.decision_function(X[0])).size() == 2, "the labels of an earlier fit are still there");
}
'''),
]
