A = 'src/tsetlini_algo_classic.hpp'; B = 'src/tsetlini_algo_bitwise.hpp'; M = 'src/tsetlini.cpp'; CE = 'src/coin_tosser_exact.hpp'
CATCH = open('/verif/tools/seed/bugs/c.py').read().split("CATCH = '''")[1].split("'''")[0]
BUGS = [
dict(id='C26-narrow-opposite', property='C26', edits=[(M, '''        opposite_y[it] = (y[it] + 1 + g() % (value_of(number_of_labels) - 1)) % value_of(number_of_labels);''',
'''        opposite_y[it] = static_cast<std::uint8_t>((y[it] + 1 + g() % (value_of(number_of_labels) - 1)) % value_of(number_of_labels));''')],
 needs='a classifier of more than 256 labels',
 breaks='the labels from 256 on are never contrasted with, the low ones more often',
 demo='''
void demo()
{
    using E = T::ClassifierClassic; using S = Tr<E>::Sample;
    // every clause is true (an excluded literal only): Type II feedback goes to the clauses of the opposite label, which start included nowhere
    Cfg c; c.clauses = 4; c.thr = 4; c.s = 1000.f;
    int const L = 300;
    auto st = fitted_state<E>(c, 1, L);
    for (int r = 0; r < 8 * L / 2; ++r) set_ta(st, r, 0, -1);
    for (int l = 0; l < L; ++l) for (int j = 0; j < 2; ++j) { set_ta(st, (l * 2 + j) * 2, 0, -1); set_ta(st, (l * 2 + j) * 2 + 1, 0, 0); }
    E e(st);
    auto const before = snap(*e.clone_state());
    auto const X = mk<S>(std::vector<ivec>(4000, ivec{0}));
    ok(do_pfit(e, X, ivec(4000, 0), L, 2));
    auto const p = e.clone_state();
    int above = 0;
    for (int l = 256; l < L; ++l) for (int r = l * 4; r < l * 4 + 4; ++r) above += get_ta(*p, r, 0) != (r % 2 ? 0 : -1);
    CHECK(above > 0, "no label from 256 on was ever contrasted with");
}
'''),
dict(id='C30-short-epoch', property='C30', edits=[(M, '''        LOG(info) << "Epoch " << epoch + 1 << '\\n';

        generate_opposite_y(''', '''        LOG(info) << "Epoch " << static_cast<unsigned short>(epoch + 1) << '\\n';

        generate_opposite_y(''')],
 needs='a verbose classifier trained for more than 65535 epochs in one call',
 breaks='the epochs beyond are logged under other numbers',
 demo=CATCH + '''
void demo()
{
    using E = T::ClassifierBitwise; using S = T::bit_vector_uint64;
    Cfg d; d.verbose = true;
    auto e = make<E>(d);
    auto const a = logged([&]{ ok(do_fit(e, mk<S>(std::vector<ivec>{{0, 1}}), {1}, 2, 65540)); });
    for (int i : {1, 65535, 65536, 65540}) CHECK(a.find(vf::fmt("Epoch %d\\n", i)) != a.npos, "epoch %d is not logged", i);
}
'''),
dict(id='C16-low-bits', property='C16', edits=[(CE, '''        auto const ix = prng() % vsz;''', '''        auto const ix = (prng() & 0xffff) % vsz;''')],
 needs='more than 65536 features',
 breaks='the literals beyond are never picked',
 demo='''
void demo()
{
    using E = T::RegressorClassic; using S = Tr<E>::Sample;
    Cfg c; c.clauses = 2; c.thr = 4; c.s = 20.f;
    int const F = 70000;
    auto st = fitted_state<E>(c, F, 1);
    for (int r = 0; r < 2; ++r) for (int i = 0; i < F; ++i) set_ta(st, r, i, i ? -5 : 5);
    E e(st);
    ok(do_pfit(e, mk<S>(std::vector<ivec>{ivec(F, 0)}), {0}, 1, 1));
    // whether there was feedback is known from the low literals
    ok(do_pfit(e, mk<S>(std::vector<ivec>(3, ivec(F, 0))), {4, 4, 4}, 1, 3));
    auto const p = e.clone_state();
    int low = 0, high = 0;
    for (int i = 1; i < F; ++i) (i < 65536 ? low : high) += get_ta(*p, 0, i) != -5;
    CHECK(low == 0 or high > 0, "%d low literals were picked, and none beyond", low);
    CHECK(low > 0, "no feedback");
}
'''),
]
