#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the library: applies them to a scratch worktree of /repo and runs the
checks there, which have to stay quiet.   refactor.py DIR [NAME...]   writes the edited tree to DIR (a
worktree of /repo's HEAD that the caller removes); then  VERIF_REPO=DIR python3 check.py ID."""
import sys, subprocess, os
A = 'src/tsetlini_algo_classic.hpp'; B = 'src/tsetlini_algo_bitwise.hpp'; M = 'src/tsetlini.cpp'; J = 'src/tsetlini_state_json.cpp'; P = 'src/tsetlini_params.cpp'
TOSS_A = '''block1(number_of_features, number_of_states, ta_state_pos_j, ta_state_neg_j, ct.tosses1(prng), ct.tosses2(prng));'''
R = {
'hoist-tosses': [(A, TOSS_A, '''auto const pos_tosses = ct.tosses1(prng);
                auto const neg_tosses = ct.tosses2(prng);
                block1(number_of_features, number_of_states, ta_state_pos_j, ta_state_neg_j, pos_tosses, neg_tosses);''', 0),
   (A, '''                if (boost_true_positive_feedback == true)
                {
                    block2<true>(number_of_features, number_of_states, ta_state_pos_j, ta_state_neg_j, X.data(), ct.tosses1(prng), ct.tosses2(prng));
                }
                else
                {
                    block2<false>(number_of_features, number_of_states, ta_state_pos_j, ta_state_neg_j, X.data(), ct.tosses1(prng), ct.tosses2(prng));
                }
''', '''                char const * const pos_tosses = ct.tosses1(prng);
                char const * const neg_tosses = ct.tosses2(prng);
                auto const reinforce = boost_true_positive_feedback == true ? &block2<true, state_type> : &block2<false, state_type>;

                reinforce(number_of_features, number_of_states, ta_state_pos_j, ta_state_neg_j, X.data(), pos_tosses, neg_tosses);
''', 0),
   (B, '''                        X, ct.tosses1(prng), ct.tosses2(prng));''', '''                        X, pos_tosses, neg_tosses);''', 0),
   (B, '''            else // if (clause_output[iidx] == 1)
            {
                if (boost_true''', '''            else // if (clause_output[iidx] == 1)
            {
                auto const pos_tosses = ct.tosses1(prng);
                auto const neg_tosses = ct.tosses2(prng);

                if (boost_true''', 0)],
'clause-helper': [(A, '''/*
 * https://godbolt.org/z/bxh1rY
 */
template''', '''/// 1 if any of the two literals contradicts feature @c x, else 0
template<typename state_type>
inline
char contradicts(state_type const pos, state_type const neg, char const x)
{
    return (action(pos) and x == 0) or (action(neg) and x != 0);
}


/*
 * https://godbolt.org/z/bxh1rY
 */
template'''),
   (A, '''                    char flag = ((X_p[fidx] | !action_include) ^ 1) | (((!action_include_negated) | (X_p[fidx] ^ 1)) ^ 1);
                    toggle_output = flag > toggle_output ? flag : toggle_output;
''', '''                    toggle_output |= contradicts(ta_state_pos_j[fidx], ta_state_neg_j[fidx], X_p[fidx]);
''', 0),
   (A, '''            for (int fidx = kk; fidx < number_of_features and toggle_output == false; ++fidx)
            {
                bool const action_include = action(ta_state_pos_j[fidx]);
                bool const action_include_negated = action(ta_state_neg_j[fidx]);

                char flag = ((X_p[fidx] | !action_include) ^ 1) | (((!action_include_negated) | (X_p[fidx] ^ 1)) ^ 1);
                toggle_output = flag > toggle_output ? flag : toggle_output;
            }

            clause_output[oidx] = !toggle_output;''', '''            int fidx = kk;
            while (toggle_output == 0 and fidx < number_of_features)
            {
                toggle_output = contradicts(ta_state_pos_j[fidx], ta_state_neg_j[fidx], X_p[fidx]);
                ++fidx;
            }

            clause_output[oidx] = toggle_output == 0;'''),
   (B, '''            any_inclusions = (action_include | action_include_negated) > any_inclusions ? (action_include | action_include_negated) : any_inclusions;''', '''            any_inclusions |= action_include | action_include_negated;''', 0),
   (B, '''toggle_output = eval > toggle_output ? eval : toggle_output;''', '''toggle_output |= eval;''', 0)],
'votes': [(A, '''        for (auto ix = 0u; ix < clause_output.size(); ++ix)
        {
            acc += clause_output[ix] * (sum_type{1} + weights[ix]);
        }
''', '''        auto weight = weights.cbegin();

        for (auto const output : clause_output)
        {
            if (output != 0)
            {
                acc += 1;
                acc += *weight;
            }
            ++weight;
        }
'''),
   (A, '''            if (fgen.next() > THR_pos)
            {
                continue;
            }

            // Type I and II Feedback
            feedback_to_clauses[fidx] = fidx % 2 == 0 ? Type_I_Feedback : Type_II_Feedback;''', '''            auto const draw = fgen.next();

            if (not (draw > THR_pos))
            {
                feedback_to_clauses[fidx] = (fidx & 1) ? Type_II_Feedback : Type_I_Feedback;
            }'''),
   (A, '''    unsigned int const feedback_hits = box_muller == true
        ? binomial(N, P, prng)
        :
        std::clamp<double>(
            N * P >= 0.5 ? std::round(N * P) : prng() < N * P * static_cast<double>(IRNG::max()), // 0xffff'ffff when converted to float changes to 0x1'0000'0000
            0, N
        );
''', '''    auto const deterministic_or_sparse = [N, P, &prng]() -> unsigned int
    {
        auto const expected = N * P;

        if (expected >= 0.5)
        {
            return std::clamp<double>(std::round(expected), 0, N);
        }

        bool const hit = prng() < expected * static_cast<double>(IRNG::max());

        return N == 0 ? 0 : hit;
    };
    unsigned int const feedback_hits = box_muller == true ? binomial(N, P, prng) : deterministic_or_sparse();
'''),
   (A, '''        auto const iidx = prng() % N + input_begin_ix;

        state_type * ta_state_pos_j''', '''        auto const offset = prng() % N;
        auto const iidx = input_begin_ix + offset;

        state_type * ta_state_pos_j''')],
'blocks': [(A, '''            ta_state_pos_j[fidx] = UNLIKELY(cond) ? (ta_state_pos_j[fidx] > -number_of_states ? ta_state_pos_j[fidx] - 1 : ta_state_pos_j[fidx]) : ta_state_pos_j[fidx];''', '''            if (cond and ta_state_pos_j[fidx] > -number_of_states)
            {
                --ta_state_pos_j[fidx];
            }'''),
   (A, '''        ta_state_pos_j[fidx] = (X_cond_0 & X_pos_inc) ? ta_state_pos_j[fidx] + 1 : ta_state_pos_j[fidx];
        ta_state_neg_j[fidx] = (X_cond_1 & X_neg_inc) ? ta_state_neg_j[fidx] + 1 : ta_state_neg_j[fidx];''', '''        ta_state_neg_j[fidx] += X_cond_1 & X_neg_inc;
        ta_state_pos_j[fidx] += X_cond_0 & X_pos_inc;'''),
   (A, '''                    weights[iidx] += ((weights[iidx] + 1) < max_weight);''', '''                    if (std::int64_t{weights[iidx]} + 1 < value_of(max_weight))
                    {
                        ++weights[iidx];
                    }''', 0),
   (B, '''                if (ta_state > -number_of_states)
                {
                    --ta_state_pos_j[fidx];
                }''', '''                ta_state_pos_j[fidx] -= (ta_state > -number_of_states);'''),
   (B, '''                    ta_state_pos_j[fidx]++;

                    if (ta_state_pos_j[fidx] == 0)
                    {
                        ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
                    }''', '''                    if (++ta_state_pos_j[fidx] == 0)
                    {
                        ta_state_pos_polarity_j.set(fidx);
                    }''')],
'rng': [('include/mt.hpp', '''        value_type y = RES[index];

        if (UNLIKELY(index == MTSZ * NS - 1))
        {
            index = 0;
        }
        else
        {
            ++index;
        }

        return y;''', '''        value_type const y = RES[index];

        index = index + 1 == MTSZ * NS ? 0 : index + 1;

        return y;'''),
   ('include/mt.hpp', '''            auto y = MT[it];
            y ^= y >> 11;
            y ^= y << 7  & 2636928640UL;
            y ^= y << 15 & 4022730752UL;
            y ^= y >> 18;
            RES[it] = static_cast<derived_type *>(this)->post_process(y);''', '''            RES[it] = static_cast<derived_type *>(this)->post_process(temper(MT[it]));'''),
   ('include/mt.hpp', '''    inline
    value_type peek() const''', '''    static
    inline
    unsigned int temper(unsigned int y)
    {
        y ^= y >> 11;
        y ^= (y << 7) & 2636928640UL;
        y ^= (y << 15) & 4022730752UL;
        y ^= y >> 18;

        return y;
    }

    inline
    value_type peek() const'''),
   ('include/mt.hpp', '''                index == other.index
                and std::equal(RESp(), RESp() + MTSZ * NS, other.RESp())
                and std::equal(MTp(), MTp() + MTSZ * NS, other.MTp())''', '''                std::equal(MTp(), MTp() + MTSZ * NS, other.MTp())
                and std::equal(RESp(), RESp() + MTSZ * NS, other.RESp())
                and other.index == index''')],
'coin': [('src/coin_tosser_exact.hpp', '''    for (auto it = 0u; it < hits; /* nop */)
    {
        auto const ix = prng() % vsz;

        it += (cache[ix] == 0);
        cache[ix] = 1;
    }
''', '''    auto remaining = hits;

    while (remaining != 0)
    {
        auto & toss = cache[prng() % vsz];

        if (toss == 0)
        {
            toss = 1;
            --remaining;
        }
    }
'''),
   ('src/coin_tosser_exact.hpp', '''    std::fill(cache.begin(), cache.end(), 0);

    /*
     * Estimate number of hits.
     * It will be either floor() or ceil() of S_inv * cache.size()
     */
    auto const hits = estimate_hits(prng);
''', '''    auto const hits = estimate_hits(prng);

    cache.assign(vsz, 0);
''')],
'cache': [('src/estimator_state_cache.cpp', '''    cache.clause_output.clear();
    cache.clause_output.resize(value_of(number_of_outputs));''', '''    cache.clause_output.assign(value_of(number_of_outputs), 0);''', 0),
   ('src/estimator_state_cache.cpp', '''    cache.label_sum.clear();
    cache.label_sum.resize(value_of(Params::number_of_labels(params)));''', '''    cache.label_sum = decltype (cache.label_sum)(value_of(Params::number_of_labels(params)));''', 0),
   ('src/estimator_state.cpp', '''            lhs.ta_state == rhs.ta_state
            and lhs.igen == rhs.igen
            and lhs.fgen == rhs.fgen
            and lhs.m_params == rhs.m_params
            and EstimatorStateCacheType''', '''            lhs.m_params == rhs.m_params
            and lhs.fgen == rhs.fgen
            and lhs.igen == rhs.igen
            and lhs.ta_state == rhs.ta_state
            and EstimatorStateCacheType'''),
   ('src/tsetlini_state.cpp', '''    auto & params = state.m_params;
    auto const verbose = Params::verbose(params);

    state.igen.init(value_of(Params::random_state(params)));
    state.fgen.init(value_of(Params::random_state(params)));
''', '''    auto & params = state.m_params;
    auto const verbose = Params::verbose(params);
    auto const seed = value_of(Params::random_state(params));

    state.fgen.init(seed);
    state.igen.init(seed);
'''),
   ('src/ta_state.cpp', '''            auto row_data = matrix.row_data(rit);

            for (auto cit = 0u; cit < matrix.cols(); ++cit)
            {
                row_data[cit] = igen.next(-1, 0);
            }''', '''            std::generate_n(matrix.row_data(rit), matrix.cols(), [&igen]{ return static_cast<int>(igen.next(-1, 0)); });'''),
   ('src/ta_state.cpp', '#include <string>\n', '#include <string>\n#include <algorithm>\n')],
'front': [(M, '''    auto const labels = unique_labels(y);

    if (auto sm = check_labels(labels);
        sm.first != StatusCode::S_OK)
    {
        return sm;
    }

    auto const number_of_labels = std::max''', '''    auto const labels = unique_labels(y);
    auto sm_labels = check_labels(labels);

    if (sm_labels.first != StatusCode::S_OK)
    {
        return sm_labels;
    }

    auto const number_of_labels = std::max'''),
   (M, '''        const int max_class = std::distance(
            state.cache.label_sum.cbegin(),
            std::max_element(state.cache.label_sum.cbegin(), state.cache.label_sum.cend()));

        errors += (max_class != y[it]);''', '''        errors += (best_label(state.cache.label_sum) == y[it]) ? 0 : 1;'''),
   (M, '''        const int max_class = std::distance(
            state.cache.label_sum.cbegin(),
            std::max_element(state.cache.label_sum.cbegin(), state.cache.label_sum.cend()));

        rv[it] = max_class;''', '''        rv[it] = best_label(state.cache.label_sum);'''),
   (M, '''template<typename T>
bool check_all_0s_or_1s(aligned_vector<T> const & vec)
{
    return std::all_of(vec.cbegin(), vec.cend(), [](T v){ return v == 0 || v == 1; });
}
''', '''label_type best_label(aligned_vector_int const & label_sum)
{
    label_type best = 0;

    for (label_type label = 1; label < static_cast<label_type>(label_sum.size()); ++label)
    {
        if (label_sum[label] > label_sum[best])
        {
            best = label;
        }
    }

    return best;
}


template<typename T>
bool check_all_0s_or_1s(aligned_vector<T> const & vec)
{
    for (T const v : vec)
    {
        if (v < 0 or v > 1)
        {
            return false;
        }
    }

    return true;
}
'''),
   (M, '''        opposite_y[it] = (y[it] + 1 + g() % (value_of(number_of_labels) - 1)) % value_of(number_of_labels);''', '''        unsigned int const n = value_of(number_of_labels);
        unsigned int const shift = 1 + g() % (n - 1);

        opposite_y[it] = (y[it] + shift) % n;'''),
   (M, '''    if (X.empty())
    {
        return {StatusCode::S_VALUE_ERROR, "X cannot be empty"};
    }
    else if (y.empty())
    {
        return {StatusCode::S_VALUE_ERROR, "y cannot be empty"};
    }
    else if''', '''    if (y.empty())
    {
        return {StatusCode::S_VALUE_ERROR, "y cannot be empty"};
    }
    else if (X.empty())
    {
        return {StatusCode::S_VALUE_ERROR, "X cannot be empty"};
    }
    else if'''),
   (M, '''        for (auto i = 0u; i < number_of_examples; ++i)
        {
            regressor_update_impl(
                X[ix[i]],
                y[ix[i]],
''', '''        for (auto const row : ix)
        {
            regressor_update_impl(
                X[row],
                y[row],
''')],
'containers': [('include/basic_bit_vector.hpp', '''        if (val)
        {
            set(pos);
        }
        else
        {
            clear(pos);
        }''', '''        auto & block = m_vector[pos / block_bits];
        block = (block & clear_mask(pos)) | xor_mask(pos, val);'''),
   ('include/basic_bit_matrix.hpp', '''        auto const data = &m_v.data()[row_offset(nr)];

        data[nc / block_bits] ^= set_mask(nc);''', '''        row(nr).flip(nc);'''),
   ('include/aligned_array.hpp', '''    AlignedArray(AlignedArray const & other) :
        offset(((reinterpret_cast<size_type>(&a[0]) + Alignment - 1) & ~(Alignment - 1)) - reinterpret_cast<size_type>(&a[0]))
    {
        if (this != &other)
        {
            *this = other;
        }
    }
''', '''    AlignedArray(AlignedArray const & other) : AlignedArray()
    {
        if (this != &other)
        {
            std::copy(other.cbegin(), other.cend(), begin());
        }
    }
'''),
   ('src/loss_fn.cpp', '''                if (std::abs(x) <= C1)
                {
                    return std::abs(x);
                }
                else
                {
                    return x * x - value_of(C1 * C1) + value_of(C1);
                }''', '''                auto const a = std::abs(x);

                return a <= C1 ? a : x * x - value_of(C1 * C1) + value_of(C1);'''),
   ('src/box_muller_approx.cpp', '''    p = std::min(std::max(0.f, p), 1.f);
''', '''    if (not (p > 0.f))
    {
        p = 0.f;
    }
    else if (p > 1.f)
    {
        p = 1.f;
    }
''')],
'params': [(P, '''    if (not ((num == -1) or (num >= 1)))''', '''    if (num < -1 or num == 0)'''),
   (P, '''    if ((value < 1.0) or std::isinf(value) or std::isnan(value))''', '''    if (not std::isfinite(value) or not (value >= 1.0))'''),
   (P, '''        .rightFlatMap(assert_n_jobs)
        .rightFlatMap(assert_number_of_states)
        .rightFlatMap(assert_specificity)
''', '''        .rightFlatMap(assert_specificity)
        .rightFlatMap(assert_number_of_states)
        .rightFlatMap(assert_n_jobs)
''', 0),
   (P, '''    params_t rv(std::forward<RHS>(rhs));

    rv.merge(std::forward<LHS>(lhs));

    return rv;''', '''    params_t rv(std::forward<LHS>(lhs));

    for (auto const & [key, value] : rhs)
    {
        rv[key] = value;
    }

    return rv;''')],
}
if __name__ == '__main__':
    d = sys.argv[1]
    if not os.path.exists(d): subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', d, 'HEAD'])
    for name in sys.argv[2:] or R:
        for e in R[name]:
            f, old, new = e[:3]; p = d + '/lib/' + f; s = open(p).read()
            if old not in s: sys.exit('%s: not found in %s: %s' % (name, f, old))
            s = s.replace(old, new) if len(e) > 3 else s.replace(old, new, 1)
            open(p, 'w').write(s)
        print('applied', name)
