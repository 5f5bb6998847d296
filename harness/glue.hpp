// Access to the library under test: the four estimators behind one interface,
// snapshots of their complete state, injection of chosen states and of chosen
// random draws, and the reference model they are compared with.
#pragma once
#include "common.hpp"
#include "tsetlini.hpp"
#include "tsetlini_params.hpp"
#include "estimator_state.hpp"
#include "tsetlini_types.hpp"
#include "tsetlini_status_code.hpp"
#include "either.hpp"
#include "mt.hpp"
#include <cmath>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <variant>
#include <algorithm>

namespace T = Tsetlini;
using ivec = std::vector<int>;

struct Cfg
{
    int clauses = 4;            // the parameter: per label for classifiers, total for regressors
    int N = 100;
    float s = 2.f;
    int thr = 15;
    bool weighted = false;
    int maxw = std::numeric_limits<int>::max();
    bool boost = false;
    int jobs = 1;
    bool verbose = false;
    std::string ctype = "auto";
    int tile = 16;
    std::string loss = "MSE";
    float C1 = 0.f;
    bool bm = false;
    unsigned seed = 1;
};

// Either ------------------------------------------------------------------------
template<class R> bool is_ok(T::Either<T::status_message_t, R> const & e) { return !e.isLeft; }
template<class R> T::StatusCode status(T::Either<T::status_message_t, R> const & e) { return e.isLeft ? e.leftValue.first : T::S_OK; }
template<class R> R take(T::Either<T::status_message_t, R> && e, char const * what = "call")
{
    if (e.isLeft) vf::fail("%s refused: status %d, %s", what, (int)e.leftValue.first, e.leftValue.second.c_str());
    return std::move(e.rightValue);
}
inline void ok(T::status_message_t const & s, char const * what = "call") { if (s.first != T::S_OK) vf::fail("%s refused: status %d, %s", what, (int)s.first, s.second.c_str()); }

// samples -------------------------------------------------------------------------
template<class S> S mk(ivec const & b);
template<> inline T::aligned_vector_char mk<T::aligned_vector_char>(ivec const & b) { return T::aligned_vector_char(b.begin(), b.end()); }
template<> inline T::bit_vector_uint64 mk<T::bit_vector_uint64>(ivec const & b)
{
    T::bit_vector_uint64 v(b.size());
    for (size_t i = 0; i < b.size(); ++i) v.assign(i, b[i]);
    return v;
}
template<class S> std::vector<S> mk(std::vector<ivec> const & X) { std::vector<S> r; for (auto & x : X) r.push_back(mk<S>(x)); return r; }

// estimators ----------------------------------------------------------------------
template<class E> struct Tr;
template<> struct Tr<T::ClassifierClassic>  { using State = T::ClassifierStateClassic; using Sample = T::aligned_vector_char; static constexpr bool cls = true,  bit = false; static constexpr char const * name = "ClassifierClassic"; };
template<> struct Tr<T::ClassifierBitwise>  { using State = T::ClassifierStateBitwise; using Sample = T::bit_vector_uint64;   static constexpr bool cls = true,  bit = true;  static constexpr char const * name = "ClassifierBitwise"; };
template<> struct Tr<T::RegressorClassic>   { using State = T::RegressorStateClassic;  using Sample = T::aligned_vector_char; static constexpr bool cls = false, bit = false; static constexpr char const * name = "RegressorClassic"; };
template<> struct Tr<T::RegressorBitwise>   { using State = T::RegressorStateBitwise;  using Sample = T::bit_vector_uint64;   static constexpr bool cls = false, bit = true;  static constexpr char const * name = "RegressorBitwise"; };

template<class E> E make(Cfg const & c)
{
    using namespace Tsetlini;
    if constexpr (Tr<E>::cls)
    {
        auto mk = [&](auto f){ return f(
            number_of_physical_classifier_clauses_per_label_t{c.clauses}, number_of_states_t{c.N}, specificity_t{c.s}, threshold_t{c.thr},
            weighted_flag_t{c.weighted}, max_weight_t{c.maxw}, boost_tpf_t{c.boost}, number_of_jobs_t{c.jobs}, verbosity_t{c.verbose},
            counting_type_t{c.ctype}, clause_output_tile_size_t{c.tile}, random_seed_t{c.seed}); };
        if constexpr (Tr<E>::bit) return take(mk([](auto... a){ return make_classifier_bitwise(a...); }), "make");
        else return take(mk([](auto... a){ return make_classifier_classic(a...); }), "make");
    }
    else
    {
        auto mk = [&](auto f){ return f(
            number_of_physical_regressor_clauses_t{c.clauses}, number_of_states_t{c.N}, specificity_t{c.s}, threshold_t{c.thr},
            weighted_flag_t{c.weighted}, max_weight_t{c.maxw}, boost_tpf_t{c.boost}, number_of_jobs_t{c.jobs}, verbosity_t{c.verbose},
            counting_type_t{c.ctype}, clause_output_tile_size_t{c.tile}, random_seed_t{c.seed},
            loss_fn_name_t{c.loss}, loss_fn_C1_t{c.C1}, box_muller_flag_t{c.bm}); };
        if constexpr (Tr<E>::bit) return take(mk([](auto... a){ return make_regressor_bitwise(a...); }), "make");
        else return take(mk([](auto... a){ return make_regressor_classic(a...); }), "make");
    }
}

// L is used by classifiers only
template<class E> T::status_message_t do_fit(E & e, std::vector<typename Tr<E>::Sample> const & X, ivec const & y, int L, unsigned epochs)
{
    vf::transitions();
    if constexpr (Tr<E>::cls) return e.fit(X, y, T::max_number_of_labels_t{L}, T::number_of_epochs_t{epochs});
    else return e.fit(X, y, T::number_of_epochs_t{epochs});
}
template<class E> T::status_message_t do_pfit(E & e, std::vector<typename Tr<E>::Sample> const & X, ivec const & y, int L, unsigned epochs)
{
    vf::transitions();
    if constexpr (Tr<E>::cls) return e.partial_fit(X, y, T::max_number_of_labels_t{L}, T::number_of_epochs_t{epochs});
    else return e.partial_fit(X, y, T::number_of_epochs_t{epochs});
}

// state access ----------------------------------------------------------------------
template<class St> int get_ta(St const & st, int r, int c) { return std::visit([&](auto const & m){ return (int)m.row_data(r)[c]; }, st.ta_state.matrix); }
template<class St> void set_ta(St & st, int r, int c, int v)
{
    std::visit([&](auto & m){ using V = std::decay_t<decltype(m.row_data(0)[0])>; m.row_data(r)[c] = (V)v; }, st.ta_state.matrix);
    if constexpr (std::is_same_v<typename St::ta_state_type, T::TAStateWithPolarity>)
    {
        if (v >= 0) st.ta_state.polarity.set(r, c); else st.ta_state.polarity.clear(r, c);
    }
}
template<class St> std::pair<int, int> ta_shape(St const & st) { return std::visit([](auto const & m){ return std::pair<int, int>(m.rows(), m.cols()); }, st.ta_state.matrix); }
template<class St> int ta_width(St const & st) { return std::visit([](auto const & m){ return (int)sizeof (*m.row_data(0)); }, st.ta_state.matrix); }

// Automata (rows 2o: positive literals of clause o, 2o+1: negated ones) and effective weights
struct Snap
{
    int rows = 0, cols = 0;
    std::vector<ivec> ta;
    std::vector<uint32_t> w;        // as stored: effective weight - 1
    bool operator==(Snap const & o) const { return rows == o.rows && cols == o.cols && ta == o.ta && w == o.w; }
    bool operator!=(Snap const & o) const { return !(*this == o); }
    std::string key() const
    {
        std::string k((char const *)&rows, sizeof rows);
        for (auto & r : ta) k.append((char const *)r.data(), r.size() * sizeof(int));
        k.append((char const *)w.data(), w.size() * sizeof(uint32_t));
        return k;
    }
    std::string show() const
    {
        std::string s;
        for (size_t r = 0; r < ta.size() && s.size() < 300; ++r) { s += r % 2 ? "/" : (r ? " " : ""); for (size_t c = 0; c < ta[r].size() && c < 12; ++c) s += (c ? "," : "") + std::to_string(ta[r][c]); }
        if (w.size()) { s += " w="; for (auto v : w) s += std::to_string(v + 1) + ","; }
        return s;
    }
};
template<class St> Snap snap(St const & st)
{
    Snap s;
    std::tie(s.rows, s.cols) = ta_shape(st);
    s.ta.assign(s.rows, ivec(s.cols));
    std::visit([&](auto const & m){ for (int r = 0; r < s.rows; ++r) for (int c = 0; c < s.cols; ++c) s.ta[r][c] = m.row_data(r)[c]; }, st.ta_state.matrix);
    s.w.assign(st.ta_state.weights.begin(), st.ta_state.weights.end());
    return s;
}
template<class St> void put(St & st, Snap const & s)
{
    for (int r = 0; r < s.rows; ++r) for (int c = 0; c < s.cols; ++c) set_ta(st, r, c, s.ta[r][c]);
    for (size_t i = 0; i < s.w.size(); ++i) st.ta_state.weights[i] = s.w[i];
}

// A fitted state of the given shape (0 epochs): the starting point of state injection
template<class E> auto fitted_state(Cfg const & c, int F, int L)
{
    auto e = make<E>(c);
    ivec x(F, 0);
    auto X = mk<typename Tr<E>::Sample>(std::vector<ivec>{x, x});
    ok(do_fit(e, X, Tr<E>::cls ? ivec{0, L - 1} : ivec{0, 0}, L, 0), "fit");
    auto p = e.clone_state();
    return typename Tr<E>::State(*p);
}

// random draws ------------------------------------------------------------------------
// Put chosen values in front of the generators: the next draws of igen are v[0], v[1], ...
// and then rotate through small numbers, so that rejection loops end.
constexpr unsigned RNG_AT = 1;
template<class St> void load_igen(St & st, std::vector<unsigned> const & v, unsigned rot = 0)
{
    st.igen.index = RNG_AT;
    auto p = st.igen.RESp();
    unsigned const n = st.igen.MTSZ * st.igen.NS;
    unsigned i = RNG_AT;
    for (auto x : v) p[i++] = x;
    for (unsigned k = rot; i < n; ++i, ++k) p[i] = k;
}
template<class St> void load_fgen(St & st, std::vector<float> const & v, float rest)
{
    st.fgen.index = RNG_AT;
    auto p = st.fgen.RESp();
    unsigned const n = st.fgen.MTSZ * st.fgen.NS;
    unsigned i = RNG_AT;
    for (auto x : v) p[i++] = x;
    for (; i < n; ++i) p[i] = rest;
}
template<class St> unsigned idraws(St const & st) { return st.igen.index - RNG_AT; }
template<class St> unsigned fdraws(St const & st) { return st.fgen.index - RNG_AT; }

// reference model -----------------------------------------------------------------------
namespace ref
{
// value of clause o of s on x; empty: the value of a clause that includes nothing
inline int clause(Snap const & s, int o, ivec const & x, int empty)
{
    bool any = false;
    for (int i = 0; i < s.cols; ++i)
    {
        if (s.ta[2 * o][i] >= 0) { any = true; if (!x[i]) return 0; }
        if (s.ta[2 * o + 1][i] >= 0) { any = true; if (x[i]) return 0; }
    }
    return any ? 1 : empty;
}
inline long long weight(Snap const & s, int o) { return s.w.empty() ? 1 : 1ll + s.w[o]; }
inline long long clampll(long long v, long long lo, long long hi) { return v < lo ? lo : v > hi ? hi : v; }
inline int score(Snap const & s, int label, int per_label, int thr, ivec const & x, int empty)
{
    long long v = 0;
    for (int k = 0; k < per_label; ++k) { int o = label * per_label + k; v += (k % 2 ? -1 : 1) * weight(s, o) * clause(s, o, x, empty); }
    return (int)clampll(v, -thr, thr);
}
inline ivec scores(Snap const & s, int L, int thr, ivec const & x, int empty)
{
    ivec r; int per = s.rows / 2 / L;
    for (int l = 0; l < L; ++l) r.push_back(score(s, l, per, thr, x, empty));
    return r;
}
inline int argmax(ivec const & v) { int b = 0; for (size_t i = 1; i < v.size(); ++i) if (v[i] > v[b]) b = (int)i; return b; }
inline int response(Snap const & s, int thr, ivec const & x, int empty)
{
    long long v = 0;
    for (int o = 0; o < s.rows / 2; ++o) v += weight(s, o) * clause(s, o, x, empty);
    return (int)clampll(v, 0, thr);
}
}

// small helpers -------------------------------------------------------------------------
inline std::string show(ivec const & v) { std::string s; for (size_t i = 0; i < v.size() && i < 40; ++i) s += (i ? "," : "") + std::to_string(v[i]); if (v.size() > 40) s += ",..."; return s; }
inline ivec bits(unsigned v, int n) { ivec r(n); for (int i = 0; i < n; ++i) r[i] = v >> i & 1; return r; }
template<class V> ivec to_ivec(V const & v) { return ivec(v.begin(), v.end()); }

template<class F> void for_all_estimators(F f)
{
    f((T::ClassifierClassic *)nullptr); f((T::ClassifierBitwise *)nullptr);
    f((T::RegressorClassic *)nullptr); f((T::RegressorBitwise *)nullptr);
}
template<class F> void for_classifiers(F f) { f((T::ClassifierClassic *)nullptr); f((T::ClassifierBitwise *)nullptr); }
template<class F> void for_regressors(F f) { f((T::RegressorClassic *)nullptr); f((T::RegressorBitwise *)nullptr); }
