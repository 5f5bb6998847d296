// C15: one estimator type; EST = 0..3
#define VF_NO_MAIN
#include "c15.hpp"
using namespace Tsetlini;

#if EST == 0
using E = ClassifierClassic;  using K0 = number_of_physical_classifier_clauses_per_label_t;
#define MAKE make_classifier_classic
#define MAKEJ make_classifier_classic_from_json
#define FN est15_0
#elif EST == 1
using E = ClassifierBitwise;  using K0 = number_of_physical_classifier_clauses_per_label_t;
#define MAKE make_classifier_bitwise
#define MAKEJ make_classifier_bitwise_from_json
#define FN est15_1
#elif EST == 2
using E = RegressorClassic;   using K0 = number_of_physical_regressor_clauses_t;
#define MAKE make_regressor_classic
#define MAKEJ make_regressor_classic_from_json
#define FN est15_2
#else
using E = RegressorBitwise;   using K0 = number_of_physical_regressor_clauses_t;
#define MAKE make_regressor_bitwise
#define MAKEJ make_regressor_bitwise_from_json
#define FN est15_3
#endif
namespace
{
constexpr bool CLS = Tr<E>::cls;
constexpr int NF = CLS ? NF_CLS : NF_REG;

template<int F> auto val(P15 const & p)
{
    if constexpr (F == F_CLAUSES) return K0{p.clauses};
    else if constexpr (F == F_N) return number_of_states_t{p.N};
    else if constexpr (F == F_S) return specificity_t{p.s};
    else if constexpr (F == F_THR) return threshold_t{p.thr};
    else if constexpr (F == F_WEIGHTED) return weighted_flag_t{p.weighted};
    else if constexpr (F == F_MAXW) return max_weight_t{p.maxw};
    else if constexpr (F == F_BOOST) return boost_tpf_t{p.boost};
    else if constexpr (F == F_JOBS) return number_of_jobs_t{p.jobs};
    else if constexpr (F == F_VERBOSE) return verbosity_t{p.verbose};
    else if constexpr (F == F_CTYPE) return counting_type_t{p.ctype};
    else if constexpr (F == F_TILE) return clause_output_tile_size_t{p.tile};
    else if constexpr (F == F_SEED) return random_seed_t{p.seed};
    else if constexpr (F == F_LOSS) return loss_fn_name_t{p.loss};
    else if constexpr (F == F_C1) return loss_fn_C1_t{p.C1};
    else return box_muller_flag_t{p.bm};
}
static Result params_of(Either<status_message_t, E> && e)
{
    vf::transitions();
    if (e.isLeft) return Result::leftOf(e.leftValue);
    return Result::rightOf(e.rightValue.read_params());
}
template<class T> bool same(T const & a, T const & b)
{
    using U = std::decay_t<decltype(value_of(a))>;
    if constexpr (std::is_same_v<U, float>) { float x = value_of(a), y = value_of(b); return !memcmp(&x, &y, sizeof x); }
    else return value_of(a) == value_of(b);
}
template<int... Fs> Result call_rvalues(P15 const & p) { return params_of(MAKE(val<Fs>(p)...)); }
template<int... Fs> Result call_lvalues(P15 const & p)
{
    auto t = std::make_tuple(val<Fs>(p)...);
    auto const before = t;
    auto one = [&]{ return std::apply([](auto &... a){ return params_of(MAKE(a...)); }, t); };
    Result r = one();
    auto unchanged = [&](auto... i){ return (same(std::get<decltype(i)::value>(t), std::get<decltype(i)::value>(before)) && ...); };
    bool const ok = [&]<std::size_t... I>(std::index_sequence<I...>) { return unchanged(std::integral_constant<std::size_t, I>{}...); }(std::make_index_sequence<sizeof...(Fs)>{});
    if (!ok) vf::fail("creating an estimator changed the caller's arguments");
    Result r2 = one();       // the same variables, used again
    if (r.isLeft != r2.isLeft) vf::fail("creating a second estimator from the same variables: %s", r2.isLeft ? "refused" : "accepted");
    if (r.isLeft == false)
    {
        for (auto & [k, v] : r.rightValue) if (k != "random_state" && pkey({{k, v}}) != pkey({{k, r2.rightValue.at(k)}})) vf::fail("creating a second estimator from the same variables: %s differs", k.c_str());
    }
    return r;
}
template<int... Fs> Result call_consts(P15 const & p)
{
    auto const t = std::make_tuple(val<Fs>(p)...);
    return std::apply([](auto const &... a){ return params_of(MAKE(a...)); }, t);
}
template<int... Fs> Result call_mixed(P15 const & p)      // alternating rvalue, lvalue, const lvalue
{
    auto t = std::make_tuple(val<Fs>(p)...);
    return [&]<std::size_t... I>(std::index_sequence<I...>)
    {
        auto pass = [&](auto i) -> decltype(auto)
        {
            constexpr std::size_t n = decltype(i)::value;
            if constexpr (n % 3 == 0) return std::move(std::get<n>(t));
            else if constexpr (n % 3 == 1) return (std::get<n>(t));
            else return std::as_const(std::get<n>(t));
        };
        return params_of(MAKE(pass(std::integral_constant<std::size_t, I>{})...));
    }(std::make_index_sequence<sizeof...(Fs)>{});
}
template<int K, int... I> void full_orders(Est15 & e, std::integer_sequence<int, I...>)
{
    // rotation by K, forwards and backwards
    e.args_lists.push_back({{(I + K) % NF...}, call_lvalues<(I + K) % NF...>});
    e.args_lists.push_back({{(2 * NF - 1 - I - K) % NF...}, call_mixed<(2 * NF - 1 - I - K) % NF...>});
}
template<int A, int... B> void pairs(Est15 & e, std::integer_sequence<int, B...>)
{
    auto one = [&](auto b)
    {
        constexpr int Bv = decltype(b)::value;
#ifdef VF_THOROUGH
        constexpr bool wanted = A != Bv;
#else
        constexpr int D = (Bv - A + NF) % NF;
        constexpr bool wanted = D == 1 || D == NF - 1 || D == 4;
#endif
        if constexpr (wanted)
        {
            if constexpr ((A + Bv) % 2) e.args_lists.push_back({{A, Bv}, call_rvalues<A, Bv>});
            else e.args_lists.push_back({{A, Bv}, call_lvalues<A, Bv>});
        }
    };
    (one(std::integral_constant<int, B>{}), ...);
    e.args_lists.push_back({{A}, call_rvalues<A>});
    e.args_lists.push_back({{A}, call_lvalues<A>});
    e.args_lists.push_back({{A}, call_consts<A>});
}
template<int K, int... I> void leave_out(Est15 & e, std::integer_sequence<int, I...>)
{
    e.args_lists.push_back({{(I + K + 1) % NF...}, call_lvalues<(I + K + 1) % NF...>});
}
template<int... K> void build(Est15 & e, std::integer_sequence<int, K...> all)
{
    (full_orders<K>(e, all), ...);
    (leave_out<K>(e, std::make_integer_sequence<int, NF - 1>{}), ...);
    (pairs<K>(e, all), ...);
    e.args_lists.push_back({{}, [](P15 const &){ return params_of(MAKE()); }});
    e.args_all = [](P15 const & p, int kind)
    {
        return kind == 0 ? call_rvalues<K...>(p) : kind == 1 ? call_lvalues<K...>(p) : call_consts<K...>(p);
    };
}
static std::string train(Either<status_message_t, E> && m)
{
    E e = take(std::move(m), "make");
    auto d = make_set("A", 3, 2, 4, CLS, 1);
    auto X = mk<typename Tr<E>::Sample>(d.X);
    ok(do_fit(e, X, d.y, 2, 3), "fit");
    return full(*e.clone_state()).key();
}
}
Est15 FN()
{
    Est15 e;
    e.name = Tr<E>::name; e.cls = CLS;
    build(e, std::make_integer_sequence<int, NF>{});
    e.json = [](std::string const & s){ return params_of(MAKEJ(s)); };
    e.trained_args = [](P15 const & p){ return [&]<int... I>(std::integer_sequence<int, I...>){ return train(MAKE(val<I>(p)...)); }(std::make_integer_sequence<int, NF>{}); };
    e.trained_json = [](std::string const & s){ return train(MAKEJ(s)); };
    return e;
}
