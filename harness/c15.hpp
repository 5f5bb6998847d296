// C15, shared by the per-estimator parts
#pragma once
#include "life.hpp"

struct P15            // values of all parameters a caller can give
{
    int clauses, N; float s; int thr; bool weighted; int maxw; bool boost; int jobs; bool verbose; std::string ctype; int tile; unsigned seed;
    std::string loss; float C1; bool bm;
};
enum Field15 { F_CLAUSES, F_N, F_S, F_THR, F_WEIGHTED, F_MAXW, F_BOOST, F_JOBS, F_VERBOSE, F_CTYPE, F_TILE, F_SEED, F_LOSS, F_C1, F_BM };
inline char const * const key_cls[] = {"number_of_clauses_per_label", "number_of_states", "s", "threshold", "weighted", "max_weight", "boost_true_positive_feedback", "n_jobs", "verbose", "counting_type", "clause_output_tile_size", "random_state", "loss_fn", "loss_fn_C1", "box_muller"};
inline char const * const key_reg[] = {"number_of_regressor_clauses", "number_of_states", "s", "threshold", "weighted", "max_weight", "boost_true_positive_feedback", "n_jobs", "verbose", "counting_type", "clause_output_tile_size", "random_state", "loss_fn", "loss_fn_C1", "box_muller"};
constexpr int NF_CLS = 12, NF_REG = 15;
inline int nfields(bool cls) { return cls ? NF_CLS : NF_REG; }
inline char const * key15(bool cls, int f) { return cls ? key_cls[f] : key_reg[f]; }

// documented defaults
inline P15 defaults15(bool cls)
{
    P15 p{cls ? 12 : 20, 100, 2.f, 15, !cls, std::numeric_limits<int>::max(), false, -1, false, "auto", 16, 0, "MSE", 0.f, false};
    return p;
}
// documented domains
inline bool valid15(bool cls, P15 const & p)
{
    auto in = [](std::string const & s, std::initializer_list<char const *> l) { for (auto x : l) if (s == x) return true; return false; };
    if (p.clauses < 1 || p.clauses % (cls ? 4 : 2)) return false;
    if (p.N < 1 || !(p.s >= 1.f) || !std::isfinite(p.s) || p.thr < 1 || p.maxw < 1) return false;
    if (p.jobs != -1 && p.jobs < 1) return false;
    if (!in(p.ctype, {"auto", "int8", "int16", "int32"})) return false;
    if (p.tile != 16 && p.tile != 32 && p.tile != 64 && p.tile != 128) return false;
    if (!cls && !in(p.loss, {"MSE", "MAE", "L1", "L2", "L1+2", "berHu"})) return false;
    return true;
}
inline bool jsonable(float v) { return std::isfinite(v); }
inline std::string jval(P15 const & p, int f)
{
    auto q = [](std::string const & s) { return "\"" + s + "\""; };
    auto b = [](bool v) { return std::string(v ? "true" : "false"); };
    switch (f)
    {
    case F_CLAUSES: return std::to_string(p.clauses); case F_N: return std::to_string(p.N); case F_S: return vf::fmt("%.17g", (double)p.s);
    case F_THR: return std::to_string(p.thr); case F_WEIGHTED: return b(p.weighted); case F_MAXW: return std::to_string(p.maxw);
    case F_BOOST: return p.boost ? "1" : "0"; case F_JOBS: return std::to_string(p.jobs); case F_VERBOSE: return b(p.verbose);
    case F_CTYPE: return q(p.ctype); case F_TILE: return std::to_string(p.tile); case F_SEED: return std::to_string(p.seed);
    case F_LOSS: return q(p.loss); case F_C1: return vf::fmt("%.17g", (double)p.C1); default: return b(p.bm);
    }
}
inline std::string jdoc(bool cls, P15 const & p, std::vector<int> const & fields)
{
    std::string s = "{";
    for (auto f : fields) s += (s.size() > 1 ? ", " : "") + std::string("\"") + key15(cls, f) + "\": " + jval(p, f);
    return s + "}";
}
// all values of one field, taken from `pool` index k; returns false past the end
bool set_value(P15 & p, int f, int k, bool cls, bool reduced);

using Result = T::Either<T::status_message_t, T::params_t>;

// does the recorded parameter set agree with p?  given: the fields that were given (others: defaults)
std::string compare15(bool cls, T::params_t const & r, P15 const & p, bool seed_given, bool whole_map);

struct Est15
{
    std::string name; bool cls;
    std::function<Result(P15 const &, int kind)> args_all;                        // all arguments, kind: how they are passed
    std::vector<std::pair<std::vector<int>, std::function<Result(P15 const &)>>> args_lists;   // orders and subsets
    std::function<Result(std::string const &)> json;
    std::function<std::string(P15 const &)> trained_args;                           // full state after fitting
    std::function<std::string(std::string const &)> trained_json;
};
Est15 est15_0(); Est15 est15_1(); Est15 est15_2(); Est15 est15_3();
