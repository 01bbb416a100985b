// Shared by the property files: configuration generators and small oracles.
#ifndef SIM_PROPS_HPP
#define SIM_PROPS_HPP
#include "glue.hpp"
#include <algorithm>
#include <sstream>

namespace sim {

struct GenOpt {
	bool erk, irk, fixed, adaptive, defaults, offsets, hard;   // hard: bursts and discontinuities
	double newton_lo, newton_hi;
	const char *cls;
	bool max_dt, logs, scale;             // scale: other units of time
	long max_fixed;
	bool longrun;                         // now and then thousands of steps
	bool short_form;                      // sometimes the four argument call with all options left at their defaults
	GenOpt() : erk(true), irk(true), fixed(true), adaptive(true), defaults(false), offsets(true), hard(true),
	           newton_lo(1e-12), newton_hi(1e-6), cls("any"), max_dt(true), logs(true), scale(false), max_fixed(250), longrun(true), short_form(false) {}
};

// Problem, method, interval, tolerances, options under the given prefix.
void gen_rk(Rng &r, Plan &p, const std::string &pre, const GenOpt &o);
// multistep and root finding configurations
void gen_ms(Rng &r, Plan &p, const std::string &pre);
void gen_root(Rng &r, Plan &p, const std::string &pre);

// Events of a fault free run of the configuration, to place faults inside.
struct Dry { long fun, jac, alloc, clock; int status; long steps; bool threw, full; };   // full: its budget ran out
Dry dry_rk(const Plan &p, const std::string &pre, bool allocs = false);
Dry dry_any(const Plan &p, const std::string &pre, bool allocs = false);

// A task of any kind, described under a prefix: rk, ms, root.
// Returns a hash over everything the caller could see.
struct AnyResult {
	u64 hash; bool threw, budget, crashed; std::string exc; int status; long live_after; bool inputs_ok;
	Result rk; RootResult root; bool is_root;
};
AnyResult run_any(const Plan &p, const std::string &pre, Env *env, bool timing = false, const RunIO &io = RunIO());
void gen_any(Rng &r, Plan &p, const std::string &pre, bool small = true, bool short_form = false);

// Index of an event somewhere in [0, n), biased to the start and the end.
long pick_event(Rng &r, long n);
void add_fun_faults(Rng &r, Plan &p, const std::string &pre, long n_fun, int max_faults, const std::vector<std::string> &acts, long max_count);
void add_jac_faults(Rng &r, Plan &p, const std::string &pre, long n_jac, int max_faults, const std::vector<std::string> &acts, long max_count);

inline double ulp(double x) { x = std::fabs(x); return std::nextafter(x, std::numeric_limits<double>::infinity()) - x; }
inline bool finite_all(const dvec &v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }
inline double max_abs(const dvec &v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
// exceptions that are reports of the library or of Armadillo, not of the simulator
inline bool is_report(const std::string &exc) { return exc.compare(0, 4, "std:") == 0; }

// the general outcome rules every run obeys, whatever is checked besides
void check_sane(Outcome &o, const Result &r, const Env &e, const char *tag);

// every recorded step against the solutions of its stage equations
void check_irk_steps(Outcome &o, const RkCfg &c, const Result &r, const Problem &pr, const std::vector<CallRec> &calls);

struct Quiet { NullBuf a, b; StdioScope s; Quiet() : s(&a, &b) {} };
} // namespace sim
#endif
