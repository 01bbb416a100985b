// What the simulator asks of the real code, in plain data.
#ifndef SIM_GLUE_HPP
#define SIM_GLUE_HPP
#include "core.hpp"

namespace sim {

struct RkCfg {
	std::string family;      // erk, irk
	int method;
	double t0, t1, dt;
	bool adaptive;
	double rtol, atol, max_dt;
	long max_steps;
	int out_interval;        // logging
	bool time_internals;
	long output_interval;
	bool store;
	// newton
	double ntol, ndx; int nmaxit; int nrefresh;
	int misc;                // options that only choose how the steps are computed
	bool defaults;           // call the four argument overload
	std::string optscript;   // calls on the output options, ending in the wanted state
	RkCfg() : family("erk"), method(131), t0(0), t1(1), dt(1e-2), adaptive(true),
	          rtol(1e-5), atol(1e-7), max_dt(0), max_steps(-1), out_interval(0),
	          time_internals(false), output_interval(1), store(true),
	          ntol(1e-9), ndx(1e-9), nmaxit(40), nrefresh(5), misc(0), defaults(false) {}
	static RkCfg from(const Plan &p, const std::string &pre = "");
};

struct Result {
	bool threw; std::string exc;       // kind of exception that came out
	bool budget, crashed;
	int status;
	dvec t, err;
	std::vector<dvec> y, err_est, stages;
	std::size_t n_stages_rows;
	double elapsed, accept_frac;
	std::map<std::string, unsigned long> count;
	bool inputs_ok;                    // arguments unchanged after the call
	long live_after;                   // live blocks once the result is destroyed
	long functor_calls;                // calls seen by the functor object itself
	Result() : threw(false), budget(false), crashed(false), status(-1), n_stages_rows(0),
	           elapsed(0), accept_frac(0), inputs_ok(true), live_after(0), functor_calls(0) {}
	u64 numeric_hash(bool with_timing = false) const;
};

struct RunIO { std::ostream *out; RunIO(std::ostream *o = 0) : out(o) {} };

// real code
Result run_erk(const RkCfg &c, Env *env, const Problem &pr, const dvec &y0, const RunIO &io = RunIO());
Result run_irk(const RkCfg &c, Env *env, const Problem &pr, const dvec &y0, const RunIO &io = RunIO());
inline Result run_rk(const RkCfg &c, Env *env, const Problem &pr, const dvec &y0, const RunIO &io = RunIO())
{ return c.family == "erk" ? run_erk(c, env, pr, y0, io) : run_irk(c, env, pr, y0, io); }

// family: ab, bdf
Result run_multistep(const std::string &family, int order, double t0, double t1, double dt,
                     Env *env, const Problem &pr, const dvec &y0);

// which: newton, broyden.  Solves pr.f(t=tfix, x) = 0 (shifted by pr itself).
struct RootCfg {
	std::string which; double tol, dx, max_step; int maxit, refresh; bool precond, limit, quiet, time_internals;
	double tfix;
	RootCfg() : which("newton"), tol(1e-9), dx(1e-9), max_step(-1), maxit(50), refresh(1),
	            precond(false), limit(false), quiet(true), time_internals(false), tfix(0) {}
};
struct RootResult { bool threw; std::string exc; bool budget; int status; double res; int iters; dvec x; bool inputs_ok; long live_after; double eta; };
RootResult run_root(const RootCfg &c, Env *env, const Problem &pr, const dvec &x0);

// merges legs with the real merge function (irk only)
Result merge_legs(const std::vector<Result> &legs, Env *env);

// a script of stopwatch operations on the real timer; op: t tic, o toc, g get_tic,
// e get_elapsed(of the last g), E enable output, D disable output, w wait
struct TimerOp { char op; double value; long read_before, read_after; std::string text, second; };
void run_timer(const std::string &script, const dvec &waits, bool out_at_start, Env *env, std::vector<TimerOp> &log);

// Brings output options to the state the configuration asks for, by way of a
// script of calls (d, e: storing off and on, s: the stream, x: another stream first).
template <typename O> inline void set_output(O &oo, const RkCfg &c, std::ostream *out, std::ostream *other)
{
	if (c.optscript.empty()) {
		if (out) oo.set_output_stream(*out);
		if (!c.store) oo.disable_store_in_vectors();
		return;
	}
	for (char k : c.optscript) {
		if (k == 'd') oo.disable_store_in_vectors();
		if (k == 'e') oo.enable_store_in_vectors();
		if (k == 's' && out) oo.set_output_stream(*out);
		if (k == 'x' && out) oo.set_output_stream(*other);
	}
}

// Finite differences. how: functor (wrapper around an ODE functor), lambda
// (wrapper around two functions), compute, compute0 (the combined evaluation of
// the functor base class with and without Jacobian), verify.
struct FdResult { bool threw; std::string exc; bool budget; dvec J, f; bool ret; bool inputs_ok; long live_after; FdResult() : threw(false), budget(false), ret(false), inputs_ok(true), live_after(0) {} };
FdResult run_fd(const std::string &how, double t, const dvec &y, double h, Env *env, const Problem &pr);

// registry
std::vector<std::string> reg_all(const std::string &family);
int reg_code(const std::string &family, const std::string &name);
std::string reg_name(const std::string &family, int code);
// tableau through the public query: order, order2, FSAL, sizes and a hash of all numbers
struct Tableau { bool ok; int order, order2; bool fsal; double gamma; dvec b, b2, c; std::vector<dvec> A; std::string name; std::size_t interp; dvec b_interp; };
Tableau reg_tableau(const std::string &family, int code);

// method codes that can be integrated with
const std::vector<int> &erk_methods();
const std::vector<int> &irk_methods();
bool has_embedded(const std::string &family, int m);

// statuses, as published
enum { ST_SUCCESS = 0, ST_ERROR = 4, ST_SOLVE = 16, ST_MAX = 128 };

// ---- reference implementations (ref.cpp), independent of the repository
struct RefTab { int s; dvec b, b2, c; std::vector<dvec> A; bool fsal; double gamma; int order, order2; };
const RefTab *ref_tab(const std::string &family, int method);
// explicit step; also |weights| sums for tolerances
void ref_erk_step(const RefTab &m, const Problem &pr, double t, double dt, const dvec &y,
                  dvec &y1, dvec &est, double &scale, double &scale_est);
// solves the stage equations from a guess; returns false if not converged
bool ref_irk_stages(const RefTab &m, const Problem &pr, double t, double dt, const dvec &y,
                    dvec &Y /* in: guess, out: solution, s*n */, double &resid);
void ref_irk_update(const RefTab &m, const Problem &pr, const dvec &y, const dvec &Y, dvec &y1);
void ref_irk_err(const RefTab &m, const Problem &pr, double t, double dt, const dvec &y, const dvec &Y,
                 dvec &plain, dvec &refined);
// accurate solution by many tiny steps
dvec ref_solve(const Problem &pr, double t0, double t1, const dvec &y0, int nsub);
bool lin_solve(std::vector<double> A /* row major */, dvec b, dvec &x);

} // namespace sim
#endif
