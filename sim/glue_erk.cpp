#include <numeric>
#include "erk.hpp"
#include "functor_sim.hpp"
namespace sim {
Result run_erk(const RkCfg &c, Env *env, const Problem &pr, const dvec &y0v, const RunIO &io)
{
	Result r;
	SimFunctor f(pr, env);
	arma::vec y0(y0v), y0copy = y0;
	erk::solver_options so = erk::default_solver_options();
	so.adaptive_step_size = c.adaptive;
	so.rel_tol = c.rtol; so.abs_tol = c.atol; so.max_dt = c.max_dt;
	so.max_steps = c.max_steps; so.out_interval = c.out_interval; so.time_internals = c.time_internals;
	if (c.misc & 1) so.internal_solver = common_solver_options::BROYDEN;
	if (c.misc & 2) so.extrapolate_stage = true;
	output_options oo;
	oo.output_interval = std::size_t(c.output_interval);
	std::ostream decoy(0);
	set_output(oo, c, io.out, &decoy);
	std::size_t mode0 = oo.output_mode;
	Dirty<erk::rk_output> d(env->fill);
	guarded(r, env, [&]() {
		AllocOn on(env);
		if (c.defaults) { new (d.raw) erk::rk_output(erk::odeint(f, c.t0, c.t1, y0)); }
		else { new (d.raw) erk::rk_output(erk::odeint(f, c.t0, c.t1, y0, so, oo, c.method, c.dt)); }
		d.live = true;
	});
	r.crashed = r.exc == "crash";
	r.functor_calls = f.calls;
	r.inputs_ok = y0.n_elem == y0copy.n_elem && std::memcmp(y0.memptr(), y0copy.memptr(), 8*y0.n_elem) == 0 &&
		oo.output_mode == mode0 && oo.output_interval == std::size_t(c.output_interval) &&
		f.pr == &pr && f.env == env &&
		so.max_dt == c.max_dt && so.out_interval == c.out_interval && so.time_internals == c.time_internals && so.rel_tol == c.rtol && so.abs_tol == c.atol && so.max_steps == c.max_steps && so.adaptive_step_size == c.adaptive;
	if (d.live) {
		erk::rk_output &s = d.get();
		r.status = s.status; r.t = s.t_vals; r.err = s.err;
		for (auto &v : s.y_vals) r.y.push_back(plain(v));
		for (auto &v : s.err_est) r.err_est.push_back(plain(v));
	for (auto &v : s.stages) r.stages.push_back(plain(v));
		r.n_stages_rows = s.stages.size();
		r.elapsed = s.elapsed_time; r.accept_frac = s.accept_frac;
		r.count["attempt"] = s.count.attempt; r.count["reject_err"] = s.count.reject_err;
		r.count["fun_evals"] = s.count.fun_evals;
		EnvScope es(env);
		d.destroy();
	}
	r.live_after = env->leaked();
	return r;
}
}
