#include <numeric>
#include "irk.hpp"
#include "functor_sim.hpp"
namespace sim {

static void take(const irk::rk_output &s, Result &r)
{
	r.status = s.status; r.t = s.t_vals; r.err = s.err;
	for (auto &v : s.y_vals) r.y.push_back(plain(v));
	for (auto &v : s.err_est) r.err_est.push_back(plain(v));
	for (auto &v : s.stages) r.stages.push_back(plain(v));
	r.n_stages_rows = s.stages.size();
	r.elapsed = s.elapsed_time; r.accept_frac = s.accept_frac;
	r.count["attempt"] = s.count.attempt; r.count["reject_err"] = s.count.reject_err;
	r.count["reject_newton"] = s.count.reject_newton; r.count["newton_success"] = s.count.newton_success;
	r.count["newton_incr_diverge"] = s.count.newton_incr_diverge;
	r.count["newton_iter_error_too_large"] = s.count.newton_iter_error_too_large;
	r.count["newton_maxit_exceed"] = s.count.newton_maxit_exceed;
	r.count["fun_evals"] = s.count.fun_evals; r.count["jac_evals"] = s.count.jac_evals;
}

Result run_irk(const RkCfg &c, Env *env, const Problem &pr, const dvec &y0v, const RunIO &io)
{
	Result r;
	SimFunctor f(pr, env);
	arma::vec y0(y0v), y0copy = y0;
	irk::solver_options so = irk::default_solver_options();
	newton::options no;
	no.tol = c.ntol; no.dx_delta = c.ndx; no.maxit = c.nmaxit; no.refresh_jac = c.nrefresh;
	so.newton_opts = &no;
	so.adaptive_step_size = c.adaptive;
	so.rel_tol = c.rtol; so.abs_tol = c.atol; so.max_dt = c.max_dt;
	so.max_steps = c.max_steps; so.out_interval = c.out_interval; so.time_internals = c.time_internals;
	if (c.misc & 1) so.internal_solver = irk::solver_options::BROYDEN;
	if (c.misc & 2) so.extrapolate_stage = true;
	if (c.misc & 4) so.use_newton_iters_adaptive_step = false;
	if (c.misc & 8) so.verbose_newton = true;
	output_options oo;
	oo.output_interval = std::size_t(c.output_interval);
	std::ostream decoy(0);
	set_output(oo, c, io.out, &decoy);
	std::size_t mode0 = oo.output_mode;
	Dirty<irk::rk_output> d(env->fill);
	guarded(r, env, [&]() {
		AllocOn on(env);
		if (c.defaults) { new (d.raw) irk::rk_output(irk::odeint(f, c.t0, c.t1, y0)); }
		else { new (d.raw) irk::rk_output(irk::odeint(f, c.t0, c.t1, y0, so, oo, c.method, c.dt)); }
		d.live = true;
	});
	r.crashed = r.exc == "crash";
	r.functor_calls = f.calls;
	r.inputs_ok = y0.n_elem == y0copy.n_elem && std::memcmp(y0.memptr(), y0copy.memptr(), 8*y0.n_elem) == 0 &&
		oo.output_mode == mode0 && oo.output_interval == std::size_t(c.output_interval) &&
		f.pr == &pr && f.env == env && no.maxit == c.nmaxit && no.tol == c.ntol && no.dx_delta == c.ndx &&
		no.refresh_jac == c.nrefresh && so.max_dt == c.max_dt && so.out_interval == c.out_interval &&
		so.time_internals == c.time_internals &&
		so.rel_tol == c.rtol && so.abs_tol == c.atol && so.max_steps == c.max_steps &&
		so.adaptive_step_size == c.adaptive && so.newton_opts == &no;
	if (d.live) {
		take(d.get(), r);
		EnvScope es(env);
		d.destroy();
	}
	r.live_after = env->leaked();
	return r;
}

Result merge_legs(const std::vector<Result> &legs, Env *env)
{
	// Legs are turned into the library's own type, merged one after another.
	std::vector<irk::rk_output> v;
	for (auto &l : legs) {
		irk::rk_output o;
		o.status = l.status; o.t_vals = l.t; o.err = l.err;
		for (auto &y : l.y) o.y_vals.push_back(arma::vec(y));
		for (auto &k : l.stages) o.stages.push_back(arma::vec(k));
		for (auto &e : l.err_est) o.err_est.push_back(arma::vec(e));
		o.elapsed_time = l.elapsed; o.accept_frac = l.accept_frac;
		auto g = [&l](const char *k) { auto it = l.count.find(k); return it == l.count.end() ? 0ul : it->second; };
		o.count.attempt = g("attempt"); o.count.reject_err = g("reject_err");
		o.count.reject_newton = g("reject_newton"); o.count.newton_success = g("newton_success");
		o.count.newton_incr_diverge = g("newton_incr_diverge");
		o.count.newton_iter_error_too_large = g("newton_iter_error_too_large");
		o.count.newton_maxit_exceed = g("newton_maxit_exceed");
		o.count.fun_evals = g("fun_evals"); o.count.jac_evals = g("jac_evals");
		v.push_back(o);
	}
	Result r;
	guarded(r, env, [&]() {
		irk::rk_output acc = v[0];
		for (std::size_t i = 1; i < v.size(); ++i) acc = irk::merge_rk_output(acc, v[i]);
		take(acc, r);
	});
	return r;
}
void print_table(int method, std::ostream &out) { irk::solver_coeffs sc = irk::get_coefficients(method); ::operator<<(out, sc); }
}
