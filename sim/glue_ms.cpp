#include <numeric>
#include "multistep.hpp"
#include "functor_sim.hpp"
namespace sim {
Result run_multistep(const std::string &family, int order, double t0, double t1, double dt,
                     Env *env, const Problem &pr, const dvec &y0v)
{
	Result r;
	SimFunctor f(pr, env);
	arma::vec y0(y0v), y0copy = y0;
	multistep::solver_options so; so.order = order;
	Dirty<basic_output> d(env->fill);
	guarded(r, env, [&]() {
		AllocOn on(env);
		if (family == "ab") new (d.raw) basic_output(multistep::adams_bashforth(f, t0, t1, y0, so, dt));
		else new (d.raw) basic_output(multistep::bdf(f, t0, t1, y0, so, dt));
		d.live = true;
	});
	r.crashed = r.exc == "crash";
	r.functor_calls = f.calls;
	r.inputs_ok = y0.n_elem == y0copy.n_elem && std::memcmp(y0.memptr(), y0copy.memptr(), 8*y0.n_elem) == 0 &&
		so.order == order && f.pr == &pr && f.env == env;
	if (d.live) {
		basic_output &s = d.get();
		r.status = s.status; r.t = s.t_vals;
		for (auto &v : s.y_vals) r.y.push_back(plain(v));
		EnvScope es(env);
		d.destroy();
	}
	r.live_after = env->leaked();
	return r;
}
}
