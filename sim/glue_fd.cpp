#include <numeric>
#include "newton.hpp"
#include "functor.hpp"
#include "functor_sim.hpp"
namespace sim {

// A user's functor derived from the library's interface.
struct Derived : functor {
	SimFunctor f;
	Derived(const Problem &p, Env *e) : f(p, e) {}
	arma::vec fun(double t, const vec_type &y) { return f.fun(t, y); }
	jac_type jac(double t, const vec_type &y) { return f.jac(t, y); }
};

FdResult run_fd(const std::string &how, double t, const dvec &yv, double h, Env *env, const Problem &pr)
{
	FdResult r;
	Derived d(pr, env);
	functor &base = d;
	arma::vec y(yv), yc = y, fv;
	arma::mat J;
	const double mark = 12345.75;
	// what the matrix passed in holds before the call must not matter
	if (how == "compute") switch (int(std::fabs(t)*1e4) % 4) {
	case 0: J.set_size(pr.n, pr.n); J.fill(mark); break;
	case 1: J.set_size(pr.n, pr.n); J.fill(std::numeric_limits<double>::quiet_NaN()); break;
	case 2: J.set_size(pr.n + 1, pr.n + 2); J.fill(mark); break;
	default: break;
	}
	if (how == "compute0") { J.set_size(pr.n, pr.n); J.fill(mark); }
	guarded(r, env, [&]() {
		AllocOn on(env);
		if (how == "functor") {
			newton::newton_functor_wrapper<functor> w(base, t);
			arma::mat A = newton::approx_jacobi_matrix(y, w, h);
			AllocOff off(env); J = A;
		} else if (how == "lambda") {
			auto f = [&base, t](const vec_type &x) { return base.fun(t, x); };
			auto j = [&base, t](const vec_type &x) { return base.jac(t, x); };
			newton::newton_lambda_wrapper<decltype(f), decltype(j), arma::mat> w(f, j);
			arma::mat A = newton::approx_jacobi_matrix(y, w, h);
			AllocOff off(env); J = A;
		} else if (how == "verify") {
			newton::newton_functor_wrapper<functor> w(base, t);
			r.ret = newton::verify_jacobi_matrix(y, w);
		} else {
			arma::mat A;
			{ AllocOff off(env); A = J; }
			arma::vec v = base.compute(t, y, A, how == "compute");
			AllocOff off(env); J = A; fv = v;
		}
	});
	r.J = dvec(J.begin(), J.end()); r.f = plain(fv);
	r.inputs_ok = y.n_elem == yc.n_elem && std::memcmp(y.memptr(), yc.memptr(), 8*y.n_elem) == 0;
	r.live_after = env->leaked();
	return r;
}
}
