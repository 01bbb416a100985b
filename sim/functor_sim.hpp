#ifndef SIM_FUNCTOR_HPP
#define SIM_FUNCTOR_HPP
#include "arma_include.hpp"
#include "newton.hpp"
#include "glue.hpp"
namespace sim {
// The user's ODE functor as the real code sees it: every call goes through
// the run's environment.
struct SimFunctor {
	typedef arma::mat jac_type;
	const Problem *pr; Env *env; long calls;
	SimFunctor(const Problem &p, Env *e) : pr(&p), env(e), calls(0) {}
	arma::vec fun(double t, const arma::vec &y)
	{
		++calls;
		if (int(y.n_elem) != pr->n) throw std::logic_error("functor got a vector of the wrong size");
		arma::vec r(pr->n);
		env->on_fun(*pr, t, y.memptr(), r.memptr());
		return r;
	}
	arma::mat jac(double t, const arma::vec &y)
	{
		++calls;
		if (int(y.n_elem) != pr->n) throw std::logic_error("functor got a vector of the wrong size");
		if (pr->fd > 0) {                      // as users without a Jacobian do it
			newton::newton_functor_wrapper<SimFunctor> w(*this, t);
			return newton::approx_jacobi_matrix(y, w, pr->fd);
		}
		arma::mat J(pr->n, pr->n);
		env->on_jac(*pr, t, y.memptr(), J.memptr());
		return J;
	}
};
inline dvec plain(const arma::vec &v) { return dvec(v.begin(), v.end()); }

// Runs body and sorts what came out of it.
template <typename R, typename F> inline void guarded(R &r, Env *env, F body)
{
	EnvScope es(env);
	r.threw = true;
	try { body(); r.threw = false; r.exc = ""; }
	catch (BudgetExceeded &) { r.exc = "budget"; r.budget = true; }
	catch (CrashNow &) { r.exc = "crash"; }
	catch (SimError &) { r.exc = "SimError"; }
	catch (SimOdd &o) { r.exc = fmt("SimOdd(%d)", o.code); }
	catch (int i) { r.exc = fmt("int(%d)", i); }
	catch (std::bad_alloc &) { r.exc = "bad_alloc"; }
	catch (std::exception &e) { r.exc = std::string("std:") + e.what(); }
	catch (...) { r.exc = "unknown"; }
	env->alloc_on = false;
}

// Constructs a T from an expression in memory filled with a pattern, so that
// members the code never sets hold that pattern.
template <typename T> struct Dirty {
	alignas(64) unsigned char raw[sizeof(T)];
	bool live;
	explicit Dirty(int fill) : live(false) { std::memset(raw, fill, sizeof raw); }
	~Dirty() { destroy(); }
	void destroy() { if (live) { live = false; get().~T(); } }
	T &get() { return *reinterpret_cast<T *>(raw); }
};
}
#endif
