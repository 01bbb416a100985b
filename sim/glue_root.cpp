#include <numeric>
#include "newton.hpp"
#include "erk.hpp"
#include "irk.hpp"
#include "functor_sim.hpp"
namespace sim {

u64 Result::numeric_hash(bool timing) const
{
	Hash h;
	h.u(threw); h.s(threw ? exc : "");
	if (!threw) {
		h.u(u64(status)); h.v(t); h.v(err); h.u(y.size());
		for (auto &v : y) h.v(v);
		h.u(err_est.size());
		for (auto &v : err_est) h.v(v);
		h.u(stages.size());
		for (auto &v : stages) h.v(v);
		h.d(accept_frac);
		for (auto &kv : count) { h.s(kv.first); h.u(kv.second); }
		if (timing) h.d(elapsed);
	}
	return h.h;
}

RkCfg RkCfg::from(const Plan &p, const std::string &q)
{
	RkCfg c;
	c.family = p.str(q + "family", "erk");
	c.method = int(p.integer(q + "method", 131));
	c.t0 = p.num(q + "t0", 0); c.t1 = p.num(q + "t1", 1); c.dt = p.num(q + "dt", 1e-2);
	c.adaptive = p.integer(q + "adaptive", 1) != 0;
	c.rtol = p.num(q + "rtol", 1e-5); c.atol = p.num(q + "atol", 1e-7);
	c.max_dt = p.num(q + "max_dt", 0); c.max_steps = p.integer(q + "max_steps", -1);
	c.out_interval = int(p.integer(q + "log", 0)); c.time_internals = p.integer(q + "timings", 0) != 0;
	c.output_interval = p.integer(q + "interval", 1); c.store = p.integer(q + "store", 1) != 0;
	c.optscript = p.str(q + "optscript"); c.misc = int(p.integer(q + "misc", 0));
	c.ntol = p.num(q + "ntol", 1e-9); c.ndx = p.num(q + "ndx", 1e-9);
	c.nmaxit = int(p.integer(q + "nmaxit", 40)); c.nrefresh = int(p.integer(q + "nrefresh", 5));
	c.defaults = p.integer(q + "defaults", 0) != 0;
	return c;
}

struct RootFunctor {
	typedef arma::mat jac_type;
	SimFunctor f; double t;
	RootFunctor(const Problem &p, Env *e, double t_) : f(p, e), t(t_) {}
	arma::vec fun(const arma::vec &x) { return f.fun(t, x); }
	arma::mat jac(const arma::vec &x) { return f.jac(t, x); }
};

RootResult run_root(const RootCfg &c, Env *env, const Problem &pr, const dvec &x0v)
{
	RootResult r; r.budget = false;
	RootFunctor f(pr, env, c.tfix);
	arma::vec x0(x0v), x0c = x0;
	newton::options o;
	o.tol = c.tol; o.dx_delta = c.dx; o.maxit = c.maxit; o.max_step = c.max_step;
	o.refresh_jac = c.refresh; o.precondition = c.precond; o.limit_step = c.limit; o.time_internals = c.time_internals;
	Dirty<newton::status> ds(env->fill);
	new (ds.raw) newton::status(); ds.live = true;
	// what the caller left in there must not matter
	ds.get().conv_status = 12345; ds.get().res = -1; ds.get().iters = -7;
	arma::vec out;
	guarded(r, env, [&]() {
		AllocOn on(env);
		arma::vec x = c.which == "newton" ? newton::newton_iterate(f, x0, o, ds.get(), c.quiet)
		                                  : newton::broyden_iterate(f, x0, o, ds.get(), c.quiet);
		AllocOff off(env);
		out = x;
	});
	r.status = ds.get().conv_status; r.res = ds.get().res; r.iters = ds.get().iters; r.eta = ds.get().eta_final;
	r.x = plain(out);
	r.inputs_ok = x0.n_elem == x0c.n_elem && std::memcmp(x0.memptr(), x0c.memptr(), 8*x0.n_elem) == 0 &&
		o.maxit == c.maxit && o.tol == c.tol && o.dx_delta == c.dx;
	r.live_after = env->leaked();
	return r;
}

std::vector<std::string> reg_all(const std::string &f) { return f == "erk" ? erk::all_method_names() : irk::all_method_names(); }
int reg_code(const std::string &f, const std::string &n) { return f == "erk" ? erk::name_to_method(n) : irk::name_to_method(n); }
std::string reg_name(const std::string &f, int c)
{
	const char *s = f == "erk" ? erk::method_to_name(c) : irk::method_to_name(c);
	return s ? s : "(null)";
}
template <typename C> static Tableau conv(const C &c, bool ok)
{
	Tableau t; t.ok = ok; t.order = c.order; t.order2 = c.order2; t.fsal = c.FSAL; t.gamma = c.gamma;
	t.b = plain(c.b); t.b2 = plain(c.b2); t.c = plain(c.c); t.name = c.name ? c.name : "(null)"; t.interp = c.b_interp.n_elem;
	for (std::size_t i = 0; i < c.b_interp.n_elem; ++i) t.b_interp.push_back(c.b_interp[i]);
	for (std::size_t i = 0; i < c.A.n_rows; ++i) {
		dvec r; for (std::size_t j = 0; j < c.A.n_cols; ++j) r.push_back(c.A(i,j));
		t.A.push_back(r);
	}
	return t;
}
Tableau reg_tableau(const std::string &f, int code)
{
	// static storage is dirtied so that members left unset are visible
	if (f == "erk") {
		Dirty<erk::solver_coeffs> d(cur() ? cur()->fill : 0xA5);
		new (d.raw) erk::solver_coeffs(erk::get_coefficients(code)); d.live = true;
		return conv(d.get(), erk::verify_solver_coeffs(d.get()));
	}
	Dirty<irk::solver_coeffs> d(cur() ? cur()->fill : 0xA5);
	new (d.raw) irk::solver_coeffs(irk::get_coefficients(code)); d.live = true;
	return conv(d.get(), irk::verify_solver_coeffs(d.get()));
}

const std::vector<int> &erk_methods()
{
	static std::vector<int> v;
	if (v.empty()) { int m[] = { erk::EXPLICIT_EULER, erk::RUNGE_KUTTA_4, erk::BOGACKI_SHAMPINE_32, erk::CASH_KARP_54, erk::DORMAND_PRINCE_54, erk::FEHLBERG_54 }; v.assign(m, m + 6); }
	return v;
}
const std::vector<int> &irk_methods()
{
	static std::vector<int> v;
	if (v.empty()) {
		int m[] = { irk::IMPLICIT_EULER, irk::RADAU_IIA_32, irk::RADAU_IIA_53, irk::RADAU_IIA_95, irk::RADAU_IIA_137,
		            irk::LOBATTO_IIIC_43, irk::LOBATTO_IIIC_64, irk::LOBATTO_IIIC_85, irk::GAUSS_LEGENDRE_147 };
		v.assign(m, m + 9);
	}
	return v;
}
bool has_embedded(const std::string &f, int m)
{
	if (f == "erk") return m != erk::EXPLICIT_EULER && m != erk::RUNGE_KUTTA_4;
	return m != irk::IMPLICIT_EULER;
}
}
