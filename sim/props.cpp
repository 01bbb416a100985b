#include "props.hpp"

namespace sim {

static void pick_interval(Rng &r, Plan &p, const std::string &q, const GenOpt &o)
{
	double t0 = 0, len = r.logu(0.05, 6);
	if (o.offsets && r.chance(0.5)) {
		t0 = r.uni(-5, 5);
		if (r.chance(0.15)) t0 = r.uni(-1, 1)*1e3;
		if (r.chance(0.1)) t0 = -len*r.uni(0, 1);        // zero inside
		if (r.chance(0.1)) t0 = -len;                      // ends at zero
	}
	p.set(q + "t0", t0); p.set(q + "t1", t0 + len);
}

void gen_rk(Rng &r, Plan &p, const std::string &q, const GenOpt &o)
{
	bool erk = o.erk && (!o.irk || r.chance(0.5));
	std::string fam = erk ? "erk" : "irk";
	p.set(q + "what", std::string("rk"));
	p.set(q + "family", fam);
	const std::vector<int> &ms = erk ? erk_methods() : irk_methods();
	int m = ms[r.below(ms.size())];
	Problem::gen(r, p, q, erk ? "any" : o.cls);
	pick_interval(r, p, q, o);
	double t0 = p.num(q + "t0"), t1 = p.num(q + "t1"), len = t1 - t0;
	bool ad = o.adaptive && (!o.fixed || r.chance(0.75));
	if (ad && !has_embedded(fam, m) && !o.fixed) {
		while (!has_embedded(fam, m)) m = ms[r.below(ms.size())];
	}
	p.set(q + "method", m);
	p.set(q + "adaptive", long(ad));
	bool really = ad && has_embedded(fam, m);
	if (really) {
		double rt = r.logu(1e-9, 1e-3);
		// low order methods cannot afford the tightest tolerances
		const RefTab *tab = ref_tab(fam, m);
		if (tab && std::min(tab->order, tab->order2) <= 2) rt = r.logu(1e-6, 1e-2);
		p.set(q + "rtol", rt);
		p.set(q + "atol", rt*r.logu(0.01, 10));
		if (r.chance(0.05)) {                // purely absolute or purely relative tolerance
			bool rel = r.chance(0.5) && p.str(q + "kind") != "zero";
			p.set(q + "rtol", rel ? rt : 0.0); p.set(q + "atol", rel ? 0.0 : rt);
		}
		double dt = r.chance(0.3) ? r.logu(1e-9, 1e-5) : r.chance(0.2) ? len*r.uni(0.5, 5) : r.logu(1e-4, 0.5)*len;
		p.set(q + "dt", dt);
		if (o.max_dt && r.chance(0.35)) {
			if (r.chance(0.25)) {        // steps at the cap reach the end almost exactly
				double md = len/double(r.range(1, 40))*(1 + (r.chance(0.7) ? -1 : 1)*r.logu(1e-16, 1e-2));
				p.set(q + "max_dt", md); if (r.chance(0.6)) p.set(q + "dt", md);
			} else p.set(q + "max_dt", len/r.uni(1.5, 60));
		}
	} else {
		p.set(q + "dt", r.chance(0.2) ? len/double(r.range(1, 60))*(1 + (r.chance(0.5) ? 1 : -1)*r.logu(1e-16, 1e-2)) : len/(r.chance(0.2) ? r.uni(0.3, 3) : r.uni(3, double(fam == "irk" ? o.max_fixed/2 : o.max_fixed))));
	}
	if (o.longrun && r.chance(0.04)) {           // hundreds to thousands of steps
		double st = len/r.logu(100, erk ? 3000 : 500);
		if (!erk && p.integer(q + "n") > 3) p.set(q + "n", 3L);
		if (really) { p.set(q + "max_dt", st); if (r.chance(0.5)) p.set(q + "dt", st); }
		else p.set(q + "dt", st);
		if (o.fixed && r.chance(erk ? 0.1 : 0.05)) { // past what sixteen bits can count
			const char *gone[] = { "rtol", "atol", "max_dt" };
			for (int i = 0; i < 3; ++i) p.p.erase(q + gone[i]);
			p.set(q + "method", long((erk ? erk_methods() : irk_methods())[0])); p.set(q + "adaptive", 0L);
			if (!erk) { p.set(q + "kind", std::string(r.chance(0.5) ? "decay" : "forced")); p.set(q + "n", 1L); p.set(q + "fun_budget", 2000000L); }
			p.set(q + "dt", len/r.uni(66000, 140000)); really = false;
		}
	}
	if (o.hard && r.chance(0.45)) {
		if (r.chance(0.6)) {
			p.set(q + "spike_amp", r.logu(1, 1e4)*(r.chance(0.5) ? 1 : -1));
			p.set(q + "spike_t", r.uni(t0, t1)); p.set(q + "spike_w", r.logu(1e-4, 0.1)*len);
		} else {
			p.set(q + "step_amp", r.logu(0.5, 100)*(r.chance(0.5) ? 1 : -1));
			p.set(q + "step_t", r.uni(t0, t1));
		}
	}
	if (!erk) {
		double nt = r.logu(o.newton_lo, o.newton_hi);
		p.set(q + "ntol", nt); p.set(q + "ndx", r.chance(0.5) ? nt : nt*r.logu(0.01, 1));
		p.set(q + "nmaxit", r.chance(0.3) ? r.range(3, 8) : r.range(9, 60));
		p.set(q + "nrefresh", r.chance(0.1) ? 0L : r.range(1, 30));
		const RefTab *tab = ref_tab("irk", int(p.integer(q + "method")));
		if (tab && p.integer(q + "n") > 6 && tab->s*p.integer(q + "n") > 36) p.set(q + "n", 6L);     // the linear systems get slow
	}
	if (o.logs && r.chance(0.2)) p.set(q + "log", r.range(1, 20));
	if (o.logs && r.chance(0.15)) p.set(q + "timings", 1);
	if (r.chance(0.1)) p.set(q + "misc", r.range(1, 15));
	if (!p.has(q + "fun_budget")) p.set(q + "fun_budget", 400000L);
	if (o.short_form && really && r.chance(0.05)) {
		const char *gone[] = { "max_dt", "log", "timings", "max_steps", "misc" };
		for (int i = 0; i < 5; ++i) p.p.erase(q + gone[i]);
		p.set(q + "defaults", 1L); p.set(q + "adaptive", 1L);
		p.set(q + "method", long(erk ? erk_methods()[4] : irk_methods()[2]));
		p.set(q + "rtol", 1e-4); p.set(q + "atol", 1e-3); p.set(q + "dt", 1e-6);
		if (!erk) { p.set(q + "ntol", 1e-5); p.set(q + "ndx", 1e-4); p.set(q + "nmaxit", 5000L); p.set(q + "nrefresh", 25L); }
		return;
	}
	if (o.scale && r.chance(0.12)) {
		double ts = r.chance(0.25) ? r.logu(1e-2, 1) : r.logu(1, 1e15);
		p.set(q + "ts", ts);
		const char *k[] = { "t0", "t1", "dt", "max_dt", "spike_t", "spike_w", "step_t" };
		for (int i = 0; i < 7; ++i) if (p.has(q + k[i])) p.set(q + k[i], p.num(q + k[i])/ts);
	}
}

void gen_ms(Rng &r, Plan &p, const std::string &q)
{
	p.set(q + "what", std::string("ms"));
	bool ab = r.chance(0.5);
	p.set(q + "family", std::string(ab ? "ab" : "bdf"));
	p.set(q + "order", ab ? r.range(1, 5) : r.range(1, 6));
	Problem::gen(r, p, q, "any");
	double t0 = r.chance(0.5) ? 0.0 : r.uni(-3, 3), len = r.logu(0.1, 2);
	p.set(q + "t0", t0); p.set(q + "t1", t0 + len);
	p.set(q + "dt", r.chance(0.15) ? len*r.uni(0.3, 2) : r.chance(0.05) ? len/r.logu(60, 1500) : len/r.uni(4, 60));
	p.set(q + "fun_budget", 400000L);
}

void gen_root(Rng &r, Plan &p, const std::string &q)
{
	p.set(q + "what", std::string("root"));
	p.set(q + "which", std::string(r.chance(0.5) ? "newton" : "broyden"));
	const char *kinds[] = { "forced", "pend", "logistic", "bruss", "matrix", "vdp", "lorenz", "sqrt", "log", "blowup", "decay", "zero" };
	std::string k = kinds[r.below(12)];
	Problem::gen(r, p, q, "any");
	p.set(q + "kind", k);
	int n = int(r.range(1, 4));
	if (k == "pend" || k == "bruss" || k == "vdp") n = 2;
	if (k == "lorenz") n = 3;
	if ((k == "decay" || k == "forced" || k == "matrix" || k == "logistic" || k == "sqrt" || k == "zero") && r.chance(0.12)) n = int(r.range(5, 20));
	p.set(q + "n", n); p.set(q + "a", r.uni(0.3, 3)); p.set(q + "b", r.uni(0, 2)); p.set(q + "c", r.uni(-1, 1));
	p.set(q + "tfix", r.uni(-1, 1));
	p.set(q + "tol", r.logu(1e-12, 1e-3)); p.set(q + "dx", r.logu(1e-12, 1e-3));
	p.set(q + "maxit", r.chance(0.2) ? r.range(1, 4) : r.range(5, 200));
	if (r.chance(0.35)) p.set(q + "max_step", r.logu(1e-2, 3));
	p.set(q + "refresh", r.chance(0.3) ? 0L : r.range(1, 10));
	if (r.chance(0.25)) p.set(q + "precond", 1);
	if (r.chance(0.25)) p.set(q + "limit", 1);
	if (r.chance(0.2)) p.set(q + "quiet", 0);
	if (r.chance(0.2)) p.set(q + "timings", 1);
	p.set(q + "fun_budget", 100000L);
}

void gen_any(Rng &r, Plan &p, const std::string &q, bool small, bool short_form)
{
	double u = r.uni();
	if (u < 0.6) {
		GenOpt o; o.scale = true; o.short_form = short_form;
		if (small) { o.max_fixed = 60; o.longrun = false; }
		gen_rk(r, p, q, o);
		if (p.integer(q + "defaults")) return;
		if (small && p.has(q + "rtol")) { double rt = std::max(p.num(q + "rtol"), 1e-6); p.set(q + "rtol", rt); p.set(q + "atol", std::max(p.num(q + "atol"), 1e-7)); }
		if (r.chance(0.2)) p.set(q + "max_steps", r.range(0, 30));
	} else if (u < 0.8) gen_ms(r, p, q);
	else gen_root(r, p, q);
}

AnyResult run_any(const Plan &p, const std::string &q, Env *env, bool timing, const RunIO &io)
{
	AnyResult a;
	std::string what = p.str(q + "what", "rk");
	Problem pr = Problem::from(p, q);
	dvec y0 = pr.y0(p, q);
	a.is_root = what == "root";
	if (a.is_root) {
		RootCfg c;
		c.which = p.str(q + "which", "newton"); c.tol = p.num(q + "tol", 1e-9); c.dx = p.num(q + "dx", 1e-9);
		c.max_step = p.num(q + "max_step", -1); c.maxit = int(p.integer(q + "maxit", 50));
		c.refresh = int(p.integer(q + "refresh", 1)); c.precond = p.integer(q + "precond", 0) != 0;
		c.limit = p.integer(q + "limit", 0) != 0; c.quiet = p.integer(q + "quiet", 1) != 0;
		c.time_internals = p.integer(q + "timings", 0) != 0; c.tfix = p.num(q + "tfix", 0);
		a.root = run_root(c, env, pr, y0);
		Hash h; h.u(a.root.threw); h.s(a.root.exc);
		if (!a.root.threw) { h.u(u64(a.root.status)); h.d(a.root.res); h.u(u64(a.root.iters)); h.v(a.root.x); h.d(a.root.eta); }
		a.hash = h.h; a.threw = a.root.threw; a.exc = a.root.exc; a.status = a.root.status; a.live_after = a.root.live_after;
		a.inputs_ok = a.root.inputs_ok; a.budget = a.root.budget; a.crashed = a.root.exc == "crash";
		return a;
	}
	if (what == "ms")
		a.rk = run_multistep(p.str(q + "family", "ab"), int(p.integer(q + "order", 2)), p.num(q + "t0"), p.num(q + "t1"), p.num(q + "dt"), env, pr, y0);
	else
		a.rk = run_rk(RkCfg::from(p, q), env, pr, y0, io);
	a.hash = a.rk.numeric_hash(timing);
	a.threw = a.rk.threw; a.exc = a.rk.exc; a.status = a.rk.status; a.live_after = a.rk.live_after;
	a.inputs_ok = a.rk.inputs_ok; a.budget = a.rk.budget; a.crashed = a.rk.crashed;
	return a;
}

Dry dry_any(const Plan &p, const std::string &q, bool allocs)
{
	(void) allocs;
	Plan clean = p; clean.f.clear();
	clean.set(q + "fun_budget", 60000L);
	Quiet quiet;
	Env e; e.load(clean, q); e.fun_budget = 60000;
	AnyResult a = run_any(clean, q, &e);
	Dry d; d.fun = e.n_fun; d.jac = e.n_jac; d.alloc = e.n_alloc; d.clock = e.n_clock; d.status = a.status; d.threw = a.threw; d.full = a.budget || e.n_fun >= 60000;
	d.steps = a.is_root ? a.root.iters : long(a.rk.t.size()) - 1;
	return d;
}
Dry dry_rk(const Plan &p, const std::string &q, bool allocs) { return dry_any(p, q, allocs); }

long pick_event(Rng &r, long n)
{
	if (n <= 1) return 0;
	double u = r.uni();
	if (u < 0.25) return r.below(std::min(n, 25L));
	if (u < 0.35) return n - 1 - r.below(std::min(n, 15L));
	return r.below(n);
}

void add_fun_faults(Rng &r, Plan &p, const std::string &pre, long n, int max_faults, const std::vector<std::string> &acts, long max_count)
{
	int k = int(r.range(1, max_faults));
	for (int i = 0; i < k; ++i) {
		std::string a = acts[r.below(acts.size())];
		double arg = r.chance(0.4) ? -1 : double(r.below(4));
		if (a == "stall") arg = r.logu(10, 5e6);
		if (a.compare(0, 5, "throw") == 0) arg = double(r.range(1, 99));
		p.fault(pre + "fun", pick_event(r, n), a, arg, r.chance(0.6) ? 1 : r.range(1, max_count));
	}
}
void add_jac_faults(Rng &r, Plan &p, const std::string &pre, long n, int max_faults, const std::vector<std::string> &acts, long max_count)
{
	int k = int(r.range(1, max_faults));
	for (int i = 0; i < k; ++i) {
		std::string a = acts[r.below(acts.size())];
		double arg = double(r.below(9));
		if (a == "scale") arg = r.logu(0.05, 20);
		if (a == "bad") arg = r.logu(50, 1e6)*(r.chance(0.5) ? 1 : -1);
		if (a == "noise") arg = r.logu(1e-3, 1);
		if (a == "stall") arg = r.logu(10, 5e6);
		p.fault(pre + "jac", pick_event(r, n), a, arg, r.chance(0.4) ? 1 : r.range(1, max_count));
	}
}

void check_sane(Outcome &o, const Result &r, const Env &e, const char *tag)
{
	if (e.corrupt) o.fail("heap-overrun", fmt("%s: memory after an allocated block was overwritten", tag));
	if (r.budget) o.probe("evaluation-budget-used-up");     // C05 judges that
	if (!r.inputs_ok) o.fail("inputs-changed", fmt("%s: an argument of the call was changed", tag));
	if (r.threw && r.exc.compare(0, 4, "std:") == 0 && r.exc.find("functor got") != std::string::npos)
		o.fail("wrong-callback", fmt("%s: %s", tag, r.exc.c_str()));
}

} // namespace sim
