// C25 finite difference Jacobians and the functor interface, C26 units.
#include "props.hpp"

namespace sim {

static const std::vector<std::string> NONFINITE = { "nan", "inf", "ninf" };
static const std::vector<std::string> THROWS = { "throw_std", "throw_odd", "throw_int", "throw_bad" };
static const double EPS = 2.3e-16;
static bool same_bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
static bool same_bits(const dvec &a, const dvec &b)
{
	if (a.size() != b.size()) return false;
	for (std::size_t i = 0; i < a.size(); ++i) if (!same_bits(a[i], b[i])) return false;
	return true;
}

// ------------------------------------------------------------------ C25
static void c25_gen(Rng &r, Plan &p)
{
	double u = r.uni();
	std::string mode = u < 0.62 ? "approx" : u < 0.74 ? "compute" : u < 0.82 ? "verify" : "steps";
	p.set("mode", mode);
	if (mode == "steps") {
		GenOpt o; o.scale = true; o.erk = false; o.cls = "stiff"; o.max_fixed = 80; o.newton_lo = 1e-10; o.newton_hi = 1e-8;
		gen_rk(r, p, "", o);
		p.set("mode", mode);
		p.set("fd", r.logu(1e-7, 1e-5)*p.num("yscale", 1));
		p.set("nmaxit", r.range(10, 40));
		if (p.has("rtol")) { double rt = std::max(1e-7, p.num("rtol")); p.set("rtol", rt); p.set("atol", std::max(1e-7, p.num("atol"))); }
		p.set("fun_budget", 200000L);
		if (r.chance(0.5)) { Dry d = dry_rk(p, ""); add_fun_faults(r, p, "", d.fun, 3, NONFINITE, 3); }
		return;
	}
	Problem::gen(r, p, "", "stiff");
	if (r.chance(0.15)) { p.set("kind", std::string(r.chance(0.5) ? "decay" : "matrix")); p.set("n", r.range(5, 24)); }
	if (r.chance(0.1)) p.set("us", std::pow(2.0, double(r.range(-30, 30))));
	p.set("t", r.uni(-3, 3));
	p.set("h", r.chance(0.4) ? std::pow(2.0, -double(r.range(3, 26))) : r.logu(1e-8, 0.3));
	if (p.has("us")) p.set("h", p.num("h")*p.num("us"));
	int n = int(p.integer("n"));
	if (mode == "approx") {
		p.set("how", std::string(r.chance(0.5) ? "functor" : "lambda"));
		double v = r.uni();
		if (v < 0.45) add_fun_faults(r, p, "", 2*n + 1, 3, NONFINITE, 3);
		else if (v < 0.65) p.fault("fun", r.below(2*n + 1), THROWS[r.below(4)], double(r.range(1, 99)));
		else if (v < 0.8) p.fault("alloc", r.below(6*n + 10), "fail", 0, r.chance(0.7) ? 1 : -1);
	} else if (mode == "compute") {
		p.set("how", std::string(r.chance(0.5) ? "compute" : "compute0"));
		double v = r.uni();
		if (v < 0.25) add_fun_faults(r, p, "", 1, 1, NONFINITE, 1);
		else if (v < 0.5) add_jac_faults(r, p, "", 1, 2, { "nan", "inf", "zero", "scale", "noise" }, 1);
		else if (v < 0.7) p.fault(r.chance(0.5) ? "fun" : "jac", 0, THROWS[r.below(3)], double(r.range(1, 99)));
		else if (v < 0.8) p.fault("alloc", r.below(8), "fail", 0);
	} else {
		p.set("how", std::string("verify"));
		if (r.chance(0.15)) p.set("kind", std::string("zero"));
		else p.fault("jac", 0, "scale", r.chance(0.5) ? r.uni(2, 30) : -r.uni(0.5, 3), -1);
	}
}

static std::string expected_exc(const Plan &p, const Env &e)
{
	for (auto &f : p.f) {
		if (!e.fired.count(f.seam + ":" + f.act)) continue;
		if (f.act == "throw_std") return "SimError";
		if (f.act == "throw_odd") return fmt("SimOdd(%d)", int(f.arg));
		if (f.act == "throw_int") return fmt("int(%d)", int(f.arg));
		if (f.act == "throw_bad") return "bad_alloc";
	}
	return "";
}

static void c25_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	std::string mode = p.str("mode");
	Problem pr = Problem::from(p); dvec y = pr.y0(p);
	int n = pr.n;
	if (mode == "steps") {
		RkCfg c = RkCfg::from(p);
		Env e; e.load(p); e.record = true;
		Result r = run_rk(c, &e, pr, y);
		check_sane(o, r, e, "run with a finite difference Jacobian");
		o.absorb(e); o.hash.u(r.numeric_hash(true));
		if (e.n_jac) o.fail("jacobian-called", "the analytic Jacobian was called though the functor approximates it");
		if (!r.threw) check_irk_steps(o, c, r, pr, e.calls);
		if (p.f.empty() && !r.budget) {
			// the approximation is good: it must not cost the run its success
			Plan px = p; px.set("fd", 0.0);
			Problem exact = Problem::from(px);
			Env e2; e2.load(px);
			Result x = run_rk(c, &e2, exact, y);
			bool good = !x.threw && x.status == ST_SUCCESS && x.count["reject_newton"] == 0;
			if (good && (r.threw || r.status != ST_SUCCESS))
				o.fail("approximation-fails", fmt("with the analytic Jacobian the run succeeds, with its approximation it ends with %s, status %d", r.threw ? r.exc.c_str() : "a result", r.status));
			if (good && !r.threw && r.count["attempt"] > 2*x.count["attempt"] + 20)
				o.fail("approximation-slow", fmt("%lu attempts with the approximated Jacobian, %lu with the analytic one", r.count["attempt"], x.count["attempt"]));
			if (good) o.probe("compared-with-analytic");
		}
		o.probe(r.threw ? "threw" : r.status == ST_SUCCESS ? "success" : "reported-failure");
		return;
	}
	double t = p.num("t"), h = p.num("h");
	std::string how = p.str("how");
	Env e; e.load(p); e.record = true;
	FdResult r = run_fd(how, t, y, h, &e, pr);
	o.absorb(e); o.hash.u(r.threw); o.hash.s(r.exc); if (!r.threw) { o.hash.v(r.J); o.hash.v(r.f); o.hash.u(r.ret); }
	o.probe(mode);
	if (e.corrupt) o.fail("heap-overrun", "memory after an allocated block was overwritten");
	if (!r.inputs_ok) o.fail("inputs-changed", "the point of evaluation was changed");
	if (r.live_after > 0) { // once may be a table that stays
		Env e2; e2.load(p); r.live_after = run_fd(how, t, y, h, &e2, pr).live_after;
	}
	if (r.live_after > 0) o.fail("leak", fmt("%ld blocks are still allocated after the call", r.live_after));
	std::string want = expected_exc(p, e);
	bool alloc = e.fired.count("alloc:fail") > 0;
	if (!want.empty()) {
		if (!r.threw) o.fail("exception-swallowed", "the callback threw " + want + ", the call returned");
		else if (r.exc != want) o.fail("exception-changed", "the callback threw " + want + ", the caller got " + r.exc);
		o.nontrivial = true; o.probe("threw"); return;
	}
	if (r.threw) {
		if (!alloc) o.fail("odd-exception", "exception " + r.exc + " although nothing failed");
		else if (r.exc != "bad_alloc" && !is_report(r.exc)) o.fail("odd-exception", "an allocation failed, the caller got " + r.exc);
		o.nontrivial = true; o.probe("threw"); return;
	}
	for (auto &c : e.calls) if (!same_bits(c.t, t)) { o.fail("wrong-time", fmt("a callback was called at time %.17g, asked for was %.17g", c.t, t)); return; }
	if (mode == "verify") {
		dvec J0(n*n); pr.jac(t, y.data(), J0.data());
		double dev = 0;
		for (auto &f : p.f) if (f.act == "scale") dev = std::fabs(f.arg - 1)*max_abs(J0);
		o.nontrivial = true;
		if (pr.kind == "zero" && !r.ret) o.fail("verify-rejects", "an exactly right Jacobian is rejected");
		if (dev > 0.1 && r.ret) o.fail("verify-blind", fmt("verify_jacobi_matrix accepts a Jacobian that is off by up to %.3g", dev));
		return;
	}
	if (mode == "compute") {
		dvec f0(n), J0(n*n);
		pr.f(t, y.data(), f0.data()); pr.jac(t, y.data(), J0.data());
		bool faulty_f = false, faulty_j = false;
		for (auto &kv : e.fired) { if (kv.first.compare(0, 4, "fun:") == 0) faulty_f = true; if (kv.first.compare(0, 4, "jac:") == 0) faulty_j = true; }
		if (!faulty_f && !same_bits(r.f, f0)) o.fail("combined-value", "the combined evaluation returns another value than the function");
		if (faulty_f && finite_all(r.f)) o.fail("combined-value", "the function gave a non-finite value, the combined evaluation a finite one");
		if (how == "compute") { if (!faulty_j && !same_bits(r.J, J0)) o.fail("combined-jacobian", "the combined evaluation gives another Jacobian than the functor"); }
		else {
			if (e.n_jac) o.fail("combined-unasked", "the Jacobian was evaluated though not asked for");
			for (double v : r.J) if (v != 12345.75) { o.fail("combined-unasked", "the Jacobian was changed though not asked for"); break; }
		}
		if (e.n_fun != 1 || e.n_jac > 1) o.fail("combined-calls", fmt("%ld function and %ld Jacobian evaluations", e.n_fun, e.n_jac));
		for (auto &c : e.calls) if (!same_bits(c.y, y)) o.fail("combined-point", "a callback was called at another point");
		o.nontrivial = true;
		return;
	}
	// central differences
	if (long(e.calls.size()) > 2*n + 1) o.fail("too-many-calls", fmt("%zu evaluations for %d variables", e.calls.size(), n));
	if (e.n_jac) o.fail("jacobian-called", "the analytic Jacobian was called");
	std::vector<int> plus(n, 0), minus(n, 0), bad(n, 0); int badf0 = 0;
	for (auto &c : e.calls) {
		int at = -1;
		for (int k = 0; k < n; ++k) if (!same_bits(c.y[k], y[k])) { if (at >= 0) at = -2; else if (at == -1) at = k; }
		if (at == -2) { o.fail("wrong-point", "an evaluation moved more than one variable"); return; }
		if (at == -1) { if (c.faulted) ++badf0; continue; }
		double up = std::fabs(c.y[at] - (y[at] + h)), down = std::fabs(c.y[at] - (y[at] - h)), tol = 2*ulp(y[at]) + 2*ulp(h);
		if (std::min(up, down) > tol) { o.fail("wrong-point", fmt("variable %d was moved by %.17g, the width is %.17g", at, c.y[at] - y[at], h)); return; }
		if (up <= down) ++plus[at]; else ++minus[at];
		if (c.faulted) ++bad[at];
	}
	if (r.J.size() != std::size_t(n*n)) { o.fail("wrong-size", fmt("the Jacobian has %zu entries", r.J.size())); return; }
	double smallest = 1e300; for (int k = 0; k < n; ++k) if (y[k] != 0) smallest = std::min(smallest, std::fabs(y[k]));
	long exact = 0, spoiled = 0;
	for (int j = 0; j < n; ++j) {
		bool moved = y[j] + h != y[j] || y[j] - h != y[j];
		if (moved && (plus[j] != 1 || minus[j] != 1)) { o.fail("wrong-point", fmt("variable %d was moved up %d times and down %d times", j, plus[j], minus[j])); return; }
		if (bad[j]) { ++spoiled;
			bool any = false; for (int i = 0; i < n; ++i) if (!std::isfinite(r.J[i + j*n])) any = true;
			if (!any) o.fail("fault-hidden", fmt("an evaluation for column %d was not finite, the column is", j));
			continue; }
		++exact;
		dvec yp = y, ym = y, fp(n), fm(n); yp[j] += h; ym[j] -= h;
		pr.f(t, yp.data(), fp.data()); pr.f(t, ym.data(), fm.data());
		for (int i = 0; i < n; ++i) {
			double d = (fp[i] - fm[i])/(2*h), tol = 8*EPS*(std::fabs(fp[i]) + std::fabs(fm[i]))/h*(1e-3) + 16*EPS*std::fabs(d);
			if (!std::isfinite(d)) continue;
			// the points themselves may be rounded in another way
			tol += 8*EPS*(std::fabs(fp[i]) + std::fabs(fm[i]))/h;
			if (!(std::fabs(r.J[i + j*n] - d) <= tol)) { o.fail("wrong-derivative", fmt("entry %d, %d is %.17g, the central difference is %.17g (allowed difference %.3g)", i, j, r.J[i + j*n], d, tol)); return; }
		}
	}
	o.nontrivial = exact > 0; o.probe("clean-columns", exact); o.probe("spoiled-columns", spoiled); if (badf0) o.probe("centre-spoiled");
}
static Registrar rc25("C25", c25_gen, c25_exec);

// ------------------------------------------------------------------ C26
static void c26_gen(Rng &r, Plan &p)
{
	// the nonlinear solver of the implicit methods has a tolerance in units of the derivative
	std::string mode = r.chance(0.65) ? "value" : "time";
	GenOpt o; o.scale = true; o.max_fixed = 100; o.irk = mode == "value";
	gen_rk(r, p, "", o);
	p.set("mode", mode);
	p.set("k", r.chance(0.5) ? r.range(-12, 12) : r.range(-60, 60));
	p.set("fun_budget", 60000L);
	if (r.chance(0.2)) p.set("max_steps", r.range(0, 40));
	Dry d = dry_any(p, "");
	if (r.chance(0.5)) add_fun_faults(r, p, "", d.fun, 3, NONFINITE, 6);
	if (d.jac > 0 && r.chance(0.4)) add_jac_faults(r, p, "", d.jac, 2, { "scale", "noise", "stale", "zero", "bad", "nan" }, 6);
	if (r.chance(0.1)) p.fault("fun", pick_event(r, d.fun), "nan", -1, -1);
}
static void c26_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	double s = std::ldexp(1.0, int(p.integer("k")));
	bool val = p.str("mode") == "value";
	Plan pb = p;
	if (val) {
		pb.set("us", s);
		// what the configuration takes as granted without being told
		RkCfg c = RkCfg::from(p);
		pb.set("atol", c.atol*s); pb.set("ntol", c.ntol*s); pb.set("ndx", c.ndx*s);
		pb.set("rtol", c.rtol);
	} else {
		pb.set("ts", p.num("ts", 1)*s);
		const char *k[] = { "t0", "t1", "dt", "max_dt", "spike_t", "spike_w", "step_t" };
		for (int i = 0; i < 7; ++i) if (p.has(k[i])) pb.set(k[i], p.num(k[i])/s);
	}
	Env ea; ea.load(p); ea.record = true;
	AnyResult a = run_any(p, "", &ea, true);
	Env eb; eb.load(pb); eb.record = true;
	AnyResult b = run_any(pb, "", &eb, true);
	o.absorb(ea); o.absorb(eb); o.hash.u(a.hash); o.hash.u(b.hash);
	if (ea.corrupt || eb.corrupt) o.fail("heap-overrun", "memory after an allocated block was overwritten");
	const char *unit = val ? "the solution" : "time";
	// leave the range where scaling is exact?
	double vs = val ? s : 1, tsc = val ? 1 : 1/s;
	bool range = false;
	auto odd = [&](double x, double sc) { double m = std::fabs(x); if (m > 0 && std::isfinite(m)) { if (m < 1e-150 || m*sc < 1e-150 || m > 1e150 || m*sc > 1e150) range = true; } };
	for (auto &c : ea.calls) { for (double x : c.y) odd(x, vs); odd(c.t, tsc); }
	for (auto &v : a.rk.err_est) for (double x : v) odd(x, vs);
	if (range) { o.probe("out-of-exact-range"); return; }
	std::size_t n = std::min(ea.calls.size(), eb.calls.size()), i = 0;
	auto scaled = [](double x, double sc, double y) { return same_bits(x*sc, y) || (x == 0 && y == 0); };
	for (; i < n; ++i) {
		const CallRec &x = ea.calls[i], &y = eb.calls[i];
		bool same = x.kind == y.kind && scaled(x.t, tsc, y.t);
		for (std::size_t k = 0; k < x.y.size() && same; ++k) same = scaled(x.y[k], vs, y.y[k]);
		if (!same) break;
	}
	if (i < n || ea.calls.size() != eb.calls.size()) { o.fail("unit-dependent", fmt("with %s in another unit (factor 2^%ld) callback %zu of %zu differs", unit, p.integer("k"), i + 1, ea.calls.size())); return; }
	if (a.threw != b.threw || a.exc != b.exc || (!a.threw && a.status != b.status)) { o.fail("unit-dependent", fmt("with %s in another unit the outcome differs: %s%d, %s%d", unit, a.exc.c_str(), a.status, b.exc.c_str(), b.status)); return; }
	o.probe(a.threw ? "threw" : a.status == ST_SUCCESS ? "success" : "reported-failure");
	if (a.threw) return;
	const Result &u = a.rk, &v = b.rk;
	bool same = u.t.size() == v.t.size() && u.y.size() == v.y.size() && u.err.size() == v.err.size() && u.err_est.size() == v.err_est.size() && u.count == v.count && same_bits(u.accept_frac, v.accept_frac);
	if (!same) { o.fail("unit-dependent", fmt("with %s in another unit other records or counters come out", unit)); return; }
	for (std::size_t j = 0; j < u.t.size() && same; ++j) same = scaled(u.t[j], tsc, v.t[j]);
	for (std::size_t j = 0; j < u.y.size() && same; ++j) for (std::size_t k = 0; k < u.y[j].size(); ++k) same = same && scaled(u.y[j][k], vs, v.y[j][k]);
	bool adaptive = p.integer("adaptive") && has_embedded(p.str("family"), int(p.integer("method")));
	if (adaptive) for (std::size_t j = 0; j < u.err.size() && same; ++j) same = scaled(u.err[j], 1, v.err[j]);
	if (adaptive) for (std::size_t j = 0; j < u.err_est.size() && same; ++j) for (std::size_t k = 0; k < u.err_est[j].size(); ++k) same = same && scaled(u.err_est[j][k], vs, v.err_est[j][k]);
	if (!same) o.fail("unit-dependent", fmt("with %s in another unit (factor 2^%ld) other values are recorded", unit, p.integer("k")));
	o.nontrivial = u.t.size() > 2; o.probe(val ? "value-unit" : "time-unit");
}
static Registrar rc26("C26", c26_gen, c26_exec);

} // namespace sim
