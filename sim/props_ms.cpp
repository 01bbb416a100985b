// C15 and C16 multistep methods, C17 root solvers.
#include "props.hpp"

namespace sim {

static const std::vector<std::string> NONFINITE = { "nan", "inf", "ninf" };

// Published coefficients.
static const double AB[5][5] = {
	{ 1, 0, 0, 0, 0 }, { 3/2., -1/2., 0, 0, 0 }, { 23/12., -4/3., 5/12., 0, 0 },
	{ 55/24., -59/24., 37/24., -3/8., 0 }, { 1901/720., -1387/360., 109/30., -637/360., 251/720. } };
// sum over j of a[j] y_{n+1-j} = b dt f(t_{n+1}, y_{n+1}), a[0] = 1
static const double BA[6][7] = {
	{ 1, -1, 0, 0, 0, 0, 0 }, { 1, -4/3., 1/3., 0, 0, 0, 0 }, { 1, -18/11., 9/11., -2/11., 0, 0, 0 },
	{ 1, -48/25., 36/25., -16/25., 3/25., 0, 0 }, { 1, -300/137., 300/137., -200/137., 75/137., -12/137., 0 },
	{ 1, -360/147., 450/147., -400/147., 225/147., -72/147., 10/147. } };
static const double BB[6] = { 1, 2/3., 6/11., 12/25., 60/137., 60/147. };

struct MsCfg { std::string family; int order; double t0, t1, dt; };
static MsCfg ms_cfg(const Plan &p, const std::string &q = "")
{
	MsCfg c; c.family = p.str(q + "family", "ab"); c.order = int(p.integer(q + "order", 2));
	c.t0 = p.num(q + "t0"); c.t1 = p.num(q + "t1"); c.dt = p.num(q + "dt");
	return c;
}

// The values recorded so far: their grid, the bootstrap and the formula.
static void check_ms(Outcome &o, const MsCfg &c, const Problem &pr, const dvec &y0, const Result &r, bool complete, double soft)
{
	std::size_t n = r.t.size();
	if (r.y.size() != n) { o.fail("ragged-records", fmt("%zu times, %zu solutions", n, r.y.size())); return; }
	if (n == 0) { if (complete) o.fail("no-initial-point", "success without a single recorded point"); return; }
	double dt = c.t0 + c.dt > c.t1 ? c.t1 - c.t0 : c.dt;
	double ts = 1e-12*(std::fabs(c.t0) + std::fabs(c.t1) + 1);
	if (std::fabs(r.t[0] - c.t0) > 0 || r.y[0] != y0) { o.fail("wrong-start", fmt("first record is at %.17g, the start is %.17g", r.t[0], c.t0)); return; }
	for (std::size_t i = 0; i < n; ++i) {
		if (!(std::fabs(r.t[i] - (c.t0 + double(i)*dt)) <= ts)) { o.fail("grid", fmt("time %zu is %.17g, the uniform grid has %.17g", i, r.t[i], c.t0 + double(i)*dt)); return; }
		if (!finite_all(r.y[i]) || r.y[i].size() != y0.size()) { o.fail("non-finite-record", fmt("record %zu at %.17g is not finite or has a wrong size", i, r.t[i])); return; }
	}
	if (complete && r.t[n-1] < c.t1 - ts) { o.fail("short-of-end", fmt("success, last time %.17g, the end is %.17g", r.t[n-1], c.t1)); return; }
	if (n > 1 && r.t[n-2] > c.t1 - 1e-15*(std::fabs(c.t1) + 1) + ts) { o.fail("past-end", fmt("a point follows %.17g, the end is %.17g", r.t[n-2], c.t1)); return; }
	std::size_t boot = std::size_t(c.family == "ab" ? c.order : c.order + 1);
	std::size_t d = y0.size();
	long nb = 0, ns = 0;
	for (std::size_t i = 0; i + 1 < n; ++i) {
		const dvec &y1 = r.y[i+1];
		if (i + 1 < boot) {
			dvec a = ref_solve(pr, r.t[i], r.t[i+1], r.y[i], 200), b = ref_solve(pr, r.t[i], r.t[i+1], r.y[i], 400);
			for (std::size_t k = 0; k < d; ++k) {
				double sc = 1 + max_abs(b) + max_abs(r.y[i]), ref = std::fabs(a[k] - b[k]);
				if (!(ref < 1e-11*sc)) continue;
				++nb;
				if (!(std::fabs(y1[k] - b[k]) <= 2e-8*sc)) { o.fail("bootstrap", fmt("%s order %d: start value %zu component %zu is %.17g, accurate is %.17g", c.family.c_str(), c.order, i + 1, k, y1[k], b[k])); return; }
			}
			continue;
		}
		if (c.family == "ab") {
			dvec w = r.y[i], sc(d, 0.0);
			for (std::size_t k = 0; k < d; ++k) sc[k] = std::fabs(w[k]);
			for (int j = 0; j < c.order; ++j) {
				dvec f = pr.f(r.t[i-j], r.y[i-j]), f2 = pr.f(r.t[i-j] + ts, r.y[i-j]);
				double fm = max_abs(f);
				for (std::size_t k = 0; k < d; ++k) { w[k] += dt*AB[c.order-1][j]*f[k]; sc[k] += dt*std::fabs(AB[c.order-1][j])*(fm + std::fabs(f2[k] - f[k])*1e12); }
			}
			for (std::size_t k = 0; k < d; ++k) {
				++ns;
				if (!(std::fabs(y1[k] - w[k]) <= 2e-11*sc[k] + 1e-300)) { o.fail("formula", fmt("Adams-Bashforth order %d: value %zu component %zu is %.17g, the formula gives %.17g", c.order, i + 1, k, y1[k], w[k])); return; }
			}
		} else {
			dvec f = pr.f(r.t[i+1], y1); double b = BB[c.order-1], fm = max_abs(f);
			// with Jacobians far off the values explode and a singular system makes the solver stop early
			if (soft > 1 && max_abs(y1) > 1e6*(1 + max_abs(y0))) continue;
			std::vector<double> J(d*d); pr.jac(r.t[i+1], y1.data(), J.data());
			double jn = 0; for (double x : J) jn = std::max(jn, std::fabs(x));
			for (std::size_t k = 0; k < d; ++k) {
				double s = -b*dt*f[k], sc = 1 + dt*fm;
				for (int j = 0; j <= c.order; ++j) { s += BA[c.order-1][j]*r.y[i+1-j][k]; sc += std::fabs(BA[c.order-1][j]*r.y[i+1-j][k]); }
				++ns;
				double tol = soft*(1e-10*(1 + dt*jn*double(d))*20 + 1e-11*sc);
				if (soft == 1) {
					// With right Jacobians the last move, below 1e-10, leaves only what its damping and the curvature leave.
					double rp = 1e-10*(1 + dt*jn*double(d));
					tol = std::min(tol, rp*std::min(1.0, 1e-3 + rp*rp) + 1e-13*sc + 2e-14*dt*jn*double(d)*(max_abs(y1) + fm*0));
				}
				if (!(std::fabs(s) <= tol)) { o.fail("formula", fmt("BDF order %d: value %zu component %zu leaves a residual of %.3g", c.order, i + 1, k, s)); return; }
			}
		}
	}
	o.probe("bootstrap-values", nb); o.probe("formula-values", ns);
}

// A run in which no callback failed may report a failure only if its values blew up or the step no longer advances time.
static void check_cause(Outcome &o, const MsCfg &c, const Problem &pr, const Result &r)
{
	if (r.t.empty()) { o.fail("spurious-failure", fmt("status %d without a single record and without any fault", int(r.status))); return; }
	std::size_t n = r.t.size();
	double dt = std::min(c.dt, c.t1 - c.t0), t = r.t[n-1];
	if (t + dt == t) return;
	dvec w = r.y[n-1]; double big = max_abs(w);
	if (!(big < 1e6)) { o.probe("failed-after-blow-up"); return; }
	if (c.family == "ab" && n >= std::size_t(c.order)) {
		for (int j = 0; j < c.order; ++j) { dvec f = pr.f(r.t[n-1-j], r.y[n-1-j]); for (std::size_t k = 0; k < w.size(); ++k) w[k] += dt*AB[c.order-1][j]*f[k]; }
		if (!(max_abs(w) < 1e250)) return;
	}
	o.fail("spurious-failure", fmt("%s order %d reports failure %d after time %.17g although no callback failed", c.family.c_str(), c.order, int(r.status), t));
}

// ------------------------------------------------------------------ C15
static void c15_gen(Rng &r, Plan &p)
{
	gen_ms(r, p, "");
	if (r.chance(0.5)) {
		Dry d = dry_any(p, "");
		if (r.chance(0.5)) add_fun_faults(r, p, "", r.chance(0.7) ? std::min(d.fun, 400L) : d.fun, 2, NONFINITE, 3);
		if (d.jac > 0 && r.chance(0.6)) add_jac_faults(r, p, "", d.jac, 2, { "scale", "noise", "stale" }, 4);
	}
	int k = int(r.range(0, 2));
	p.set("before", k);
	for (int i = 0; i < k; ++i) {
		std::string q = fmt("x%d.", i);
		gen_ms(r, p, q); p.set(q + "fun_budget", 20000L);
		if (r.chance(0.6)) p.set(q + "family", p.str("family"));
		if (r.chance(0.3)) p.set(q + "order", std::min(p.integer("order"), p.str(q + "family") == "ab" ? 5L : 6L));
		else if (p.str(q + "family") == "ab" && p.integer(q + "order") > 5) p.set(q + "order", 5L);
		if (r.chance(0.4)) p.fault(q + "fun", r.below(2000), r.chance(0.5) ? "nan" : "throw_std", -1, r.range(1, 3));
	}
}
static void c15_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	MsCfg c = ms_cfg(p);
	Problem pr = Problem::from(p); dvec y0 = pr.y0(p);
	u64 want = 0;
	int k = int(p.integer("before"));
	if (k > 0) {
		want = in_fresh_process([&]() -> u64 { Quiet q2; Env e; e.load(p); AnyResult a = run_any(p, "", &e); Hash h; h.u(a.hash); h.u(e.hist.h); return h.h | 16; });
		for (int i = 0; i < k; ++i) { Env e; e.load(p, fmt("x%d.", i)); run_any(p, fmt("x%d.", i), &e); }
	}
	Env e; e.load(p);
	AnyResult a = run_any(p, "", &e);
	const Result &r = a.rk;
	check_sane(o, r, e, "run");
	if (k > 0) { Hash h; h.u(a.hash); h.u(e.hist.h); if ((h.h | 16) != want) o.fail("depends-on-history", fmt("after %d other integrations the result differs from the one in a fresh process", k)); o.probe("compared-with-fresh-process"); }
	o.absorb(e); o.hash.u(a.hash);
	if (r.threw) { o.probe("threw"); if (p.f.empty() && !r.budget) o.fail("exception", "the run threw " + r.exc + " without any fault"); return; }
	if (r.functor_calls != e.n_fun + e.n_jac) o.fail("functor-copied", fmt("the caller's functor saw %ld calls, %ld were made", r.functor_calls, e.n_fun + e.n_jac));
	bool jf = false; for (auto &f : e.fired) if (f.first.compare(0, 4, "jac:") == 0) jf = true;
	check_ms(o, c, pr, y0, r, r.status == ST_SUCCESS, jf ? 1e3 : 1);
	o.nontrivial = r.t.size() > 2;
	if (r.status != ST_SUCCESS && p.f.empty()) check_cause(o, c, pr, r);
	o.probe(r.status == ST_SUCCESS ? "success" : "reported-failure");
	o.probe(c.family + fmt("-%d", c.order));
}
static Registrar rc15("C15", c15_gen, c15_exec);

// ------------------------------------------------------------------ C16
static void c16_gen(Rng &r, Plan &p)
{
	gen_ms(r, p, "");
	double u = r.uni();
	p.set("fun_budget", 8000000L);
	if (u < 0.1) {
		p.set("mode", std::string("order")); p.set("family", std::string("bdf"));
		long bad[] = { 0, -1, 7, 8, -3, 100 };
		p.set("order", bad[r.below(6)]);
		return;
	}
	if (u < 0.28) {
		p.set("mode", std::string("stall"));
		double base = std::ldexp(1.0, int(r.range(-3, 12)));
		double eps = std::ldexp(base, -53);                   // half an ulp above base, one below
		if (r.chance(0.3)) eps *= r.uni(0.01, 0.99);
		long k = r.chance(0.3) ? 0 : r.range(1, 40);
		bool neg = r.chance(0.2);
		double t0 = base - double(k)*std::ldexp(base, -53);
		if (neg) { t0 = -base - double(1 + k)*std::ldexp(base, -52); eps = std::ldexp(base, -53)*r.uni(0.01, 0.9); }
		p.set("t0", t0); p.set("t1", t0 + base*r.uni(0.5, 2)); p.set("dt", eps);
		p.set("order", r.chance(0.5) ? 1L : p.integer("order"));
		return;
	}
	p.set("mode", std::string("fault"));
	if (r.chance(0.12)) {
		const char *k[] = { "sqrt", "log", "blowup" };
		p.set("kind", std::string(k[r.below(3)])); p.set("n", r.range(1, 3)); p.set("a", r.uni(0.5, 3)); p.set("t1", p.num("t0") + r.uni(1, 4));
		// the singularity lies past the bootstrap, which approaches one in millions of tiny steps
		p.set("dt", r.uni(0.002, 0.012));
		p.set("domain", 1);
		if (r.chance(0.6)) return;
	}
	Dry d = dry_any(p, "");
	double v = r.uni();
	// most faults past the bootstrap, whose nonlinear solver is very patient
	long boot = d.fun, boot_j = d.jac;
	{
		Plan b = p; b.f.clear();
		double end = p.num("t0") + p.num("dt")*double(p.integer("order") + 1);
		if (end < p.num("t1")) { b.set("t1", end); Dry db = dry_any(b, ""); boot = std::min(db.fun, d.fun - 1); if (boot < 0) boot = 0; boot_j = std::min(db.jac, d.jac - 1); if (boot_j < 0) boot_j = 0; }
	}
	auto place = [&](long n, long from) { return from < n - 1 && r.chance(0.85) ? from + pick_event(r, n - from) : pick_event(r, n); };
	if (v < 0.4) {
		long at = place(d.fun, boot);
		p.fault("fun", at, NONFINITE[r.below(3)], r.chance(0.6) ? -1.0 : double(r.below(4)), r.chance(0.6) ? 1 : r.range(2, 12));
		if (r.chance(0.3)) p.fault("fun", place(d.fun, boot), NONFINITE[r.below(3)], -1, 1);
	} else if (v < 0.7) {
		// within the bootstrap it takes millions of evaluations to give up, so that
		// there outages are long but rarely endless
		bool boot_only = d.full || boot >= d.fun, in_boot = boot_only || r.chance(0.06);
		long at = in_boot ? pick_event(r, std::max(1L, std::min(boot, d.fun))) : boot + pick_event(r, d.fun - boot), count = -1;
		if (in_boot) {
			count = long(r.logu(500, 1.5e5));
			if (r.chance(0.02) && p.integer("n") <= 2) { count = -1; p.set("fun_budget", 60000000L); }
		}
		p.fault("fun", at, NONFINITE[r.below(3)], r.chance(0.7) ? -1.0 : double(r.below(4)), count);
	} else if (d.jac > 0) {
		const char *a[] = { "bad", "zero", "scale", "stale", "nan", "inf", "noise" };
		std::string act = a[r.below(7)];
		double arg = act == "bad" ? r.logu(50, 1e6)*(r.chance(0.5) ? 1 : -1) : act == "scale" ? r.uni(-3, 3) : act == "noise" ? r.logu(0.01, 3) : double(r.below(9));
		long at = place(d.jac, boot_j);
		p.fault("jac", at, act, arg, at >= boot_j && boot_j > 0 && p.str("family") == "bdf" && r.chance(0.4) ? -1 : r.range(1, 600));
	} else p.fault("fun", place(d.fun, boot), "nan", -1, 1);
}
static void c16_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	MsCfg c = ms_cfg(p);
	Problem pr = Problem::from(p); dvec y0 = pr.y0(p);
	Env e; e.load(p);
	AnyResult a = run_any(p, "", &e);
	const Result &r = a.rk;
	check_sane(o, r, e, "run");
	o.absorb(e); o.hash.u(a.hash);
	std::string mode = p.str("mode");
	if (r.budget) { o.fail("no-termination", fmt("still running after %ld derivative and %ld Jacobian evaluations", e.n_fun, e.n_jac)); return; }
	if (r.threw) {
		if (!is_report(r.exc)) o.fail("odd-exception", "exception " + r.exc + " although no callback threw");
		o.probe("threw"); o.nontrivial = true; return;
	}
	if (mode == "order") {
		if (r.status == ST_SUCCESS) o.fail("failure-hidden", fmt("success reported for BDF of order %d", c.order));
		else if (r.status != ST_ERROR) o.fail("wrong-status", fmt("BDF of order %d is answered with status %d", c.order, r.status));
		o.nontrivial = true; o.probe("impossible-order");
		return;
	}
	bool jf = false; long fired = 0;
	for (auto &f : e.fired) { fired += f.second; if (f.first.compare(0, 4, "jac:") == 0) jf = true; }
	double soft = 1;
	if (jf) for (auto &f : p.f) if (f.seam == "jac") soft = std::max(soft, f.act == "bad" ? 100*std::fabs(f.arg)*(1 + c.dt*100) : 1e3);
	if (mode == "stall") {
		if (r.status == ST_SUCCESS) o.fail("failure-hidden", fmt("success reported although a step of %.3g cannot advance from %.17g to %.17g", c.dt, c.t0, c.t1));
		for (std::size_t i = 0; i + 1 < r.t.size(); ++i)
			if (!(r.t[i+1] > r.t[i])) { o.fail("not-increasing", fmt("time %.17g follows %.17g", r.t[i+1], r.t[i])); break; }
		for (auto &y : r.y) if (!finite_all(y)) { o.fail("non-finite-record", "a recorded value is not finite"); break; }
		o.nontrivial = true; o.probe("no-advance"); o.probe("points-before-no-advance", long(r.t.size()));
		return;
	}
	bool ok = r.status == ST_SUCCESS;
	check_ms(o, c, pr, y0, r, ok, soft);
	if (ok) for (auto &f : p.f)
		if (f.seam == "fun" && f.count < 0 && f.arg < 0 && e.n_fun - f.at > 60)
			o.fail("failure-hidden", fmt("success reported although the last %ld evaluations were all %s", e.n_fun - f.at, f.act.c_str()));
	if (r.status != ST_SUCCESS && r.status != ST_ERROR && r.status != ST_SOLVE) o.probe("other-status");
	o.nontrivial = fired > 0 || p.integer("domain");
	o.probe(ok ? "success" : r.status == ST_SOLVE ? "reported-solve-failure" : "reported-general-error");
	if (!ok && r.t.size() > 1) o.probe("partial-records-checked", long(r.t.size()));
}
static Registrar rc16("C16", c16_gen, c16_exec);

// ------------------------------------------------------------------ C17
static void c17_gen(Rng &r, Plan &p)
{
	gen_root(r, p, "");
	if (r.chance(0.05)) p.set("maxit", 0L);
	if (r.chance(0.03)) p.set("y0bad", r.range(0, 2)*100 + r.below(20));
	if (r.chance(0.55)) {
		Dry d = dry_any(p, "");
		std::vector<std::string> fa = { "nan", "inf", "ninf", "huge", "max" };
		if (r.chance(0.6)) add_fun_faults(r, p, "", d.fun, 3, fa, 5);
		if (d.jac > 0 && r.chance(0.6)) add_jac_faults(r, p, "", d.jac, 3, { "zero", "nan", "inf", "bad", "scale", "noise", "stale" }, 8);
		if (r.chance(0.1)) p.fault("fun", pick_event(r, d.fun), "nan", -1, -1);
		if (d.jac > 0 && r.chance(0.1)) p.fault("jac", pick_event(r, d.jac), r.chance(0.5) ? "zero" : "nan", 0, -1);
	}
	p.set("fun_budget", 3*(p.integer("maxit") + 2) + 2);
}
static double dist2(const dvec &a, const dvec &b) { double s = 0; for (std::size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i])*(a[i] - b[i]); return std::sqrt(s); }
static double distinf(const dvec &a, const dvec &b) { double s = 0; for (std::size_t i = 0; i < a.size(); ++i) s = std::max(s, std::fabs(a[i] - b[i])); return s; }
// smallest over largest pivot of the Jacobian, eliminated with complete row exchange
static double pivot_ratio(const Problem &pr, double t, const dvec &y)
{
	int n = pr.n; dvec J(std::size_t(n*n)); pr.jac(t, y.data(), J.data());
	double lo = 1e300, hi = 0;
	for (double v : J) if (!std::isfinite(v)) return 0;
	for (int c = 0; c < n; ++c) {
		int b = c; for (int i = c; i < n; ++i) if (std::fabs(J[std::size_t(c*n + i)]) > std::fabs(J[std::size_t(c*n + b)])) b = i;
		if (b != c) for (int j = 0; j < n; ++j) std::swap(J[std::size_t(j*n + b)], J[std::size_t(j*n + c)]);
		double d = J[std::size_t(c*n + c)]; lo = std::min(lo, std::fabs(d)); hi = std::max(hi, std::fabs(d));
		if (d == 0) return 0;
		for (int i = c + 1; i < n; ++i) { double f = J[std::size_t(c*n + i)]/d; for (int j = c; j < n; ++j) J[std::size_t(j*n + i)] -= f*J[std::size_t(j*n + c)]; }
	}
	return hi > 0 ? lo/hi : 0;
}
static void c17_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	Problem pr = Problem::from(p); dvec x0 = pr.y0(p);
	Env e; e.load(p); e.record = true;
	AnyResult a = run_any(p, "", &e);
	const RootResult &r = a.root;
	std::string which = p.str("which", "newton");
	long maxit = p.integer("maxit", 50);
	double tol = p.num("tol", 1e-9), dx = p.num("dx", 1e-9), ms = p.num("max_step", -1), tfix = p.num("tfix", 0);
	if (e.corrupt) o.fail("heap-overrun", "memory after an allocated block was overwritten");
	if (!r.inputs_ok) o.fail("inputs-changed", "an argument of the call was changed");
	o.absorb(e); o.hash.u(a.hash);
	if (r.budget) { o.fail("iteration-limit", fmt("%ld function and %ld Jacobian evaluations with a limit of %ld iterations", e.n_fun, e.n_jac, maxit)); return; }
	if (r.threw) { o.fail(is_report(r.exc) ? "exception-escaped" : "odd-exception", which + " threw " + r.exc); return; }
	if (r.iters > std::max(maxit, 1L) || r.iters < 0) o.fail("iteration-limit", fmt("%d iterations reported, the limit is %ld", r.iters, maxit));
	if (r.status < 0 || r.status > 4) o.fail("status", fmt("status %d is none of the published ones", r.status));
	std::vector<const CallRec *> fc; for (auto &c : e.calls) if (c.kind == 'f') fc.push_back(&c);
	double sc = 0;
	if (ms > 0) for (std::size_t j = 1; j < fc.size(); ++j) {
		const dvec &y = fc[j]->y;
		if (!finite_all(y)) break;
		double best = 1e300;
		for (std::size_t i = 0; i < j; ++i) best = std::min(best, dist2(y, fc[i]->y));
		sc = std::max(max_abs(y), max_abs(x0));
		if (best > ms*(1 + 1e-9) + 1e-14*sc) { o.fail("step-too-long", fmt("%s: evaluation %zu is %.9g away from every earlier one, the longest step allowed is %.9g", which.c_str(), j, best, ms)); break; }
	}
	if (r.status == ST_SUCCESS) {
		if (r.x.size() != x0.size() || !finite_all(r.x) || !std::isfinite(r.res)) { o.fail("non-finite-success", fmt("%s reports success with a point or residual (%g) that is not finite", which.c_str(), r.res)); return; }
		const CallRec *at = 0; std::size_t ja = 0; bool moved = false;
		for (std::size_t j = 0; j < fc.size(); ++j) if (fc[j]->y == r.x) { if (!at || fc[j]->faulted) { at = fc[j]; ja = j; } }
		if (!at) { o.fail("not-evaluated", which + " reports success for a point at which the function was never evaluated"); return; }
		if (!at->faulted) {
			dvec f = pr.f(tfix, r.x); double s = 0; for (double v : f) s += v*v; s = std::sqrt(s);
			if (max_abs(f) < 1e140 && max_abs(f) > 1e-140 && !(std::fabs(s - r.res) <= 1e-11*s + 1e-300)) o.fail("residual", fmt("%s reports a residual of %.17g, at the returned point it is %.17g", which.c_str(), r.res, s));
		}
		for (std::size_t j = 0; j < fc.size() && !moved; ++j) if (j != ja && finite_all(fc[j]->y) && distinf(fc[j]->y, r.x) <= dx*(1 + 1e-9) + 4e-16*max_abs(r.x)) moved = true;
		if (!(r.res <= tol*(1 + 1e-9)) && !moved)
			o.fail("not-converged", fmt("%s reports success, the residual is %.3g (tolerance %.3g) and no move below %.3g led to the returned point", which.c_str(), r.res, tol, dx));
		o.probe(which + "-success");
		o.probe(r.res <= tol ? "small-residual" : "small-move");
	} else {
		if (which == "newton") {
			bool same = r.x.size() == x0.size();
			for (std::size_t i = 0; same && i < x0.size(); ++i) same = r.x[i] == x0[i] || (r.x[i] != r.x[i] && x0[i] != x0[i]);
			if (!same) o.fail("guess-not-returned", fmt("newton reports status %d but does not return the initial guess", r.status)); }
		o.probe(which + fmt("-status-%d", r.status));
		// a failure needs a reason: too many iterations, a value that is not finite, or a singular system
		if (p.f.empty() && r.iters < maxit && !fc.empty() && r.iters > 0) {
			bool fine = true;
			for (auto *x : fc) { dvec f = pr.f(tfix, x->y); fine = fine && finite_all(x->y) && max_abs(x->y) < 1e100 && finite_all(f) && max_abs(f) < 1e100; }
			if (which == "newton") for (auto &x : e.calls) fine = fine && pivot_ratio(pr, tfix, x.y) > 1e-8;
			if (fine) o.fail("failure-without-reason", fmt("%s ends with status %d after %d of %ld iterations, although every value was finite and every system regular", which.c_str(), r.status, r.iters, maxit));
			else o.probe("failure-explained");
		}
		// what has to converge once faults have stopped
		std::string kind = p.str("kind"); bool soft = true; long last = 0;
		for (auto &f : p.f) { soft = soft && f.seam == "jac" && (f.act == "scale" || f.act == "noise" || f.act == "stale") && f.count > 0 && p.integer("refresh", 1) > 0; last = std::max(last, f.at + f.count); }
		if (which == "newton" && soft && !p.has("y0bad") && (kind == "decay" || kind == "forced") && !p.integer("limit") && ms <= 0 && dx > 1e-11 && p.num("yscale", 1) < 100 && maxit > last + 8 && last < 8) {
			o.fail("no-convergence", fmt("newton gives up on a regular linear system after %d iterations (status %d)", r.iters, r.status));
		}
	}
	// talking about it and timing it changes nothing
	Plan p2 = p; p2.set("quiet", p.integer("quiet", 1) ? 0L : 1L); p2.set("timings", p.integer("timings", 0) ? 0L : 1L);
	Env e2; e2.load(p2);
	AnyResult a2 = run_any(p2, "", &e2);
	if (a2.hash != a.hash) o.fail("verbosity", which + " gives another result when it prints its progress or timings");
	o.nontrivial = fc.size() > 1;
}
static Registrar rc17("C17", c17_gen, c17_exec);

} // namespace sim
