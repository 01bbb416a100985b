// C02 explicit steps, C03 error control, C12 implicit steps.
#include "props.hpp"

namespace sim {

static const std::vector<std::string> NONFINITE = { "nan", "inf", "ninf" };

static double t_sens(const Problem &pr, double t, double dt)
{
	double s = 1 + std::fabs(t)/dt;
	if (pr.spike_amp != 0) s += 20*std::fabs(t)/pr.spike_w + 20*dt/pr.spike_w;
	return s;
}

static bool near_jump(const RefTab &m, const Problem &pr, double t, double dt)
{
	if (pr.step_amp == 0) return false;
	double tol = 1e-9*dt + 16*ulp(t) + 16*ulp(t + dt);
	for (double c : m.c) if (std::fabs(t + c*dt - pr.step_t) <= tol) return true;
	return std::fabs(t - pr.step_t) <= tol || std::fabs(t + dt - pr.step_t) <= tol;
}

struct ErkStep { dvec y1, est, tol, tol_est; std::vector<dvec> K; dvec tolK; bool ok; };

static void stages_of(const RefTab &m, const Problem &pr, double t, double dt, const dvec &y, std::vector<dvec> &K)
{
	int n = pr.n;
	K.assign(m.s, dvec(n));
	for (int i = 0; i < m.s; ++i) {
		dvec x = y;
		for (int j = 0; j < i; ++j) for (int k = 0; k < n; ++k) x[k] += dt*m.A[i][j]*K[j][k];
		pr.f(t + m.c[i]*dt, x.data(), K[i].data());
	}
}

// One step of the published method, and how far rounding may move it.
static ErkStep step_with_tol(const RefTab &m, const Problem &pr, double t, double dt, const dvec &y)
{
	const double eps = 2.3e-16;
	ErkStep s; double sc, sce;
	ref_erk_step(m, pr, t, dt, y, s.y1, s.est, sc, sce);
	stages_of(m, pr, t, dt, y, s.K);
	s.ok = finite_all(s.y1) && finite_all(s.est) && std::isfinite(sc) && sc < 1e200;
	int n = pr.n;
	double base = 200*eps*sc*t_sens(pr, t, dt), base_e = 200*eps*sce*t_sens(pr, t, dt) + 20*eps*sc;
	double kmax = 0; for (auto &k : s.K) kmax = std::max(kmax, max_abs(k));
	s.tol.assign(n, base); s.tol_est.assign(n, base_e); s.tolK.assign(n, 200*eps*kmax*t_sens(pr, t, dt) + 200*eps*sc/dt*1e-3);
	if (!s.ok) return s;
	double ymag = max_abs(y);
	for (int v = 0; v < 6; ++v) {
		double t2 = t, dt2 = dt; dvec y2 = y;
		if (v == 0) t2 = t + 2*ulp(t);
		if (v == 1) dt2 = dt + 2*ulp(t) + 2*ulp(t + dt);
		if (v == 2) dt2 = dt - 2*ulp(t) - 2*ulp(t + dt);
		if (v >= 3) for (int k = 0; k < n; ++k) y2[k] += (v == 3 || (v == 4) == (k % 2 == 0) ? 1 : -1)*8*eps*std::max(ymag, sc);
		dvec y1, e; double a, b;
		std::vector<dvec> K;
		ref_erk_step(m, pr, t2, dt2, y2, y1, e, a, b);
		stages_of(m, pr, t2, dt2, y2, K);
		for (int k = 0; k < n; ++k) {
			s.tol[k] += 20*std::fabs(y1[k] - s.y1[k]);
			s.tol_est[k] += 20*std::fabs(e[k] - s.est[k]);
			for (int i = 0; i < m.s; ++i) s.tolK[k] += 20*std::fabs(K[i][k] - s.K[i][k]);
		}
	}
	if (!finite_all(s.tol) || !finite_all(s.tol_est)) s.ok = false;
	return s;
}

// ------------------------------------------------------------------ C02
static void c02_gen(Rng &r, Plan &p)
{
	GenOpt o; o.scale = true; o.irk = false; o.short_form = true;
	gen_rk(r, p, "", o);
	if (r.chance(p.has("rtol") ? 0.65 : 0.05)) {
		Dry d = dry_rk(p, "");
		add_fun_faults(r, p, "", d.fun, 4, NONFINITE, 6);
	}
}

static void check_erk_steps(Outcome &o, const RkCfg &c, const Result &r, const Problem &pr)
{
	const RefTab *m = ref_tab("erk", c.method);
	if (!m) { o.fail("no-reference", "method has no reference tableau"); return; }
	bool emb = c.adaptive && !m->b2.empty();
	long checked = 0, skipped = 0;
	for (std::size_t i = 0; i + 1 < r.t.size(); ++i) {
		double t = r.t[i], dt = r.t[i+1] - r.t[i];
		if (!(dt > 0) || near_jump(*m, pr, t, dt)) { ++skipped; continue; }
		ErkStep s = step_with_tol(*m, pr, t, dt, r.y[i]);
		if (!s.ok) { ++skipped; continue; }
		++checked;
		for (int k = 0; k < pr.n; ++k) {
			double d = std::fabs(r.y[i+1][k] - s.y1[k]);
			if (!(d <= s.tol[k])) {
				o.fail("wrong-step", fmt("step %zu, t = %.17g to %.17g, component %d: recorded %.17g, the method gives %.17g (difference %.3g, allowed %.3g)",
				                         i + 1, t, r.t[i+1], k, r.y[i+1][k], s.y1[k], d, s.tol[k]));
				return;
			}
			if (emb && i + 1 < r.err_est.size()) {
				double e = std::fabs(r.err_est[i+1][k] - s.est[k]), e2 = std::fabs(r.err_est[i+1][k] + s.est[k]);
				if (!(std::min(e, e2) <= s.tol_est[k])) {
					o.fail("wrong-estimate", fmt("step %zu, t = %.17g to %.17g, component %d: recorded error estimate %.17g, the method gives %.17g (allowed difference %.3g)",
					                             i + 1, t, r.t[i+1], k, r.err_est[i+1][k], s.est[k], s.tol_est[k]));
					return;
				}
			}
		}
		if (i + 1 < r.stages.size() && r.stages[i+1].size() == std::size_t(m->s*pr.n)) {
			for (int q = 0; q < m->s; ++q) for (int k = 0; k < pr.n; ++k) {
				double d = std::fabs(r.stages[i+1][q*pr.n + k] - s.K[q][k]);
				if (!(d <= s.tolK[k])) {
					o.fail("wrong-stage", fmt("step %zu, t = %.17g: stage %d component %d recorded %.17g, the method gives %.17g (allowed difference %.3g)",
					                          i + 1, t, q, k, r.stages[i+1][q*pr.n + k], s.K[q][k], s.tolK[k]));
					return;
				}
			}
		} else if (i + 1 < r.stages.size()) { o.fail("wrong-stage", fmt("stage record of step %zu has %zu entries", i + 1, r.stages[i+1].size())); return; }
	}
	o.probe("steps-checked", checked); o.probe("steps-skipped", skipped);
	if (checked > 0) o.nontrivial = true;
}

static void c02_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	Problem pr = Problem::from(p); dvec y0 = pr.y0(p);
	RkCfg c = RkCfg::from(p);
	Env e; e.load(p);
	Result r = run_rk(c, &e, pr, y0);
	check_sane(o, r, e, "run");
	o.absorb(e); o.hash.u(r.numeric_hash(true));
	if (r.threw) { o.probe("threw"); return; }
	check_erk_steps(o, c, r, pr);
	if (r.count["reject_err"]) o.probe("rejected-attempts", long(r.count["reject_err"]));
	if (c.method == 131 || c.method == 120) o.probe("last-stage-reused");
}
static Registrar rc02("C02", c02_gen, c02_exec);

// ------------------------------------------------------------------ implicit steps
struct IrkCheck { bool conclusive, ok; double diff, tol; dvec want; dvec Y; double scale; };

static double sum_abs_d(const RefTab &m)
{
	int s = m.s;
	std::vector<double> At(s*s);
	for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) At[j*s+i] = m.A[i][j];
	dvec d; double r = 0;
	lin_solve(At, m.b, d); for (double v : d) r += std::fabs(v);
	if (!m.b2.empty()) { lin_solve(At, m.b2, d); double q = 0; for (double v : d) q += std::fabs(v); r = std::max(r, q); }
	return r;
}

// Guesses for the stages of the step t -> t + dt out of what was evaluated.
static void recorded_guesses(const RefTab &m, const std::vector<CallRec> &calls, double t, double dt, const dvec &y, std::vector<dvec> &out)
{
	int s = m.s, n = int(y.size());
	double tol = 1e-9*dt + 8*ulp(t) + 8*ulp(t + dt);
	int found = 0;
	for (long j = long(calls.size()) - 1; j >= s - 1 && found < 4; --j) {
		if (calls[j].kind != 'f' || std::fabs(calls[j].t - (t + m.c[s-1]*dt)) > tol) continue;
		bool all = true; dvec Y(s*n);
		for (int i = 0; i < s && all; ++i) {
			const CallRec &q = calls[j - s + 1 + i];
			if (q.kind != 'f' || std::fabs(q.t - (t + m.c[i]*dt)) > tol) all = false;
			else for (int k = 0; k < n; ++k) Y[i*n+k] = q.y[k] - y[k];
		}
		if (all) { out.push_back(Y); ++found; }
	}
}

static IrkCheck check_irk_step(const RefTab &m, const Problem &pr, double t, double dt, const dvec &y, const dvec &y1,
                               double ntol, double ndx, double sd, const std::vector<CallRec> &calls)
{
	IrkCheck c; c.conclusive = false; c.ok = false; c.diff = 1e300; c.tol = 0; c.scale = 0;
	int s = m.s, n = pr.n;
	std::vector<dvec> guess;
	dvec z(s*n, 0.0), lin(s*n);
	for (int i = 0; i < s; ++i) for (int k = 0; k < n; ++k) lin[i*n+k] = m.c[i]*(y1[k] - y[k]);
	guess.push_back(lin); guess.push_back(z);
	bool rec_done = false;
	for (std::size_t g = 0; g < guess.size() || !rec_done; ++g) {
		if (g >= guess.size()) { rec_done = true; recorded_guesses(m, calls, t, dt, y, guess); if (g >= guess.size()) break; }
		dvec Y = guess[g]; double res = 0;
		if (!ref_irk_stages(m, pr, t, dt, y, Y, res)) continue;
		dvec w; ref_irk_update(m, pr, y, Y, w);
		if (!finite_all(w)) continue;
		c.conclusive = true;
		double diff = 0; for (int k = 0; k < n; ++k) diff = std::max(diff, std::fabs(w[k] - y1[k]));
		double scale = std::max(max_abs(y), max_abs(Y));
		dvec f0(n), K(n); double kmax = 0;
		for (int i = 0; i < s; ++i) {
			for (int k = 0; k < n; ++k) f0[k] = y[k] + Y[i*n+k];
			pr.f(t + m.c[i]*dt, f0.data(), K.data());
			kmax = std::max(kmax, max_abs(K));
		}
		// how far a rounding of the times may move it
		double sens = 0;
		{
			dvec Y2 = Y, w2; double r2;
			double d2 = dt + 2*ulp(t) + 2*ulp(t + dt);
			if (ref_irk_stages(m, pr, t, d2, y, Y2, r2)) {
				ref_irk_update(m, pr, y, Y2, w2);
				for (int k = 0; k < n; ++k) sens = std::max(sens, std::fabs(w2[k] - w[k]));
			}
		}
		double tol = 100*(ntol + ndx)*(1 + sd) + 1e-10*scale + 20*sens + 2000*2.3e-16*dt*kmax*t_sens(pr, t, dt);
		if (diff < c.diff) { c.diff = diff; c.tol = tol; c.want = w; c.Y = Y; c.scale = scale; c.ok = diff <= tol; }
		if (c.ok) break;
	}
	return c;
}

// ------------------------------------------------------------------ C03
static void c03_gen(Rng &r, Plan &p)
{
	GenOpt o; o.scale = true; o.fixed = false; o.cls = "stiff"; o.newton_hi = 1e-10;
	gen_rk(r, p, "", o);
	double len = p.num("t1") - p.num("t0");
	if (r.chance(0.5)) p.set("max_dt", len/r.uni(0.8, 60));
	if (p.has("max_dt") && r.chance(0.4)) p.set("dt", p.num("max_dt")*r.uni(0.5, 20));
	if (r.chance(0.5)) {
		Dry d = dry_rk(p, "");
		add_fun_faults(r, p, "", d.fun, 3, NONFINITE, 5);
	}
}
static void c03_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	Problem pr = Problem::from(p); dvec y0 = pr.y0(p);
	RkCfg c = RkCfg::from(p);
	Env e; e.load(p); e.record = c.family == "irk";
	Result r = run_rk(c, &e, pr, y0);
	check_sane(o, r, e, "run");
	o.absorb(e); o.hash.u(r.numeric_hash(true));
	if (r.threw) { o.probe("threw"); return; }
	const RefTab *m = ref_tab(c.family, c.method);
	double sd = c.family == "irk" ? sum_abs_d(*m) : 0;
	long checked = 0, skipped = 0, refined = 0, capped = 0, must_refine = 0, must_plain = 0;
	// which steps were preceded by a rejected attempt: it called the functor beyond the step's end
	std::vector<char> retried(r.t.size() + 1, 0);
	bool newton_ok = r.count["reject_newton"] == 0;
	if (c.family == "irk") {
		std::vector<std::size_t> last(r.t.size(), 0);
		for (std::size_t i = 1; i < r.t.size(); ++i) last[i] = last[i-1];
		// the last call before the end of each step
		std::size_t step = r.t.size();
		for (std::size_t j = e.calls.size(); j-- > 0 && step > 1; ) {
			while (step > 1 && e.calls[j].t < r.t[step-1] - 4*ulp(r.t[step-1])) { --step; last[step] = j; }
		}
		std::size_t from = 0;
		for (std::size_t i = 1; i < r.t.size(); ++i) {
			for (std::size_t j = from; j < last[i]; ++j) if (e.calls[j].t > r.t[i] + 16*ulp(r.t[i])) { retried[i] = 1; break; }
			from = std::max(from, last[i]);
		}
	}
	for (std::size_t i = 1; i < r.t.size() && i < r.err.size() && i < r.err_est.size(); ++i) {
		double t = r.t[i-1], dt = r.t[i] - t;
		if (!(r.err[i] <= 1 + 1e-12)) { o.fail("tolerance-exceeded", fmt("step %zu at t = %.17g was accepted with an error measure of %.17g", i, r.t[i], r.err[i])); break; }
		double s = 0; int n = pr.n;
		for (int k = 0; k < n; ++k) {
			double sc = c.atol + c.rtol*std::max(std::fabs(r.y[i-1][k]), std::fabs(r.y[i][k]));
			s += (r.err_est[i][k]/sc)*(r.err_est[i][k]/sc);
		}
		s = std::sqrt(s/n);
		if (!(std::fabs(s - r.err[i]) <= 1e-9*s + 1e-14)) {
			o.fail("error-measure", fmt("step %zu at t = %.17g: recorded error measure %.17g, its estimate scaled by the tolerances gives %.17g", i, r.t[i], r.err[i], s)); break;
		}
		if (c.max_dt > 0) {
			if (dt > c.max_dt*(1 + 1e-12) + 2*ulp(r.t[i])) { o.fail("step-cap", fmt("step %zu from %.17g is %.17g long, the cap is %.17g", i, t, dt, c.max_dt)); break; }
			if (dt > c.max_dt*(1 - 1e-12) - 2*ulp(r.t[i])) ++capped;
		}
		// the estimate must be the one of this very step
		if (near_jump(*m, pr, t, dt)) { ++skipped; continue; }
		if (c.family == "erk") {
			ErkStep es = step_with_tol(*m, pr, t, dt, r.y[i-1]);
			if (!es.ok) { ++skipped; continue; }
			++checked;
			bool bad = false;
			for (int k = 0; k < n; ++k) if (!(std::min(std::fabs(r.err_est[i][k] - es.est[k]), std::fabs(r.err_est[i][k] + es.est[k])) <= es.tol_est[k])) bad = true;
			if (bad) { o.fail("estimate", fmt("step %zu at t = %.17g: recorded estimate does not belong to this step", i, r.t[i])); break; }
		} else {
			IrkCheck k = check_irk_step(*m, pr, t, dt, r.y[i-1], r.y[i], c.ntol, c.ndx, sd, e.calls);
			if (!k.conclusive || !k.ok) { ++skipped; continue; }      // C12 judges the step itself
			dvec plain, ref, f0(n);
			ref_irk_err(*m, pr, t, dt, r.y[i-1], k.Y, plain, ref);
			if (plain.empty() || ref.empty() || !finite_all(plain) || !finite_all(ref)) { ++skipped; continue; }
			pr.f(t, r.y[i-1].data(), f0.data());
			double fscale = m->gamma*dt*max_abs(f0), scale = fscale + max_abs(k.Y)*sd;
			dvec x = r.y[i-1], f1(n); for (int q2 = 0; q2 < n; ++q2) x[q2] += plain[q2];
			pr.f(t, x.data(), f1.data()); scale += m->gamma*dt*max_abs(f1);
			// (I - gamma dt J)^-1 is a contraction for decaying problems only
			dvec J(n*n); pr.jac(t, r.y[i-1].data(), J.data());
			double jn = 0; for (int a = 0; a < n; ++a) { double q3 = 0; for (int b = 0; b < n; ++b) q3 += std::fabs(J[a + b*n]); jn = std::max(jn, q3); }
			std::vector<double> S(n*n); dvec inv(n, 0.0); double amp = 0;
			for (int b = 0; b < n; ++b) {
				for (int a = 0; a < n; ++a) for (int b2 = 0; b2 < n; ++b2) S[a*n+b2] = (a == b2 ? 1.0 : 0.0) - m->gamma*dt*J[a + b2*n];
				dvec rhs(n, 0.0), col; rhs[b] = 1;
				if (lin_solve(S, rhs, col)) amp += max_abs(col);
			}
			double g = 1 + amp*(1 + m->gamma*dt*jn*amp*dt);
			double tol = dt*g*(100*(c.ntol + c.ndx)*(1 + sd) + 1e-9*scale + 1e-10*k.scale*0 + 4000*2.3e-16*t_sens(pr, t, dt)*scale);
			double dp = 0, dr = 0;
			for (int a = 0; a < n; ++a) { dp = std::max(dp, std::fabs(r.err_est[i][a] - plain[a])); dr = std::max(dr, std::fabs(r.err_est[i][a] - ref[a])); }
			++checked;
			if (dr <= tol) ++refined;
			if (!(std::min(dp, dr) <= tol)) {
				o.fail("estimate", fmt("step %zu at t = %.17g, length %.17g: recorded estimate is %.3g from the embedded formula and %.3g from its refinement (allowed %.3g)", i, r.t[i], dt, dp, dr, tol)); break;
			}
			if (c.adaptive && (i == 1 || (newton_ok && retried[i]))) {
				++must_refine;
				if (!(dr <= tol)) { o.fail("estimate-not-refined", fmt("step %zu at t = %.17g %s: the recorded estimate is the plain one, %.3g from the refined one (allowed %.3g)", i, r.t[i], i == 1 ? "is the first" : "follows a rejected attempt", dr, tol)); break; }
			}
			if (c.adaptive && i > 1 && r.count["reject_err"] == 0 && newton_ok) {
				++must_plain;
				if (!(dp <= tol)) { o.fail("estimate-refined", fmt("step %zu at t = %.17g follows an accepted one: the recorded estimate is %.3g from the embedded formula (allowed %.3g)", i, r.t[i], dp, tol)); break; }
			}
		}
	}
	o.probe("steps-checked", checked); o.probe("steps-skipped", skipped); o.probe("refined-estimates", refined); o.probe("estimates-to-refine", must_refine); o.probe("estimates-not-to-refine", must_plain); o.probe("steps-at-cap", capped);
	o.nontrivial = checked > 0;
	if (r.count["reject_err"]) o.probe("rejected-attempts", long(r.count["reject_err"]));
}
static Registrar rc03("C03", c03_gen, c03_exec);

// ------------------------------------------------------------------ C12
static void c12_gen(Rng &r, Plan &p)
{
	bool jf = r.chance(0.5);
	GenOpt o; o.scale = true; o.erk = false; o.cls = "stiff"; o.max_fixed = 120; o.newton_hi = 1e-8; o.short_form = !jf;
	gen_rk(r, p, "", o);
	if (!p.integer("defaults") && r.chance(0.5)) p.set("nmaxit", r.range(4, 12));
	if (jf) {
		// With wrong Jacobians only the residual tells; a small last move does not.
		p.set("ndx", 1e-290); p.set("ntol", r.logu(1e-10, 1e-6)*std::max(1.0, p.num("yscale", 1)));
		p.set("nmaxit", r.range(5, 40));
		if (p.has("rtol")) { double rt = std::max(1e-7, p.num("rtol")); p.set("rtol", rt); p.set("atol", std::max(1e-7, p.num("atol"))); }
		Dry d = dry_rk(p, "");
		add_jac_faults(r, p, "", d.jac, 3, { "scale", "noise", "stale", "zero", "bad" }, 25);
		if (r.chance(0.3)) add_fun_faults(r, p, "", d.fun, 2, NONFINITE, 3);
		p.set("fun_budget", 60000L);
	} else if (r.chance(0.5)) {
		Dry d = dry_rk(p, "");
		add_fun_faults(r, p, "", d.fun, 3, NONFINITE, 6);
	}
}
static void c12_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	Problem pr = Problem::from(p); dvec y0 = pr.y0(p);
	RkCfg c = RkCfg::from(p);
	Env e; e.load(p); e.record = true;
	Result r = run_rk(c, &e, pr, y0);
	check_sane(o, r, e, "run");
	o.absorb(e); o.hash.u(r.numeric_hash(true));
	if (r.threw) { o.probe("threw"); return; }
	check_irk_steps(o, c, r, pr, e.calls);
}
static Registrar rc12("C12", c12_gen, c12_exec);

// Whether the iterate the step was taken with had met one of the two criteria
// (residual, last move) it was asked to meet. 1: yes, 0: no, -1: cannot tell.
static int iterate_converged(const RefTab &m, const Problem &pr, const std::vector<CallRec> &calls, double t, double dt,
                             const dvec &y, const dvec &y1, double ntol, double ndx, double &res, double &move)
{
	int s = m.s, n = pr.n;
	double tt = 1e-9*dt + 8*ulp(t) + 8*ulp(t + dt), ddt = 2*ulp(t) + 2*ulp(t + dt);
	struct Block { dvec Y; double R, slack; bool faulted; };
	std::vector<Block> b;           // the iterates of this step, in order
	auto lo = std::size_t(0);
	for (std::size_t j = lo; j + s <= calls.size(); ) {
		bool all = true;
		for (int i = 0; i < s && all; ++i) {
			const CallRec &q = calls[j + i];
			all = q.kind == 'f' && int(q.y.size()) == n && std::fabs(q.t - (t + m.c[i]*dt)) <= tt;
		}
		if (!all) { ++j; continue; }
		Block k; k.Y.assign(s*n, 0.0); k.faulted = false; double big = max_abs(y), fm = 0;
		std::vector<dvec> F(s, dvec(n));
		for (int i = 0; i < s; ++i) {
			const CallRec &q = calls[j + i]; k.faulted = k.faulted || q.faulted;
			for (int a = 0; a < n; ++a) k.Y[i*n+a] = q.y[a] - y[a];
			big = std::max(big, max_abs(q.y));
			pr.f(q.t, q.y.data(), F[i].data()); fm = std::max(fm, max_abs(F[i]));
		}
		double r2 = 0, am = 0;
		for (int i = 0; i < s; ++i) {
			double ai = 0;
			for (int l = 0; l < s; ++l) ai += std::fabs(m.A[i][l]);
			am = std::max(am, ai);
			for (int a = 0; a < n; ++a) { double x = k.Y[i*n+a]; for (int l = 0; l < s; ++l) x -= dt*m.A[i][l]*F[l][a]; r2 += x*x; }
		}
		k.R = std::sqrt(r2);
		k.slack = std::sqrt(double(s*n))*(4*2.3e-16*big + am*fm*(ddt + 1e-14*dt));
		b.push_back(k); j += s;
	}
	int verdict = -1;
	double sd = 1 + sum_abs_d(m);
	for (std::size_t i = 1; i < b.size(); ++i) {
		dvec w; double scale = std::max(max_abs(y), max_abs(b[i].Y));
		ref_irk_update(m, pr, y, b[i].Y, w);
		double diff = 0; for (int a = 0; a < n; ++a) diff = std::max(diff, std::fabs(w[a] - y1[a]));
		if (!(diff <= 1e-13*sd*scale)) continue;
		if (b[i].faulted || !std::isfinite(b[i].R)) return -1;
		double mv = 0; for (int a = 0; a < s*n; ++a) { double x = b[i].Y[a] - b[i-1].Y[a]; mv += x*x; }
		mv = std::sqrt(mv)*(b[i-1].faulted ? 1.0 : std::sqrt(1 + b[i-1].R*b[i-1].R));
		double full = std::sqrt(1 + b[i-1].R*b[i-1].R);
		if (b[i].R <= 1.5*ntol + b[i].slack || mv <= 1.5*ndx + 4*b[i].slack*full || b[i-1].faulted) return 1;
		res = b[i].R; move = mv; verdict = 0;
	}
	return verdict;
}

void check_irk_steps(Outcome &o, const RkCfg &c, const Result &r, const Problem &pr, const std::vector<CallRec> &calls)
{
	const RefTab *m = ref_tab("irk", c.method);
	double sd = sum_abs_d(*m);
	long checked = 0, skipped = 0, judged = 0;
	for (std::size_t i = 1; i < r.t.size(); ++i) {
		double t = r.t[i-1], dt = r.t[i] - t;
		double res = 0, move = 0;
		if (dt > 0 && (i < 20 || i % (r.t.size()/40 + 1) == 0)) {
			int v = iterate_converged(*m, pr, calls, t, dt, r.y[i-1], r.y[i], c.ntol, c.ndx, res, move);
			if (v >= 0) ++judged;
			if (v == 0) { o.fail("not-converged", fmt("step %zu, t = %.17g to %.17g was taken with stages whose residual is %.3g (asked for: %.3g) after a move of %.3g (%.3g)", i, t, r.t[i], res, c.ntol, move, c.ndx)); break; }
		}
		if (!(dt > 0) || near_jump(*m, pr, t, dt)) { ++skipped; continue; }
		IrkCheck k = check_irk_step(*m, pr, t, dt, r.y[i-1], r.y[i], c.ntol, c.ndx, sd, calls);
		if (!k.conclusive) { ++skipped; continue; }
		++checked;
		if (!k.ok) {
			o.fail("wrong-step", fmt("step %zu, t = %.17g to %.17g: recorded solution is %.3g away from every solution of the stage equations found (allowed %.3g)", i, t, r.t[i], k.diff, k.tol));
			break;
		}
	}
	o.probe("steps-checked", checked); o.probe("steps-inconclusive", skipped); o.probe("iterates-judged", judged);
	o.nontrivial = checked > 0;
	auto nr = r.count.find("reject_newton");
	if (nr != r.count.end() && nr->second) o.probe("newton-rejected", long(nr->second));
}

} // namespace sim
