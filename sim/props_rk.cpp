// C01 grid, C04 non-finite values, C05 termination, C11 counters.
#include "props.hpp"

namespace sim {

static void must_end(Outcome &o, const Result &r, const Env &e, const char *tag)
{
	if (r.budget) o.fail("no-termination", fmt("%s: still running after %ld derivative and %ld Jacobian evaluations", tag, e.n_fun, e.n_jac));
}

static const std::vector<std::string> NONFINITE = { "nan", "inf", "ninf" };
static const std::vector<std::string> JACSOFT = { "scale", "noise", "stale", "zero", "bad" };

void check_grid(Outcome &o, const RkCfg &c, const Result &r, const dvec &y0, bool success)
{
	std::size_t n = r.t.size();
	if (n == 0) { o.fail("no-initial-point", "no time point was recorded"); return; }
	if (r.t[0] != c.t0) o.fail("wrong-start", fmt("first time %.17g, asked for %.17g", r.t[0], c.t0));
	if (r.y.empty() || r.y[0] != y0) o.fail("wrong-initial-value", "first recorded solution is not the initial value");
	if (r.y.size() != n || r.err.size() != n || r.err_est.size() != n || r.n_stages_rows != n)
		o.fail("ragged-records", fmt("%zu times, %zu solutions, %zu errors, %zu estimates, %zu stage rows", n, r.y.size(), r.err.size(), r.err_est.size(), r.n_stages_rows));
	double sl = 4*std::max(ulp(c.t0), ulp(c.t1));
	for (std::size_t i = 0; i + 1 < n; ++i)
		if (!(r.t[i+1] > r.t[i])) { o.fail("not-increasing", fmt("time %.17g follows %.17g", r.t[i+1], r.t[i])); break; }
	for (std::size_t i = 0; i < n; ++i)
		if (!std::isfinite(r.t[i]) || r.t[i] > c.t1 + sl) { o.fail("past-end", fmt("time %.17g recorded, interval ends at %.17g", r.t[i], c.t1)); break; }
	if (success && n && std::fabs(r.t[n-1] - c.t1) > sl)
		o.fail("short-of-end", fmt("success reported but last time is %.17g, interval ends at %.17g", r.t[n-1], c.t1));
	if (success) {
		for (std::size_t i = 0; i < n; ++i) {
			bool ok = i >= r.y.size() || (finite_all(r.y[i]) && r.y[i].size() == y0.size());
			ok = ok && (i >= r.err.size() || std::isfinite(r.err[i])) && (i >= r.err_est.size() || finite_all(r.err_est[i])) && (i >= r.stages.size() || finite_all(r.stages[i]));
			if (!ok) { o.fail("non-finite-record", fmt("record %zu at time %.17g is not finite or has the wrong size", i, r.t[i])); break; }
		}
	}
}

// without step size control every step but the last has the size asked for
static void check_fixed(Outcome &o, const RkCfg &c, const Result &r)
{
	if (c.adaptive && has_embedded(c.family, c.method)) return;
	double dt = std::min(c.dt, c.t1 - c.t0);
	for (std::size_t i = 0; i + 1 < r.t.size(); ++i) {
		double h = r.t[i+1] - r.t[i], sl = 1e-9*dt + 16*std::max(ulp(c.t0), ulp(c.t1));
		bool last = r.t[i+1] >= c.t1 - 16*std::max(ulp(c.t0), ulp(c.t1));
		if (last ? !(h <= dt + sl) : !(std::fabs(h - dt) <= sl)) { o.fail("fixed-step", fmt("step %zu has size %.17g, the fixed step size is %.17g", i + 1, h, dt)); return; }
	}
	o.probe("fixed-step");
}
// ------------------------------------------------------------------ C01
static void c01_gen(Rng &r, Plan &p)
{
	GenOpt o; o.scale = true; o.cls = "stiff"; o.short_form = true;
	gen_rk(r, p, "", o);
	bool ad = p.has("rtol");
	if (ad && !p.integer("defaults") && r.chance(0.1)) { p.p.erase("max_dt"); p.set("dt", 1e-6/p.num("ts", 1)); }
	if (r.chance(ad ? 0.65 : 0.3)) {
		Dry d = dry_rk(p, "");
		if (r.chance(0.8)) add_fun_faults(r, p, "", d.fun, 3, NONFINITE, 4);
		if (p.str("family") == "irk" && r.chance(0.5)) add_jac_faults(r, p, "", d.jac, 3, JACSOFT, 6);
		if (r.chance(0.08)) p.fault("fun", pick_event(r, d.fun), NONFINITE[r.below(3)], -1, -1);    // ends in a step too small to take
	}
}
// every recorded step has had its stages evaluated at their own times
static void check_covered(Outcome &o, const RkCfg &c, const Result &r, std::vector<double> &ts)
{
	const RefTab *m = ref_tab(c.family, c.method);
	if (!m) return;
	if (r.status == ST_SUCCESS && r.t.size() > 1 && !ts.empty()) {
		// and nothing but the last attempt led to the last step
		double a = r.t[r.t.size()-2], b = r.t.back(), h = b - a, sl = 1e-9*h + 8*std::max(ulp(a), ulp(b));
		std::size_t from = ts.size() - std::min(ts.size(), std::size_t(m->s) + 2);
		for (std::size_t i = m->fsal ? 1 : 0; i < m->c.size(); ++i) {
			double x = a + m->c[i]*h; bool seen = false;
			for (std::size_t k = from; k < ts.size(); ++k) seen = seen || std::fabs(ts[k] - x) <= sl;
			if (!seen) { o.fail("not-covered", fmt("the last step is recorded from %.17g to %.17g, its stage at %.17g is not among the last evaluations", a, b, x)); return; }
		}
	}
	std::sort(ts.begin(), ts.end());
	for (std::size_t k = 0; k + 1 < r.t.size(); ++k) {
		double h = r.t[k+1] - r.t[k], sl = 1e-9*h + 8*std::max(ulp(r.t[k]), ulp(r.t[k+1]));
		for (double ci : m->c) {
			double x = r.t[k] + ci*h;
			auto it = std::lower_bound(ts.begin(), ts.end(), x - sl);
			if (it == ts.end() || *it > x + sl) {
				o.fail("not-covered", fmt("step %zu from %.17g to %.17g was recorded, its stage at %.17g was never evaluated", k + 1, r.t[k], r.t[k+1], x));
				return;
			}
		}
	}
}
static void c01_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	Problem pr = Problem::from(p); dvec y0 = pr.y0(p);
	RkCfg c = RkCfg::from(p);
	Env e; e.load(p);
	std::vector<double> ts;
	e.on_call = [&ts](char k, double t, const double *, int) { if (k == 'f') ts.push_back(t); };
	Result r = run_rk(c, &e, pr, y0);
	check_sane(o, r, e, "run");
	if (!r.threw) { check_grid(o, c, r, y0, r.status == ST_SUCCESS); check_fixed(o, c, r); check_covered(o, c, r, ts); }
	o.absorb(e); o.hash.u(r.numeric_hash(true));
	o.nontrivial = !r.threw && r.t.size() > 2;
	if (r.threw) o.probe("threw"); else o.probe(r.status == ST_SUCCESS ? "success" : "reported-failure");
	if (!r.threw) { if (r.count["reject_err"]) o.probe("rejected-steps"); if (c.dt > c.t1 - c.t0) o.probe("dt-larger-than-interval"); }
}
static Registrar rc01("C01", c01_gen, c01_exec);

// ------------------------------------------------------------------ C04
static void c04_gen(Rng &r, Plan &p)
{
	double u = r.uni();
	if (u < 0.8) {
		GenOpt o; o.max_fixed = 120;
		gen_rk(r, p, "", o);
		if (p.str("family") == "irk") p.set("nmaxit", r.range(3, 15));
	} else gen_ms(r, p, "");
	bool domain = r.chance(0.2);
	if (domain) {
		const char *k[] = { "sqrt", "log", "blowup" };
		p.set("kind", std::string(k[r.below(3)])); p.set("n", r.range(1, 3)); p.set("a", r.uni(0.5, 3));
		p.set("t1", p.num("t0") + r.uni(0.5, 4));
		p.p.erase("spike_amp"); p.p.erase("step_amp");
	}
	p.set("domain", long(domain));
	if (r.chance(0.06)) { p.set("y0bad", 100*r.range(0, 2) + r.range(0, 20)); return; }
	if (domain && r.chance(0.7)) return;
	Dry d = dry_any(p, "");
	std::vector<std::string> a = { "nan", "inf", "ninf", "huge", "max" };
	double v = r.uni();
	if (v < 0.55) {
		add_fun_faults(r, p, "", d.fun, 3, r.chance(0.7) ? NONFINITE : a, 10);
	} else if (v < 0.85) {
		p.fault("fun", pick_event(r, d.fun), a[r.below(5)], r.chance(0.5) ? -1.0 : double(r.below(4)), -1);
	} else {
		add_jac_faults(r, p, "", d.jac, 2, { "nan", "inf" }, 5);
	}
}
static void c04_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	Env e; e.load(p);
	AnyResult a = run_any(p, "", &e);
	check_sane(o, a.rk, e, "run");
	const Result &r = a.rk;
	bool ms = p.str("what") == "ms";
	bool ok = !r.threw && r.status == ST_SUCCESS;
	if (!r.threw) {
		for (std::size_t i = p.has("y0bad") ? 1 : 0; i < r.t.size(); ++i) {
			bool fin = std::isfinite(r.t[i]) && (i >= r.y.size() || finite_all(r.y[i]))
				&& (i >= r.err.size() || std::isfinite(r.err[i])) && (i >= r.err_est.size() || finite_all(r.err_est[i]));
			if (!fin && ok) { o.fail("non-finite-accepted", fmt("status is success but record %zu at time %.17g is not finite", i, r.t[i])); break; }
			if (!fin) { o.fail("non-finite-recorded", fmt("status %d, record %zu at time %.17g is not finite", r.status, i, r.t[i])); break; }
		}
	}
	if (r.threw && !r.budget && !is_report(r.exc)) o.fail("odd-exception", "exception " + r.exc + " although no callback threw");
	// persistent bad values must not end in success
	bool persistent = false, transient_only = true, jac = false, soft = false; int st = 8;
	for (auto &f : p.f) {
		if (f.count < 0 && (f.act == "nan" || f.act == "inf" || f.act == "ninf")) persistent = true;
		if (f.count < 0) transient_only = false;
		if (f.seam == "jac") jac = true;
		if (f.act == "huge" || f.act == "max") soft = true;
	}
	long fired = 0; for (auto &kv : e.fired) fired += kv.second;
	if (persistent && ok && fired > 2*st + 2) o.fail("persistent-ignored", fmt("%ld non-finite evaluations, none of them usable, and success was reported", fired));
	if (p.has("y0bad")) {
		if (ok) o.fail("initial-ignored", "success was reported from an initial value that is not finite");
		o.nontrivial = true; o.probe("initial-value-not-finite");
	}
	// transient ones must be recovered from
	if (!ms && transient_only && !jac && !soft && p.integer("adaptive") && has_embedded(p.str("family"), int(p.integer("method"))) && !p.integer("domain") && !p.has("spike_amp") && !ok && !r.budget) {
		// (a short burst may be stepped over with the faults absent and be met with them present)
		// only if the run succeeds without faults
		Plan clean = p; clean.f.clear();
		Env e2; e2.load(clean);
		AnyResult b = run_any(clean, "", &e2);
		if (!b.threw && b.status == ST_SUCCESS)
			o.fail("not-recovered", fmt("%ld transient non-finite values ended the run (%s%s, status %d)", fired, r.threw ? "threw " : "reported", r.exc.c_str(), r.status));
	}
	o.absorb(e); o.hash.u(a.hash);
	o.nontrivial = fired > 0 || p.integer("domain") || p.has("y0bad");
	o.probe(r.threw ? "threw" : ok ? "success" : "reported-failure");
	if (persistent && fired) o.probe("persistent-fired");
	if (transient_only && fired && ok) o.probe("recovered");
}
static Registrar rc04("C04", c04_gen, c04_exec);

// ------------------------------------------------------------------ C05
static void c05_gen(Rng &r, Plan &p)
{
	double u = r.uni();
	std::string mode = u < 0.35 ? "budget" : u < 0.65 ? "recover" : u < 0.9 ? "persist" : "tiny";
	p.set("mode", mode);
	GenOpt o; o.max_fixed = 120;
	if (mode == "persist" && r.chance(0.12)) {
		gen_ms(r, p, "");
		p.set("t0", r.uni(0.5, 2)); p.set("t1", p.num("t0") + r.uni(0.1, 2));
		p.set("fun_budget", 4000000L);
		Dry d = dry_any(p, "");
		if (r.chance(0.5)) {
			// from within the bootstrap on it takes millions of evaluations to give up
			bool late = p.integer("n") > 2 || r.chance(0.6);
			p.fault("fun", late ? d.fun - 1 - r.below(d.fun/4 + 1) : pick_event(r, d.fun), r.chance(0.5) ? "nan" : "max", -1, -1);
			p.set("fun_budget", 60000000L);
		}
		else if (r.chance(0.5)) p.fault("jac", pick_event(r, d.jac), "nan", double(r.below(9)), -1);
		else { p.set("kind", std::string("blowup")); p.set("a", r.uni(1, 4)); p.set("t1", p.num("t0") + 4); p.set("dt", r.logu(0.004, 0.013)); p.p.erase("spike_amp"); p.p.erase("step_amp"); }
		return;
	}
	if (mode == "recover" || mode == "tiny") o.fixed = false;
	if (mode == "recover") o.hard = r.chance(0.3);
	if (mode == "recover") { o.newton_lo = 1e-10; }
	gen_rk(r, p, "", o);
	p.set("mode", mode);
	p.set("fun_budget", 3000000L);
	if (p.str("family") == "irk" && (p.has("step_amp") || p.has("spike_amp")) && dry_rk(p, "").threw) {
		// A burst that drives the solution to infinity: with an absolute tolerance
		// below its rounding errors any nonlinear solver crawls (see below).
		p.p.erase("step_amp"); p.p.erase("spike_amp");
	}
	if (mode == "budget") {
		Dry d = dry_rk(p, "");
		p.set("delta", r.chance(0.5) ? r.range(-3, 3) : -r.range(0, std::max(1L, d.steps)));
		if (r.chance(0.1)) p.set("delta", 1000000000L);
		if (r.chance(0.4)) add_fun_faults(r, p, "", d.fun, 2, NONFINITE, 3);
	} else if (mode == "recover") {
		Dry d = dry_rk(p, "");
		if (p.str("family") == "irk") p.set("nmaxit", r.range(8, 30));
		add_fun_faults(r, p, "", d.fun, 3, NONFINITE, p.str("family") == "erk" ? 25 : 40);
		if (p.str("family") == "irk" && r.chance(0.6)) add_jac_faults(r, p, "", d.jac, 2, { "scale", "zero", "bad", "noise" }, 30);
	} else if (mode == "persist") {
		if (p.str("family") == "irk") p.set("nmaxit", r.range(2, 6));
		double v = r.uni();
		if (p.has("rtol") && r.chance(0.08)) {
			p.set("rtol", 0.0); p.set("atol", 0.0);      // nothing is ever accurate enough
		} else if (r.chance(0.05)) {
			p.set("y0bad", 100*r.range(0, 2) + r.range(0, 20));
		} else if (v < 0.3) {
			p.set("kind", std::string(r.chance(0.6) ? "blowup" : "sqrt")); p.set("a", r.uni(1, 4)); p.set("t1", p.num("t0") + r.uni(2, 5));
			if (!p.integer("adaptive")) p.set("dt", r.uni(0.02, 0.3));
			if (p.has("rtol")) { p.set("rtol", r.logu(1e-5, 1e-3)); p.set("atol", 1e-4); }
			// An absolute tolerance below the rounding errors of a huge
			// solution makes any nonlinear solver crawl; not the point here.
			if (p.str("family") == "irk") { p.set("ntol", 1e-3); p.set("ndx", 1e-3); }
		} else if (v < 0.7 || p.str("family") == "erk") {
			Dry d = dry_rk(p, "");
			const char *acts[] = { "nan", "inf", "ninf", "huge", "max" };
			int k = int(r.below(5));
			p.fault("fun", pick_event(r, d.fun), acts[k], r.chance(0.7) ? -1.0 : double(r.below(4)), -1);
			// finite but huge values take very many steps at a tight tolerance
			if (k >= 3 && p.has("rtol")) { p.set("rtol", std::max(1e-5, p.num("rtol"))); p.set("atol", std::max(1e-5, p.num("atol"))); p.set("fun_budget", 12000000L); }
		} else {
			Dry d = dry_rk(p, "");
			if (r.chance(0.6)) { p.set("ntol", 0.0); p.set("ndx", 0.0); }
			else p.fault("jac", pick_event(r, d.jac), "nan", double(r.below(9)), -1);
			if (p.has("rtol")) { double rt = std::max(1e-6, p.num("rtol")); p.set("rtol", rt); p.set("atol", std::max(1e-6, p.num("atol"))); }
		}
	} else {
		double k = r.uni();
		if (k < 0.4) p.set("dt", std::pow(10.0, r.uni(-295, -30)));
		else { double t0 = r.uni(-1, 1)*1e6; double len = p.num("t1") - p.num("t0"); p.set("t0", t0); p.set("t1", t0 + len); p.set("dt", r.logu(1e-22, 1e-9)); }
		if (p.has("spike_t")) { p.p.erase("spike_amp"); }
		p.p.erase("step_amp");
		// Far from zero the cubic in t is huge and a nonlinear solver with a
		// tolerance below its rounding errors crawls; not the point here.
		if (std::fabs(p.num("t0")) > 1e3 && p.str("kind") == "polyt") p.set("kind", std::string("forced"));
		if (r.chance(0.3)) { p.set("adaptive", 0L); if (p.str("kind") == "polyt") p.set("kind", std::string("forced")); p.set("t0", 1e6); p.set("t1", 1e6 + 1); p.set("dt", r.logu(1e-25, 1e-12)); }
	}
}
static void c05_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	std::string mode = p.str("mode");
	Problem pr = Problem::from(p); dvec y0 = pr.y0(p);
	bool ms = p.str("what") == "ms";
	RkCfg c = RkCfg::from(p);
	double sl = 4*std::max(ulp(c.t0), ulp(c.t1));
	if (mode == "budget") {
		Env e0; e0.load(p);
		c.max_steps = -1;
		Result full = run_rk(c, &e0, pr, y0);
		check_sane(o, full, e0, "unlimited run"); must_end(o, full, e0, "unlimited run");
		if (!full.threw && full.t.size() >= 1) {
			long K = long(full.t.size()) - 1, M = K + p.integer("delta");
			if (M < 0) M = 0;
			c.max_steps = M;
			Env e; e.load(p);
			Result r = run_rk(c, &e, pr, y0);
			check_sane(o, r, e, "limited run"); must_end(o, r, e, "limited run");
			o.absorb(e); o.hash.u(r.numeric_hash(true));
			o.nontrivial = K > 1;
			long k = long(r.t.size()) - 1;
			if (r.threw) o.fail("limit-throws", "the limited run threw " + r.exc + ", the unlimited one did not");
			else {
				if (k > M) o.fail("budget-exceeded", fmt("%ld steps taken, at most %ld allowed", k, M));
				if (M < K || (full.status == ST_SUCCESS && M >= K)) {
					int want = M >= K ? full.status : int(ST_MAX);
					if (r.status != want) o.fail("budget-status", fmt("limit %ld, unlimited run takes %ld steps: status %d instead of %d", M, K, r.status, want));
					if (k != std::min(M, K)) o.fail("budget-unused", fmt("limit %ld, unlimited run takes %ld steps, limited one stopped after %ld", M, K, k));
				}
				for (long i = 0; i <= k && i <= K; ++i)
					if (r.t[i] != full.t[i] || r.y[i] != full.y[i]) { o.fail("budget-changes-steps", fmt("step %ld differs between limited and unlimited run", i)); break; }
				if (r.status == ST_MAX && !(r.t[k] < c.t1)) o.fail("budget-status", "step limit reported although the end was reached");
				o.probe(r.status == ST_MAX ? "limit-hit" : "limit-not-hit");
				if (M == K) o.probe("limit-exact");
			}
		}
		return;
	}
	Env e; e.load(p);
	AnyResult a = run_any(p, "", &e);
	Result &r = a.rk;
	check_sane(o, r, e, "run"); must_end(o, r, e, "run");
	o.absorb(e); o.hash.u(a.hash);
	o.nontrivial = true;
	bool ok = !r.threw && r.status == ST_SUCCESS;
	if (ok && !r.t.empty() && r.t.back() < c.t1 - sl) o.fail("early-success", fmt("success at time %.17g, the end is %.17g", r.t.back(), c.t1));
	if (!r.threw && !ms && !ok && r.status == ST_MAX && c.max_steps < 0) o.fail("budget-status", "a step limit is reported that was never set");
	if (mode == "persist") {
		long fired = 0; bool nonf = false;
		for (auto &f : p.f) if (f.seam == "fun" && f.count < 0 && (f.act == "nan" || f.act == "inf" || f.act == "ninf")) nonf = true;
		for (auto &kv : e.fired) fired += kv.second;
		if (ok && p.has("rtol") && c.rtol == 0 && c.atol == 0) o.fail("persistent-ignored", "success reported although no step can meet tolerances of zero");
		if (ok && p.has("y0bad")) o.fail("persistent-ignored", "success reported from an initial value that is not finite");
		if (ok && nonf && fired > 20) o.fail("persistent-ignored", "success reported while every evaluation was non-finite");
		o.probe(r.threw ? "persist-threw" : ok ? "persist-success" : "persist-reported");
	} else if (mode == "recover") {
		Plan clean = p; clean.f.clear();
		Env e2; e2.load(clean);
		AnyResult b = run_any(clean, "", &e2);
		check_sane(o, b.rk, e2, "fault free run"); must_end(o, b.rk, e2, "fault free run");
		if (!b.threw && b.status == ST_SUCCESS) {
			long after = e.n_fun - (e.last_fault_fun + 1);
			long n0 = e2.n_fun + e2.n_jac;
			// Once no more faults come, the rest must cost no more than a
			// generous multiple of the whole fault free run.
			bool jac = false; for (auto &f : p.f) if (f.seam == "jac") jac = true;
			if (!jac && after > 12*n0 + 6000) o.fail("slow-recovery", fmt("%ld evaluations after the last fault, a run without faults takes %ld", after, n0));
			if (jac && e.n_fun > 60*n0 + 40000) o.fail("slow-recovery", fmt("%ld evaluations in all, a run without faults takes %ld", e.n_fun, n0));
			if (!jac && !ok && !r.budget) o.fail("no-recovery", fmt("faults stopped but the run ended with status %d %s", r.status, r.exc.c_str()));
			o.probe(ok ? "recovered" : "not-recovered");
			if (n0 > 0) o.probe("recovery-cost-percent", 100*(after > 0 ? after : 0)/n0);
		}
	} else if (mode == "tiny") {
		bool emb = has_embedded(c.family, c.method) && c.adaptive;
		if (emb && !ok && !r.budget) {
			Plan clean = p; clean.set("dt", 1e-3*(c.t1 - c.t0));
			Env e2; e2.load(clean);
			AnyResult b = run_any(clean, "", &e2);
			if (!b.threw && b.status == ST_SUCCESS) o.fail("tiny-start", fmt("initial step %g: status %d %s", c.dt, r.status, r.exc.c_str()));
		}
		if (!emb && ok && c.t0 + c.dt == c.t0) o.fail("stalled-success", "fixed step does not advance time yet success was reported");
		o.probe(ok ? "tiny-success" : "tiny-reported");
	}
}
static Registrar rc05("C05", c05_gen, c05_exec);

// ------------------------------------------------------------------ C11
static void c11_gen(Rng &r, Plan &p)
{
	GenOpt o; o.scale = true; o.cls = "stiff"; o.short_form = true;
	gen_rk(r, p, "", o);
	bool dflt = p.integer("defaults") != 0;
	if (!dflt && p.str("family") == "irk" && r.chance(0.5)) p.set("nmaxit", r.range(2, 7));
	if (!dflt && r.chance(0.3)) p.set("max_steps", r.range(0, 40));
	if (r.chance(0.6)) {
		Dry d = dry_rk(p, "");
		if (r.chance(0.7)) add_fun_faults(r, p, "", d.fun, 3, NONFINITE, 5);
		if (p.str("family") == "irk" && r.chance(0.5)) add_jac_faults(r, p, "", d.jac, 2, JACSOFT, 8);
		if (r.chance(0.1)) p.fault("fun", pick_event(r, d.fun), "nan", -1, -1);
	}
	if (!dflt && p.str("family") == "irk") p.set("nmaxit", std::min(p.integer("nmaxit"), 20L));
	if (!dflt && r.chance(0.5)) { p.set("also_interval", r.range(1, 9)); p.set("also_store", long(r.chance(0.4))); p.set("also_stream", long(r.chance(0.6))); }
}
static void c11_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	Problem pr = Problem::from(p); dvec y0 = pr.y0(p);
	RkCfg c = RkCfg::from(p);
	Env e; e.load(p);
	Result r = run_rk(c, &e, pr, y0);
	check_sane(o, r, e, "run");
	o.absorb(e); o.hash.u(r.numeric_hash(true));
	if (r.threw) return;
	o.nontrivial = r.t.size() > 1;
	long acc = long(r.t.size()) - 1;
	auto g = [&r](const char *k) { return long(r.count[k]); };
	bool fail = r.status != ST_SUCCESS && r.status != ST_MAX;
	if (g("fun_evals") != e.n_fun) o.fail("fun-evals", fmt("%ld derivative evaluations reported, %ld happened", g("fun_evals"), e.n_fun));
	if (c.family == "irk" && g("jac_evals") != e.n_jac) o.fail("jac-evals", fmt("%ld Jacobian evaluations reported, %ld happened", g("jac_evals"), e.n_jac));
	long rej = g("reject_err") + (c.family == "irk" ? g("reject_newton") : 0);
	long miss = g("attempt") - acc - rej;
	if (miss < 0 || miss > (fail ? 1 : 0)) o.fail("attempts", fmt("%ld attempts, %ld accepted, %ld rejected, status %d", g("attempt"), acc, rej, r.status));
	if (c.family == "irk") {
		long d = g("attempt") - g("newton_success") - g("reject_newton");
		if (d < 0 || d > (fail ? 1 : 0)) o.fail("newton-balance", fmt("%ld attempts, %ld nonlinear solves succeeded, %ld failed, status %d", g("attempt"), g("newton_success"), g("reject_newton"), r.status));
		long why = g("newton_incr_diverge") + g("newton_iter_error_too_large") + g("newton_maxit_exceed");
		if (why != g("reject_newton")) o.fail("newton-causes", fmt("%ld failed nonlinear solves but %ld causes", g("reject_newton"), why));
		if (g("newton_success") < acc + g("reject_err") || g("newton_success") > acc + g("reject_err") + (fail ? 1 : 0))
			o.fail("newton-success", fmt("%ld successful nonlinear solves, %ld accepted and %ld rejected steps", g("newton_success"), acc, g("reject_err")));
		if (g("reject_newton")) o.probe("newton-rejected");
	}
	double want = g("attempt") > 0 ? double(acc)/double(g("attempt")) : r.accept_frac;
	if (!(std::fabs(r.accept_frac - want) <= 1e-12) || !(r.accept_frac >= 0 && r.accept_frac <= 1))
		o.fail("accept-frac", fmt("accepted fraction %.17g, %ld of %ld attempts were accepted", r.accept_frac, acc, g("attempt")));
	if (p.integer("also_interval")) {
		// the same run, recorded or streamed another way
		RkCfg c2 = c; c2.output_interval = p.integer("also_interval"); c2.store = p.integer("also_store") != 0;
		SimDisk disk; std::ostream out(&disk);
		Env e2; e2.load(p);
		Result r2 = run_rk(c2, &e2, pr, y0, p.integer("also_stream") ? RunIO(&out) : RunIO());
		check_sane(o, r2, e2, "run with other output options");
		if (r2.threw || r2.budget != r.budget) o.fail("output-counters", "recorded differently, the same run ends in another way");
		else {
			if (long(r2.count["fun_evals"]) != e2.n_fun || (c.family == "irk" && long(r2.count["jac_evals"]) != e2.n_jac))
				o.fail("fun-evals", fmt("recorded differently, %ld derivative evaluations are reported, %ld happened", long(r2.count["fun_evals"]), e2.n_fun));
			if (r2.count != r.count || r2.accept_frac != r.accept_frac)
				o.fail("output-counters", fmt("recorded at interval %ld the same run reports other counters: accepted fraction %.17g instead of %.17g", long(c2.output_interval), r2.accept_frac, r.accept_frac));
			o.probe("recorded-differently");
		}
	}
	if (g("reject_err")) o.probe("error-rejected");
	if (fail) o.probe("failed-runs");
	if (r.status == ST_MAX) o.probe("limit-hit");
	if (acc == 0) o.probe("no-steps");
}
static Registrar rc11("C11", c11_gen, c11_exec);

} // namespace sim
