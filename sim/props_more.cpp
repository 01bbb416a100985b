// C21 causality, C22 callback contract, C23 bounded memory, C24 diagnostics.
#include "props.hpp"
#include <iomanip>
#include <iostream>

namespace sim {

static const std::vector<std::string> NONFINITE = { "nan", "inf", "ninf" };
static const std::vector<std::string> THROWS = { "throw_std", "throw_odd", "throw_int", "throw_bad" };
static const std::vector<std::string> JACSOFT = { "scale", "noise", "stale", "zero", "bad" };

// The course of a run: what was asked for, how much was written by then.
struct Call { char kind; double t; dvec y; std::size_t bytes; };
struct Course { std::vector<Call> calls; };
static bool same_bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
static bool same_bits(const dvec &a, const dvec &b)
{
	if (a.size() != b.size()) return false;
	for (std::size_t i = 0; i < a.size(); ++i) if (!same_bits(a[i], b[i])) return false;
	return true;
}
static bool same_call(const Call &a, const Call &b) { return a.kind == b.kind && same_bits(a.t, b.t) && same_bits(a.y, b.y); }
static void follow(Env &e, Course &c, const SimDisk *disk)
{
	e.on_call = [&c, disk](char k, double t, const double *y, int n) {
		Call x; x.kind = k; x.t = t; x.y.assign(y, y + n); x.bytes = disk ? disk->data.size() : 0;
		c.calls.push_back(x);
	};
}
// number of leading calls two courses have in common
static std::size_t common(const Course &a, const Course &b)
{
	std::size_t n = std::min(a.calls.size(), b.calls.size()), i = 0;
	while (i < n && same_call(a.calls[i], b.calls[i])) ++i;
	return i;
}
static std::size_t count_lines(const std::string &d, std::size_t upto) { return std::size_t(std::count(d.begin(), d.begin() + long(std::min(upto, d.size())), '\n')); }
static bool rows_equal(const Result &a, const Result &b, std::size_t n)
{
	if (a.t.size() < n || b.t.size() < n || a.y.size() < n || b.y.size() < n) return false;
	for (std::size_t i = 0; i < n; ++i) if (!same_bits(a.t[i], b.t[i]) || !same_bits(a.y[i], b.y[i])) return false;
	if (!a.err.empty() || !b.err.empty()) {
		if (a.err.size() < n || b.err.size() < n || a.err_est.size() < n || b.err_est.size() < n || a.stages.size() < n || b.stages.size() < n) return false;
		for (std::size_t i = 0; i < n; ++i) if (!same_bits(a.err[i], b.err[i]) || !same_bits(a.err_est[i], b.err_est[i]) || !same_bits(a.stages[i], b.stages[i])) return false;
	}
	return true;
}

// ------------------------------------------------------------------ C21
static void c21_gen(Rng &r, Plan &p)
{
	double u = r.uni();
	std::string mode = u < 0.5 ? "fault" : u < 0.7 ? "budget" : "horizon";
	if (mode == "fault") gen_any(r, p, "");
	else if (mode == "budget" && r.chance(0.25)) gen_root(r, p, "");
	else if (mode == "budget") { GenOpt o; o.scale = true; o.max_fixed = 100; gen_rk(r, p, "", o); }
	else if (r.chance(0.8)) { GenOpt o; o.scale = true; o.max_fixed = 100; gen_rk(r, p, "", o); }
	else gen_ms(r, p, "");
	p.set("mode", mode);
	p.set("fun_budget", 60000L);
	Dry d = dry_any(p, "");
	if (r.chance(0.4)) add_fun_faults(r, p, "", d.fun, 2, NONFINITE, 4);
	if (d.jac > 0 && r.chance(0.25)) add_jac_faults(r, p, "", d.jac, 2, JACSOFT, 5);
	if (mode == "fault") {
		double v = r.uni();
		long cnt = r.chance(0.6) ? 1 : r.chance(0.5) ? -1 : r.range(2, 6);
		if (v < 0.25) p.fault("B.fun", pick_event(r, d.fun), NONFINITE[r.below(3)], -1, cnt);
		else if (v < 0.35) p.fault("B.fun", pick_event(r, d.fun), r.chance(0.5) ? "huge" : "max", -1, cnt);
		else if (v < 0.5) p.fault("B.fun", pick_event(r, d.fun), r.chance(0.3) ? "crash" : THROWS[r.below(4)], 3);
		else if (v < 0.75 && d.jac > 0) p.fault("B.jac", pick_event(r, d.jac), r.chance(0.5) ? JACSOFT[r.below(5)] : r.chance(0.5) ? std::string("nan") : THROWS[r.below(3)], r.logu(0.05, 20), cnt);
		else if (v < 0.9) p.fault("B.alloc", pick_event(r, d.alloc), "fail", 0, r.chance(0.7) ? 1 : -1);
		else p.fault("B.clock", r.below(std::max(1L, d.clock)), r.chance(0.5) ? "jump" : "stall", std::floor(r.logu(1e3, 1e10)));
	} else if (mode == "budget") p.set("cut", p.str("what") == "root" ? r.range(1, std::max(2L, std::min(d.steps, p.integer("maxit", 50)))) : r.chance(0.3) ? r.range(0, 5) : r.range(0, std::max(1L, d.steps + 2)));
	else {
		bool far = p.str("what") == "rk" && r.chance(0.3);
		if (far) p.set("cap", d.steps + r.range(1, 5));   // far later: as many steps as to the earlier end and a few more
		p.set("longer", far ? r.logu(10, 1e12) : r.chance(0.5) ? r.logu(1e-3, 1) : r.logu(1, 5));
	}
	if (p.str("what") == "rk") p.set("interval", r.chance(0.7) ? 1L : r.range(2, 4));
}
static void c21_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	std::string mode = p.str("mode");
	bool rk = p.str("what") == "rk";
	SimDisk da, db; std::ostream sa(&da), sb(&db);
	sa.precision(17); sb.precision(17);
	Course ca, cb;
	Plan pb = p;
	if (mode == "budget") {
		if (p.str("what") == "root") pb.set("maxit", std::min(p.integer("cut"), p.integer("maxit", 50)));
		else pb.set("max_steps", p.integer("cut"));
	}
	if (mode == "horizon") pb.set("t1", p.num("t1") + p.num("longer")*(p.num("t1") - p.num("t0")));
	if (p.has("cap")) pb.set("max_steps", p.integer("cap"));
	Env ea; ea.load(p); follow(ea, ca, rk ? &da : 0);
	AnyResult a = run_any(p, "", &ea, true, rk ? RunIO(&sa) : RunIO());
	Env eb; eb.load(pb); if (mode == "fault") eb.load_late(p, "B."); follow(eb, cb, rk ? &db : 0);
	AnyResult b = run_any(pb, "", &eb, true, rk ? RunIO(&sb) : RunIO());
	o.absorb(ea); o.absorb(eb); o.hash.u(a.hash); o.hash.u(b.hash); o.hash.s(db.data);
	if (ea.corrupt || eb.corrupt) o.fail("heap-overrun", "memory after an allocated block was overwritten");
	std::size_t same = common(ca, cb);
	if (mode == "fault") {
		std::size_t need = eb.late_at < 0 ? ca.calls.size() : std::size_t(eb.late_at);
		if (same < need) { o.fail("past-changed", fmt("a fault after %zu callbacks changes callback %zu", need, same + 1)); return; }
		if (eb.late_at < 0) {
			if (a.hash != b.hash || cb.calls.size() != ca.calls.size() || da.data != db.data) o.fail("past-changed", "a fault that never struck changes the result");
			o.probe("not-reached"); return;
		}
		if (need > 0) {
			std::size_t by = std::min(ca.calls[need-1].bytes, cb.calls[need-1].bytes);
			if (ca.calls[need-1].bytes != cb.calls[need-1].bytes || da.data.compare(0, by, db.data, 0, by) != 0)
				o.fail("past-output-changed", fmt("a fault after %zu callbacks changes what was streamed before", need));
			std::size_t n = rk ? 1 + count_lines(db.data, cb.calls[need-1].bytes) : 1;
			if (rk && !a.threw && !b.threw && !rows_equal(a.rk, b.rk, n)) o.fail("past-records-changed", fmt("a fault after %zu callbacks changes the %zu records made before", need, n));
			o.probe("rows-before-fault", long(n) - 1);
		}
		o.nontrivial = need > 1;
		return;
	}
	if (a.threw || b.threw) {
		// both end in the same way, or the shorter ends before that
		if (mode == "budget" && b.threw && (a.exc != b.exc)) o.fail("past-changed", "the run with a step budget ends in " + b.exc + ", without it " + (a.threw ? a.exc : "it returns"));
		o.probe("threw"); return;
	}
	if (mode == "budget") {
		if (same < cb.calls.size()) { o.fail("past-changed", fmt("a budget of %ld steps changes callback %zu of %zu", p.integer("cut"), same + 1, cb.calls.size())); return; }
		if (db.data.size() > da.data.size() || da.data.compare(0, db.data.size(), db.data) != 0) o.fail("past-output-changed", fmt("a budget of %ld steps changes what is streamed", p.integer("cut")));
		if (!rk) {
			o.nontrivial = b.root.iters > 1; o.probe("iterations-cut", b.root.iters < a.root.iters);
			return;
		}
		if (!rows_equal(a.rk, b.rk, b.rk.t.size())) o.fail("past-records-changed", fmt("a budget of %ld steps changes the records made within it", p.integer("cut")));
		for (auto &kv : b.rk.count) if (kv.second > a.rk.count[kv.first]) o.fail("counter-shrinks", kv.first + " is larger with a step budget than without");
		o.nontrivial = b.rk.t.size() > 1; o.probe("cut-short", b.status == ST_MAX);
		return;
	}
	// a later end: everything before the step that the earlier end cuts is the same
	double t1 = p.num("t1"), t0 = p.num("t0"), dt = p.num("dt");
	double md = p.num("max_dt", 0);
	if (rk && md > 0 && p.integer("adaptive") && has_embedded(p.str("family"), int(p.integer("method")))) dt = std::min(dt, md);
	if (t0 + dt > t1) { o.probe("first-step-cut"); return; }
	const std::string &fam = p.str("family");
	std::size_t n = 0;
	if (rk) {
		// methods with a stage at the end of the step show by their calls when a step goes beyond
		const RefTab *m = ref_tab(fam, int(p.integer("method")));
		bool at_end = false; for (double c : m->c) if (c == 1.0) at_end = true;
		bool ad = p.integer("adaptive") && has_embedded(fam, int(p.integer("method")));
		std::size_t cross = cb.calls.size();
		for (std::size_t i = 0; i < cb.calls.size(); ++i) if (cb.calls[i].t > t1) { cross = i; break; }
		std::size_t rows = 0; while (rows < b.rk.t.size() && b.rk.t[rows] <= t1) ++rows;
		if (at_end) {
			// the step that is cut asks for all of its stages again
			std::size_t own = cross < cb.calls.size() ? std::size_t(m->s) + 1 : 0;
			if (same + own < cross) o.fail("past-changed", fmt("a later end changes callback %zu, the first beyond the earlier end is number %zu", same + 1, cross + 1));
			std::size_t ls = cross < cb.calls.size() ? count_lines(db.data, cb.calls[cross].bytes) : count_lines(db.data, db.data.size());
			if (p.integer("interval", 1) == 1) rows = std::min(rows, ls + 1); else rows = std::min(rows, 1 + ls);
			n = rows;
		} else if (!ad) n = rows;
		if (n && !rows_equal(a.rk, b.rk, n)) o.fail("past-records-changed", fmt("a later end changes the %zu records made before", n));
	} else {
		while (n < b.rk.t.size() && n < a.rk.t.size() && b.rk.t[n] <= t1) ++n;
		// the bootstrap does not reach further with a later end once it is complete
		if (!rows_equal(a.rk, b.rk, n)) o.fail("past-records-changed", fmt("a later end changes the %zu records made before", n));
	}
	o.nontrivial = n > 1; o.probe("rows-before-end", long(n));
}
static Registrar rc21("C21", c21_gen, c21_exec);

// ------------------------------------------------------------------ C22
static void c22_gen(Rng &r, Plan &p)
{
	gen_any(r, p, "");
	p.set("fun_budget", 60000L);
	Dry d = dry_any(p, "");
	if (r.chance(0.5)) add_fun_faults(r, p, "", d.fun, 3, r.chance(0.8) ? NONFINITE : THROWS, 6);
	if (d.jac > 0 && r.chance(0.4)) add_jac_faults(r, p, "", d.jac, 2, JACSOFT, 6);
	if (r.chance(0.1)) p.fault("fun", pick_event(r, d.fun), "nan", -1, -1);
	if (r.chance(0.1)) p.fault("alloc", pick_event(r, d.alloc), "fail", 0, 1);
}
static void c22_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	std::string what = p.str("what"), fam = p.str("family");
	Env e; e.load(p);
	double lo = 1e300, hi = -1e300; bool bad_time = false, dirty = false, bad_arg = false; long late = 0;
	Env *ep = &e; bool running = true;
	e.on_call = [&](char, double t, const double *y, int n) {
		if (!running) ++late;
		if (!(t == t)) bad_time = true;
		lo = std::min(lo, t); hi = std::max(hi, t);
		if (!dirty) for (int i = 0; i < n; ++i) { if (!std::isfinite(y[i])) bad_arg = true; if (!(std::fabs(y[i]) < 1e30)) dirty = true; }
		if (!ep->fired.empty()) dirty = true;
	};
	AnyResult a = run_any(p, "", &e, true);
	running = false;
	o.absorb(e); o.hash.u(a.hash); o.hash.d(lo); o.hash.d(hi);
	const Result &r = a.rk;
	if (e.corrupt) o.fail("heap-overrun", "memory after an allocated block was overwritten");
	if (a.threw && a.exc.find("functor got") != std::string::npos) o.fail("wrong-size", "a callback got a vector of the wrong size");
	if (!a.inputs_ok) o.fail("inputs-changed", "an argument of the call was changed");
	if (bad_time) o.fail("time-not-a-number", "a callback was asked for at a time that is not a number");
	if (bad_arg && !dirty) o.fail("argument-not-finite", "a callback got a non-finite vector although nothing non-finite had happened");
	if (late) o.fail("called-later", "a callback was called after the call returned");
	o.nontrivial = e.n_fun > 1;
	double t0 = p.num("t0"), t1 = p.num("t1"), dt = p.num("dt");
	double sl = 4*std::max(ulp(t0), ulp(t1));
	long calls = e.n_fun + e.n_jac;
	if (what == "root") {
		if (calls && (lo != p.num("tfix") || hi != p.num("tfix"))) o.fail("outside", "a root solve called its function at another parameter");
		bool newton = p.str("which", "newton") == "newton";
		long maxit = p.integer("maxit", 50);
		if (!newton && e.n_jac) o.fail("jacobian-called", fmt("Broyden's method called the Jacobian %ld times", e.n_jac));
		long refresh = p.integer("refresh", 1);
		if (!a.threw) {
			// one evaluation to begin with and one for each iteration
			long it = a.root.iters;
			long jmax = newton ? (refresh > 0 ? it + 1 : 1) : 0;
			if (e.n_fun > it + 1 || e.n_jac > jmax) o.fail("too-many-calls", fmt("%ld function and %ld Jacobian evaluations in %ld iterations", e.n_fun, e.n_jac, it));
			o.probe("calls-bounded");
		}
		if (e.n_fun > maxit + 2 || e.n_jac > maxit + 2) o.fail("too-many-calls", fmt("%ld function and %ld Jacobian evaluations within %ld iterations", e.n_fun, e.n_jac, maxit));
		return;
	}
	if (calls != r.functor_calls) o.fail("another-functor", fmt("%ld callbacks were made, %ld of them on the functor object passed in", calls, r.functor_calls));
	if (what == "ms") {
		double end = std::max(t1, t1 + dt*(1 + 1e-9)) + sl;
		if (t0 + dt > t1) end = t1 + sl;
		if (calls && (lo < t0 - sl || hi > end + dt*1e-9)) o.fail("outside", fmt("a callback was called at time %.17g, the grid covers %.17g to %.17g", lo < t0 - sl ? lo : hi, t0, end));
		if (fam == "ab" && p.integer("order") == 1 && e.n_jac) o.fail("jacobian-called", "the Adams-Bashforth method of order one called the Jacobian");
		return;
	}
	if (calls && (lo < t0 - sl || hi > t1 + sl)) o.fail("outside", fmt("a callback was called at time %.17g, the interval is %.17g to %.17g", lo < t0 - sl ? lo : hi, t0, t1));
	if (fam == "erk" && e.n_jac) o.fail("jacobian-called", fmt("an explicit method called the Jacobian %ld times", e.n_jac));
	if (a.threw) return;
	const RefTab *m = ref_tab(fam, int(p.integer("method")));
	if (!m) return;
	long at = long(const_cast<Result &>(r).count["attempt"]), s = m->s;
	if (fam == "erk") {
		// a method whose last stage is the first of the next step evaluates one less
		long most = m->fsal ? (s - 1)*at + 1 + e.n_fun_nonfinite : s*at;
		if (e.n_fun > most) o.fail("too-many-calls", fmt("%ld evaluations in %ld attempts of a method with %ld stages", e.n_fun, at, s));
		o.probe("calls-bounded");
	} else {
		double maxit = double(p.integer("nmaxit", 40));
		double per = maxit*(2 + double(at)/16);
		if (double(e.n_fun) > double(at)*(double(s)*(per + 1) + 2) + 2) o.fail("too-many-calls", fmt("%ld evaluations in %ld attempts of a method with %ld stages and at most %g iterations", e.n_fun, at, s, per));
		long rf = p.integer("nrefresh", 5);
		double jper = rf > 0 ? 1 + per/double(rf) : 1;
		if (double(e.n_jac) > double(at)*jper) o.fail("too-many-calls", fmt("%ld Jacobian evaluations in %ld attempts", e.n_jac, at));
		o.probe("calls-bounded");
	}
}
static Registrar rc22("C22", c22_gen, c22_exec);

// ------------------------------------------------------------------ C23
static void c23_gen(Rng &r, Plan &p)
{
	if (r.chance(0.2)) {
		gen_root(r, p, "");
		p.set("tol", 1e-300); p.set("dx", 1e-300); p.set("maxit", r.range(600, 3000));
		if (r.chance(0.5)) p.set("max_step", r.logu(1e-3, 1e-1));
		p.set("kind", std::string(r.chance(0.5) ? "forced" : "matrix"));
		p.set("n", r.chance(0.3) ? r.range(5, 20) : r.range(1, 4));
		if (r.chance(0.5)) { p.fault("jac", 0, "scale", r.logu(3, 100), -1); }
		p.set("quiet", r.chance(0.7) ? 1L : 0L);
		p.set("fun_budget", 100000L);
		return;
	}
	GenOpt o; o.hard = false; o.scale = true; o.max_fixed = 60;
	gen_rk(r, p, "", o);
	const char *kinds[] = { "decay", "osc", "forced", "polyt", "logistic", "zero" };
	p.set("kind", std::string(kinds[r.below(6)])); p.set("n", r.chance(0.1) ? r.range(17, 24) : r.range(1, 3)); p.set("a", r.uni(0.3, 2));
	bool irk = p.str("family") == "irk";
	if (irk && p.integer("n") > 3) p.set("n", 3L);
	double len = p.num("t1") - p.num("t0");
	long N = irk ? r.range(400, 900) : r.range(800, 3000);
	bool ad = p.integer("adaptive") && has_embedded(p.str("family"), int(p.integer("method")));
	p.set("dt", len/double(N));
	if (ad) p.set("max_dt", len/double(N));
	p.set("store", 0L);
	p.set("stream", r.chance(0.5) ? 1L : 0L);
	if (r.chance(0.3)) { p.set("store", 1L); p.set("interval", 1000000L); }
	p.set("fun_budget", 400000L);
	if (ad && r.chance(0.4)) {
		// steps keep being rejected
		long at = r.below(400);
		if (r.chance(0.5)) for (int i = 0; i < 40; ++i) { p.fault("fun", at, NONFINITE[r.below(3)], -1, 1); at += r.range(20, 400); }
		else p.fault("fun", at, r.chance(0.5) ? NONFINITE[r.below(3)] : std::string("huge"), -1, irk ? -r.range(40, 150) : -r.range(12, 60));
	}
	if (irk && r.chance(0.3)) p.fault("jac", r.below(300), JACSOFT[r.below(5)], r.logu(0.5, 20), r.chance(0.5) ? -1 : 200);
	if (irk) p.set("nmaxit", r.range(5, 12));
}
static void c23_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	NullBuf nb; std::ostream sink(&nb);
	bool rk = p.str("what") == "rk";
	Env e; e.load(p);
	std::vector<long long> use;
	e.on_call = [&](char, double, const double *, int) { use.push_back(e.live_bytes); };
	AnyResult a = run_any(p, "", &e, true, rk && p.integer("stream") ? RunIO(&sink) : RunIO());
	o.absorb(e); o.hash.u(a.hash);
	if (e.corrupt) o.fail("heap-overrun", "memory after an allocated block was overwritten");
	std::size_t n = use.size();
	if (n < 400) { o.probe("too-short"); return; }
	long long early = 0, late = 0;
	for (std::size_t i = n/10; i < n*4/10; ++i) early = std::max(early, use[i]);
	for (std::size_t i = n*6/10; i < n; ++i) late = std::max(late, use[i]);
	if (late > early + 1000) o.fail("memory-grows", fmt("%lld bytes are in use late in a run of %zu callbacks, %lld early on, although nothing is stored", late, n, early));
	if (!a.threw && a.live_after > 0) { // once may be a table that stays
		Env e2; e2.load(p);
		a.live_after = run_any(p, "", &e2, true, rk && p.integer("stream") ? RunIO(&sink) : RunIO()).live_after;
	}
	if (!a.threw && a.live_after > 0) o.fail("leak", fmt("%ld blocks are still allocated after the call", a.live_after));
	o.hash.u(u64(late)); o.nontrivial = true;
	o.probe("bytes-in-use", long(late)); o.probe("callbacks-sampled", long(n));
	o.probe(rk ? (a.threw ? "threw" : "integrations") : "root-solves");
	if (rk && !a.threw) { o.probe("steps-attempted", long(a.rk.count["attempt"])); o.probe("steps-rejected", long(a.rk.count["reject_err"])); }
}
static Registrar rc23("C23", c23_gen, c23_exec);

// ------------------------------------------------------------------ C24
struct IosState {
	std::ios::fmtflags f; std::streamsize pr, w; char fill; std::ios::iostate ex, st; std::streambuf *b; std::ostream *tie;
	explicit IosState(std::ostream &s) : f(s.flags()), pr(s.precision()), w(s.width()), fill(s.fill()), ex(s.exceptions()), st(s.rdstate()), b(s.rdbuf()), tie(s.tie()) {}
	std::string diff(const IosState &x) const
	{
		if (f != x.f) return fmt("format flags %lx became %lx", (unsigned long)f, (unsigned long)x.f);
		if (pr != x.pr) return fmt("precision %ld became %ld", long(pr), long(x.pr));
		if (w != x.w && w == 0 && st == std::ios::goodbit) return fmt("width became %ld", long(x.w));
		if (fill != x.fill) return "the fill character changed";
		if (ex != x.ex) return "the exception mask changed";
		if (st != x.st) return fmt("state %d became %d", int(st), int(x.st));
		if (b != x.b) return "the buffer was exchanged";
		if (tie != x.tie) return "the tied stream changed";
		return "";
	}
};
static void preset(std::ostream &s, long k)
{
	switch (k) {
	case 1: s.precision(3); s << std::fixed; break;
	case 2: s.precision(12); s << std::scientific << std::showpos; break;
	case 3: s << std::hexfloat; break;
	case 4: s.fill('*'); s << std::left << std::uppercase; break;
	case 5: s << std::hex << std::showbase << std::boolalpha; s.precision(2); break;
	case 7: s.setstate(std::ios::failbit); break;
	case 8: s.exceptions(std::ios::badbit); s.tie(0); break;
	case 6: s << std::unitbuf << std::internal << std::showpoint; break;
	default: break;
	}
}
static void c24_gen(Rng &r, Plan &p)
{
	gen_any(r, p, "");
	p.set("fun_budget", 60000L);
	Dry d = dry_any(p, "");
	if (r.chance(0.4)) add_fun_faults(r, p, "", d.fun, 2, r.chance(0.8) ? NONFINITE : THROWS, 4);
	if (d.jac > 0 && r.chance(0.2)) add_jac_faults(r, p, "", d.jac, 2, JACSOFT, 5);
	if (r.chance(0.1)) p.fault("fun", pick_event(r, d.fun), "nan", -1, -1);
	p.p.erase("log"); p.p.erase("timings"); p.set("quiet", 1L);
	std::string what = p.str("what");
	p.set("B.log", r.chance(0.8) ? r.range(1, 6) : 0L);
	p.set("B.timings", r.chance(0.6) ? 1L : 0L);
	p.set("B.quiet", 0L);
	p.set("pre_out", long(r.below(9))); p.set("pre_err", long(r.below(9))); p.set("pre_file", long(r.below(9)));
	p.set("stream", r.chance(0.8) ? 1L : 0L);
	if (r.chance(0.3)) p.set("interval", r.range(1, 5));
	if (r.chance(0.5)) p.set("fun_cost", std::floor(r.logu(1, 3e6)));
	else if (r.chance(0.3)) { p.set("fun_cost", 0L); p.set("jac_cost", 0L); p.set("read_cost", 0L); }   // a clock too coarse to show anything
	if (r.chance(0.25)) {
		int k = int(r.range(1, 3));
		for (int i = 0; i < k; ++i) {
			double big = std::floor(r.logu(1e3, 1e11));
			if (r.chance(0.3)) p.fault("clock", r.below(200), "stall", big);
			else p.fault("clock", r.chance(0.5) ? r.below(6) : r.below(200), "jump", r.chance(0.5) ? big : -big);
		}
	}
	p.set("table", r.chance(0.3) ? 1L : 0L);
}
void print_table(int method, std::ostream &out);       // glue_irk.cpp
static void c24_exec(const Plan &p, Outcome &o)
{
	std::string what = p.str("what");
	AnyResult a[3]; u64 h[3]; std::string file[3], text[3]; std::string left[3];
	for (int k = 0; k < 3; ++k) {
		if (k == 2 && a[1].live_after <= 0) break;         // once may be a table that stays
		SimDisk co, ce, d; StdioScope io(&co, &ce); std::ostream out(&d);
		preset(std::cout, p.integer("pre_out")); preset(std::cerr, p.integer("pre_err")); preset(out, p.integer("pre_file"));
		IosState so(std::cout), se(std::cerr), sf(out);
		Plan x = p;
		if (k >= 1) { x.set("log", p.integer("B.log")); x.set("timings", p.integer("B.timings")); x.set("quiet", p.integer("B.quiet")); }
		if (k >= 1 && x.integer("log") == 0) x.p.erase("log");
		Env e; e.load(x);
		a[k] = run_any(x, "", &e, false, what == "rk" && p.integer("stream") ? RunIO(&out) : RunIO());
		h[k] = e.hist.h; file[k] = d.data; text[k] = co.data + ce.data;
		if (p.integer("table") && what == "rk" && p.str("family") == "irk") { EnvScope es(&e); print_table(int(p.integer("method")), out); print_table(int(p.integer("method")), std::cout); }
		std::string w;
		if (!(w = so.diff(IosState(std::cout))).empty()) left[k] = "std::cout: " + w;
		else if (!(w = se.diff(IosState(std::cerr))).empty()) left[k] = "std::cerr: " + w;
		else if (!(w = sf.diff(IosState(out))).empty()) left[k] = "the output stream: " + w;
		if (!left[k].empty()) o.fail("stream-state", fmt("after a call %s diagnostics: ", k ? "with" : "without") + left[k]);
		if (k == 1) { o.absorb(e); o.hash.u(a[k].hash); o.hash.s(file[k]); o.hash.s(text[k]); }
		if (e.corrupt) o.fail("heap-overrun", "memory after an allocated block was overwritten");
	}
	if (a[0].hash != a[1].hash) o.fail("diagnostics-change-result", fmt("with diagnostics on the run %s, status %d; without it %s, status %d", a[1].threw ? a[1].exc.c_str() : "returns", a[1].status, a[0].threw ? a[0].exc.c_str() : "returns", a[0].status));
	if (h[0] != h[1]) o.fail("diagnostics-change-calls", "with diagnostics on other callbacks are made");
	if (file[0] != file[1]) o.fail("diagnostics-change-output", "with diagnostics on other output is streamed");
	if (a[1].live_after > 0 && a[2].live_after > 0) o.fail("leak", "with diagnostics on memory is left allocated");
	o.nontrivial = text[0] != text[1];
	o.probe("diagnostics-printed", text[1].size() > text[0].size()); o.probe(a[1].threw ? "threw" : a[1].status == ST_SUCCESS ? "success" : "reported-failure");
}
static Registrar rc24("C24", c24_gen, c24_exec);

} // namespace sim
