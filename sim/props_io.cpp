// C08 timing, C09 streaming, C10 failing sinks, C13 crash and resume, merging.
#include "props.hpp"
#include <iomanip>
#include <iostream>

namespace sim {

static const std::vector<std::string> NONFINITE = { "nan", "inf", "ninf" };

// ------------------------------------------------------------------ C08
static void clock_faults(Rng &r, Plan &p, const std::string &q, long n_clock, long n_fun, bool jumps)
{
	int k = int(r.range(1, 5));
	for (int i = 0; i < k; ++i) {
		double big = r.chance(0.5) ? r.logu(1e3, 1e7) : r.logu(1e6, r.chance(0.2) ? 1e14 : 1e11);
		if (jumps && r.chance(0.6)) p.fault(q + "clock", r.chance(0.5) ? r.below(4) : r.below(std::max(1L, n_clock)), "jump", std::floor(r.chance(0.5) ? big : -big));
		else if (r.chance(0.5)) p.fault(q + "clock", r.below(std::max(1L, n_clock)), "stall", std::floor(r.logu(10, 3e9)));
		else p.fault(q + "fun", pick_event(r, n_fun), "stall", std::floor(r.logu(10, 3e9)), r.range(1, 5));
	}
}
static void c08_gen(Rng &r, Plan &p)
{
	double u = r.uni();
	if (u < 0.25) {
		p.set("mode", std::string("timer"));
		std::string s; const char ops[] = "tomgeEDwwjot";
		int n = int(r.range(4, 25));
		for (int i = 0; i < n; ++i) { s += ops[r.below(12)]; if (r.chance(0.4)) s += 'w'; }
		p.set("script", s);
		for (int i = 0; i < 6; ++i) p.set(fmt("w%d", i), std::floor(r.chance(0.5) ? r.logu(1, 3e6) : r.logu(1e5, r.chance(0.2) ? 1e14 : 1e10)));
		p.set("out", r.chance(0.4) ? 1L : 0L);
		p.set("now", std::floor(r.uni(0, 3e6)));
		return;
	}
	GenOpt o; o.scale = true; o.max_fixed = 80;
	if (u < 0.85) gen_rk(r, p, "", o); else gen_any(r, p, "");
	p.set("mode", std::string("run"));
	p.set("now", r.chance(0.5) ? std::floor(r.uni(0, 3e6)) : 1e6 - std::floor(r.uni(0, 5000)));
	if (p.str("family") == "irk") p.set("timings", r.chance(0.6) ? 1L : 0L);
	if (r.chance(0.5)) p.set("fun_cost", std::floor(r.logu(1, 3e6)));
	if (r.chance(0.5)) p.set("jac_cost", std::floor(r.logu(1, 3e6)));
	p.set("fun_budget", 60000L);
	Dry d = dry_any(p, "");
	bool jumps = r.chance(0.5);
	p.set("jumps", long(jumps));
	if (r.chance(0.75)) clock_faults(r, p, "", d.clock, d.fun, jumps);
	if (r.chance(0.3)) add_fun_faults(r, p, "", d.fun, 2, NONFINITE, 3);
	if (r.chance(0.1)) p.fault("fun", pick_event(r, d.fun), "nan", -1, -1);
	if (r.chance(0.15) && p.str("what") == "rk") p.set("max_steps", r.range(0, 20));
}
static bool is_difference(const Env &e, double ms, const std::vector<long> &from, const std::vector<long> &to)
{
	for (long i : from) for (long j : to) {
		if (j < i) continue;
		double a = double(e.reads[j].wall - e.reads[i].wall)*1e-3, b = double(e.reads[j].mono - e.reads[i].mono)*1e-3;
		double tol = 1e-6 + 1e-12*std::fabs(a);
		if (std::fabs(ms - a) <= tol || std::fabs(ms - b) <= tol + 1e-12*std::fabs(b)) return true;
	}
	return false;
}
// The number in front of a unit in what the stopwatch printed.
static bool printed(const std::string &text, const std::string &unit, double &v)
{
	std::size_t e = text.find(unit); if (e == std::string::npos || e == 0) return false;
	std::size_t b = e;
	while (b > 0 && std::strchr("0123456789.eE+-", text[b-1])) --b;
	if (b == e) return false;
	char *q; std::string s = text.substr(b, e - b); v = strtod(s.c_str(), &q);
	return *q == 0;
}
static void c08_timer(const Plan &p, Outcome &o)
{
	Env e; e.load(p); e.record_reads = true; e.now_us = p.integer("now", 1000000);
	std::vector<TimerOp> log;
	dvec w; for (int i = 0; i < 6; ++i) w.push_back(p.num(fmt("w%d", i), 1000));
	run_timer(p.str("script"), w, p.integer("out") != 0, &e, log);
	bool out = p.integer("out") != 0, second = false;
	long r0 = -1, r1 = -1, g0 = -1, g1 = -1, n = 0;
	for (auto &t : log) {
		std::vector<long> now, since;
		for (long i = t.read_before; i < t.read_after; ++i) now.push_back(i);
		if (t.op == 'c' || t.op == 't') {
			r0 = t.read_before; r1 = t.read_after;
			if (now.empty()) o.fail("timer-start", fmt("operation '%c' did not look at the clock", t.op));
		}
		if (t.op == 'g') { g0 = r0; g1 = r1; }
		if (t.op == 'o' || t.op == 'm' || t.op == 'e') {
			long a = t.op == 'e' ? g0 : r0, b = t.op == 'e' ? g1 : r1;
			for (long i = a; i < b; ++i) since.push_back(i);
			++n;
			if (!is_difference(e, t.value, since, now)) {
				double want = now.empty() || since.empty() ? -1 : double(e.reads[now[0]].wall - e.reads[since[0]].wall)*1e-3;
				o.fail("stopwatch", fmt("operation '%c' returned %.9g ms, %.9g ms passed since the last start", t.op, t.value, want));
				break;
			}
			if (t.op != 'e' && out && t.text.empty()) o.fail("timer-output", "output is enabled but nothing was printed");
			if (t.op == 'm' && out && t.text.find("message") == std::string::npos) o.fail("timer-output", "the message is missing from the output: " + t.text);
			if (t.op == 'm' && out && t.text.find("after") == std::string::npos) o.fail("timer-output", "the message for after the time is missing from the output: " + t.text);
			if (t.op != 'e' && out && second != (t.second == t.text)) o.fail("timer-output", "the time was printed to the wrong stream: " + t.text);
			double v;
			if (t.op != 'e' && out && printed(t.text, " ms", v)) {
				o.probe("printed-times");
				if (std::fabs(v - t.value) > 1e-4*std::fabs(t.value) + 1e-9) o.fail("timer-output", fmt("%.9g ms were returned but this was printed: ", t.value) + t.text);
				if (printed(t.text, " s)", v) && std::fabs(v - t.value*1e-3) > 1e-7*std::fabs(t.value) + 1e-9) o.fail("timer-output", fmt("%.9g ms were returned but this was printed: ", t.value) + t.text);
			}
		}
		if (t.op == 'E') out = second = true;
		if (t.op == 'D') out = false;
		if (!out && !t.text.empty()) o.fail("timer-output", "output is disabled but this was printed: " + t.text);
		o.hash.d(t.value); o.hash.s(t.text);
	}
	o.absorb(e); o.nontrivial = n > 0;
	for (std::size_t i = 0; i + 1 < e.reads.size(); ++i) if (e.reads[i].wall/1000000 != e.reads[i+1].wall/1000000) { o.probe("second-boundary-crossed"); break; }
	o.probe("stopwatch-readings", n); o.shape.s(p.str("script"));
}
static void check_breakdown(Outcome &o, const std::string &text, double elapsed)
{
	std::istringstream in(text); std::string l;
	std::vector<double> v, pc; double scale = 1; bool head = false;
	while (std::getline(in, l)) {
		if (l.find("timings (") != std::string::npos) { head = true; scale = l.find("timings (ms") != std::string::npos ? 1 : 1000; v.clear(); pc.clear(); continue; }
		std::size_t c = l.find(':'), b = l.find('|');
		if (!head || c == std::string::npos || b == std::string::npos || b < c) continue;
		char *e1, *e2; std::string s1 = l.substr(c + 1, b - c - 1), s2 = l.substr(b + 1);
		double a = strtod(s1.c_str(), &e1), q = strtod(s2.c_str(), &e2);
		if (e1 == s1.c_str()) continue;
		v.push_back(a*scale); pc.push_back(q);
	}
	if (!head || v.size() < 2) { o.probe("breakdown-not-found"); return; }
	o.probe("breakdowns-checked"); if (scale > 1) o.probe("breakdown-in-seconds");
	double sum = 0, slack = 0;
	for (std::size_t i = 1; i < v.size(); ++i) { sum += v[i]; slack += 0.006*std::fabs(v[i]) + 1e-3; }
	if (std::fabs(sum - v[0]) > slack + 1e-3*v[0]) o.fail("breakdown-sum", fmt("the parts of the timing breakdown add up to %.6g ms, its total says %.6g ms", sum, v[0]));
	if (v[0] > elapsed*1.001 + 1e-3) o.fail("breakdown-total", fmt("the timing breakdown totals %.6g ms, the whole integration took %.6g ms", v[0], elapsed));
	for (std::size_t i = 1; i < v.size(); ++i) {
		if (v[i] < -1e-9) o.fail("breakdown-negative", fmt("part %zu of the timing breakdown is negative", i));
		if (v[0] > 0 && std::fabs(pc[i] - 100*v[i]/v[0]) > 0.02*std::fabs(pc[i]) + 0.01) o.fail("breakdown-percent", fmt("part %zu of the timing breakdown is %.4g ms of %.4g ms but is called %.4g percent", i, v[i], v[0], pc[i]));
	}
}
static void c08_exec(const Plan &p, Outcome &o)
{
	if (p.str("mode") == "timer") { c08_timer(p, o); return; }
	SimDisk so, se; StdioScope io(&so, &se);
	Env e; e.load(p); e.record_reads = true; e.now_us = p.integer("now", 1000000);
	AnyResult a = run_any(p, "", &e);
	std::string err = se.data;
	long total = e.n_fun + e.n_jac;
	check_sane(o, a.rk, e, "run");
	o.absorb(e); o.hash.u(a.hash);
	bool rk = p.str("what") == "rk";
	if (rk && !a.threw) {
		o.hash.d(a.rk.elapsed);
		std::vector<long> from, to;
		for (long i = 0; i < long(e.reads.size()); ++i) {
			if (e.reads[i].n_cb == 0) from.push_back(i);
			if (e.reads[i].n_cb == total) to.push_back(i);
		}
		if (from.empty() || to.empty()) o.fail("elapsed", fmt("the clock was not read before the first and after the last of %ld callbacks", total));
		else if (!is_difference(e, a.rk.elapsed, from, to))
			o.fail("elapsed", fmt("elapsed time reported as %.9g ms, the clock went on by %.9g ms (status %d)", a.rk.elapsed, double(e.reads[to.back()].wall - e.reads[from[0]].wall)*1e-3, a.rk.status));
		if (!p.integer("jumps") && p.str("family") == "irk" && p.integer("timings")) check_breakdown(o, err, a.rk.elapsed);
		o.probe("elapsed-checked");
		if (e.reads.front().wall/1000000 != e.reads.back().wall/1000000) o.probe("second-boundary-crossed");
		if (a.status != ST_SUCCESS) o.probe("elapsed-of-failed-run");
	}
	// the same with a smooth clock and quick callbacks
	Plan sm = p; sm.f.clear();
	for (auto &f : p.f) if (f.seam != "clock" && f.act != "stall") sm.f.push_back(f);
	sm.set("fun_cost", 1L); sm.set("jac_cost", 1L);
	Env e2; e2.load(sm);
	AnyResult b = run_any(sm, "", &e2);
	if (b.hash != a.hash || e2.hist.h != e.hist.h) o.fail("clock-dependent", "the result differs from that under a smooth clock");
	o.nontrivial = total > 1;
}
static Registrar rc08("C08", c08_gen, c08_exec);

// ------------------------------------------------------------------ C09
struct Fmt { int prec; int mode; };
static void apply(std::ostream &s, const Fmt &f)
{
	s.precision(f.prec);
	if (f.mode == 1) s << std::scientific;
	if (f.mode == 2) s << std::fixed;
	if (f.mode == 3) s << std::showpos;
}
static bool close_to(double got, double want, const Fmt &f)
{
	if (got == want) return true;
	double tol = f.mode == 2 ? 0.51*std::pow(10.0, -f.prec) : 0.51*std::pow(10.0, 1 - f.prec - (f.mode == 1 ? 1 : 0))*std::fabs(want);
	// the leading digit may be anything from 1 to 9
	return std::fabs(got - want) <= tol*1.0000001 + 4*ulp(want) + 1e-300;
}
static bool split_line(const std::string &l, dvec &v)
{
	v.clear();
	const char *s = l.c_str();
	while (*s) {
		while (*s == ' ' || *s == '\t' || *s == ',' || *s == ';') ++s;
		if (!*s) break;
		char *e; double x = strtod(s, &e);
		if (e == s) return false;
		v.push_back(x); s = e;
	}
	return true;
}
static std::vector<std::string> lines_of(const std::string &d, bool &complete)
{
	std::vector<std::string> r; std::size_t pos = 0;
	complete = d.empty() || d[d.size()-1] == '\n';
	while (pos < d.size()) {
		std::size_t e = d.find('\n', pos);
		if (e == std::string::npos) break;
		r.push_back(d.substr(pos, e - pos)); pos = e + 1;
	}
	return r;
}
static void c09_gen(Rng &r, Plan &p)
{
	GenOpt o; o.scale = true; o.cls = "stiff";
	gen_rk(r, p, "", o);
	long iv[] = { 1, 1, 2, 3, 5, 7, 10, 100 };
	p.set("interval", iv[r.below(8)]);
	p.set("store", r.chance(0.6) ? 1L : 0L);
	long pr[] = { 6, 6, 3, 10, 17 };
	p.set("prec", pr[r.below(5)]); p.set("fmode", long(r.below(4)));
	p.set("stream", r.chance(0.9) ? 1L : 0L);
	if (r.chance(0.5)) {
		// the same state by another sequence of calls
		std::string s; const char ops[] = "ddees sx";
		for (int i = 0, k = int(r.range(0, 5)); i < k; ++i) s += ops[r.below(8)];
		s += r.chance(0.5) ? (p.integer("store") ? "es" : "ds") : (p.integer("store") ? "se" : "sd");
		if (r.chance(0.4)) s += p.integer("store") ? "e" : "d";
		if (r.chance(0.2)) s += "s";
		if (p.integer("store") && r.chance(0.3)) s = r.chance(0.5) ? "s" : "xs";       // storing is on by default
		p.set("optscript", s);
	}
	if (r.chance(0.15)) p.set("max_steps", r.range(0, 40));
	if (r.chance(0.6)) {
		Dry d = dry_rk(p, "");
		add_fun_faults(r, p, "", d.fun, 3, NONFINITE, 4);
		if (p.str("family") == "irk" && r.chance(0.3)) add_jac_faults(r, p, "", d.jac, 2, { "scale", "zero", "bad", "noise" }, 6);
		if (r.chance(0.1)) p.fault("fun", pick_event(r, d.fun), "nan", -1, -1);
	}
}
static void c09_exec(const Plan &p, Outcome &o)
{
	SimDisk co, ce; StdioScope io(&co, &ce);
	Problem pr = Problem::from(p); dvec y0 = pr.y0(p);
	RkCfg c = RkCfg::from(p);
	RkCfg cr = c; cr.output_interval = 1; cr.store = true; cr.optscript.clear();
	Env e0; e0.load(p);
	Result ref = run_rk(cr, &e0, pr, y0);
	check_sane(o, ref, e0, "reference run");
	std::string co0 = co.data; co.data.clear();
	SimDisk disk; std::ostream out(&disk);
	Fmt f = { int(p.integer("prec", 6)), int(p.integer("fmode", 0)) };
	apply(out, f);
	bool stream = p.integer("stream", 1) != 0;
	Env e; e.load(p);
	Result r = run_rk(c, &e, pr, y0, stream ? RunIO(&out) : RunIO());
	check_sane(o, r, e, "run");
	o.absorb(e); o.hash.u(r.numeric_hash(true)); o.hash.s(disk.data);
	if (r.threw != ref.threw || r.exc != ref.exc || e.hist.h != e0.hist.h || e.n_fun != e0.n_fun) {
		o.fail("output-changes-integration", fmt("evaluations differ from those of a run with default output options (%ld and %ld)", e.n_fun, e0.n_fun)); return;
	}
	if (r.threw) { o.probe("threw"); return; }
	if (r.status != ref.status || r.count != ref.count || r.accept_frac != ref.accept_frac)
		o.fail("output-changes-integration", "status, counters or accepted fraction differ from those of a run with default output options");
	std::size_t n = std::size_t(c.output_interval), K = ref.t.size() - 1;
	// the records
	if (c.store) {
		std::vector<std::size_t> idx(1, 0);
		for (std::size_t i = n; i <= K; i += n) idx.push_back(i);
		if (r.t.size() != idx.size()) o.fail("stored-records", fmt("%zu records stored, every %zu-th of %zu steps makes %zu with the initial one", r.t.size(), n, K, idx.size()));
		else for (std::size_t i = 0; i < idx.size(); ++i) {
			std::size_t q = idx[i];
			if (r.t[i] != ref.t[q] || i >= r.y.size() || r.y[i] != ref.y[q] || i >= r.err.size() || r.err[i] != ref.err[q] || i >= r.err_est.size() || r.err_est[i] != ref.err_est[q] ||
			    i >= r.stages.size() || r.stages[i] != ref.stages[q]) {
				o.fail("stored-records", fmt("record %zu is not accepted step %zu", i, q)); break;
			}
		}
		if (r.y.size() != r.t.size() || r.err.size() != r.t.size() || r.err_est.size() != r.t.size() || r.stages.size() != r.t.size())
			o.fail("stored-records", "records of different kinds differ in number");
	} else if (r.t.size() > 1 || r.y.size() > 1 || r.err.size() > 1 || r.err_est.size() > 1 || r.stages.size() > 1)
		o.fail("stored-when-disabled", fmt("%zu records stored although storing is disabled", r.t.size()));
	// the stream
	if (stream) {
		bool complete; std::vector<std::string> ls = lines_of(disk.data, complete);
		if (!complete) o.fail("stream", "the streamed output does not end with a complete line");
		if (ls.size() != K/n) o.fail("stream", fmt("%zu lines streamed, every %zu-th of %zu accepted steps makes %zu", ls.size(), n, K, K/n));
		for (std::size_t i = 0; i < ls.size() && (i + 1)*n <= K; ++i) {
			std::size_t q = (i + 1)*n; dvec v;
			bool ok = split_line(ls[i], v) && v.size() == y0.size() + 1 && close_to(v[0], ref.t[q], f);
			for (std::size_t k = 0; ok && k < y0.size(); ++k) ok = close_to(v[k+1], ref.y[q][k], f);
			if (!ok) { o.fail("stream", fmt("line %zu of the stream is not step %zu (time %.9g, first component %.9g): ", i + 1, q, ref.t[q], ref.y[q][0]) + ls[i].substr(0, 120)); break; }
		}
		if (!out.good()) o.fail("stream", "the output stream is left in a failed state");
		o.probe("lines-checked", long(ls.size()));
	} else if (!disk.data.empty()) o.fail("stream", "something was written to a stream that was not set");
	o.nontrivial = K > n;
	if (ref.count["reject_err"]) o.probe("with-rejected-steps");
	if (!c.store) o.probe("store-disabled");
}
static Registrar rc09("C09", c09_gen, c09_exec);

// ------------------------------------------------------------------ C10
static void c10_gen(Rng &r, Plan &p)
{
	if (r.chance(0.75)) {
		GenOpt o; o.max_fixed = 80; gen_rk(r, p, "", o);
		p.set("interval", r.chance(0.7) ? 1L : r.range(2, 4)); p.set("store", r.chance(0.8) ? 1L : 0L);
		if (r.chance(0.6)) p.set("log", r.range(1, 4));
	} else { gen_any(r, p, ""); if (p.str("what") == "root") p.set("quiet", 0L); }
	p.set("fun_budget", 60000L);
	const char *sinks[] = { "file", "out", "err" };
	int k = int(r.range(1, 3));
	for (int i = 0; i < k; ++i) {
		std::string s = sinks[i == 0 && p.str("what") == "rk" ? 0 : r.below(3)];
		double u = r.uni();
		if (u < 0.2) p.fault(s, r.chance(0.3) ? 0 : r.below(3000), "full", 0);
		else if (u < 0.45) p.fault(s, r.below(60), "fail", 0, r.chance(0.5) ? -1 : r.range(1, 5));
		else if (u < 0.7) p.fault(s, r.below(60), "short", 0, r.chance(0.5) ? -1 : r.range(1, 5));
		else if (u < 0.85) p.fault(s, r.below(60), "throw", 0);
		else p.fault(s, 0, "preset", double(r.below(3)));
	}
	if (r.chance(0.4)) {
		Dry d = dry_any(p, "");
		add_fun_faults(r, p, "", d.fun, 2, NONFINITE, 3);
	}
}
static void arm(SimDisk &d, std::ostream &s, const Plan &p, const std::string &seam)
{
	for (auto &f : p.f) {
		if (f.seam != seam) continue;
		if (f.act == "full") d.cap = f.at;
		if (f.act == "fail" || f.act == "short") { d.fail_at = f.at; d.fail_count = f.count; d.short_writes = f.act == "short"; }
		if (f.act == "throw") d.throw_at = f.at;
		if (f.act == "preset") s.setstate(f.arg == 0 ? std::ios::badbit : f.arg == 1 ? std::ios::failbit : std::ios::eofbit);
	}
}
static void c10_exec(const Plan &p, Outcome &o)
{
	SimDisk f0, o0, e0d, f1, o1, e1d;
	AnyResult a, b; u64 ha, hb;
	{
		StdioScope io(&o0, &e0d); std::ostream out(&f0);
		Env e; e.load(p);
		a = run_any(p, "", &e, true, p.str("what") == "rk" ? RunIO(&out) : RunIO()); ha = e.hist.h;
	}
	{
		StdioScope io(&o1, &e1d); std::ostream out(&f1);
		arm(f1, out, p, "file"); arm(o1, std::cout, p, "out"); arm(e1d, std::cerr, p, "err");
		Env e; e.load(p);
		b = run_any(p, "", &e, true, p.str("what") == "rk" ? RunIO(&out) : RunIO()); hb = e.hist.h;
		check_sane(o, b.rk, e, "run");
		o.absorb(e); o.hash.u(b.hash); o.hash.s(f1.data); o.hash.s(o1.data); o.hash.s(e1d.data);
	}
	if (a.hash != b.hash || ha != hb)
		o.fail("sink-changes-result", fmt("with failing sinks the run %s%s, status %d; with perfect ones %s%s, status %d", b.threw ? "threw " : "returned", b.exc.c_str(), b.status, a.threw ? "threw " : "returned", a.exc.c_str(), a.status));
	// text that only the very first call in a process prints (a table being set
	// up, say) is not part of what the second run has to repeat
	SimDisk f2, o2, e2d; bool again = false;
	if (f0.data.compare(0, f1.data.size(), f1.data) || o0.data.compare(0, o1.data.size(), o1.data) || e0d.data.compare(0, e1d.data.size(), e1d.data)) {
		StdioScope io(&o2, &e2d); std::ostream out(&f2);
		Env e; e.load(p); again = true;
		run_any(p, "", &e, true, p.str("what") == "rk" ? RunIO(&out) : RunIO());
	}
	const SimDisk *good[] = { again ? &f2 : &f0, again ? &o2 : &o0, again ? &e2d : &e0d }, *bad[] = { &f1, &o1, &e1d };
	const char *name[] = { "file", "cout", "cerr" };
	long fails = 0;
	for (int i = 0; i < 3; ++i) {
		if (good[i]->data.compare(0, bad[i]->data.size(), bad[i]->data) != 0)
			o.fail("sink-not-a-prefix", fmt("what reached %s (%zu bytes) is not a prefix of what a perfect sink received (%zu bytes)", name[i], bad[i]->data.size(), good[i]->data.size()));
		fails += bad[i]->failures;
		if (bad[i]->failures) { o.fired[std::string("write-failure:") + name[i]] += bad[i]->failures; }
		o.shape.u(bad[i]->data.size()); o.shape.u(u64(bad[i]->failures));
	}
	for (auto &f : p.f) if (f.act == "preset") { o.fired["preset-failed-stream:" + f.seam]++; ++fails; }
	o.nontrivial = fails > 0;
	if (f1.data.size() < f0.data.size()) o.probe("truncated-output");
}
static Registrar rc10("C10", c10_gen, c10_exec);

// ------------------------------------------------------------------ C13
static void c13_gen(Rng &r, Plan &p)
{
	GenOpt o; o.hard = false; o.max_fixed = 120; o.newton_lo = 1e-12; o.newton_hi = 1e-10;
	gen_rk(r, p, "", o);
	const char *kinds[] = { "decay", "osc", "forced", "matrix", "polyt", "logistic", "pend" };
	std::string k = kinds[r.below(7)];
	p.set("kind", k);
	if (k == "pend") p.set("n", 2L);
	if (k == "osc" && p.integer("n") < 2) p.set("n", 2L);
	p.set("a", std::min(p.num("a"), 4.0));
	if (p.has("rtol")) { double rt = std::min(p.num("rtol"), 1e-4); p.set("rtol", rt); p.set("atol", std::min(p.num("atol"), 10*rt)); }
	if (p.str("family") == "irk") p.set("nmaxit", std::max(20L, p.integer("nmaxit")));
	p.p.erase("yscale");
	bool merge = r.chance(0.4);
	p.set("mode", std::string(merge ? "legs" : "crash"));
	if (merge) {
		GenOpt o2; o2.erk = true;
		Dry d = dry_rk(p, "");
		int n = int(r.range(1, 4)); p.set("legs", n);
		for (int i = 0; i < n; ++i) p.set(fmt("leg%d", i), r.range(0, std::max(1L, d.steps/2)));
		if (r.chance(0.5)) add_fun_faults(r, p, "", d.fun, 2, NONFINITE, 3);
		if (r.chance(0.2)) p.fault("fun", pick_event(r, d.fun), "nan", -1, -1);
		if (r.chance(0.5)) p.set("fun_cost", std::floor(r.logu(1, 1e6)));
		return;
	}
	p.set("interval", r.chance(0.6) ? 1L : r.range(2, 5));
	p.set("store", r.chance(0.5) ? 1L : 0L);
	Dry d = dry_rk(p, "");
	int n = int(r.range(1, 4));
	for (int i = 0; i < n; ++i) {
		bool j = d.jac > 0 && r.chance(0.3);
		p.fault(fmt("c%d.%s", i, j ? "jac" : "fun"), pick_event(r, j ? d.jac : d.fun), "crash", 0);
		p.set(fmt("c%d.keep", i), r.chance(0.4) ? 1.0 : r.uni());
		if (r.chance(0.2)) p.fault(fmt("c%d.fun", i), pick_event(r, d.fun), NONFINITE[r.below(3)], -1, 2);
	}
	p.set("crashes", n);
	if (r.chance(0.25)) p.fault("fun", pick_event(r, d.fun), NONFINITE[r.below(3)], -1, 2);
}
static double end_error(const dvec &a, const dvec &b)
{
	double m = 0; for (std::size_t i = 0; i < a.size(); ++i) m = std::max(m, std::fabs(a[i] - b[i])); return m;
}
static void c13_crash(const Plan &p, Outcome &o)
{
	Quiet q;
	Problem pr = Problem::from(p); dvec y0 = pr.y0(p);
	RkCfg c = RkCfg::from(p);
	RkCfg cu = c; cu.output_interval = 1; cu.store = true;
	// what faults hit the uninterrupted run also hits the first leg
	int n = int(p.integer("crashes", 1));
	Plan first; first.f.clear(); first.p = p.p;
	for (auto &f : p.f) if (f.act != "crash" && f.seam == "c0.fun") { first.fault("fun", f.at, f.act, f.arg, f.count); }
	Env eu; eu.load(first);
	Result full = run_rk(cu, &eu, pr, y0);
	check_sane(o, full, eu, "uninterrupted run");
	if (full.threw) { o.probe("threw"); return; }
	o.absorb(eu); o.hash.u(full.numeric_hash());
	double t = c.t0; dvec y = y0; std::string disk; long crashes = 0, torn = 0, lines = 0;
	for (int leg = 0; leg <= n; ++leg) {
		RkCfg cl = c; cl.t0 = t;
		if (!(t < c.t1)) break;
		Env e; e.load(p, leg < n ? fmt("c%d.", leg) : "");
		e.fun_budget = 400000; e.record = leg == 0;
		SimDisk d; std::ostream out(&d); out.precision(17);
		Result r = run_rk(cl, &e, pr, y, RunIO(&out));
		check_sane(o, r, e, "leg"); o.absorb(e);
		if (r.threw && !r.crashed) { o.probe("leg-threw"); return; }
		std::string data = d.data;
		if (r.crashed) {
			++crashes;
			double keep = p.num(fmt("c%d.keep", leg), 1.0);
			std::size_t cut = std::size_t(keep*double(data.size()));
			if (cut < data.size()) { data.resize(cut); ++torn; }
		}
		bool comp;
		if (leg == 0 && r.crashed) {
			// when callbacks have been called with the states 1 to k in turn these were accepted:
			// the steps before the last of them are in the stream by then
			std::size_t seen = 0;
			for (auto &cr : e.calls) if (seen + 1 < full.y.size() && cr.t >= full.t[seen+1] && cr.y == full.y[seen+1] && full.y[seen+1] != full.y[seen]) ++seen;
			std::size_t need = seen > 0 ? (seen - 1)/std::size_t(c.output_interval) : 0;
			std::vector<std::string> all = lines_of(d.data, comp);
			if (all.size() < need) { o.fail("rows-withheld", fmt("at the crash step %zu had been accepted, the stream had received %zu lines at interval %ld", seen - 1, all.size(), long(c.output_interval))); return; }
			if (need) o.probe("rows-required", long(need));
		}
		std::vector<std::string> ls = lines_of(data, comp);
		for (std::size_t i = 0; i < ls.size(); ++i) {
			dvec v; ++lines;
			if (!split_line(ls[i], v) || v.size() != y0.size() + 1) { o.fail("bad-line", fmt("complete line %zu of leg %d cannot be read back: ", i + 1, leg) + ls[i].substr(0, 100)); return; }
			if (!(v[0] > t) || v[0] > c.t1 + 4*ulp(c.t1) + 4*ulp(c.t0)) { o.fail("bad-line", fmt("leg %d: time %.17g follows %.17g in the stream, the end is %.17g", leg, v[0], t, c.t1)); return; }
			t = v[0]; y.assign(v.begin() + 1, v.end());
			if (leg == 0) {
				std::size_t k = (i + 1)*std::size_t(c.output_interval);
				if (k >= full.t.size() || full.t[k] != t || full.y[k] != y) { o.fail("line-not-a-state", fmt("complete line %zu of the crashed run (time %.17g) is not accepted step %zu of the uninterrupted one", i + 1, t, k)); return; }
			}
		}
		if (!r.crashed) {
			if (r.status != ST_SUCCESS) {
				// a fault of its own may end this leg, as long as it says so
				if (full.status == ST_SUCCESS && e.n_fun_faulted == 0) o.fail("not-resumable", fmt("resuming from time %.17g ends with status %d, the uninterrupted run succeeds", cl.t0, r.status));
				return;
			}
			// the end is in the stream for interval 1, otherwise take it from the records
			if (c.output_interval != 1) {
				Env e2; RkCfg c2 = cl; c2.output_interval = 1; c2.store = true; c2.t0 = t; 
				if (t < c.t1 - 4*ulp(c.t1)) { Result r2 = run_rk(c2, &e2, pr, y); if (r2.threw || r2.status != ST_SUCCESS) return; t = r2.t.back(); y = r2.y.back(); }
			}
			break;
		}
	}
	o.hash.d(t); o.hash.v(y);
	o.nontrivial = crashes > 0 && lines > 0;
	o.probe("crashes", crashes); o.probe("torn-tails", torn); o.probe("lines-read-back", lines);
	if (full.status != ST_SUCCESS) { o.probe("uninterrupted-failed"); return; }
	if (t < c.t1 - 4*ulp(c.t1) - 4*ulp(c.t0)) { o.fail("end-not-reached", fmt("after %ld crashes the resumed integration ends at %.17g, not %.17g", crashes, t, c.t1)); return; }
	const dvec &yf = full.y.back();
	double len = c.t1 - c.t0, scale = max_abs(yf); for (auto &v : full.y) scale = std::max(scale, max_abs(v));
	bool emb = c.adaptive && has_embedded(c.family, c.method);
	dvec ex = ref_solve(pr, c.t0, c.t1, y0, 4000);
	double eu_err = end_error(yf, ex), er_err = end_error(y, ex);
	double tol;
	if (emb) {
		double tl = c.atol + c.rtol*scale;
		double steps = double(full.t.size());
		tol = 30*eu_err + 300*tl + 1e-9*scale;
		if (c.family == "irk") tol += 300*tl*std::max(1.0, steps/len) + 1000*(c.ntol + c.ndx)*steps;
	} else {
		tol = 3*eu_err + 1e-9*scale*(1 + double(full.t.size()));
		if (c.family == "irk") tol += 1000*(c.ntol + c.ndx)*double(full.t.size());
		// resuming repeats the grid up to rounding of the times
	}
	if (er_err > tol) o.fail("resumed-solution", fmt("after %ld crashes the end value is off by %.3g, uninterrupted by %.3g (allowed %.3g)", crashes, er_err, eu_err, tol));
}
static void c13_legs(const Plan &p, Outcome &o)
{
	Quiet q;
	Problem pr = Problem::from(p); dvec y0 = pr.y0(p);
	RkCfg c = RkCfg::from(p);
	int n = int(p.integer("legs", 2));
	std::vector<Result> legs;
	double t = c.t0; dvec y = y0;
	for (int i = 0; i <= n; ++i) {
		if (!(t < c.t1)) break;
		RkCfg cl = c; cl.t0 = t; cl.max_steps = i < n ? p.integer(fmt("leg%d", i), 5) : -1;
		Env e; e.load(p);
		Result r = run_rk(cl, &e, pr, y);
		check_sane(o, r, e, "leg"); o.absorb(e);
		if (r.threw) { o.probe("leg-threw"); break; }
		legs.push_back(r);
		t = r.t.back(); y = r.y.back();
	}
	if (legs.size() < 1) return;
	Env em;
	Result m = merge_legs(legs, &em);
	if (m.threw) { o.fail("merge", "merging threw " + m.exc); return; }
	std::vector<double> tt, ee; std::vector<dvec> yy, es, st; double el = 0, lo = 1e300, hi = -1e300; int status = 0;
	std::map<std::string, unsigned long> cnt;
	for (auto &l : legs) {
		tt.insert(tt.end(), l.t.begin(), l.t.end()); yy.insert(yy.end(), l.y.begin(), l.y.end());
		ee.insert(ee.end(), l.err.begin(), l.err.end()); es.insert(es.end(), l.err_est.begin(), l.err_est.end());
		st.insert(st.end(), l.stages.begin(), l.stages.end());
		el += l.elapsed; lo = std::min(lo, l.accept_frac); hi = std::max(hi, l.accept_frac); status |= l.status;
		for (auto &kv : l.count) cnt[kv.first] += kv.second;
	}
	if (m.t != tt || m.y != yy || m.err != ee || m.err_est != es || m.stages != st) o.fail("merge-records", fmt("merging %zu legs does not keep all of their records in order", legs.size()));
	for (auto &kv : cnt) if (m.count[kv.first] != kv.second) o.fail("merge-counters", fmt("merged %s is %lu, the legs add up to %lu", kv.first.c_str(), m.count[kv.first], kv.second));
	if (!(std::fabs(m.elapsed - el) <= 1e-9*std::fabs(el) + 1e-9)) o.fail("merge-elapsed", fmt("merged elapsed time is %.9g, the legs add up to %.9g", m.elapsed, el));
	if ((status == 0) != (m.status == 0)) o.fail("merge-status", fmt("merged status is %d", m.status));
	for (auto &l : legs) if (l.status != ST_SUCCESS && m.status == ST_SUCCESS) o.fail("merge-status", "a leg failed, the merged status is success");
	if (!(m.accept_frac >= lo - 1e-12 && m.accept_frac <= hi + 1e-12)) o.fail("merge-accept-frac", fmt("merged accepted fraction %.9g lies outside those of the legs, %.9g to %.9g", m.accept_frac, lo, hi));
	if (legs.size() > 2) {
		// in whatever order neighbours are merged
		std::vector<Result> tail(legs.begin() + 1, legs.end()), two(1, legs[0]);
		Env e2, e3;
		two.push_back(merge_legs(tail, &e2));
		Result x = merge_legs(two, &e3);
		if (x.threw || x.t != m.t || x.y != m.y || x.err != m.err || x.err_est != m.err_est || x.stages != m.stages || x.count != m.count || x.status != m.status || !(std::fabs(x.elapsed - m.elapsed) <= 1e-9*std::fabs(m.elapsed) + 1e-9))
			o.fail("merge-order", "merging the last legs first gives another result");
		o.probe("merged-in-two-orders");
	}
	o.hash.u(m.numeric_hash(true)); o.nontrivial = legs.size() > 1;
	o.probe("legs", long(legs.size()));
	for (auto &l : legs) if (l.status != ST_SUCCESS && l.status != ST_MAX) o.probe("failed-leg");
}
static void c13_exec(const Plan &p, Outcome &o)
{
	if (p.str("mode") == "legs") c13_legs(p, o); else c13_crash(p, o);
}
static Registrar rc13("C13", c13_gen, c13_exec);

} // namespace sim
