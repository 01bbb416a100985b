// C06 exceptions and failed allocations, C07 isolation, C19 assertions, C20 purity.
#include "props.hpp"
#include <iostream>

namespace sim {

u64 registry_hash();                        // props_reg.cpp
static const std::vector<std::string> NONFINITE = { "nan", "inf", "ninf" };
static const std::vector<std::string> THROWS = { "throw_std", "throw_odd", "throw_int", "throw_bad" };

static u64 outcome_hash(const AnyResult &a, const Env &e) { Hash h; h.u(a.hash); h.u(e.hist.h); h.u(u64(e.n_fun)); h.u(u64(e.n_jac)); return h.h; }

// The outcome of the call under prefix q, alone in a process of its own.
static u64 alone(const Plan &p, const std::string &q, bool faults)
{
	return in_fresh_process([&]() -> u64 {
		Quiet quiet;
		Plan c = p; if (!faults) c.f.clear();
		Env e; e.load(c, q);
		AnyResult a = run_any(c, q, &e, true);
		u64 h = outcome_hash(a, e);
		return h < 16 ? h + 16 : h;
	});
}
static u64 norm(u64 h) { return h < 16 ? h + 16 : h; }

// ------------------------------------------------------------------ C06
static void c06_gen(Rng &r, Plan &p)
{
	gen_any(r, p, "", true, true);
	p.set("fun_budget", 60000L);
	Dry d = dry_any(p, "");
	double u = r.uni();
	if (p.str("what") == "rk" && !p.integer("defaults") && r.chance(0.12)) {
		// a full disk, and a stream that reports it by an exception
		p.fault("file", r.below(std::max(10L, 30*d.steps)), "full", 0);
		p.set("raise", 1L);
		return;
	}
	if (u < 0.45) {
		long at = pick_event(r, d.fun);
		p.fault("fun", at, THROWS[r.below(4)], double(r.range(1, 99)), r.chance(0.7) ? 1 : -1);
	} else if (u < 0.6 && d.jac > 0) {
		p.fault("jac", pick_event(r, d.jac), THROWS[r.below(3)], double(r.range(1, 99)), r.chance(0.7) ? 1 : -1);
	} else {
		double v = r.uni();
		long at = pick_event(r, d.alloc);
		if (p.str("what") == "rk" && r.chance(0.3)) {                 // while the coefficients are built
			Env e; e.load(Plan());
			{ EnvScope es(&e); AllocOn on(&e); reg_tableau(p.str("family"), int(p.integer("method"))); }
			at = r.below(std::max(1L, e.n_alloc) + 4);
		}
		p.fault("alloc", at, "fail", 0, v < 0.6 ? 1 : v < 0.8 ? r.range(2, 20) : -1);
	}
	if (r.chance(0.25)) p.fault("fun", pick_event(r, d.fun), NONFINITE[r.below(3)], -1, r.range(1, 3));
}

static std::string expected_exc(const Plan &p, const Env &e, bool &callback, bool &alloc)
{
	std::string want; callback = alloc = false;
	for (auto &f : p.f) {
		if (f.seam == "alloc" && e.fired.count("alloc:fail")) alloc = true;
		auto it = e.fired.find(f.seam + ":" + f.act);
		if (it == e.fired.end()) continue;
		if (f.act == "throw_std") { want = "SimError"; callback = true; }
		if (f.act == "throw_odd") { want = fmt("SimOdd(%d)", int(f.arg)); callback = true; }
		if (f.act == "throw_int") { want = fmt("int(%d)", int(f.arg)); callback = true; }
		if (f.act == "throw_bad") { want = "bad_alloc"; callback = true; }
	}
	return want;
}

static void c06_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	u64 want = alone(p, "", false);
	if (want == 3) { o.fail("hang", "the call does not end even without faults"); return; }
	if (want >= 1 && want <= 5) { o.fail("crash", "the fault free call died"); return; }
	u64 reg = in_fresh_process([&]() -> u64 { Quiet quiet; return norm(registry_hash()); });
	Plan clean = p; clean.f.clear();
	u64 clean_plain = 0;
	long leak[3];
	bool raise = p.integer("raise") != 0;
	for (int k = 0; k < 3; ++k) {
		Env e; e.load(p); e.alloc_budget = 20000000;
		SimDisk disk; std::ostream out(&disk);
		for (auto &f : p.f) if (f.act == "full") disk.cap = f.at;
		if (raise) out.exceptions(std::ios::badbit | std::ios::failbit);
		AnyResult a = run_any(p, "", &e, true, raise ? RunIO(&out) : RunIO());
		leak[k] = e.leaked();
		if (raise && disk.failures) {
			if (!a.threw) o.fail("exception-swallowed", "the output stream raised an exception, the call returned");
			else if (a.exc.find("ios") == std::string::npos) o.fail("exception-changed", "the output stream raised an exception, the caller got " + a.exc);
			if (k == 0) { o.fired["file:full"] += 1; o.probe("stream-raised"); }
		}
		if (e.corrupt) o.fail("heap-overrun", "memory after an allocated block was overwritten");
		if (!a.inputs_ok) o.fail("inputs-changed", "an argument of the failed call was changed");
		bool cb, al; std::string exc = expected_exc(p, e, cb, al);
		if (cb && !al) {
			if (a.threw) {
				if (a.exc != exc) o.fail("exception-changed", "the callback threw " + exc + ", the caller got " + a.exc);
			} else if (a.status == ST_SUCCESS && !(a.is_root && false))
				o.fail("exception-swallowed", "the callback threw " + exc + " but the call reported success");
		}
		if (al && !cb) {
			if (a.threw && a.exc != "bad_alloc" && !is_report(a.exc) && !a.budget && a.exc != "bad_alloc")
				o.fail("odd-exception", "an allocation failed, the caller got " + a.exc);
			if (!a.threw && a.status == ST_SUCCESS) {
				// fine only if it did not matter
				Plan no_alloc = p; no_alloc.f.clear();
				for (auto &f : p.f) if (f.seam != "alloc") no_alloc.f.push_back(f);
				Env e2; e2.load(no_alloc);
				AnyResult b = run_any(no_alloc, "", &e2, true);
				if (b.hash != a.hash) o.fail("allocation-ignored", "an allocation failed, success was reported and the result differs");
				o.probe("allocation-failure-harmless");
			}
		}
		if (k == 0) {
			o.absorb(e); o.hash.u(a.hash);
			o.nontrivial = cb || al || disk.failures > 0;
			o.probe(cb ? "callback-threw" : al ? "allocation-failed" : "not-reached");
			if (!a.threw && (cb || al) && a.status != ST_SUCCESS) o.probe("turned-into-status");
		}
	}
	if (leak[1] > 0 && leak[2] > 0) o.fail("leak", fmt("%ld blocks were not freed by the failed call", leak[2]));
	for (int k = 0; k < 2; ++k) {
		Env e; e.load(clean);
		AnyResult a = run_any(clean, "", &e, true);
		clean_plain = norm(outcome_hash(a, e));
		if (clean_plain != want) { o.fail("trace-left", "the same call without the fault gives another result than in a process where the fault never happened"); break; }
		if (k == 1 && e.live_blocks > 0) o.fail("leak", fmt("%ld blocks were not freed by the fault free call", e.live_blocks));
	}
	// nor in what the registry answers
	if (norm(registry_hash()) != reg) o.fail("trace-left", "after the failed call the method registry answers differently");
}
static Registrar rc06("C06", c06_gen, c06_exec);

// ------------------------------------------------------------------ C07
static void copy_task(Plan &p, const std::string &from, const std::string &to)
{
	std::map<std::string, std::string> add;
	for (auto &kv : p.p) if (kv.first.compare(0, from.size(), from) == 0) add[to + kv.first.substr(from.size())] = kv.second;
	for (auto &kv : add) p.p[kv.first] = kv.second;
}
static void vary_task(Rng &r, Plan &p, const std::string &q)
{
	std::string kind = p.str(q + "kind");
	bool any_n = kind == "decay" || kind == "forced" || kind == "matrix" || kind == "logistic" || kind == "zero" || kind == "sqrt";
	switch (r.below(any_n ? 6 : 4)) {
	case 4: case 5: p.set(q + "n", r.range(1, 9)); break;   // the same code on vectors of another size
	case 0: p.set(q + "dt", p.num(q + "dt", 1e-2)*r.uni(0.5, 0.99)); break;
	case 1: p.set(q + "pseed", r.range(1, 1000000)); break;
	case 2: p.set(q + "a", p.num(q + "a", 1)*r.uni(0.8, 1.2)); break;
	default: if (p.has(q + "rtol")) p.set(q + "rtol", p.num(q + "rtol")*2); if (p.has(q + "maxit")) p.set(q + "maxit", p.integer(q + "maxit") + 1); break;
	}
}
static void c07_gen(Rng &r, Plan &p)
{
	int k = int(r.range(2, 4));
	p.set("tasks", k);
	const char *names[] = { "a.", "b.", "c.", "d." };
	// in one plan out of four every task runs the same instantiation of the same
	// routine, half of those a root search
	bool same = r.chance(0.25);
	if (same && r.chance(0.5)) {
		gen_root(r, p, "a.");
		const char *kinds[] = { "forced", "logistic", "matrix", "sqrt", "decay", "zero" };
		if (r.chance(0.7)) { p.set("a.kind", std::string(kinds[r.below(6)])); p.set("a.n", r.range(1, 9)); }
		if (r.chance(0.6)) p.set("a.which", std::string("newton"));
		if (r.chance(0.5)) p.set("a.precond", 1);
	}
	for (int i = 0; i < k; ++i) {
		std::string q = names[i];
		if (i == 0 && p.has("a.what")) { p.set("a.fun_budget", 20000L); continue; }
		if (i > 0 && r.chance(same ? 1.0 : 0.35)) { copy_task(p, "a.", q); vary_task(r, p, q); }
		else gen_any(r, p, q, true, true);
		p.set(q + "fun_budget", 20000L);
	}
	bool nest = r.chance(0.5);
	if (nest) {
		if (r.chance(same ? 0.9 : 0.4)) { copy_task(p, "a.", "n."); vary_task(r, p, "n."); }
		else gen_any(r, p, "n.", true, true);
		p.set("n.fun_budget", 20000L);
	}
	for (int i = 0; i < k; ++i) {
		std::string q = names[i];
		Dry d = dry_any(p, q);
		if (nest && (i == 0 || r.chance(0.3))) {
			int c = int(r.range(1, 3));
			for (int j = 0; j < c; ++j)
				if (d.jac > 0 && r.chance(0.4)) p.fault(q + "jac", pick_event(r, d.jac), "nest", 0);
				else p.fault(q + "fun", pick_event(r, d.fun), "nest", 0);
		}
		if (r.chance(0.25)) p.fault(q + "fun", pick_event(r, d.fun), NONFINITE[r.below(3)], -1, r.range(1, 3));
		if (r.chance(0.15)) p.fault(q + "fun", pick_event(r, d.fun), THROWS[r.below(4)], 5);
	}
	p.set("sched_seed", r.range(1, 1000000000L));
	p.set("p_switch", r.chance(0.3) ? 1.0 : r.logu(0.005, 0.9));
	p.set("yield_alloc", r.chance(0.5) ? 1L : 0L);
	if (nest && r.chance(0.25)) p.set("tasks", 1);          // nesting only
}
static void c07_exec(const Plan &p, Outcome &o)
{
	const char *names[] = { "a.", "b.", "c.", "d." };
	int k = int(p.integer("tasks", 2));
	Plan no_nest = p; no_nest.f.clear();
	for (auto &f : p.f) if (f.act != "nest") no_nest.f.push_back(f);
	std::vector<u64> want(k), got(k);
	u64 want_n = p.has("n.what") ? alone(no_nest, "n.", true) : 0;
	for (int i = 0; i < k; ++i) {
		want[i] = alone(no_nest, names[i], true);
		if (want[i] < 16) { o.fail(want[i] == 3 ? "hang" : "crash", fmt("task %d died when run alone", i)); return; }
	}
	YieldBuf yb1, yb2;
	StdioScope io(&yb1, &yb2);
	Scheduler s(u64(p.integer("sched_seed", 1)), p.num("p_switch", 0.1));
	std::vector<Env> envs(k);
	std::vector<AnyResult> res(k);
	std::vector<u64> nested_bad(k, 0); std::vector<long> nested_runs(k, 0);
	for (int i = 0; i < k; ++i) {
		Env *e = &envs[i];
		e->load(p, names[i]);
		e->sched = &s; e->task = i; e->yield_alloc = p.integer("yield_alloc") != 0;
		e->nested = [&, i]() {
			Env ne; ne.load(no_nest, "n."); ne.sched = &s; ne.task = i; ne.depth = 1;
			AnyResult a = run_any(no_nest, "n.", &ne, true);
			++nested_runs[i];
			if (norm(outcome_hash(a, ne)) != want_n) ++nested_bad[i];
		};
		s.bodies.push_back([&, i]() { res[i] = run_any(p, names[i], &envs[i], true); });
	}
	s.run();
	long nr = 0;
	for (int i = 0; i < k; ++i) {
		Env &e = envs[i];
		// nesting is not part of what the task did
		got[i] = norm(outcome_hash(res[i], e));
		if (got[i] != want[i]) o.fail("disturbed", fmt("task %d of %d (%s) gives another result than when run alone (%s)", i, k, names[i], res[i].threw ? res[i].exc.c_str() : "returned"));
		if (nested_bad[i]) o.fail("nested-disturbed", fmt("%lu of %ld runs nested in task %d give another result than when run alone", (unsigned long)nested_bad[i], nested_runs[i], i));
		if (e.corrupt) o.fail("heap-overrun", "memory after an allocated block was overwritten");
		nr += nested_runs[i];
		o.absorb(e); o.hash.u(res[i].hash);
	}
	o.hash.u(s.trace.h); o.shape.u(s.trace.h);
	o.nontrivial = s.switches > 0 || nr > 0;
	o.probe("switches", s.switches); o.probe("switch-points", s.points); o.probe("nested-runs", nr);
}
static Registrar rc07("C07", c07_gen, c07_exec);

// ------------------------------------------------------------------ C19
static void any_faults(Rng &r, Plan &p, const std::string &q, bool throws, bool allocs)
{
	Dry d = dry_any(p, q);
	if (r.chance(0.5)) add_fun_faults(r, p, q, d.fun, 3, NONFINITE, 6);
	if (d.jac > 0 && r.chance(0.25)) add_jac_faults(r, p, q, d.jac, 2, { "scale", "noise", "stale", "zero", "bad", "nan" }, 6);
	if (r.chance(0.1)) p.fault(q + "fun", pick_event(r, d.fun), "nan", -1, -1);
	if (throws && r.chance(0.2)) p.fault(q + "fun", pick_event(r, d.fun), THROWS[r.below(4)], 7);
	if (allocs && r.chance(0.1)) p.fault(q + "alloc", pick_event(r, d.alloc), "fail", 0, 1);
}
u64 buffer_script_hash(u64 seed);           // props_buf.cpp

static void c19_gen(Rng &r, Plan &p)
{
	gen_any(r, p, "", true, true);
	p.set("fun_budget", 60000L);
	any_faults(r, p, "", false, false);
	p.set("bufseed", r.range(1, 1000000));
}
static void c19_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	Env e; e.load(p);
	AnyResult a = run_any(p, "", &e, true);
	if (e.corrupt) o.fail("heap-overrun", "memory after an allocated block was overwritten");
	o.absorb(e); o.hash.u(a.hash); o.hash.u(buffer_script_hash(u64(p.integer("bufseed", 1))));
	o.hash.u(registry_hash());
	o.nontrivial = e.n_fun > 1;
	o.probe(a.threw ? "threw" : a.status == ST_SUCCESS ? "success" : "reported-failure");
}
static Registrar rc19("C19", c19_gen, c19_exec);

// ------------------------------------------------------------------ C20
static void c20_gen(Rng &r, Plan &p)
{
	gen_any(r, p, "", true, true);
	p.set("fun_budget", 40000L);
	any_faults(r, p, "", true, false);
	int k = int(r.range(1, 3));
	p.set("before", k);
	for (int i = 0; i < k; ++i) {
		std::string q = fmt("x%d.", i);
		if (r.chance(0.4)) { for (auto &kv : std::map<std::string, std::string>(p.p)) if (kv.first.find('.') == std::string::npos) p.p[q + kv.first] = kv.second; vary_task(r, p, q); }
		else gen_any(r, p, q, true, true);
		p.set(q + "fun_budget", 20000L);
		if (r.chance(0.6)) any_faults(r, p, q, true, true);
		p.set(q + "fill", long(r.below(256)));
		if (r.chance(0.12)) { p.set(q + "times", r.range(8, 70)); p.set(q + "fun_budget", 3000L); }
	}
	long fills[] = { 0, 0xff, 0x7f, 0x3f, 0x40, 0x01, 0xA5 };
	p.set("fill", fills[r.below(7)]);
	p.set("fill_alone", fills[r.below(7)]);
	p.set("ioflags", long(r.below(4)));
}
static void c20_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	Plan pa = p; pa.set("fill", p.integer("fill_alone", 0xA5));
	u64 want = alone(pa, "", true);
	if (want < 16) { o.fail(want == 3 ? "hang" : "crash", "the call died in a process of its own"); return; }
	int k = int(p.integer("before"));
	for (int i = 0; i < k; ++i) {
		std::string x = fmt("x%d.", i);
		for (long j = 0, m = p.integer(x + "times", 1); j < m; ++j) {
			Env e; e.load(p, x);
			run_any(p, x, &e, true);
			o.absorb(e);
		}
	}
	long io = p.integer("ioflags");
	if (io & 1) { std::cerr.precision(2); std::cout.precision(1); std::cout << std::fixed; std::cerr << std::hexfloat; }
	if (io & 2) { std::cout.setstate(std::ios::badbit); std::cerr.setstate(std::ios::failbit); }
	for (int rep = 0; rep < 2; ++rep) {
		Env e; e.load(p);
		AnyResult a = run_any(p, "", &e, true);
		u64 got = norm(outcome_hash(a, e));
		if (got != want) { o.fail("history-dependent", fmt("call number %d after %d other calls differs from the same call in a fresh process (%s)", rep + 1, k, a.threw ? a.exc.c_str() : fmt("status %d", a.status).c_str())); break; }
		if (rep == 0) { o.absorb(e); o.hash.u(a.hash); o.nontrivial = e.n_fun > 1; o.probe(a.threw ? "threw" : a.status == ST_SUCCESS ? "success" : "reported-failure"); }
	}
}
static Registrar rc20("C20", c20_gen, c20_exec);

} // namespace sim
