// C18 method lookups.
#include "props.hpp"

namespace sim {

static void tab_hash(Hash &h, const Tableau &t)
{
	h.u(t.ok); h.u(u64(t.order)); h.u(u64(t.order2)); h.u(t.fsal); h.d(t.gamma); h.v(t.b); h.v(t.b2); h.v(t.c); h.s(t.name); h.u(t.interp); h.v(t.b_interp);
	for (auto &r : t.A) h.v(r);
}
static const char *FAM[] = { "erk", "irk" };

// Everything the registry answers about the methods it lists.
u64 registry_hash()   // also used by C06
{
	Hash h;
	for (const char *f : FAM)
		for (auto &n : reg_all(f)) { h.s(n); int c = reg_code(f, n); h.u(u64(c)); h.s(reg_name(f, c)); tab_hash(h, reg_tableau(f, c)); }
	return h.h;
}

static void check_registry(Outcome &o)
{
	for (const char *f : FAM) {
		auto all = reg_all(f);
		if (all.empty()) o.fail("empty-listing", fmt("no %s methods listed", f));
		std::set<std::string> seen; std::set<int> codes;
		for (auto &n : all) {
			if (!seen.insert(n).second) o.fail("listed-twice", fmt("%s method %s is listed twice", f, n.c_str()));
			int c = reg_code(f, n);
			if (reg_name(f, c) != n) o.fail("name-code-name", fmt("%s method %s has code %d, which has the name %s", f, n.c_str(), c, reg_name(f, c).c_str()));
			if (!codes.insert(c).second) o.fail("shared-code", fmt("%s code %d belongs to several listed names", f, c));
			Tableau t = reg_tableau(f, c);
			if (!t.ok) { o.probe("listed-without-coefficients"); continue; }
			std::size_t s = t.b.size();
			bool sz = s > 0 && t.c.size() == s && t.A.size() == s && (t.b2.empty() || t.b2.size() == s);
			for (auto &r : t.A) sz = sz && r.size() == s;
			if (!sz) { o.fail("inconsistent-sizes", fmt("%s method %s: sizes of A, b, b2, c do not match", f, n.c_str())); continue; }
			if (t.order < 1 || t.order > 20 || t.order2 < 0 || t.order2 > t.order) o.fail("undefined-order", fmt("%s method %s has orders %d and %d", f, n.c_str(), t.order, t.order2));
			double sb = 0, sb2 = 0; for (double x : t.b) sb += x; for (double x : t.b2) sb2 += x;
			if (!(std::fabs(sb - 1) < 1e-9)) o.fail("inconsistent-weights", fmt("%s method %s: weights add up to %.12g", f, n.c_str(), sb));
			for (std::size_t i = 0; i < s; ++i) {
				double rs = 0; for (double x : t.A[i]) rs += x;
				if (!(std::fabs(rs - t.c[i]) < 1e-9)) o.fail("inconsistent-rows", fmt("%s method %s: row %zu of A adds up to %.12g, c is %.12g", f, n.c_str(), i, rs, t.c[i]));
			}
			if (!std::isfinite(t.gamma) || !finite_all(t.b) || !finite_all(t.b2)) o.fail("non-finite", fmt("%s method %s has non-finite coefficients", f, n.c_str()));
			const RefTab *rt = ref_tab(f, c);
			if (rt) {
				double d = 0, tol = 1e-9;
				if (rt->s != int(s)) { o.fail("wrong-coefficients", fmt("%s method %s has %zu stages", f, n.c_str(), s)); continue; }
				for (std::size_t i = 0; i < s; ++i) {
					d = std::max(d, std::max(std::fabs(t.b[i] - rt->b[i]), std::fabs(t.c[i] - rt->c[i])));
					if (!rt->b2.empty() && !t.b2.empty()) d = std::max(d, std::fabs(t.b2[i] - rt->b2[i]));
					for (std::size_t j = 0; j < s; ++j) d = std::max(d, std::fabs(t.A[i][j] - rt->A[i][j]));
				}
				if (!(d <= tol) || t.order != rt->order || (rt->b2.size() && t.order2 != rt->order2) || t.b2.size() != rt->b2.size() || (f[0] == 'e' && t.fsal != rt->fsal))
					o.fail("wrong-coefficients", fmt("%s method %s is not the published one (largest difference %.3g, orders %d and %d)", f, n.c_str(), d, t.order, t.order2));
				o.probe("compared-with-published");
			}
		}
	}
}

static const char *JUNK[] = { "", " ", "RADAU", "radau_iia_53", "RADAU_IIA_53 ", "EXPLICIT_EULER\n", "CASH-KARP", "0", "131", "nonsense", "RUNGE_KUTTA_4RUNGE_KUTTA_4" };

static void c18_gen(Rng &r, Plan &p)
{
	int n = r.chance(0.05) ? int(r.range(300, 2000)) : int(r.range(3, 60));
	std::string s; const char ops[] = "NNNCCCTTTALuuuvvvjjtx";
	if (n > 60 && r.chance(0.5)) s += "AA";
	for (int i = 0; i < n; ++i) s += ops[r.below(sizeof ops - 1)];
	p.set("script", s); p.set("vals", r.range(1, 1000000000L));
	p.set("threads", r.chance(0.35) ? r.range(2, 3) : 1L);
	p.set("sched_seed", r.range(1, 1000000000L)); p.set("p_switch", n > 60 ? r.logu(0.001, 0.02) : r.logu(0.01, 1));
	if (r.chance(0.5)) { int k = int(r.range(1, 6)); for (int i = 0; i < k; ++i) p.fault("alloc", r.chance(0.5) ? r.below(n*8) : r.below(n*60), "fail", 0, r.chance(0.7) ? 1 : r.range(2, 30)); }
	if (n <= 60 && r.chance(0.2)) {            // integrations in between must not matter either
		GenOpt o; gen_rk(r, p, "x.", o); p.set("x.fun_budget", 3000L);
	}
}
struct Known { std::map<std::string, int> code[2]; std::map<int, std::string> name[2]; std::map<int, u64> tab[2]; std::vector<std::string> all[2]; };

static u64 th(const char *f, int c) { Hash h; tab_hash(h, reg_tableau(f, c)); return h.h; }

// A name that is not listed but close to one that is.
static std::string near_miss(std::string n, long v)
{
	std::size_t i = n.empty() ? 0 : std::size_t(v/8) % n.size();
	switch (v % 8) {
	case 0: for (char &c : n) c = char(std::tolower(c)); break;
	case 1: n.erase(n.size() - 1); break;
	case 2: n += char('0' + v % 10); break;
	case 3: n = " " + n; break;
	case 4: n[i] = n[i] == '_' ? '-' : char(n[i] + 1); break;
	case 5: n += n; break;
	case 6: n += std::string(200, 'A'); break;
	default: n.erase(i, 1); break;
	}
	return n;
}

static void script(const Plan &p, Outcome &o, Env *env, const std::string &s, u64 vals, long *done, long *failed)
{
	Rng r(vals);
	EnvScope es(env);
	// answers this run got earlier, to be given again
	Known k;
	for (char op : s) {
		int fi = int(r.below(2)); const char *f = FAM[fi];
		long v = long(r.below(1000000));
		std::vector<std::string> known;
		bool ok = true; std::string what;
		try {
			AllocOn on(env);
			switch (op) {
			case 'L': case 'A': { auto a = reg_all(f); AllocOff off(env);
				if (k.all[fi].empty()) k.all[fi] = a; else if (a != k.all[fi]) { ok = false; what = fmt("listing changed from %zu to %zu names", k.all[fi].size(), a.size()); } break; }
			case 'N': { auto a = reg_all(f); std::string n = a[v % a.size()]; int c = reg_code(f, n); AllocOff off(env);
				if (k.code[fi].count(n) && k.code[fi][n] != c) { ok = false; what = "code of " + n + " changed"; } k.code[fi][n] = c; break; }
			case 'C': { auto a = reg_all(f); std::string n = a[v % a.size()]; int c = reg_code(f, n); std::string b = reg_name(f, c); AllocOff off(env);
				if (b != n) { ok = false; what = "code of " + n + " maps back to " + b; } break; }
			case 'T': { auto a = reg_all(f); std::string n = a[v % a.size()]; int c = reg_code(f, n); u64 h = th(f, c); AllocOff off(env);
				if (k.tab[fi].count(c) && k.tab[fi][c] != h) { ok = false; what = "coefficients of " + n + " changed"; } k.tab[fi][c] = h; break; }
			case 'u': case 'j': { std::string n = v % 3 ? std::string(JUNK[v % 11]) : "X" + std::to_string(v);
				if (op == 'j') { auto a = reg_all(f); n = near_miss(a[v % a.size()], v / 100); for (auto &l : a) if (l == n) n += '#'; }
				int c = reg_code(f, n); std::string back = reg_name(f, c); AllocOff off(env);
				// unknown: the answer must not be a listed method
				AllocOff off2(env); for (auto &l : k.all[fi]) if (l == back && back != n) { ok = false; what = "unknown name \"" + n + "\" was answered with the code of " + back; }
				if (k.code[fi].count("?" + n) && k.code[fi]["?" + n] != c) { ok = false; what = "the answer to an unknown name changed"; } k.code[fi]["?" + n] = c; break; }
			case 'v': { int c = v % 4 == 0 ? -int(v % 50) : v % 4 == 1 ? int(10000 + v % 1000) : v % 4 == 2 ? 300 + int(v % 90) : std::numeric_limits<int>::max() - int(v % 3); std::string n = reg_name(f, c); AllocOff off(env);
				for (auto &l : k.all[fi]) if (l == n) { ok = false; what = fmt("unknown code %d was answered with ", c) + n; }
				if (k.name[fi].count(c) && k.name[fi][c] != n) { ok = false; what = fmt("the answer to unknown code %d changed", c); } k.name[fi][c] = n; break; }
			case 't': { int c = v % 2 ? int(20000 + v % 100) : -int(1 + v % 100); Tableau t = reg_tableau(f, c); AllocOff off(env); if (t.ok) { ok = false; what = fmt("unknown code %d has coefficients that verify", c); } break; }
			case 'x': { AllocOff off(env); if (p.has("x.what") && env->depth == 0 && !env->sched) { Env e2; run_any(p, "x.", &e2); } break; }
			}
			++*done;
		}
		catch (std::bad_alloc &) { env->alloc_on = false; ++*failed; }
		catch (std::exception &e) { env->alloc_on = false; std::string w = e.what(); if (env->fired.count("alloc:fail") == 0) { ok = false; what = "threw " + w; } else ++*failed; }
		if (!ok) { o.fail("inconsistent-answer", what); return; }
	}
}
static void c18_exec(const Plan &p, Outcome &o)
{
	NullBuf nb; YieldBuf y1, y2;
	long th_n = p.integer("threads", 1);
	std::streambuf *so = th_n > 1 ? static_cast<std::streambuf *>(&y1) : &nb, *se = th_n > 1 ? static_cast<std::streambuf *>(&y2) : &nb;
	StdioScope io(so, se);
	u64 want = in_fresh_process([]() -> u64 { u64 h = registry_hash(); return h < 16 ? h + 16 : h; });
	std::string s = p.str("script"); u64 vals = u64(p.integer("vals", 1));
	long done = 0, failed = 0, sw = 0;
	std::vector<Env> envs(static_cast<std::size_t>(th_n));
	if (th_n == 1) { envs[0].load(p); script(p, o, &envs[0], s, vals, &done, &failed); }
	else {
		Scheduler sc(u64(p.integer("sched_seed", 1)), p.num("p_switch", 0.2));
		std::vector<Outcome> os(static_cast<std::size_t>(th_n)); std::vector<long> d(th_n, 0), f(th_n, 0);
		for (long i = 0; i < th_n; ++i) {
			envs[i].load(p); envs[i].sched = &sc; envs[i].task = int(i); envs[i].yield_alloc = true;
			sc.bodies.push_back([&, i]() { script(p, os[i], &envs[i], s, vals + u64(i), &d[i], &f[i]); });
		}
		sc.run();
		for (long i = 0; i < th_n; ++i) { for (auto &v : os[i].viol) o.fail(v.first, v.second); done += d[i]; failed += f[i]; }
		sw = sc.switches; o.hash.u(sc.trace.h); o.shape.u(sc.trace.h);
	}
	for (auto &e : envs) { o.absorb(e); if (e.corrupt) o.fail("heap-overrun", "memory after an allocated block was overwritten"); }
	u64 got = registry_hash(); if (got < 16) got += 16;
	if (got != want) o.fail("registry-changed", "what the registry answers differs from a process that made no lookups");
	check_registry(o);
	o.hash.u(got); o.shape.s(s); o.nontrivial = done > 0;
	o.probe("lookups", done); if (failed) o.probe("failed-lookups", failed); if (sw) o.probe("switches", sw);
}
static Registrar rc18("C18", c18_gen, c18_exec);

} // namespace sim
