// C14 history buffer.
#include <vector>
#include <armadillo>
#include "cyclic_buffer.hpp"
#include "props.hpp"
#include <deque>

namespace sim {

// An element that owns memory, counts its instances and whose copies may fail.
struct ElemCtl { long live, copies; std::vector<Fault> faults; long fired; };
static thread_local ElemCtl *g_ctl = 0;
struct Elem {
	long *v;
	Elem() : v(new long(0)) { if (g_ctl) g_ctl->live++; }
	Elem(long x) : v(new long(x)) { if (g_ctl) g_ctl->live++; }
	static void fail()
	{
		if (!g_ctl) return;
		long i = g_ctl->copies++;
		for (auto &f : g_ctl->faults) if (i >= f.at && (f.count < 0 || i < f.at + f.count)) { g_ctl->fired++; throw SimError(); }
	}
	Elem(const Elem &o) : v(0) { fail(); v = new long(*o.v); if (g_ctl) g_ctl->live++; }
	Elem &operator=(const Elem &o) { fail(); long *n = new long(*o.v); delete v; v = n; return *this; }
	~Elem() { delete v; v = 0; if (g_ctl) g_ctl->live--; }
};

template <typename T> struct Val;
template <> struct Val<Elem> { static Elem make(long x) { return Elem(x); } static long get(const Elem &e) { return *e.v; } };
template <> struct Val<double> { static double make(long x) { return double(x); } static long get(const double &e) { return long(e); } };
template <> struct Val<arma::vec> {
	static arma::vec make(long x) { arma::vec v(3 + x % 40); v.fill(double(x)); return v; }
	static long get(const arma::vec &e) { if (e.n_elem == 0) return 0; for (double d : e) if (d != e[0] || long(e.n_elem) != 3 + long(e[0]) % 40) return -1; return long(e[0]); }
};

struct Model { long period; std::deque<long> v; Model() : period(0) {} };

template <typename T> struct Machine {
	typedef cyclic_buffer<T> Buf;
	std::vector<Buf *> b; std::vector<Model> m;
	Env *env; Outcome *o; Hash h; bool bad; long ops, faults_hit;
	long big, many;
	Machine(Env *e, Outcome *o_) : env(e), o(o_), bad(false), ops(0), faults_hit(0), big(9), many(20) {}
	~Machine() { for (Buf *x : b) delete x; }

	bool equals(Buf &x, const Model &w, std::string *why)
	{
		const Buf &c = x;
		if (long(c.size()) != long(w.v.size())) { if (why) *why = fmt("size is %zu, should be %zu", c.size(), w.v.size()); return false; }
		if (long(c.period()) != w.period) { if (why) *why = fmt("period is %zu, should be %ld", c.period(), w.period); return false; }
		if (c.empty() != w.v.empty()) { if (why) *why = "empty() is wrong"; return false; }
		for (std::size_t i = 0; i < w.v.size(); ++i) {
			long g = Val<T>::get(x[i]), g2 = Val<T>::get(c[i]);
			if (g != w.v[i] || g2 != w.v[i]) { if (why) *why = fmt("value %zu is %ld (%ld through a const reference), should be %ld", i, g, g2, w.v[i]); return false; }
		}
		std::size_t i = 0;
		{
			for (auto it = x.begin(); it != x.end(); ++it, ++i) {
				if (i >= w.v.size()) { if (why) *why = "iteration goes on past the oldest value"; return false; }
				if (Val<T>::get(*it) != w.v[i]) { if (why) *why = fmt("iteration gives %ld at place %zu, should be %ld", Val<T>::get(*it), i, w.v[i]); return false; }
				const auto &ci = it; long g3 = Val<T>::get(*ci);
				if (g3 != w.v[i]) { if (why) *why = fmt("a constant iterator gives %ld at place %zu, should be %ld", g3, i, w.v[i]); return false; }
			}
			if (i != w.v.size()) { if (why) *why = fmt("iteration ends after %zu of %zu values", i, w.v.size()); return false; }
		}
		return true;
	}
	// Reading back must not itself meet faults.
	bool check(std::size_t s, const std::vector<Model> &allowed, const char *what)
	{
		ElemCtl *c = g_ctl; g_ctl = 0;
		ElemCtl quiet; quiet.live = 0; quiet.copies = 0; quiet.fired = 0; g_ctl = &quiet;
		std::string why, first; bool ok = false;
		for (auto &w : allowed) { if (equals(*b[s], w, &why)) { m[s] = w; ok = true; break; } if (first.empty()) first = why; }
		g_ctl = c;
		if (!ok) { o->fail(allowed.size() > 1 ? "state-after-failure" : "wrong-contents", fmt("after operation %ld (%s): %s", ops, what, first.c_str())); bad = true; }
		return ok;
	}
	// Assigning a vector that cannot be allocated loses the old one, which is
	// the vector's doing; the place written to may be empty afterwards.
	static std::vector<Model> or_lost(std::vector<Model> a, const Model &old, std::size_t j)
	{
		if (std::is_same<T, arma::vec>::value && j < old.v.size()) { Model l = old; l.v[j] = 0; a.push_back(l); }
		return a;
	}
	template <typename F> bool attempt(F f)
	{
		EnvScope es(env);
		try { AllocOn on(env); f(); return true; }
		catch (SimError &) { }
		catch (std::bad_alloc &) { }
		env->alloc_on = false;
		++faults_hit;
		return false;
	}
	void step(char op, long a, long v)
	{
		++ops;
		std::size_t k = b.size() ? std::size_t(a) % b.size() : 0;
		Model none;
		switch (op) {
		case 'n': {
			long per = 1 + v % big; Buf *x = 0;
			if (attempt([&]() { x = new Buf(int(per)); })) { b.push_back(x); Model w; w.period = per; m.push_back(w); check(b.size() - 1, { w }, "construct"); }
			break; }
		case 'd': {
			Buf *x = 0;
			if (attempt([&]() { x = new Buf(); })) { b.push_back(x); m.push_back(Model()); check(b.size() - 1, { Model() }, "default construct"); }
			break; }
		case 'c': {
			if (b.empty()) break;
			Buf *x = 0; Model src = m[k];
			if (attempt([&]() { x = new Buf(*b[k]); })) { b.push_back(x); m.push_back(src); check(b.size() - 1, { src }, "copy construct"); }
			check(k, { src }, "being copied");
			break; }
		case 'p': case 'P': case 'q': {
			if (b.empty() || m[k].period == 0) break;
			int times = op == 'q' ? int(1 + v % many) : 1;
			for (int i = 0; i < times && !bad; ++i) {
				Model old = m[k], nw = old;
				long val = (v + i) % 100000;
				bool ok;
				if (op == 'P' && !old.v.empty()) {
					std::size_t j = std::size_t(v) % old.v.size(); val = old.v[j];
					ok = attempt([&]() { b[k]->push_back((*b[k])[j]); });
				} else ok = attempt([&]() { b[k]->push_back(Val<T>::make(val)); });
				nw.v.push_front(val); if (long(nw.v.size()) > nw.period) nw.v.pop_back();
				if (ok) check(k, { nw }, op == 'P' ? "push back of an own element" : "push back"); else check(k, or_lost({ old, nw }, old, long(old.v.size()) == old.period ? old.v.size() - 1 : old.v.size()), "failed push back");
			}
			break; }
		case 'w': {
			if (b.empty() || m[k].v.empty()) break;
			Model old = m[k], nw = old; std::size_t j = std::size_t(v) % old.v.size(); long val = (v*7 + 3) % 100000;
			nw.v[j] = val;
			bool ok = attempt([&]() { (*b[k])[j] = Val<T>::make(val); });
			if (ok) check(k, { nw }, "element assignment"); else check(k, or_lost({ old, nw }, old, j), "failed element assignment");
			break; }
		case 'i': {
			if (b.empty() || m[k].v.empty()) break;
			Model old = m[k], nw = old; std::size_t j = std::size_t(v) % old.v.size(); long val = (v*11 + 5) % 100000;
			nw.v[j] = val;
			bool ok = attempt([&]() { auto it = b[k]->begin(); for (std::size_t q = 0; q < j; ++q) ++it; *it = Val<T>::make(val); });
			if (ok) check(k, { nw }, "assignment through an iterator"); else check(k, or_lost({ old, nw }, old, j), "failed assignment through an iterator");
			break; }
		case 'a': {
			if (b.size() < 2) break;
			std::size_t s = std::size_t(v) % b.size();
			Model old = m[k], nw = m[s]; Model emp, emp2; emp.period = old.period; emp2.period = nw.period;
			bool ok = attempt([&]() { *b[k] = *b[s]; });
			if (ok) check(k, { nw }, s == k ? "self assignment" : "assignment"); else check(k, { old, nw, emp, emp2, Model() }, "failed assignment");
			if (s != k) check(s, { nw }, "being assigned from");
			break; }
		case 's': {
			if (b.empty()) break;
			Model old = m[k];
			bool ok = attempt([&]() { Buf &r = *b[k]; *b[k] = r; });
			if (ok) check(k, { old }, "self assignment"); else check(k, { old, Model() }, "failed self assignment");
			break; }
		case 'r': {
			if (b.empty()) break;
			long per = 1 + v % (big + 2); Model old = m[k], nw; nw.period = per; Model emp; emp.period = old.period;
			bool ok = attempt([&]() { b[k]->resize(std::size_t(per)); });
			if (ok) check(k, { nw }, "resize"); else check(k, { old, nw, emp, Model() }, "failed resize");
			break; }
		case 'x': {
			if (b.size() < 2) break;
			std::size_t s = std::size_t(v) % b.size();
			if (s == k) break;
			{ EnvScope es(env); delete b[s]; } b.erase(b.begin() + long(s)); m.erase(m.begin() + long(s));
			break; }
		}
		if (!b.empty() && !bad) { for (std::size_t i = 0; i < b.size() && !bad; ++i) check(i, { m[i] }, "elsewhere"); }
		for (auto &w : m) { h.u(u64(w.period)); for (long x : w.v) h.u(u64(x)); }
	}
};

template <typename T> static void run_script(const Plan &p, Outcome &o)
{
	Env e; e.load(p);
	ElemCtl ctl; ctl.live = 0; ctl.copies = 0; ctl.fired = 0;
	for (auto &f : p.f) if (f.seam == "copy") ctl.faults.push_back(f);
	g_ctl = &ctl;
	std::string s = p.str("script");
	Rng r(u64(p.integer("vals", 1)));
	std::vector<std::pair<long, long> > args;
	for (std::size_t i = 0; i < s.size(); ++i) { long a = long(r.below(1000)), v = long(r.below(100000)); args.push_back(std::make_pair(a, v)); }
	long ops = 0;
	{
		Machine<T> mc(&e, &o); mc.big = p.integer("big", 9); mc.many = p.integer("many", 20);
		for (std::size_t i = 0; i < s.size() && !mc.bad; ++i) { if (mc.b.size() > 5 && (s[i] == 'n' || s[i] == 'c' || s[i] == 'd')) continue; mc.step(s[i], args[i].first, args[i].second); }
		o.hash.u(mc.h.h); ops = mc.ops;
		o.probe("operations", mc.ops); if (mc.faults_hit) o.probe("failed-operations", mc.faults_hit);
		EnvScope es(&e);
		for (auto *x : mc.b) delete x;
		mc.b.clear();
	}
	if (ctl.live != 0) o.fail("leak", fmt("%ld elements are left after all buffers were destroyed", ctl.live));
	if (e.corrupt) o.fail("heap-overrun", "memory after an allocated block was overwritten");
	if (e.leaked() > 0) o.fail("leak", fmt("%ld blocks of memory are left after all buffers were destroyed", e.leaked()));
	if (ctl.fired) o.fired["copy:throw"] += ctl.fired;
	g_ctl = 0;
	o.absorb(e); o.shape.s(s); o.nontrivial = ops > 2;
}

static void c14_gen(Rng &r, Plan &p)
{
	const char *ty[] = { "elem", "elem", "vec", "double" };
	p.set("type", std::string(ty[r.below(4)]));
	std::string s = r.chance(0.8) ? "n" : "d";
	const char ops[] = "ppppppqqPwwwicaasrrnxd";
	int n = int(r.range(3, 60));
	for (int i = 0; i < n; ++i) s += ops[r.below(sizeof ops - 1)];
	double u = r.uni();
	if (u < 0.05) {                            // large periods
		p.set("big", r.chance(0.5) ? 300L : 70L); p.set("many", 900L);
	} else if (u < 0.06) {                     // long histories
		s = "nnq"; int m = int(r.range(100, 400));
		const char long_ops[] = "pqqqqPwics";
		for (int i = 0; i < m; ++i) s += long_ops[r.below(sizeof long_ops - 1)];
		p.set("many", 3000L);
	}
	p.set("script", s); p.set("vals", r.range(1, 1000000000L));
	long fills[] = { 0xA5, 0, 0xff, 0x7f };
	p.set("fill", fills[r.below(4)]);
	if (r.chance(0.6)) {
		int k = int(r.range(1, 4));
		for (int i = 0; i < k; ++i)
			if (p.str("type") == "elem" && r.chance(0.6)) p.fault("copy", r.below(long(s.size())*6), "throw", 0, r.chance(0.8) ? 1 : r.range(2, 5));
			else p.fault("alloc", r.below(long(s.size())*8), "fail", 0, r.chance(0.8) ? 1 : r.range(2, 5));
	}
}
static void c14_exec(const Plan &p, Outcome &o)
{
	Quiet q;
	std::string t = p.str("type");
	if (t == "vec") run_script<arma::vec>(p, o);
	else if (t == "double") run_script<double>(p, o);
	else run_script<Elem>(p, o);
}
static Registrar rc14("C14", c14_gen, c14_exec);

u64 buffer_script_hash(u64 seed)
{
	Plan p; Rng r(seed); c14_gen(r, p); p.f.clear();
	Outcome o; c14_exec(p, o);
	Hash h; h.u(o.hash.h); for (auto &v : o.viol) h.s(v.first);
	return h.h;
}

} // namespace sim
