// Deterministic simulator core: seeded choices, plans, seams, faults, clock,
// allocator, sinks, scheduler.  No repository header is used here.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <ostream>
#include <set>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>

namespace sim {

typedef std::vector<double> dvec;
typedef std::uint64_t u64;

// ---------------------------------------------------------------- choices
struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(seed) {}
	u64 next();
	double uni();                       // [0,1)
	double uni(double a, double b) { return a + (b - a)*uni(); }
	double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
	long below(long n) { return n <= 0 ? 0 : long(next() % u64(n)); }
	long range(long a, long b) { return a + below(b - a + 1); } // inclusive
	bool chance(double p) { return uni() < p; }
};
u64 mix(u64 a, u64 b);
u64 hash_str(const std::string &s);

struct Hash {
	u64 h;
	Hash() : h(0xcbf29ce484222325ULL) {}
	void bytes(const void *p, std::size_t n);
	void u(u64 v) { bytes(&v, sizeof v); }
	void d(double v) {
		if (v != v) v = std::numeric_limits<double>::quiet_NaN(); // sign and payload do not matter
		u64 b; std::memcpy(&b, &v, 8); if (v != v) b = 0x7ff8000000000000ULL; u(b);
	}
	void s(const std::string &v) { u(v.size()); bytes(v.data(), v.size()); }
	void v(const dvec &x) { u(x.size()); for (double e : x) d(e); }
};

// ---------------------------------------------------------------- plans
// A plan is all there is to a run: parameters and faults. Execution is a
// pure function of it.
struct Fault {
	std::string seam;   // fun, jac, alloc, clock, write, sched, ...
	long at;            // index of the seam event it fires on
	long count;         // on how many consecutive events (-1: all that follow)
	std::string act;
	double arg;
	bool late;          // marks a fault whose first effect is of interest (never written to a plan)
	Fault() : at(0), count(1), arg(0), late(false) {}
};

struct Plan {
	std::string prop;
	u64 seed, idx;
	std::map<std::string, std::string> p;
	std::vector<Fault> f;

	Plan() : seed(0), idx(0) {}
	double num(const std::string &k, double dflt = 0.0) const;
	long integer(const std::string &k, long dflt = 0) const;
	std::string str(const std::string &k, const std::string &dflt = "") const;
	bool has(const std::string &k) const { return p.count(k) > 0; }
	void set(const std::string &k, double v);
	void set(const std::string &k, long v);
	void set(const std::string &k, int v) { set(k, long(v)); }
	void set(const std::string &k, const std::string &v) { p[k] = v; }
	void fault(const std::string &seam, long at, const std::string &act,
	           double arg = 0, long count = 1);
	std::string text() const;
	static bool parse(const std::string &text, Plan &out);
};

// ---------------------------------------------------------------- exceptions used as faults
struct BudgetExceeded {};                   // not derived from std::exception on purpose
struct CrashNow {};                         // simulated process death
struct SimError : std::runtime_error { SimError() : std::runtime_error("simulated user error") {} };
struct SimOdd { int code; };                // an exception of a foreign type

// ---------------------------------------------------------------- problems
struct Problem {
	std::string kind;
	int n;
	double a, b, c;
	u64 pseed;
	double spike_amp, spike_t, spike_w;     // smooth burst, provokes rejected steps
	double step_amp, step_t;                // discontinuity in t
	std::vector<double> M;                  // for kind=matrix, row major
	double ts;                              // unit of time: the problem in t*ts
	double us;                              // unit of the solution: the problem in y/us
	double fd;                              // > 0: Jacobians by finite differences of this width

	Problem() : kind("decay"), n(1), a(1), b(0), c(0), pseed(0),
	            spike_amp(0), spike_t(0), spike_w(1), step_amp(0), step_t(0), ts(1), us(1), fd(0) {}
	void init();
	void f(double t, const double *y, double *out) const;
	void f1(double t, const double *y, double *out) const;
	void f0(double t, const double *y, double *out) const;
	void jac0(double t, const double *y, double *J) const;
	void jac(double t, const double *y, double *J /* column major n*n */) const;
	dvec f(double t, const dvec &y) const { dvec r(y.size()); f(t, y.data(), r.data()); return r; }
	bool linear() const;                    // f affine in y
	static Problem from(const Plan &p, const std::string &pre = "");
	dvec y0(const Plan &p, const std::string &pre = "") const;
	static void gen(Rng &r, Plan &p, const std::string &pre, const char *cls);
};

// ---------------------------------------------------------------- environment of a run
struct CallRec { char kind; double t; dvec y; bool faulted; };

struct Scheduler;

struct Env {
	// seam event counters
	long n_fun, n_jac, n_alloc, n_clock, n_write;
	long fun_budget;
	long alloc_budget;
	std::vector<Fault> fun_f, jac_f, alloc_f, clock_f;
	std::map<std::string, long> fired;
	Hash hist;                              // hash of the event history
	Hash shape;                             // hash of the event kinds and faults only
	bool record;
	std::vector<CallRec> calls;
	long last_fault_fun;                    // index of the last fun event with a fault
	long n_fun_faulted;
	long n_fun_nonfinite;                   // answers with a NaN or infinity in them

	// simulated clock
	std::int64_t now_us;                    // monotonic
	std::int64_t wall_off_us;               // wall = base + now + off
	std::int64_t fun_cost_us, jac_cost_us, read_cost_us;

	// allocator
	bool alloc_on;
	long live_blocks, live_arma; long long live_bytes;
	// Blocks left over.  Armadillo's own constructors lose memory when they
	// run out of it halfway, which is not the doing of the code under test.
	long leaked() const { return fired.count("alloc:fail") ? live_blocks - live_arma : live_blocks; }
	bool corrupt;                           // a canary was damaged
	int fill;                               // byte new memory is filled with

	// every reading of the clock: callbacks seen before it, wall and monotonic time
	struct Read { long n_cb; std::int64_t wall, mono; };
	std::vector<Read> reads;
	bool record_reads;

	// told of every call of the functor, before it is answered
	std::function<void(char kind, double t, const double *y, int n)> on_call;
	long late_at;                           // callbacks begun when the first late fault struck (-1: none did)

	// nesting: what a "nest" action runs
	std::function<void()> nested;
	int depth;

	Scheduler *sched; int task;
	bool yield_alloc;

	// a memory of an earlier state, for stale Jacobians
	dvec stale_y; double stale_t; bool have_stale;

	Env();
	void load(const Plan &p, const std::string &pre = "");   // take the faults of the plan
	void load_late(const Plan &p, const std::string &pre);   // add the faults under another prefix, marked as late
	void on_fun(const Problem &pr, double t, const double *y, double *out);
	void on_jac(const Problem &pr, double t, const double *y, double *J);
	bool on_alloc();                         // true: fail
	void on_clock();
	void yield(char why);
};

Env *cur();
void set_cur(Env *e);
struct EnvScope { Env *old; explicit EnvScope(Env *e) : old(cur()) { set_cur(e); } ~EnvScope() { set_cur(old); } };
// Inside, allocations are those of the code under test.
struct AllocOn { Env *e; bool old; explicit AllocOn(Env *e_) : e(e_), old(e_->alloc_on) { e->alloc_on = true; } ~AllocOn() { e->alloc_on = old; } };
struct AllocOff { Env *e; bool old; explicit AllocOff(Env *e_) : e(e_), old(e_ ? e_->alloc_on : false) { if (e) e->alloc_on = false; } ~AllocOff() { if (e) e->alloc_on = old; } };

std::int64_t real_us();                      // real clock, harness only

// ---------------------------------------------------------------- sinks
// A simulated disk file behind a stream buffer.
struct SimDisk : std::streambuf {
	std::string data;                        // what reached the file
	long cap;                                // bytes until "no space left" (-1: none)
	long throw_at;                           // write call index at which it throws (-1: none)
	long fail_at;                            // write call index at which it fails
	long fail_count;                         // how many calls fail from there
	bool short_writes;                       // accept only half of a failing chunk
	long writes; long failures;
	SimDisk() : cap(-1), throw_at(-1), fail_at(-1), fail_count(0), short_writes(false), writes(0), failures(0) {}
protected:
	int_type overflow(int_type c);
	std::streamsize xsputn(const char *s, std::streamsize n);
};

struct NullBuf : std::streambuf {
	int_type overflow(int_type c) { return traits_type::not_eof(c); }
	std::streamsize xsputn(const char *, std::streamsize n) { return n; }
};

// A log sink at which another task may get to run.
struct YieldBuf : std::streambuf {
	int_type overflow(int_type c) { if (cur()) { AllocOff off(cur()); cur()->yield('o'); } return traits_type::not_eof(c); }
	std::streamsize xsputn(const char *, std::streamsize n) { if (cur()) { AllocOff off(cur()); cur()->yield('o'); } return n; }
};

// Redirects std::cout and std::cerr, restores buffers and state flags.
struct StdioScope {
	std::streambuf *o, *e; std::ios oc, ec;
	StdioScope(std::streambuf *out, std::streambuf *err);
	~StdioScope();
};

// ---------------------------------------------------------------- scheduler
// Real threads, exactly one of which runs at any time; which one is decided
// by a seeded choice at each seam.
struct Scheduler {
	Rng rng; double p_switch;
	long switches, points;
	Hash trace;
	std::vector<std::function<void()> > bodies;
	Scheduler(u64 seed, double p) : rng(seed), p_switch(p), switches(0), points(0), impl(0) {}
	void run();                              // runs all bodies to their end
	void point(int task);
	void give_way(int task);                 // the task cannot go on, let others run
	struct Impl; Impl *impl;
};

// ---------------------------------------------------------------- outcomes
struct Outcome {
	std::vector<std::pair<std::string, std::string> > viol;
	Hash hash;
	Hash shape;
	bool nontrivial;
	std::map<std::string, long> fired, probes;
	double sim_us;
	long callbacks;
	std::string note;
	Outcome() : nontrivial(false), sim_us(0), callbacks(0) {}
	void fail(const std::string &cls, const std::string &detail);
	void absorb(const Env &e);
	void probe(const std::string &k, long n = 1) { probes[k] += n; }
};

typedef void (*GenFn)(Rng &, Plan &);
typedef void (*ExecFn)(const Plan &, Outcome &);
struct Property { const char *id; GenFn gen; ExecFn exec; };
void register_property(const Property &p);
struct Registrar { Registrar(const char *id, GenFn g, ExecFn e) { Property p = {id, g, e}; register_property(p); } };
const Property *find_property(const std::string &id);

// Runs body in a child process of its own and returns what it returned (a
// value that does not depend on anything this process did before or after).
// A child that dies returns a value below 16 that tells how.
u64 in_fresh_process(const std::function<u64()> &body);

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

} // namespace sim
#endif
