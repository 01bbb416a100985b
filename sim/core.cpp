#include "core.hpp"

#include <cstdarg>
#include <iostream>
#include <new>

#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

// ---------------------------------------------------------------- choices
u64 Rng::next()
{
	s += 0x9e3779b97f4a7c15ULL;
	u64 z = s;
	z = (z ^ (z >> 30))*0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27))*0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
double Rng::uni() { return double(next() >> 11)*(1.0/9007199254740992.0); }

u64 mix(u64 a, u64 b) { Rng r(a ^ (b*0xd6e8feb86659fd93ULL + 0x632be59bd9b4e019ULL)); r.next(); return r.next(); }
u64 hash_str(const std::string &s) { Hash h; h.bytes(s.data(), s.size()); return h.h; }

void Hash::bytes(const void *p, std::size_t n)
{
	const unsigned char *c = static_cast<const unsigned char *>(p);
	for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ULL; }
}

std::string fmt(const char *f, ...)
{
	char buf[2048];
	va_list ap; va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}

// ---------------------------------------------------------------- plans
double Plan::num(const std::string &k, double d) const
{
	auto it = p.find(k);
	return it == p.end() ? d : strtod(it->second.c_str(), 0);
}
long Plan::integer(const std::string &k, long d) const
{
	auto it = p.find(k);
	return it == p.end() ? d : strtol(it->second.c_str(), 0, 10);
}
std::string Plan::str(const std::string &k, const std::string &d) const
{
	auto it = p.find(k);
	return it == p.end() ? d : it->second;
}
void Plan::set(const std::string &k, double v) { p[k] = fmt("%.17g", v); }
void Plan::set(const std::string &k, long v) { p[k] = fmt("%ld", v); }
void Plan::fault(const std::string &seam, long at, const std::string &act, double arg, long count)
{
	Fault x; x.seam = seam; x.at = at; x.act = act; x.arg = arg; x.count = count;
	f.push_back(x);
}
std::string Plan::text() const
{
	std::string s = fmt("plan %s %llu %llu\n", prop.c_str(), (unsigned long long)seed, (unsigned long long)idx);
	for (auto &kv : p) s += "P " + kv.first + " " + kv.second + "\n";
	for (auto &x : f)
		s += fmt("F %s %ld %ld %s %.17g\n", x.seam.c_str(), x.at, x.count, x.act.c_str(), x.arg);
	return s;
}
bool Plan::parse(const std::string &text, Plan &o)
{
	o = Plan();
	bool ok = false;
	std::size_t pos = 0;
	while (pos < text.size()) {
		std::size_t e = text.find('\n', pos);
		if (e == std::string::npos) e = text.size();
		std::string l = text.substr(pos, e - pos);
		pos = e + 1;
		if (l.compare(0, 5, "plan ") == 0) {
			char pr[64]; unsigned long long a, b;
			if (sscanf(l.c_str(), "plan %63s %llu %llu", pr, &a, &b) != 3) return false;
			o.prop = pr; o.seed = a; o.idx = b; ok = true;
		} else if (l.compare(0, 2, "P ") == 0) {
			std::size_t q = l.find(' ', 2);
			if (q == std::string::npos) return false;
			o.p[l.substr(2, q - 2)] = l.substr(q + 1);
		} else if (l.compare(0, 2, "F ") == 0) {
			char seam[64], act[64]; long at, cnt; double arg;
			if (sscanf(l.c_str(), "F %63s %ld %ld %63s %lf", seam, &at, &cnt, act, &arg) != 5) return false;
			o.fault(seam, at, act, arg, cnt);
		}
	}
	return ok;
}

// ---------------------------------------------------------------- problems
void Problem::init()
{
	if (kind == "matrix") {
		Rng r(pseed);
		M.assign(n*n, 0.0);
		for (int i = 0; i < n; ++i)
			for (int j = 0; j < n; ++j)
				M[i*n + j] = r.uni(-1, 1)*b/n - (i == j ? a*(1.0 + i*0.5) : 0.0);
	}
}

bool Problem::linear() const
{
	return kind == "decay" || kind == "osc" || kind == "forced" || kind == "matrix" || kind == "polyt" || kind == "zero";
}

void Problem::f(double t, const double *y, double *o) const
{
	if (us == 1) { f1(t, y, o); return; }
	double z[64];
	for (int i = 0; i < n; ++i) z[i] = y[i]/us;
	f1(t, z, o);
	for (int i = 0; i < n; ++i) o[i] *= us;
}

void Problem::f1(double t, const double *y, double *o) const
{
	f0(t*ts, y, o);
	if (spike_amp != 0) {
		double x = (t - spike_t)/spike_w;
		o[0] += spike_amp*std::exp(-x*x);
	}
	if (step_amp != 0 && t > step_t) o[0] += step_amp;
	if (ts != 1) for (int i = 0; i < n; ++i) o[i] *= ts;
}

void Problem::f0(double t, const double *y, double *o) const
{
	if (kind == "decay") {
		for (int i = 0; i < n; ++i) o[i] = -a*(1.0 + 0.7*i)*y[i];
	} else if (kind == "zero") {
		for (int i = 0; i < n; ++i) o[i] = 0.0;
	} else if (kind == "osc") {
		for (int i = 0; i + 1 < n; i += 2) {
			double w = a*(1.0 + 0.3*i);
			o[i] = y[i+1] - b*y[i];
			o[i+1] = -w*w*y[i] - b*y[i+1];
		}
		if (n % 2) o[n-1] = -b*y[n-1] + 0.1;
	} else if (kind == "vdp") {
		o[0] = y[1];
		o[1] = a*(1.0 - y[0]*y[0])*y[1] - y[0];
	} else if (kind == "logistic") {
		for (int i = 0; i < n; ++i) o[i] = a*(1.0 + 0.4*i)*y[i]*(1.0 - y[i]);
	} else if (kind == "forced") {
		for (int i = 0; i < n; ++i) o[i] = -a*(y[i] - std::cos(b*t + i)) - b*std::sin(b*t + i);
	} else if (kind == "polyt") {
		for (int i = 0; i < n; ++i) o[i] = a + b*t + (c + i)*t*t;
	} else if (kind == "bruss") {
		o[0] = a + y[0]*y[0]*y[1] - (b + 1.0)*y[0];
		o[1] = b*y[0] - y[0]*y[0]*y[1];
	} else if (kind == "pend") {
		o[0] = y[1];
		o[1] = -a*std::sin(y[0]) - b*y[1] + c*std::cos(2.0*t);
	} else if (kind == "lorenz") {
		o[0] = 10.0*(y[1] - y[0]);
		o[1] = y[0]*(a - y[2]) - y[1];
		o[2] = y[0]*y[1] - 8.0/3.0*y[2];
	} else if (kind == "rober") {
		o[0] = -0.04*y[0] + a*y[1]*y[2];
		o[2] = b*y[1]*y[1];
		o[1] = -o[0] - o[2];
	} else if (kind == "blowup") {
		for (int i = 0; i < n; ++i) o[i] = a*y[i]*y[i];
	} else if (kind == "sqrt") {
		for (int i = 0; i < n; ++i) o[i] = -a*std::sqrt(y[i]);     // NaN once y < 0
	} else if (kind == "log") {
		for (int i = 0; i < n; ++i) o[i] = -a*std::log(y[i]) - 0.1*y[i];
	} else if (kind == "matrix") {
		for (int i = 0; i < n; ++i) {
			double s = b*std::sin(c*t + i);
			for (int j = 0; j < n; ++j) s += M[i*n + j]*y[j];
			o[i] = s;
		}
	} else {
		for (int i = 0; i < n; ++i) o[i] = 0.0;
	}
}

void Problem::jac(double t, const double *y, double *J) const
{
	double z[64];
	if (us != 1) { for (int i = 0; i < n; ++i) z[i] = y[i]/us; y = z; }
	jac0(t*ts, y, J);
	if (ts != 1) for (int i = 0; i < n*n; ++i) J[i] *= ts;
}

void Problem::jac0(double t, const double *y, double *J) const
{
	(void) t;
	for (int i = 0; i < n*n; ++i) J[i] = 0.0;
#define JJ(i,j) J[(i) + (j)*n]
	if (kind == "decay") {
		for (int i = 0; i < n; ++i) JJ(i,i) = -a*(1.0 + 0.7*i);
	} else if (kind == "osc") {
		for (int i = 0; i + 1 < n; i += 2) {
			double w = a*(1.0 + 0.3*i);
			JJ(i,i) = -b; JJ(i,i+1) = 1.0; JJ(i+1,i) = -w*w; JJ(i+1,i+1) = -b;
		}
		if (n % 2) JJ(n-1,n-1) = -b;
	} else if (kind == "vdp") {
		JJ(0,1) = 1.0;
		JJ(1,0) = -2.0*a*y[0]*y[1] - 1.0;
		JJ(1,1) = a*(1.0 - y[0]*y[0]);
	} else if (kind == "logistic") {
		for (int i = 0; i < n; ++i) JJ(i,i) = a*(1.0 + 0.4*i)*(1.0 - 2.0*y[i]);
	} else if (kind == "forced") {
		for (int i = 0; i < n; ++i) JJ(i,i) = -a;
	} else if (kind == "bruss") {
		JJ(0,0) = 2*y[0]*y[1] - (b + 1.0); JJ(0,1) = y[0]*y[0];
		JJ(1,0) = b - 2*y[0]*y[1]; JJ(1,1) = -y[0]*y[0];
	} else if (kind == "pend") {
		JJ(0,1) = 1.0; JJ(1,0) = -a*std::cos(y[0]); JJ(1,1) = -b;
	} else if (kind == "lorenz") {
		JJ(0,0) = -10.0; JJ(0,1) = 10.0;
		JJ(1,0) = a - y[2]; JJ(1,1) = -1.0; JJ(1,2) = -y[0];
		JJ(2,0) = y[1]; JJ(2,1) = y[0]; JJ(2,2) = -8.0/3.0;
	} else if (kind == "rober") {
		JJ(0,0) = -0.04; JJ(0,1) = a*y[2]; JJ(0,2) = a*y[1];
		JJ(2,1) = 2*b*y[1];
		JJ(1,0) = 0.04; JJ(1,1) = -a*y[2] - 2*b*y[1]; JJ(1,2) = -a*y[1];
	} else if (kind == "blowup") {
		for (int i = 0; i < n; ++i) JJ(i,i) = 2*a*y[i];
	} else if (kind == "sqrt") {
		for (int i = 0; i < n; ++i) JJ(i,i) = -0.5*a/std::sqrt(y[i]);
	} else if (kind == "log") {
		for (int i = 0; i < n; ++i) JJ(i,i) = -a/y[i] - 0.1;
	} else if (kind == "matrix") {
		for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) JJ(i,j) = M[i*n + j];
	}
#undef JJ
}

Problem Problem::from(const Plan &p, const std::string &q)
{
	Problem r;
	r.kind = p.str(q + "kind", "decay");
	r.n = int(p.integer(q + "n", 1));
	r.a = p.num(q + "a", 1); r.b = p.num(q + "b", 0); r.c = p.num(q + "c", 0);
	r.pseed = u64(p.integer(q + "pseed", 1));
	r.spike_amp = p.num(q + "spike_amp", 0); r.spike_t = p.num(q + "spike_t", 0); r.spike_w = p.num(q + "spike_w", 1);
	r.step_amp = p.num(q + "step_amp", 0); r.step_t = p.num(q + "step_t", 0);
	r.ts = p.num(q + "ts", 1); r.us = p.num(q + "us", 1); r.fd = p.num(q + "fd", 0);
	r.init();
	return r;
}

dvec Problem::y0(const Plan &p, const std::string &q) const
{
	if (p.has(q + "y0bad")) {                  // a value that is not finite to start from
		Plan c = p; c.p.erase(q + "y0bad");
		dvec y = y0(c, q);
		long k = p.integer(q + "y0bad");
		y[std::size_t(k % 100) % y.size()] = k >= 200 ? -std::numeric_limits<double>::infinity() : k >= 100 ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
		return y;
	}
	if (us != 1) {
		Problem x = *this; x.us = 1;
		dvec y = x.y0(p, q);
		for (double &v : y) v *= us;
		return y;
	}
	Rng r(mix(u64(p.integer(q + "pseed", 1)), 77));
	dvec y(n);
	double sc = p.num(q + "yscale", 1.0);
	for (int i = 0; i < n; ++i) {
		if (kind == "rober") { y[i] = i == 0 ? 1.0 : 0.0; continue; }
		if (kind == "logistic") { y[i] = r.uni(0.1, 1.5); continue; }
		if (kind == "bruss") { y[i] = r.uni(0.5, 3.0); continue; }
		if (kind == "vdp") { y[i] = r.uni(-2, 2); continue; }
		if (kind == "sqrt" || kind == "log" || kind == "blowup") { y[i] = r.uni(0.5, 2.0); continue; }
		if (kind == "lorenz") { y[i] = r.uni(1, 10); continue; }
		y[i] = sc*r.uni(-2, 2);
	}
	return y;
}

// cls: "any" smooth problems without stiffness, "stiff" adds stiff ones,
// "linear" only affine ones.
void Problem::gen(Rng &r, Plan &p, const std::string &q, const char *cls)
{
	std::string c = cls;
	std::vector<std::string> k;
	k.push_back("decay"); k.push_back("osc"); k.push_back("forced");
	k.push_back("matrix"); k.push_back("polyt");
	if (c != "linear") {
		k.push_back("vdp"); k.push_back("logistic"); k.push_back("bruss");
		k.push_back("pend"); k.push_back("lorenz");
	}
	if (c == "stiff") k.push_back("rober");
	std::string kind = k[r.below(k.size())];
	int n = int(r.range(1, 4));
	double a = r.logu(0.3, 4), b = r.uni(0, 2), cc = r.uni(-1, 1);
	if (c == "stiff" || c == "linear") { if (kind == "decay" || kind == "forced" || kind == "matrix") if (r.chance(0.4)) a = r.logu(10, 300); }
	if (kind == "osc") n = int(r.range(2, 5));
	if ((kind == "osc" || kind == "decay" || kind == "forced" || kind == "matrix") && r.chance(0.06)) n = int(r.range(6, 18));
	if (kind == "vdp") { n = 2; a = r.chance(0.3) && c == "stiff" ? r.logu(5, 100) : r.logu(0.2, 4); }
	if (kind == "bruss") { n = 2; a = 1; b = r.uni(1, 3); }
	if (kind == "pend") { n = 2; b = r.uni(0, 0.5); }
	if (kind == "lorenz") { n = 3; a = r.uni(10, 28); }
	if (kind == "rober") { n = 3; a = 1e4; b = 3e7; if (r.chance(0.5)) { a = 1e2; b = 3e3; } }
	p.set(q + "kind", kind); p.set(q + "n", n);
	p.set(q + "a", a); p.set(q + "b", b); p.set(q + "c", cc);
	p.set(q + "pseed", r.range(1, 1000000));
	if (r.chance(0.15)) p.set(q + "yscale", r.logu(1e-3, 1e3));
}

// ---------------------------------------------------------------- environment
static thread_local Env *t_env = 0;
Env *cur() { return t_env; }
void set_cur(Env *e) { t_env = e; }


Env::Env()
	: n_fun(0), n_jac(0), n_alloc(0), n_clock(0), n_write(0),
	  fun_budget(2000000), alloc_budget(50000000), record(false),
	  last_fault_fun(-1), n_fun_faulted(0), n_fun_nonfinite(0),
	  now_us(1000000), wall_off_us(0), fun_cost_us(50), jac_cost_us(80), read_cost_us(1),
	  alloc_on(false), live_blocks(0), live_arma(0), live_bytes(0), corrupt(false), fill(0xA5),
	  record_reads(false), late_at(-1), depth(0), sched(0), task(0), yield_alloc(false), stale_t(0), have_stale(false)
{ }

void Env::load(const Plan &p, const std::string &pre)
{
	for (auto &x : p.f) {
		if (x.seam == pre + "fun") fun_f.push_back(x);
		if (x.seam == pre + "jac") jac_f.push_back(x);
		if (x.seam == pre + "alloc") alloc_f.push_back(x);
		if (x.seam == pre + "clock") clock_f.push_back(x);
	}
	fun_cost_us = p.integer(pre + "fun_cost", 50);
	read_cost_us = p.integer(pre + "read_cost", 1);
	jac_cost_us = p.integer(pre + "jac_cost", 80);
	fun_budget = p.integer(pre + "fun_budget", 2000000);
	fill = int(p.integer(pre + "fill", 0xA5));
}

void Env::load_late(const Plan &p, const std::string &pre)
{
	for (auto x : p.f) {
		x.late = true;
		if (x.seam == pre + "fun") fun_f.push_back(x);
		if (x.seam == pre + "jac") jac_f.push_back(x);
		if (x.seam == pre + "alloc") alloc_f.push_back(x);
		if (x.seam == pre + "clock") clock_f.push_back(x);
	}
}

void Env::yield(char why)
{
	if (sched) { shape.u(u64(why)); sched->point(task); }
}

static bool hits(const Fault &x, long i)
{
	// a count of -1: from then on; of -k: every k-th time from then on
	if (x.count < -1) return i >= x.at && (i - x.at) % -x.count == 0;
	return i >= x.at && (x.count < 0 || i < x.at + x.count);
}

void Env::on_fun(const Problem &pr, double t, const double *y, double *out)
{
	AllocOff off(this);
	long i = n_fun++;
	now_us += fun_cost_us;
	hist.u(1); hist.d(t); for (int k = 0; k < pr.n; ++k) hist.d(y[k]);
	if (n_fun > fun_budget) throw BudgetExceeded();
	if (on_call) on_call('f', t, y, pr.n);
	yield('f');
	pr.f(t, y, out);
	bool faulted = false;
	for (std::size_t q = 0; q < fun_f.size(); ++q) {
		const Fault &x = fun_f[q];
		if (!hits(x, i)) continue;
		if (x.late && late_at < 0) late_at = n_fun + n_jac;
		const std::string &a = x.act;
		fired["fun:" + a]++; shape.u(2); shape.u(hash_str(a));
		if (a == "stall") { now_us += std::int64_t(x.arg); continue; }
		if (a == "nest") {
			if (nested && depth == 0) { ++depth; nested(); --depth; }
			continue;
		}
		faulted = true; last_fault_fun = i;
		int k = int(x.arg);
		if (a == "throw_std") throw SimError();
		if (a == "throw_odd") { SimOdd o = { int(x.arg) }; throw o; }
		if (a == "throw_int") throw int(x.arg);
		if (a == "throw_bad") throw std::bad_alloc();
		if (a == "crash") throw CrashNow();
		double v = 0; bool add = false;
		if (a == "nan") v = std::numeric_limits<double>::quiet_NaN();
		else if (a == "inf") v = std::numeric_limits<double>::infinity();
		else if (a == "ninf") v = -std::numeric_limits<double>::infinity();
		else if (a == "huge") v = 1e150;
		else if (a == "max") v = 1e308;
		else add = true;
		if (add) continue;
		if (k < 0) for (int j = 0; j < pr.n; ++j) out[j] = v;
		else out[k % pr.n] = v;
	}
	if (faulted) ++n_fun_faulted;
	for (int k = 0; k < pr.n; ++k) if (!std::isfinite(out[k])) { ++n_fun_nonfinite; break; }
	if (record) {
		CallRec c; c.kind = 'f'; c.t = t; c.y.assign(y, y + pr.n); c.faulted = faulted;
		calls.push_back(c);
	}
}

void Env::on_jac(const Problem &pr, double t, const double *y, double *J)
{
	AllocOff off(this);
	long i = n_jac++;
	now_us += jac_cost_us;
	hist.u(3); hist.d(t); for (int k = 0; k < pr.n; ++k) hist.d(y[k]);
	if (n_jac > fun_budget) throw BudgetExceeded();
	if (on_call) on_call('j', t, y, pr.n);
	yield('j');
	pr.jac(t, y, J);
	int nn = pr.n*pr.n;
	for (std::size_t q = 0; q < jac_f.size(); ++q) {
		const Fault &x = jac_f[q];
		if (!hits(x, i)) continue;
		if (x.late && late_at < 0) late_at = n_fun + n_jac;
		const std::string &a = x.act;
		fired["jac:" + a]++; shape.u(4); shape.u(hash_str(a));
		if (a == "stall") { now_us += std::int64_t(x.arg); continue; }
		if (a == "nest") {
			if (nested && depth == 0) { ++depth; nested(); --depth; }
			continue;
		}
		if (a == "throw_std") throw SimError();
		if (a == "throw_odd") { SimOdd o = { int(x.arg) }; throw o; }
		if (a == "throw_int") throw int(x.arg);
		if (a == "crash") throw CrashNow();
		if (a == "nan") J[int(std::fabs(x.arg)) % nn] = std::numeric_limits<double>::quiet_NaN();
		if (a == "inf") J[int(std::fabs(x.arg)) % nn] = std::numeric_limits<double>::infinity();
		if (a == "zero") for (int k = 0; k < nn; ++k) J[k] = 0;
		if (a == "scale") for (int k = 0; k < nn; ++k) J[k] *= x.arg;
		if (a == "bad") for (int k = 0; k < nn; ++k) J[k] *= x.arg;    // far off, breaks convergence
		if (a == "noise") {
			Rng r(mix(u64(i), 99));
			for (int k = 0; k < nn; ++k) J[k] *= 1.0 + x.arg*r.uni(-1, 1);
		}
		if (a == "stale" && have_stale) pr.jac(stale_t, stale_y.data(), J);
	}
	if (!have_stale || n_jac % 7 == 0) {
		stale_y.assign(y, y + pr.n); stale_t = t; have_stale = true;
	}
	if (record) {
		CallRec c; c.kind = 'j'; c.t = t; c.y.assign(y, y + pr.n); c.faulted = false;
		calls.push_back(c);
	}
}

bool Env::on_alloc()
{
	long i = n_alloc++;
	if (n_alloc > alloc_budget) throw BudgetExceeded();
	if (yield_alloc && sched) sched->point(task);
	bool fail = false;
	for (std::size_t q = 0; q < alloc_f.size(); ++q)
		if (hits(alloc_f[q], i)) { fail = true; if (alloc_f[q].late && late_at < 0) late_at = n_fun + n_jac; }
	if (fail) {
		bool old = alloc_on; alloc_on = false;
		fired["alloc:fail"]++; shape.u(5);
		alloc_on = old;
	}
	return fail;
}

void Env::on_clock()
{
	bool old = alloc_on; alloc_on = false;
	long i = n_clock++;
	now_us += read_cost_us;
	for (std::size_t q = 0; q < clock_f.size(); ++q) {
		const Fault &x = clock_f[q];
		if (!hits(x, i)) continue;
		fired["clock:" + x.act]++;
		if (x.late && late_at < 0) late_at = n_fun + n_jac;
		if (x.act == "jump") wall_off_us += std::int64_t(x.arg);
		if (x.act == "stall") now_us += std::int64_t(x.arg);
	}
	if (record_reads) { Read r = { n_fun + n_jac, now_us + wall_off_us, now_us }; reads.push_back(r); }
	alloc_on = old;
	yield('c');
}

std::int64_t real_us()
{
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return std::int64_t(ts.tv_sec)*1000000 + ts.tv_nsec/1000;
}

// ---------------------------------------------------------------- sinks
SimDisk::int_type SimDisk::overflow(int_type c)
{
	if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
	char ch = traits_type::to_char_type(c);
	return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
}
std::streamsize SimDisk::xsputn(const char *s, std::streamsize n)
{
	Env *e = cur();
	AllocOff off(e);
	if (e) { e->n_write++; e->yield('w'); }
	long i = writes++;
	if (throw_at >= 0 && i == throw_at) { ++failures; throw SimError(); }
	if (fail_at >= 0 && i >= fail_at && (fail_count < 0 || i < fail_at + fail_count)) {
		++failures;
		std::streamsize m = short_writes ? n/2 : 0;
		data.append(s, m);
		return m;
	}
	if (cap >= 0 && long(data.size()) + n > cap) {
		++failures;
		std::streamsize m = cap - long(data.size());
		if (m > 0) data.append(s, m);
		return m > 0 ? m : 0;
	}
	data.append(s, n);
	return n;
}

StdioScope::StdioScope(std::streambuf *out, std::streambuf *err) : oc(0), ec(0)
{
	oc.copyfmt(std::cout); ec.copyfmt(std::cerr);
	o = std::cout.rdbuf(out); e = std::cerr.rdbuf(err);
	std::cout.clear(); std::cerr.clear();
}
StdioScope::~StdioScope()
{
	std::cout.rdbuf(o); std::cerr.rdbuf(e);
	std::cout.copyfmt(oc); std::cerr.copyfmt(ec);
	std::cout.clear(); std::cerr.clear();
}

// ---------------------------------------------------------------- scheduler
struct Scheduler::Impl {
	int n;
	sem_t *sems; sem_t done;
	bool *alive; int n_alive;
};
namespace { struct Boot { Scheduler *s; int i; }; }
static void *boot_thread(void *v)
{
	Boot *b = static_cast<Boot *>(v);
	Scheduler *s = b->s; int i = b->i;
	sem_wait(&s->impl->sems[i]);
	s->bodies[i]();
	Scheduler::Impl *m = s->impl;
	m->alive[i] = false; --m->n_alive;
	s->trace.u(1000 + i);
	if (m->n_alive == 0) { sem_post(&m->done); return 0; }
	int k = int(s->rng.below(m->n_alive));
	for (int j = 0; j < m->n; ++j) {
		if (!m->alive[j]) continue;
		if (k-- == 0) { s->trace.u(j); sem_post(&m->sems[j]); break; }
	}
	return 0;
}
bool in_static_init();
void Scheduler::point(int task)
{
	if (in_static_init()) return;
	++points;
	if (!(rng.uni() < p_switch)) return;
	int k = int(rng.below(impl->n_alive)), next = task;
	for (int j = 0; j < impl->n; ++j) {
		if (!impl->alive[j]) continue;
		if (k-- == 0) { next = j; break; }
	}
	if (next == task) return;
	++switches;
	trace.u(next); trace.u(u64(points));
	sem_post(&impl->sems[next]);
	while (sem_wait(&impl->sems[task]) != 0) { }
}
void Scheduler::give_way(int task)
{
	int k = 0;
	for (int j = 0; j < impl->n; ++j) if (impl->alive[j] && j != task) ++k;
	if (k == 0) return;                      // nobody else: a real deadlock, the watchdog reports it
	k = int(rng.below(k));
	int next = task;
	for (int j = 0; j < impl->n; ++j) {
		if (!impl->alive[j] || j == task) continue;
		if (k-- == 0) { next = j; break; }
	}
	++switches; trace.u(next); trace.u(~u64(points));
	sem_post(&impl->sems[next]);
	while (sem_wait(&impl->sems[task]) != 0) { }
}
void Scheduler::run()
{
	Impl m; impl = &m;
	m.n = m.n_alive = int(bodies.size());
	std::vector<sem_t> ss(m.n); m.sems = ss.data();
	std::vector<char> al(m.n, 1); m.alive = reinterpret_cast<bool *>(al.data());
	sem_init(&m.done, 0, 0);
	std::vector<Boot> bs(m.n);
	std::vector<pthread_t> th(m.n);
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4u << 20);
	for (int i = 0; i < m.n; ++i) { sem_init(&ss[i], 0, 0); bs[i].s = this; bs[i].i = i; }
	for (int i = 0; i < m.n; ++i)
		if (pthread_create(&th[i], &at, boot_thread, &bs[i]) != 0) { perror("pthread_create"); _exit(95); }
	int first = int(rng.below(m.n));
	trace.u(first);
	sem_post(&ss[first]);
	while (sem_wait(&m.done) != 0) { }
	for (int i = 0; i < m.n; ++i) pthread_join(th[i], 0);
	impl = 0;
}

// ---------------------------------------------------------------- outcomes
void Outcome::fail(const std::string &cls, const std::string &detail)
{
	if (viol.size() < 8) viol.push_back(std::make_pair(cls, detail));
}
void Outcome::absorb(const Env &e)
{
	for (auto &kv : e.fired) fired[kv.first] += kv.second;
	hash.u(e.hist.h); shape.u(e.shape.h);
	sim_us += double(e.now_us - 1000000);
	callbacks += e.n_fun + e.n_jac;
}

u64 in_fresh_process(const std::function<u64()> &body)
{
	int fd[2];
	if (pipe(fd) != 0) { perror("pipe"); _exit(96); }
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(96); }
	if (pid == 0) {
		close(fd[0]);
		struct itimerval it; std::memset(&it, 0, sizeof it); it.it_value.tv_sec = 25;
		setitimer(ITIMER_PROF, &it, 0);
		alarm(110);
		u64 v = 1;
		try { v = body(); } catch (...) { v = 1; }
		if (write(fd[1], &v, sizeof v) != long(sizeof v)) _exit(97);
		_exit(0);
	}
	close(fd[1]);
	u64 v = 2; std::size_t got = 0;
	while (got < sizeof v) {
		long k = read(fd[0], reinterpret_cast<char *>(&v) + got, sizeof v - got);
		if (k < 0 && errno == EINTR) continue;
		if (k <= 0) break;
		got += std::size_t(k);
	}
	close(fd[0]);
	int st = 0;
	while (waitpid(pid, &st, 0) < 0) { }
	if (got != sizeof v) v = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM ? 3 : 4) : 5;
	return v;
}

static std::vector<Property> &props() { static std::vector<Property> v; return v; }
void register_property(const Property &p) { props().push_back(p); }
const Property *find_property(const std::string &id)
{
	for (auto &p : props()) if (id == p.id) return &p;
	return 0;
}

// ---------------------------------------------------------------- allocator seam
struct Header { u64 magic; u64 size; Env *env; u64 pad; };
static const u64 MAGIC = 0x51e7a110c8badULL, DEAD = 0xdeadf2eedeadULL, CANARY = 0xc0ffee5151c0ffeeULL;

static void *sim_acquire(std::size_t n, bool arma = false)
{
	Env *e = t_env;
	bool on = e && e->alloc_on;
	if (on && e->on_alloc()) return 0;
	void *base = 0;
	if (posix_memalign(&base, 32, sizeof(Header) + n + 8) != 0) return 0;
	Header *h = static_cast<Header *>(base);
	h->magic = MAGIC; h->size = n; h->env = on ? e : 0; h->pad = arma;
	char *u = static_cast<char *>(base) + sizeof(Header);
	std::memset(u, on ? e->fill : 0xA5, n);
	std::memcpy(u + n, &CANARY, 8);
	if (on) { e->live_blocks++; e->live_arma += arma; e->live_bytes += (long long)n; }
	return u;
}
static void sim_release(void *p)
{
	if (!p) return;
	Header *h = reinterpret_cast<Header *>(static_cast<char *>(p) - sizeof(Header));
	if (h->magic != MAGIC) { // double free or foreign pointer
		static const char msg[] = "sim: invalid free\n";
		if (write(2, msg, sizeof msg - 1)) {}
		abort();
	}
	u64 c; std::memcpy(&c, static_cast<char *>(p) + h->size, 8);
	if (c != CANARY) {
		if (h->env) h->env->corrupt = true;
		else { static const char msg[] = "sim: heap overrun\n"; if (write(2, msg, sizeof msg - 1)) {} abort(); }
	}
	if (h->env && h->env == t_env) { h->env->live_blocks--; h->env->live_arma -= long(h->pad); h->env->live_bytes -= (long long)h->size; }
	h->magic = DEAD;
	std::memset(p, 0xDB, h->size < 4096 ? h->size : 4096);
	free(h);
}

} // namespace sim

extern "C" void *sim_arma_alloc(std::size_t n) { return sim::sim_acquire(n, true); }
extern "C" void sim_arma_free(void *p) { sim::sim_release(p); }

void *operator new(std::size_t n) { void *p = sim::sim_acquire(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](std::size_t n) { void *p = sim::sim_acquire(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return sim::sim_acquire(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return sim::sim_acquire(n); }
void operator delete(void *p) noexcept { sim::sim_release(p); }
void operator delete[](void *p) noexcept { sim::sim_release(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::sim_release(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::sim_release(p); }
void operator delete(void *p, std::size_t) noexcept { sim::sim_release(p); }
void operator delete[](void *p, std::size_t) noexcept { sim::sim_release(p); }

// ---------------------------------------------------------------- blocking seams
// Under the scheduler only one thread runs, so one that waits for another
// must hand over instead of blocking.
static thread_local int t_guard_depth = 0;
extern "C" int __cxa_guard_acquire(long long *g)
{
	if (*reinterpret_cast<volatile char *>(g)) return 0;
	++t_guard_depth;                         // no switch inside a static initialiser
	return 1;
}
extern "C" void __cxa_guard_release(long long *g) { *reinterpret_cast<volatile char *>(g) = 1; --t_guard_depth; }
extern "C" void __cxa_guard_abort(long long *) { --t_guard_depth; }
namespace sim { bool in_static_init() { return t_guard_depth > 0; } }

extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
	typedef int (*fn)(pthread_mutex_t *);
	static fn real_lock = 0, real_try = 0;
	if (!real_lock) {
		real_try = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_mutex_trylock"));
		real_lock = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
	}
	sim::Env *e = sim::t_env;
	if (!e || !e->sched) return real_lock(m);
	for (;;) {
		int r = real_try(m);
		if (r != EBUSY) return r;
		e->sched->give_way(e->task);
	}
}

// ---------------------------------------------------------------- clock seam
static const long long WALL_BASE_US = 1600000000LL*1000000LL;

extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
	sim::Env *e = sim::t_env;
	long long us;
	if (e) { e->on_clock(); us = WALL_BASE_US + e->now_us + e->wall_off_us; }
	else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); us = ts.tv_sec*1000000LL + ts.tv_nsec/1000; }
	tv->tv_sec = us/1000000; tv->tv_usec = us % 1000000;
	return 0;
}
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
	sim::Env *e = sim::t_env;
	if (!e) return int(syscall(SYS_clock_gettime, id, ts));
	e->on_clock();
	long long us = e->now_us;
	if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) us += WALL_BASE_US + e->wall_off_us;
	ts->tv_sec = us/1000000; ts->tv_nsec = (us % 1000000)*1000;
	return 0;
}
extern "C" time_t time(time_t *t) noexcept
{
	struct timeval tv; gettimeofday(&tv, 0);
	if (t) *t = tv.tv_sec;
	return tv.tv_sec;
}
extern "C" clock_t clock(void) noexcept
{
	sim::Env *e = sim::t_env;
	if (!e) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return clock_t(ts.tv_sec*1000000LL + ts.tv_nsec/1000); }
	e->on_clock();
	return clock_t(e->now_us);
}
