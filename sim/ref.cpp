// Reference implementations. Nothing here comes from the repository: the
// explicit tableaux are the published ones, the implicit ones are computed
// from their defining conditions (nodes as roots of Legendre combinations,
// collocation / simplifying assumptions for A).  Only gamma and the embedded
// weights of the implicit methods, which are the library's own choice, are
// written down as numbers.
#include "glue.hpp"
#include <algorithm>

namespace sim {

typedef long double ld;

static bool solve_ld(std::vector<ld> A, std::vector<ld> b, std::vector<ld> &x)
{
	int n = int(b.size());
	for (int k = 0; k < n; ++k) {
		int p = k;
		for (int i = k + 1; i < n; ++i) if (fabsl(A[i*n+k]) > fabsl(A[p*n+k])) p = i;
		if (!(fabsl(A[p*n+k]) > 0)) return false;
		if (p != k) { for (int j = 0; j < n; ++j) std::swap(A[p*n+j], A[k*n+j]); std::swap(b[p], b[k]); }
		for (int i = k + 1; i < n; ++i) {
			ld m = A[i*n+k]/A[k*n+k];
			if (m == 0) continue;
			for (int j = k; j < n; ++j) A[i*n+j] -= m*A[k*n+j];
			b[i] -= m*b[k];
		}
	}
	x.assign(n, 0);
	for (int i = n - 1; i >= 0; --i) {
		ld s = b[i];
		for (int j = i + 1; j < n; ++j) s -= A[i*n+j]*x[j];
		x[i] = s/A[i*n+i];
	}
	return true;
}

bool lin_solve(std::vector<double> A, dvec b, dvec &x)
{
	std::vector<ld> a(A.begin(), A.end()), bb(b.begin(), b.end()), xx;
	if (!solve_ld(a, bb, xx)) return false;
	x.assign(xx.begin(), xx.end());
	for (double v : x) if (!std::isfinite(v)) return false;
	return true;
}

static ld legendre(int n, ld x, ld *dp = 0)
{
	ld p0 = 1, p1 = x;
	if (n == 0) { if (dp) *dp = 0; return 1; }
	for (int k = 2; k <= n; ++k) { ld p2 = ((2*k - 1)*x*p1 - (k - 1)*p0)/k; p0 = p1; p1 = p2; }
	if (dp) *dp = n*(x*p1 - p0)/(x*x - 1);
	return p1;
}

template <typename F> static std::vector<ld> roots(F f, int grid)
{
	std::vector<ld> r;
	ld a = -1 + 1e-9L, h = (2 - 2e-9L)/grid;
	for (int i = 0; i < grid; ++i) {
		ld x0 = a + i*h, x1 = x0 + h, f0 = f(x0), f1 = f(x1);
		if (f0*f1 > 0) continue;
		for (int k = 0; k < 200; ++k) {
			ld m = (x0 + x1)/2, fm = f(m);
			if (f0*fm <= 0) x1 = m; else { x0 = m; f0 = fm; }
		}
		r.push_back((x0 + x1)/2);
	}
	return r;
}

static std::vector<ld> powrow(const std::vector<ld> &c, int k)
{
	std::vector<ld> r(c.size());
	for (std::size_t i = 0; i < c.size(); ++i) r[i] = k == 0 ? 1 : powl(c[i], k);
	return r;
}

// weights w with sum_j w_j c_j^k = rhs_k, k = 0..s-1
static std::vector<ld> moments(const std::vector<ld> &c, ld upto)
{
	int s = int(c.size());
	std::vector<ld> A(s*s), b(s), x;
	for (int k = 0; k < s; ++k) {
		std::vector<ld> p = powrow(c, k);
		for (int j = 0; j < s; ++j) A[k*s+j] = p[j];
		b[k] = powl(upto, k + 1)/(k + 1);
	}
	solve_ld(A, b, x);
	return x;
}

static RefTab make_implicit(char type, int s)
{
	RefTab t; t.s = s; t.fsal = false; t.gamma = 0; t.order = t.order2 = 0;
	std::vector<ld> x;
	if (type == 'R') {
		x = roots([s](ld v) { return (legendre(s, v) - legendre(s - 1, v))/(v - 1); }, 997);
		x.push_back(1);
	} else if (type == 'L') {
		x.push_back(-1);
		std::vector<ld> in = roots([s](ld v) { ld d; legendre(s - 1, v, &d); return d; }, 997);
		x.insert(x.end(), in.begin(), in.end());
		x.push_back(1);
	} else {
		x = roots([s](ld v) { return legendre(s, v); }, 997);
	}
	std::vector<ld> c(s);
	for (int i = 0; i < s; ++i) c[i] = (x[i] + 1)/2;
	if (type == 'L') c[0] = 0;
	std::vector<ld> b = moments(c, 1);
	t.c.assign(c.begin(), c.end()); t.b.assign(b.begin(), b.end());
	for (int i = 0; i < s; ++i) {
		std::vector<ld> row;
		if (type != 'L') row = moments(c, c[i]);
		else {
			std::vector<ld> A(s*s, 0), r(s);
			A[0] = 1; r[0] = b[0];                       // a_i1 = b_1
			for (int k = 0; k + 1 < s; ++k) {            // C(s-1)
				std::vector<ld> p = powrow(c, k);
				for (int j = 0; j < s; ++j) A[(k+1)*s+j] = p[j];
				r[k+1] = powl(c[i], k + 1)/(k + 1);
			}
			solve_ld(A, r, row);
		}
		t.A.push_back(dvec(row.begin(), row.end()));
	}
	return t;
}

static RefTab make_explicit(int s, const double *A /* lower rows */, const double *b, const double *b2, const double *c, bool fsal, int o, int o2)
{
	RefTab t; t.s = s; t.fsal = fsal; t.gamma = 0; t.order = o; t.order2 = o2;
	t.b.assign(b, b + s); if (b2) t.b2.assign(b2, b2 + s); t.c.assign(c, c + s);
	int k = 0;
	for (int i = 0; i < s; ++i) {
		dvec row(s, 0.0);
		for (int j = 0; j < i; ++j) row[j] = A[k++];
		t.A.push_back(row);
	}
	return t;
}

static std::map<int, RefTab> &tabs(const std::string &family)
{
	static std::map<int, RefTab> e, i;
	if (e.empty()) {
		{ double b[] = {1}, c[] = {0}; e[100] = make_explicit(1, 0, b, 0, c, false, 1, 0); }
		{ double A[] = {.5, 0,.5, 0,0,1}, b[] = {1/6., 1/3., 1/3., 1/6.}, c[] = {0,.5,.5,1}; e[110] = make_explicit(4, A, b, 0, c, false, 4, 0); }
		{ double A[] = {.5, 0,.75, 2/9.,1/3.,4/9.}, b[] = {2/9.,1/3.,4/9.,0}, b2[] = {7/24.,1/4.,1/3.,1/8.}, c[] = {0,.5,.75,1};
		  e[120] = make_explicit(4, A, b, b2, c, true, 3, 2); }
		{ double A[] = {1/5., 3/40.,9/40., 3/10.,-9/10.,6/5., -11/54.,5/2.,-70/27.,35/27., 1631/55296.,175/512.,575/13824.,44275/110592.,253/4096.},
		         b[] = {37/378.,0,250/621.,125/594.,0,512/1771.}, b2[] = {2825/27648.,0,18575/48384.,13525/55296.,277/14336.,1/4.},
		         c[] = {0,1/5.,3/10.,3/5.,1,7/8.};
		  e[130] = make_explicit(6, A, b, b2, c, false, 5, 4); }
		{ double A[] = {1/5., 3/40.,9/40., 44/45.,-56/15.,32/9., 19372/6561.,-25360/2187.,64448/6561.,-212/729.,
		                9017/3168.,-355/33.,46732/5247.,49/176.,-5103/18656., 35/384.,0,500/1113.,125/192.,-2187/6784.,11/84.},
		         b[] = {35/384.,0,500/1113.,125/192.,-2187/6784.,11/84.,0}, b2[] = {5179/57600.,0,7571/16695.,393/640.,-92097/339200.,187/2100.,1/40.},
		         c[] = {0,1/5.,3/10.,4/5.,8/9.,1,1};
		  e[131] = make_explicit(7, A, b, b2, c, true, 5, 4); }
		{ double A[] = {1/4., 3/32.,9/32., 1932/2197.,-7200/2197.,7296/2197., 439/216.,-8,3680/513.,-845/4104., -8/27.,2,-3544/2565.,1859/4104.,-11/40.},
		         b[] = {16/135.,0,6656/12825.,28561/56430.,-9/50.,2/55.}, b2[] = {25/216.,0,1408/2565.,2197/4104.,-1/5.,0}, c[] = {0,1/4.,3/8.,12/13.,1,1/2.};
		  e[132] = make_explicit(6, A, b, b2, c, false, 5, 4); }
	}
	if (i.empty()) {
		struct { int m; char t; int s; double g; int o, o2; std::vector<double> b2; } d[] = {
			{200,'R',1,0,1,0,{}},
			{210,'R',2,1/3.,3,2,{2/3.,1/3.}},
			{211,'R',3,0.27488882959567701,5,3,{-0.051895231414900232, 0.75752490057333788, 0.019481501245885449}},
			{212,'R',5,0.15906584442746899,9,5,{-0.10862975145832035, 0.44171313725243189, 0.19555338863477861, 0.30411055002913467, 0.0081868311145062017}},
			{213,'R',7,0.11189646530003508,13,7,{-0.10387591596223283, 0.27508881669792495, 0.12352604456597628, 0.29433811782184566, 0.13479405687451165, 0.15980946076520955, 0.0044229539367296802}},
			{230,'L',3,0,4,2,{1/6.,1/6.,2/3.}},
			{231,'L',4,0,6,4,{1/12.,1/12.,5/12.,5/12.}},
			{232,'L',5,0.18949644366451629,8,5,{0.05,0.05,49/180.,16/45.,49/180.}},
			{243,'G',7,0.10056746482250484,14,7,{-0.093617332462523475, 0.23747621864778409, 0.1233228414917534, 0.25495329004130834, 0.16234841984006057, 0.15434146082161967, 0.060607636797492509}},
		};
		for (auto &x : d) {
			RefTab t = make_implicit(x.t, x.s);
			t.gamma = x.g; t.b2 = x.b2; t.order = x.o; t.order2 = x.o2;
			i[x.m] = t;
		}
	}
	return family == "erk" ? e : i;
}

const RefTab *ref_tab(const std::string &family, int m)
{
	auto &t = tabs(family);
	auto it = t.find(m);
	return it == t.end() ? 0 : &it->second;
}

void ref_erk_step(const RefTab &m, const Problem &pr, double t, double dt, const dvec &y,
                  dvec &y1, dvec &est, double &scale, double &scale_est)
{
	int n = pr.n;
	std::vector<dvec> K(m.s, dvec(n));
	double kmax = 0, ymax = 0;
	for (double v : y) ymax = std::max(ymax, std::fabs(v));
	double cond = 0;
	for (int i = 0; i < m.s; ++i) {
		dvec x = y; double mag = ymax;
		for (int j = 0; j < i; ++j) for (int k = 0; k < n; ++k) { double d = dt*m.A[i][j]*K[j][k]; x[k] += d; mag = std::max(mag, std::fabs(d)); }
		cond = std::max(cond, mag);
		pr.f(t + m.c[i]*dt, x.data(), K[i].data());
		for (double v : K[i]) kmax = std::max(kmax, std::fabs(v));
	}
	y1 = y; est.assign(n, 0.0);
	for (int i = 0; i < m.s; ++i) for (int k = 0; k < n; ++k) {
		y1[k] += dt*m.b[i]*K[i][k];
		if (!m.b2.empty()) est[k] += dt*(m.b2[i] - m.b[i])*K[i][k];
	}
	scale = cond + dt*kmax;
	scale_est = dt*kmax;
}

bool ref_irk_stages(const RefTab &m, const Problem &pr, double t, double dt, const dvec &y, dvec &Y, double &resid)
{
	int n = pr.n, s = m.s, N = n*s;
	dvec F(N), R(N), J(n*n), x(n);
	double best = std::numeric_limits<double>::infinity();
	for (int it = 0; it < 60; ++it) {
		std::vector<dvec> Js(s);
		for (int i = 0; i < s; ++i) {
			for (int k = 0; k < n; ++k) x[k] = y[k] + Y[i*n+k];
			pr.f(t + m.c[i]*dt, x.data(), &F[i*n]);
			Js[i].resize(n*n);
			pr.jac(t + m.c[i]*dt, x.data(), Js[i].data());
		}
		double rn = 0, sc = 0;
		for (int i = 0; i < s; ++i) for (int k = 0; k < n; ++k) {
			ld v = Y[i*n+k];
			for (int j = 0; j < s; ++j) { ld d = (ld)dt*m.A[i][j]*F[j*n+k]; v -= d; sc = std::max(sc, double(fabsl(d))); }
			R[i*n+k] = double(v);
			rn = std::max(rn, std::fabs(R[i*n+k]));
		}
		if (!std::isfinite(rn)) return false;
		for (double v : y) sc = std::max(sc, 1e-3*std::fabs(v));
		resid = rn;
		if (rn <= 1e-14*sc || (it > 3 && rn <= 1e-12*sc && rn >= 0.5*best)) return true;
		if (rn < best) best = rn;
		std::vector<double> A(std::size_t(N)*N, 0.0);
		for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) for (int k = 0; k < n; ++k) for (int l = 0; l < n; ++l)
			A[std::size_t(i*n+k)*N + j*n+l] = (i == j && k == l ? 1.0 : 0.0) - dt*m.A[i][j]*Js[j][k + l*n];
		dvec d;
		if (!lin_solve(A, R, d)) return false;
		for (int k = 0; k < N; ++k) Y[k] -= d[k];
	}
	return false;
}

void ref_irk_update(const RefTab &m, const Problem &pr, const dvec &y, const dvec &Y, dvec &y1)
{
	// y1 = y + (b^T A^-1) Y
	int s = m.s, n = pr.n;
	std::vector<double> At(s*s);
	for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) At[j*s+i] = m.A[i][j];
	dvec d; lin_solve(At, m.b, d);
	y1 = y;
	for (int i = 0; i < s; ++i) for (int k = 0; k < n; ++k) y1[k] += d[i]*Y[i*n+k];
}

void ref_irk_err(const RefTab &m, const Problem &pr, double t, double dt, const dvec &y, const dvec &Y, dvec &plain, dvec &refined)
{
	int s = m.s, n = pr.n;
	std::vector<double> At(s*s);
	for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) At[j*s+i] = m.A[i][j];
	dvec d, d2; lin_solve(At, m.b, d);
	if (m.b2.empty()) d2 = d; else lin_solve(At, m.b2, d2);
	dvec dy(n, 0.0), dalt(n, 0.0), f0(n), J(n*n), rhs(n);
	for (int i = 0; i < s; ++i) for (int k = 0; k < n; ++k) { dy[k] += d[i]*Y[i*n+k]; dalt[k] += d2[i]*Y[i*n+k]; }
	double gam = m.gamma*dt;
	pr.jac(t, y.data(), J.data());
	std::vector<double> S(n*n);
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) S[i*n+j] = (i == j ? 1.0 : 0.0) - gam*J[i + j*n];
	pr.f(t, y.data(), f0.data());
	for (int k = 0; k < n; ++k) rhs[k] = gam*f0[k] + dalt[k] - dy[k];
	plain.clear(); refined.clear();
	if (!lin_solve(S, rhs, plain)) return;
	for (double &v : plain) v *= dt;
	dvec x = y;
	for (int k = 0; k < n; ++k) x[k] += plain[k];
	pr.f(t, x.data(), f0.data());
	for (int k = 0; k < n; ++k) rhs[k] = gam*f0[k] + dalt[k] - dy[k];
	if (!lin_solve(S, rhs, refined)) return;
	for (double &v : refined) v *= dt;
}

dvec ref_solve(const Problem &pr, double t0, double t1, const dvec &y0, int nsub)
{
	// classical RK4 in long double time arithmetic, Richardson extrapolated
	auto run = [&](int N) {
		dvec y = y0; int n = pr.n;
		dvec k1(n), k2(n), k3(n), k4(n), x(n);
		double h = (t1 - t0)/N;
		for (int i = 0; i < N; ++i) {
			double t = t0 + (t1 - t0)*(double(i)/N);
			pr.f(t, y.data(), k1.data());
			for (int k = 0; k < n; ++k) x[k] = y[k] + 0.5*h*k1[k];
			pr.f(t + 0.5*h, x.data(), k2.data());
			for (int k = 0; k < n; ++k) x[k] = y[k] + 0.5*h*k2[k];
			pr.f(t + 0.5*h, x.data(), k3.data());
			for (int k = 0; k < n; ++k) x[k] = y[k] + h*k3[k];
			pr.f(t + h, x.data(), k4.data());
			for (int k = 0; k < n; ++k) y[k] += h/6*(k1[k] + 2*k2[k] + 2*k3[k] + k4[k]);
		}
		return y;
	};
	dvec a = run(nsub), b = run(2*nsub);
	for (std::size_t i = 0; i < a.size(); ++i) b[i] += (b[i] - a[i])/15.0;
	return b;
}

} // namespace sim
