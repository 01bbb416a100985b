From 830ef9bbb3db22572fb6f7097b347e97aebf773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 01/29] fix: irk fixed-step integration and methods without
 embedded pair always threw

---
 irk.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index a7155c4..24e4ec9 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -598,7 +598,12 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	// Construct the alternative weights:
 	mat_type Ai = arma::inv(sc.A);
 	vec_type d_weights  = (Ai.t())*sc.b;
-	vec_type d2_weights = (Ai.t())*sc.b2;
+	// Methods without an embedded pair have no alternative weights, so
+	// use the main ones (which makes the error estimate vanish).
+	vec_type d2_weights = d_weights;
+	if (sc.b2.size() == Ns) {
+		d2_weights = (Ai.t())*sc.b2;
+	}
 
 
 	while (t < t1) {
@@ -694,10 +699,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		// Vectorized version of the loop below:
 		mat_type YYs = arma::reshape(Y, Neq, Ns);
 		delta_y = YYs*d_weights;
-
-		if (solver_opts.adaptive_step_size) {
-			delta_alt = YYs*d2_weights;
-		}
+		delta_alt = YYs*d2_weights;
 
 		vec_type dy_alt = gam * func.fun(t,y) + delta_alt;
 		++sol.count.fun_evals;
-- 
2.43.0


From b3c551d719d6c99fa8aebdb7fd20a37cb092ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 02/29] fix: irk LU decomposition was only performed with
 assertions enabled

---
 irk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 24e4ec9..89bc26f 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -429,8 +429,10 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			// Since we re-use the same Jacobi matrix,
 			// pre-construct the LU decomposition:
 			if (PLU_decomposition) {
-				assert(arma::lu(L,U,P, J_Y) &&
+				bool lu_success = arma::lu(L,U,P, J_Y);
+				assert(lu_success &&
 				       "LU decomposition of Jacobi matrix failed!");
+				(void) lu_success;
 			}
 			++jac_evals;
 		};
-- 
2.43.0


From 983126609e84c7de880bb6b785acfd05171de9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 03/29] fix: max_steps allowed one step too many and counted an
 attempt never made

---
 erk.hpp | 4 ++--
 irk.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index ffbdbeb..abafd4a 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -332,14 +332,14 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-		sol.count.attempt++;
 
 		if (solver_opts.max_steps >= 0 &&
-		    step > solver_opts.max_steps) {
+		    step >= solver_opts.max_steps) {
 			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			return sol;
 		}
+		sol.count.attempt++;
 
 		int integrator_status = 0;
 
diff --git a/irk.hpp b/irk.hpp
index 89bc26f..13022f2 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -614,13 +614,13 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-		sol.count.attempt++;
 
-		if (solver_opts.max_steps >= 0 && step > solver_opts.max_steps) {
+		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
 			output_opts.log_out << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			return sol;
 		}
+		sol.count.attempt++;
 
 		int integrator_status = 0;
 
-- 
2.43.0


From c799f32db7ca75671152c6d712c74b4b5adacb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 04/29] fix: elapsed_time and accept_frac were left
 uninitialised on failure

---
 erk.hpp | 7 +++++--
 irk.hpp | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index abafd4a..3f37e85 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -337,7 +337,7 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		    step >= solver_opts.max_steps) {
 			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
-			return sol;
+			break;
 		}
 		sol.count.attempt++;
 
@@ -458,7 +458,10 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	}
 	double elapsed = timer.toc();
 	sol.elapsed_time = elapsed;
-	sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	sol.accept_frac = 0.0;
+	if (sol.count.attempt > 0) {
+		sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	}
 	return sol;
 }
 
diff --git a/irk.hpp b/irk.hpp
index 13022f2..c9e488d 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -618,7 +618,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
 			output_opts.log_out << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
-			return sol;
+			break;
 		}
 		sol.count.attempt++;
 
@@ -645,7 +645,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 				output_opts.log_out << "   Rehuel: Newton iteration "
 				          << "failed for constant time step "
 				          << "size! Aborting!\n";
-				return sol;
+				break;
 			}
 
 			dt *= 0.7;
@@ -865,7 +865,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 	double elapsed = timer.get_elapsed(irk_start);
 	sol.elapsed_time = elapsed;
-	sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	sol.accept_frac = 0.0;
+	if (sol.count.attempt > 0) {
+		sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	}
 
 	if (time_internals) print_timing_breakdown(timings, std::cerr, sc.name);
 
-- 
2.43.0


From 3e891dfcdb254db0c5acd28ffdbdd635cca9c1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 05/29] fix: order and order2 uninitialised for two implicit
 methods

---
 erk.cpp | 1 +
 irk.cpp | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/erk.cpp b/erk.cpp
index 89f0b20..aeb7c96 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -15,6 +15,7 @@ solver_coeffs get_coefficients( int method )
 	sc.FSAL = false;
 	sc.name = method_to_name( method );
 	sc.gamma = 0.0;
+	sc.order = sc.order2 = 0;
 
 
 	switch(method){
diff --git a/irk.cpp b/irk.cpp
index 6f03860..e323081 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -229,6 +229,7 @@ solver_coeffs get_coefficients( int method )
 	sc.FSAL = false;
 	sc.name = method_to_name( method );
 	sc.gamma = 0.0;
+	sc.order = sc.order2 = 0;
 
 	switch(method){
 	default:
@@ -609,6 +610,9 @@ solver_coeffs get_coefficients( int method )
 		          sc.b(5) + 0.14407010361206885 * sc.gamma,
 		          sc.b(6) - 0.04111514886290593 * sc.gamma  };
 
+		sc.order = 14;
+		sc.order2 = 7;
+
 		break;
 	}
 
@@ -666,6 +670,9 @@ solver_coeffs get_coefficients( int method )
 		          sc.b(5),
 		          sc.b(6) };
 
+		sc.order = 12;
+		sc.order2 = 7;
+
 		break;
 	}
 
-- 
2.43.0


From bc2e86732fd3ba9e9704c1c4710057cb3f8e73cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 06/29] fix: merge_rk_output dropped the evaluation counts of
 the second solution

---
 irk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index e323081..4a14da5 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -785,6 +785,8 @@ rk_output merge_rk_output( const rk_output &sol1, const rk_output &sol2 )
 	merger.count.newton_iter_error_too_large +=
 		sol2.count.newton_iter_error_too_large;
 	merger.count.newton_maxit_exceed += sol2.count.newton_maxit_exceed;
+	merger.count.fun_evals += sol2.count.fun_evals;
+	merger.count.jac_evals += sol2.count.jac_evals;
 
 	return merger;
 }
-- 
2.43.0


From 1f02e454614b088a966817a187d781c920f2f308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 07/29] fix: looking up an unknown method name or code added it
 to the registry

---
 erk.cpp | 6 ++++--
 irk.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index aeb7c96..cffae27 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -259,13 +259,15 @@ bool verify_solver_coeffs( const erk::solver_coeffs &sc )
 
 const char *method_to_name( int method )
 {
-	return erk::rk_method_to_string[method].c_str();
+	auto it = erk::rk_method_to_string.find(method);
+	return it == erk::rk_method_to_string.end() ? "" : it->second.c_str();
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return erk::rk_string_to_method[name];
+	auto it = erk::rk_string_to_method.find(name);
+	return it == erk::rk_string_to_method.end() ? 0 : it->second;
 }
 
 
diff --git a/irk.cpp b/irk.cpp
index 4a14da5..c9dc3ca 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -715,13 +715,15 @@ bool verify_solver_options( solver_options &opts )
 
 const char *method_to_name( int method )
 {
-	return irk::rk_method_to_string[method].c_str();
+	auto it = irk::rk_method_to_string.find(method);
+	return it == irk::rk_method_to_string.end() ? "" : it->second.c_str();
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return irk::rk_string_to_method[name];
+	auto it = irk::rk_string_to_method.find(name);
+	return it == irk::rk_string_to_method.end() ? 0 : it->second;
 }
 
 
-- 
2.43.0


From fd9879fe328d62c828ef7ace3371a6c9e2bcdf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 08/29] fix: the initial adaptive step ignored max_dt

---
 erk.hpp | 4 ++++
 irk.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/erk.hpp b/erk.hpp
index 3f37e85..b3387ac 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -265,6 +265,10 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
                    const solver_options &solver_opts, double dt,
                    const solver_coeffs &sc, const output_options &output_opts)
 {
+	if (solver_opts.adaptive_step_size && solver_opts.max_dt > 0) {
+		dt = std::min(solver_opts.max_dt, dt);
+	}
+
 	if( t0 + dt > t1 ){
 		std::cerr << "    Rehuel: Initial dt (" << dt;
 		dt = t1 - t0;
diff --git a/irk.hpp b/irk.hpp
index c9e488d..f337714 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -513,6 +513,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
                    const solver_options &solver_opts, double dt,
                    const solver_coeffs &sc, const output_options &output_opts)
 {
+	if (solver_opts.adaptive_step_size && solver_opts.max_dt > 0) {
+		dt = std::min(solver_opts.max_dt, dt);
+	}
+
 	if (t0 + dt > t1) {
 		output_opts.log_out << "    Rehuel: Initial dt (" << dt;
 		dt = t1 - t0;
-- 
2.43.0


From 0ce87f1f781d14936afcd9514ff22b2d049728de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 09/29] fix: erk.hpp defined non-inline functions, so two
 translation units could not link

---
 erk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index b3387ac..983762f 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -227,7 +227,7 @@ vec_type project_b( double theta, const erk::solver_coeffs &sc );
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void apply_fsal(mat_type &Ks, std::size_t Ns)
+inline void apply_fsal(mat_type &Ks, std::size_t Ns)
 {
 	Ks.col(0) = std::move(Ks.col(Ns-1));
 }
@@ -239,7 +239,7 @@ void apply_fsal(mat_type &Ks, std::size_t Ns)
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
+inline void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
 { }
 
 
-- 
2.43.0


From c37444fb6b2dfee0cb3d2c7d82acc2df3eb57ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 10/29] fix: erk streamed rejected steps at the wrong time and
 ignored the output options

---
 erk.hpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 983762f..48b414c 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -425,26 +425,29 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			          << " " <<  dt << " " << err << "\n";
 		}
 
-		if (output_opts.write_to_file()) {
-			*output_opts.output_stream << t;
-			for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
-				*output_opts.output_stream << " " << y_n[y_idx];
-			}
-			*output_opts.output_stream << "\n";
-		}
-
 		// ********************* Update y and time ***************
 		if (!solver_opts.adaptive_step_size || integrator_status == 0) {
 			y  = y_n;
 			t += dt;
 			++step;
 
-			sol.t_vals.push_back(t);
-			sol.y_vals.push_back(y_n);
-			// Since K is a matrix, it needs to be flattened:
-			sol.stages.push_back(arma::vectorise(Ks));
-			sol.err_est.push_back(err_est);
-			sol.err.push_back(err);
+			if (step % output_opts.output_interval == 0) {
+				if (output_opts.store_in_vectors()) {
+					sol.t_vals.push_back(t);
+					sol.y_vals.push_back(y_n);
+					// Since K is a matrix, it needs to be flattened:
+					sol.stages.push_back(arma::vectorise(Ks));
+					sol.err_est.push_back(err_est);
+					sol.err.push_back(err);
+				}
+				if (output_opts.write_to_file()) {
+					*output_opts.output_stream << t;
+					for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
+						*output_opts.output_stream << " " << y_n[y_idx];
+					}
+					*output_opts.output_stream << "\n";
+				}
+			}
 
 			// If you reach here, your new time step has been
 			// accepted and your last stage can now be uesd
-- 
2.43.0


From d20138d16c15423de276d508152a5444b46bc2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 11/29] fix: a non-finite error estimate aborted the process or
 was accepted as a step

---
 erk.hpp | 17 +++++++++++++++++
 irk.hpp | 15 +++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/erk.hpp b/erk.hpp
index 48b414c..730f25b 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -381,6 +381,16 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 				double add = erri / sci;
 				err_tot += add*add;
 			}
+			// If the RHS produced NaN or inf there is no usable
+			// error estimate. Reject the step and try a smaller one.
+			if (!std::isfinite(err_tot) || !y_n.is_finite()) {
+				sol.count.reject_err++;
+				dt *= 0.25;
+				if (sc.FSAL && !Ks.col(0).is_finite()) {
+					Ks.col(0) = eval_fun(t, y);
+				}
+				continue;
+			}
 			err = std::sqrt(err_tot / n);
 			assert( err_tot >= 0.0 && "Error cannot be negative!" );
 
@@ -418,6 +428,13 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			}
 		}
 
+		if (!solver_opts.adaptive_step_size && !y_n.is_finite()) {
+			std::cerr << "    Rehuel: Non-finite solution for "
+			          << "constant time step size! Aborting!\n";
+			sol.status = GENERAL_ERROR;
+			break;
+		}
+
 		// ********************* Output if user requested **************
 		if (solver_opts.out_interval > 0 &&
 		    (step % solver_opts.out_interval == 0) ) {
diff --git a/irk.hpp b/irk.hpp
index f337714..cec9a14 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -753,6 +753,21 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			n += 1.0;
 		}
 
+		// If the RHS produced NaN or inf there is no usable
+		// error estimate. Reject the step and try a smaller one.
+		if (!std::isfinite(err_tot) || !y_n.is_finite()) {
+			if (!solver_opts.adaptive_step_size) {
+				sol.status = GENERAL_ERROR;
+				output_opts.log_out << "   Rehuel: Non-finite solution "
+				          << "for constant time step size! Aborting!\n";
+				break;
+			}
+			alternative_error_formula = true;
+			sol.count.reject_err++;
+			dt *= 0.25;
+			continue;
+		}
+
 		assert( err_tot >= 0.0 && "Error cannot be negative!" );
 		err = std::sqrt( err_tot / n );
 
-- 
2.43.0


From f982e08153e28cf7a9f76e47c14c646665e4b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 12/29] fix: a step size that underflowed looped forever

---
 erk.hpp | 13 +++++++++++++
 irk.hpp | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/erk.hpp b/erk.hpp
index 730f25b..34f83b3 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -269,6 +269,12 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		dt = std::min(solver_opts.max_dt, dt);
 	}
 
+	if (solver_opts.adaptive_step_size && t0 + dt == t0 && dt > 0) {
+		// Too small to advance t, so start at the smallest that does.
+		const double inf = std::numeric_limits<double>::infinity();
+		dt = std::nextafter(t0, inf) - t0;
+	}
+
 	if( t0 + dt > t1 ){
 		std::cerr << "    Rehuel: Initial dt (" << dt;
 		dt = t1 - t0;
@@ -343,6 +349,13 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			break;
 		}
+		// If the step no longer advances t there is no way forward.
+		if (t + dt == t || dt < std::numeric_limits<double>::min()) {
+			std::cerr << "    Rehuel: Time step size (" << dt
+			          << ") underflow at t = " << t << "!\n";
+			sol.status = GENERAL_ERROR;
+			break;
+		}
 		sol.count.attempt++;
 
 		int integrator_status = 0;
diff --git a/irk.hpp b/irk.hpp
index cec9a14..f430508 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -517,6 +517,12 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		dt = std::min(solver_opts.max_dt, dt);
 	}
 
+	if (solver_opts.adaptive_step_size && t0 + dt == t0 && dt > 0) {
+		// Too small to advance t, so start at the smallest that does.
+		const double inf = std::numeric_limits<double>::infinity();
+		dt = std::nextafter(t0, inf) - t0;
+	}
+
 	if (t0 + dt > t1) {
 		output_opts.log_out << "    Rehuel: Initial dt (" << dt;
 		dt = t1 - t0;
@@ -624,6 +630,13 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			break;
 		}
+		// If the step no longer advances t there is no way forward.
+		if (t + dt == t || dt < std::numeric_limits<double>::min()) {
+			output_opts.log_out << "    Rehuel: Time step size (" << dt
+			          << ") underflow at t = " << t << "!\n";
+			sol.status = GENERAL_ERROR;
+			break;
+		}
 		sol.count.attempt++;
 
 		int integrator_status = 0;
-- 
2.43.0


From 711be6875f27d457b2291a2243b1afae6c5870f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 13/29] fix: irk timing breakdown counted time twice and
 misconverted to seconds

---
 irk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index f430508..ff71f94 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -344,7 +344,7 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
 	std::string time_unit = "ms";
 	double time_scale = 1.0;
 	if (total_t > 1000) {
-		time_scale = 0.0001;
+		time_scale = 0.001;
 		time_unit = " s";
 	}
 	total_t *= time_scale;
@@ -641,6 +641,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 		int integrator_status = 0;
 
+		if (time_internals) timer.tic();
 		// Use newton iteration to find the Ks for the next level:
 		int newton_status = newton_solve_stages<functor_type,
 		                                        false, true>(
-- 
2.43.0


From 9fe9fed5ea6d1b6a9e6baca9608d50de5e1af834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 14/29] fix: broyden_iterate reported success when it did not
 converge

---
 newton.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/newton.hpp b/newton.hpp
index b1e3b8f..13695c3 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -344,7 +344,14 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 		x0 = x;
 	}
 
+	if( !terminate ){
+		stats.conv_status = MAXIT_EXCEEDED;
+	}
 	stats.res = std::sqrt( res2 );
+	// Check whether or not res is NaN or inf or somesuch.
+	if( !std::isfinite( stats.res ) ){
+		stats.conv_status = GENERIC_ERROR;
+	}
 	return x;
 }
 
-- 
2.43.0


From 9e29b636278a1d09e372be7fc2c0793dd9a5041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 15/29] fix: broyden_iterate let steps exceed max_step

---
 newton.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index 13695c3..7e49eac 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -310,8 +310,8 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 
 		if( max_step2 > 0 ){
 			double norm2 = dot( direction, direction );
-			if( lambda*lambda*norm2 > max_step2 ){
-				direction *= std::sqrt(max_step2/norm2)/lambda;
+			if( norm2 > max_step2 ){
+				direction *= std::sqrt(max_step2/norm2);
 			}
 		}
 		incr = arma::norm(direction, "inf");
-- 
2.43.0


From 21a7f0c9049dca88e6c245579a39b904051c4c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 16/29] fix: multistep bootstrap discarded its solution and
 repeated the initial value

---
 multistep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multistep.hpp b/multistep.hpp
index fc717e6..9eef7df 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -117,7 +117,6 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
                                double t, double dt)
 {
 	output_options output_opts;
-	output_opts.output_mode = output_options::NO_OUTPUT;
 
 	basic_output start;
 	start.t_vals.push_back(t);
@@ -130,6 +129,7 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	opts.newton_opts = &n_opts;
 	opts.rel_tol = 1e-10;
 	opts.abs_tol = 1e-9;
+	n_opts.tol = n_opts.dx_delta = 0.1*opts.rel_tol;
 
 	for (int i = 1; i < order; ++i) {
 		auto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],
-- 
2.43.0


From 6f6f28f9e2aa1dd9843d352e5c2e4769aa30f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 17/29] fix: multistep bootstrap integrated past the end of the
 interval

---
 multistep.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multistep.hpp b/multistep.hpp
index 9eef7df..d49764c 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -114,7 +114,7 @@ void adams_bashforth_step(functor_type &func, int order,
 
 template <typename functor_type> inline
 basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
-                               double t, double dt)
+                               double t, double t1, double dt)
 {
 	output_options output_opts;
 
@@ -131,7 +131,7 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	opts.abs_tol = 1e-9;
 	n_opts.tol = n_opts.dx_delta = 0.1*opts.rel_tol;
 
-	for (int i = 1; i < order; ++i) {
+	for (int i = 1; i < order && t < t1; ++i) {
 		auto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],
 		                           opts, output_opts, method);
 		std::size_t Nt = tmp_sol.t_vals.size();
@@ -172,7 +172,7 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
 
 	cyclic_buffer<vec_type> history(solver_opts.order);
 	// For multistep methods we need to do some bootstrapping:
-	basic_output hist = bootstrap_history(func, solver_opts.order, y, t, dt);
+	basic_output hist = bootstrap_history(func, solver_opts.order, y, t, t1, dt);
 
 
 	for (std::size_t i = 0; i < hist.t_vals.size(); ++i) {
@@ -258,7 +258,7 @@ multistep::multistep_output bdf(functor_type &func, double t0, double t1,
 
 	cyclic_buffer<vec_type> history(solver_opts.order+1);
 	// For multistep methods we need to do some bootstrapping:
-	basic_output hist = bootstrap_history(func, solver_opts.order+1, y, t, dt);
+	basic_output hist = bootstrap_history(func, solver_opts.order+1, y, t, t1, dt);
 
 	for (std::size_t i = 0; i < hist.t_vals.size(); ++i) {
 		sol.t_vals.push_back(hist.t_vals[i]);
-- 
2.43.0


From 56ace314651baa03e5d42faab44ea8fd722a6507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 18/29] fix: multistep methods ignored a failed bootstrap,
 non-finite values and stalled time steps

---
 multistep.hpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/multistep.hpp b/multistep.hpp
index d49764c..6bad75f 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -119,6 +119,7 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	output_options output_opts;
 
 	basic_output start;
+	start.status = SUCCESS;
 	start.t_vals.push_back(t);
 	start.y_vals.push_back(y);
 
@@ -134,6 +135,10 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	for (int i = 1; i < order && t < t1; ++i) {
 		auto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],
 		                           opts, output_opts, method);
+		if (tmp_sol.status != SUCCESS) {
+			start.status = INTERNAL_SOLVE_FAILURE;
+			return start;
+		}
 		std::size_t Nt = tmp_sol.t_vals.size();
 		t += dt;
 		start.t_vals.push_back(t);
@@ -180,12 +185,27 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
 		sol.y_vals.push_back(hist.y_vals[i]);
 		history.push_back(hist.y_vals[i]);
 	}
+	if (hist.status != SUCCESS) {
+		std::cerr << "Bootstrapping multistep method failed!\n";
+		sol.status = hist.status;
+		return sol;
+	}
 	std::size_t hist_size = sol.t_vals.size();
 	t = sol.t_vals[hist_size-1];
 	y = sol.y_vals[hist_size-1];
 
 	while (t < t1) {
+		if (t + dt == t) {
+			std::cerr << "Time step size does not advance t!\n";
+			sol.status = GENERAL_ERROR;
+			return sol;
+		}
 		adams_bashforth_step(func, solver_opts.order, y, t, dt, history);
+		if (!y.is_finite()) {
+			std::cerr << "Adams-Bashforth solution not finite!\n";
+			sol.status = GENERAL_ERROR;
+			return sol;
+		}
 		history.push_back(y);
 		t += dt;
 		++step;
@@ -265,6 +285,11 @@ multistep::multistep_output bdf(functor_type &func, double t0, double t1,
 		sol.y_vals.push_back(hist.y_vals[i]);
 		history.push_back(hist.y_vals[i]);
 	}
+	if (hist.status != SUCCESS) {
+		std::cerr << "Bootstrapping multistep method failed!\n";
+		sol.status = hist.status;
+		return sol;
+	}
 	std::size_t hist_size = sol.t_vals.size();
 	t = sol.t_vals[hist_size-1];
 	y = sol.y_vals[hist_size-1];
@@ -312,6 +337,11 @@ multistep::multistep_output bdf(functor_type &func, double t0, double t1,
 
 
 	while (t < t1) {
+		if (t + dt == t) {
+			std::cerr << "Time step size does not advance t!\n";
+			sol.status = GENERAL_ERROR;
+			return sol;
+		}
 		vec_type interpolation_part;
 		interpolation_part.zeros(y0.size());
 		for (std::size_t i = 0; i < solver_opts.order; ++i) {
-- 
2.43.0


From 3688a84d8bc423e8d471e6ea0b3271bef25223c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 19/29] fix: adams_bashforth evaluated its history at the
 current time

---
 multistep.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/multistep.hpp b/multistep.hpp
index 6bad75f..8053af6 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -82,25 +82,25 @@ void adams_bashforth_step(functor_type &func, int order,
 		break;
 	case 2:
 		Y += dt*(C[1][0]*func.fun(t, history[0]) +
-		         C[1][1]*func.fun(t, history[1]));
+		         C[1][1]*func.fun(t - dt, history[1]));
 		break;
 	case 3:
 		Y += dt*(C[2][0]*func.fun(t, history[0]) +
-		         C[2][1]*func.fun(t, history[1]) +
-		         C[2][2]*func.fun(t, history[2]));
+		         C[2][1]*func.fun(t - dt, history[1]) +
+		         C[2][2]*func.fun(t - 2*dt, history[2]));
 		break;
 	case 4:
 		Y += dt*(C[3][0]*func.fun(t, history[0]) +
-		         C[3][1]*func.fun(t, history[1]) +
-		         C[3][2]*func.fun(t, history[2]) +
-		         C[3][3]*func.fun(t, history[3]));
+		         C[3][1]*func.fun(t - dt, history[1]) +
+		         C[3][2]*func.fun(t - 2*dt, history[2]) +
+		         C[3][3]*func.fun(t - 3*dt, history[3]));
 		break;
 	case 5:
 		Y += dt*(C[4][0]*func.fun(t, history[0]) +
-		         C[4][1]*func.fun(t, history[1]) +
-		         C[4][2]*func.fun(t, history[2]) +
-		         C[4][3]*func.fun(t, history[3]) +
-		         C[4][4]*func.fun(t, history[4]));
+		         C[4][1]*func.fun(t - dt, history[1]) +
+		         C[4][2]*func.fun(t - 2*dt, history[2]) +
+		         C[4][3]*func.fun(t - 3*dt, history[3]) +
+		         C[4][4]*func.fun(t - 4*dt, history[4]));
 		break;
 
 	default:
-- 
2.43.0


From d37cd1654ef53d1774e0a492743cd43fa7ed7a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 20/29] fix: bdf evaluated a copy of the functor for each step

---
 multistep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multistep.hpp b/multistep.hpp
index 8053af6..77eac87 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -326,7 +326,7 @@ multistep::multistep_output bdf(functor_type &func, double t0, double t1,
 		jac_type jac(const arma::vec &y)
 		{ return I - func_weight*func.jac(t_nplus, y); }
 
-	        functor_type func;
+	        functor_type &func;
 		double t_nplus;
 		arma::vec const_part;
 		double func_weight;
-- 
2.43.0


From f74c171c510da085b7746306e9380373c4930641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 21/29] fix: cyclic_buffer assignment did not compile

---
 cyclic_buffer.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 680bc2f..78bbb4e 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -24,17 +24,13 @@ public:
 
 	cyclic_buffer &operator=( const cyclic_buffer &o )
 	{
-		if(*this != &o){
-			if(period_ >= o.period()){
-				// No need to resize.
-			}
-
-			// Copy contents of storage:
-			storage_.resize(2*o.period());
+		if(this != &o){
+			// Copy contents of storage first, as that may throw:
+			std::vector<T> tmp(o.storage());
+			storage_.swap(tmp);
 			period_ = o.period();
 			current_ = o.current();
 			size_ = o.size();
-			std::copy(o.storage().begin(), o.storage().end(), storage_.begin());
 		}
 
 		return *this;
-- 
2.43.0


From db65d53931bca683fcf35120a119c84486b9df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 22/29] fix: cyclic_buffer::resize left the storage empty and
 the size unchanged

---
 cyclic_buffer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 78bbb4e..a720d97 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -175,10 +175,11 @@ public:
 	*/
 	void resize(std::size_t size)
 	{
-		storage_.clear();
-		storage_.reserve(2*size);
+		std::vector<T> tmp(2*size);
+		storage_.swap(tmp);
 		period_  = size;
 		current_ = 0;
+		size_    = 0;
 	}
 
 	/*
-- 
2.43.0


From 3986c47643542a2bc359dc65c85c584fd4c749f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 23/29] fix: cyclic_buffer lost values assigned through
 operator[] when it wrapped around

---
 cyclic_buffer.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index a720d97..bfbd012 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -1,6 +1,7 @@
 #ifndef CYCLIC_BUFFER
 #define CYCLIC_BUFFER
 
+#include <algorithm>
 #include <cassert>
 #include <vector>
 #include <iostream>
@@ -105,14 +106,19 @@ public:
 		if (next_spot >= period_) {
 
 			storage_[next_spot] = t;
-			storage_[next_spot - period_] = t;
+			if (next_spot == 2*period_ - 1) {
+				// The values in the second half are the current
+				// ones, as operator[] gives write access to them.
+				std::copy(storage_.begin() + period_,
+				          storage_.end(), storage_.begin());
+				next_spot = period_ - 1;
+			} else {
+				storage_[next_spot - period_] = t;
+			}
 		} else {
 			storage_[next_spot] = t;
 		}
 		current_ = next_spot;
-		if (next_spot == 2*period_ - 1) {
-			current_ = period_ - 1;
-		}
 
 		if (size_ < period_) ++size_;
 	}
-- 
2.43.0


From e8ef08350b0c860c3b6f9670bc1abb0304f16490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 24/29] fix: cyclic_buffer iterators were uninitialised and
 end() modified the buffer

---
 cyclic_buffer.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index bfbd012..fe7fb6a 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -132,7 +132,8 @@ public:
 
 	struct iterator
 	{
-		iterator(long idx, typename std::vector<T>::iterator it){}
+		iterator(long idx, typename std::vector<T>::iterator it)
+			: idx_(idx), it_(it) {}
 
 		// We iterate backwards through the vector...
 		iterator &operator++()
@@ -167,11 +168,8 @@ public:
 
 	iterator end()
 	{
-		if (current_ >= period_) {
-			return iterator(current_ = period_, storage_.begin());
-		} else {
-			return iterator(0, storage_.begin());
-		}
+		// One past the oldest value.
+		return iterator(current_ - size_, storage_.begin());
 	}
 
 	/**
-- 
2.43.0


From a110efec2056090e3c4075e5a1ea43816dd283c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 25/29] fix: newton: do not report success at a point that is
 not finite

---
 newton.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index 7e49eac..2000f2e 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -349,7 +349,7 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 	}
 	stats.res = std::sqrt( res2 );
 	// Check whether or not res is NaN or inf or somesuch.
-	if( !std::isfinite( stats.res ) ){
+	if( !std::isfinite( stats.res ) || !x.is_finite() ){
 		stats.conv_status = GENERIC_ERROR;
 	}
 	return x;
@@ -534,7 +534,7 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 	stats.res = std::sqrt( res2 );
 	stats.eta_final = eta_k;
 	// Check whether or not res is NaN or inf or somesuch.
-	if( !std::isfinite( stats.res ) ){
+	if( !std::isfinite( stats.res ) || !xn.is_finite() ){
 		stats.conv_status = GENERIC_ERROR;
 	}
 
-- 
2.43.0


From 265ff83cd094f57eea0452a7cc1c4a48f96843e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 26/29] fix: multistep: report a step that does not advance
 time during bootstrap instead of aborting

---
 multistep.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multistep.hpp b/multistep.hpp
index 77eac87..66fafda 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -133,6 +133,11 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	n_opts.tol = n_opts.dx_delta = 0.1*opts.rel_tol;
 
 	for (int i = 1; i < order && t < t1; ++i) {
+		if (t + dt == t) {
+			std::cerr << "Time step size does not advance t!\n";
+			start.status = GENERAL_ERROR;
+			return start;
+		}
 		auto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],
 		                           opts, output_opts, method);
 		if (tmp_sol.status != SUCCESS) {
-- 
2.43.0


From d1297fcea2d2f848452688ab7c4b9862367be36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 27/29] fix: printing a tableau keeps the stream's precision

---
 irk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index c9dc3ca..baca5ab 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -820,6 +820,7 @@ void restore_state( const rk_output &sol, double &t, vec_type &y, vec_type &K,
 std::ostream &operator<<(std::ostream &o, const irk::solver_coeffs &sc)
 {
 	const int number_width = 6;
+	const std::streamsize old_precision = o.precision();
 	o << sc.name << '\n';
 	for (std::size_t i = 0; i < sc.c.size(); ++i) {
 		o << std::setw(number_width+4) << std::setprecision(number_width) << sc.c[i] << " | ";
@@ -843,5 +844,6 @@ std::ostream &operator<<(std::ostream &o, const irk::solver_coeffs &sc)
 		}
 		o << "\n";
 	}
+	o.precision(old_precision);
 	return o;
 }
-- 
2.43.0


From b67539ece751b101cf07fe2717887402cc5011a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 28/29] fix: the timing breakdown keeps the stream's precision

---
 irk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irk.hpp b/irk.hpp
index ff71f94..6c2c737 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -340,6 +340,8 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
 	            << prct << "\n";
 	};
 
+	const std::streamsize old_precision = out.precision();
+
 	// Determine time unit:
 	std::string time_unit = "ms";
 	double time_scale = 1.0;
@@ -357,6 +359,7 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
 	print_line(time_scale*timings[3], total_t, "Store solution:              ");
 	print_line(time_scale*timings[4], total_t, "Error estimate:              ");
 	print_line(time_scale*timings[5], total_t, "Calculate optimal step:      ");
+	out.precision(old_precision);
 }
 
 
-- 
2.43.0


From c001e7228b4b61fcbe89b5b1926f4f13a39b38fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 29/29] fix: refresh_jac 0 means the Jacobi matrix is never
 updated, not a division by zero

---
 irk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 6c2c737..ef3e09a 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -487,7 +487,7 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			step = 1.0 / sqrt(1.0 + Rnorm2);
 		}
 
-		if (stats.iters % refresh_jac == 0) {
+		if (refresh_jac > 0 && stats.iters % refresh_jac == 0) {
 			refresh_jacobi_matrix();
 		}
 	}
-- 
2.43.0

