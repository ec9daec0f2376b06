From ed927f2a5fa78f2894f9b37fc9ed02c771842694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 01/34] fix: implicit integration with a fixed step size always
 threw

---
 irk.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index a7155c4..2c801fb 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -598,7 +598,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	// Construct the alternative weights:
 	mat_type Ai = arma::inv(sc.A);
 	vec_type d_weights  = (Ai.t())*sc.b;
-	vec_type d2_weights = (Ai.t())*sc.b2;
+	vec_type d2_weights;
+	if (solver_opts.adaptive_step_size) {
+		d2_weights = (Ai.t())*sc.b2;
+	}
 
 
 	while (t < t1) {
@@ -688,7 +691,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		// The update to y is given by d := b*inv(A)*Y;
 
 
-		vec_type delta_y, delta_alt;
+		vec_type delta_y, delta_alt = arma::zeros(Neq);
 		double gam = sc.gamma*dt;
 
 		// Vectorized version of the loop below:
-- 
2.43.0


From d156910752dd7eca170ccc20dc91eac6adb81caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 02/34] fix: RK integrators took one step more than max_steps

---
 erk.hpp | 2 +-
 irk.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index ffbdbeb..8b5ad67 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -335,7 +335,7 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		sol.count.attempt++;
 
 		if (solver_opts.max_steps >= 0 &&
-		    step > solver_opts.max_steps) {
+		    step >= solver_opts.max_steps) {
 			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			return sol;
diff --git a/irk.hpp b/irk.hpp
index 2c801fb..d692316 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -612,7 +612,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		}
 		sol.count.attempt++;
 
-		if (solver_opts.max_steps >= 0 && step > solver_opts.max_steps) {
+		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
 			output_opts.log_out << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			return sol;
-- 
2.43.0


From 272f1f9226b3c476a4902b8a6473803f1ed16fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 03/34] fix: a step refused because of max_steps was counted as
 an attempt

---
 erk.hpp | 3 +--
 irk.hpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 8b5ad67..41b409d 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -332,8 +332,6 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-		sol.count.attempt++;
-
 		if (solver_opts.max_steps >= 0 &&
 		    step >= solver_opts.max_steps) {
 			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\n";
@@ -341,6 +339,7 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			return sol;
 		}
 
+		sol.count.attempt++;
 		int integrator_status = 0;
 
 		// Formula for explicit stages are
diff --git a/irk.hpp b/irk.hpp
index d692316..4d6b25a 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -610,14 +610,13 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-		sol.count.attempt++;
-
 		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
 			output_opts.log_out << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			return sol;
 		}
 
+		sol.count.attempt++;
 		int integrator_status = 0;
 
 		// Use newton iteration to find the Ks for the next level:
-- 
2.43.0


From 3e5d3ce63ca29dcf2fcb0bb6cd3fecb8647ad0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 04/34] fix: max_dt was not applied to the first step and to
 fixed step sizes

---
 erk.hpp | 3 +++
 irk.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/erk.hpp b/erk.hpp
index 41b409d..4b09663 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -329,6 +329,9 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	while (t < t1) {
 		// ****************  Calculate stages:   ************
 		// Make sure you stop exactly at t = t1.
+		if (solver_opts.max_dt > 0) {
+			dt = std::min(solver_opts.max_dt, dt);
+		}
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
diff --git a/irk.hpp b/irk.hpp
index 4d6b25a..5a1a917 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -607,6 +607,9 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	while (t < t1) {
 		// ****************  Calculate stages:   ************
 		// Make sure you stop exactly at t = t1.
+		if (solver_opts.max_dt > 0) {
+			dt = std::min(solver_opts.max_dt, dt);
+		}
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-- 
2.43.0


From 52b77a43f6cde0daa16e12ea3b0588a78c890b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 05/34] fix: explicit RK wrote rejected and mistimed steps to
 the stream and ignored the output options

---
 erk.hpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 4b09663..b60596d 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -423,26 +423,29 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			          << " " <<  dt << " " << err << "\n";
 		}
 
-		if (output_opts.write_to_file()) {
-			*output_opts.output_stream << t;
-			for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
-				*output_opts.output_stream << " " << y_n[y_idx];
-			}
-			*output_opts.output_stream << "\n";
-		}
-
 		// ********************* Update y and time ***************
 		if (!solver_opts.adaptive_step_size || integrator_status == 0) {
 			y  = y_n;
 			t += dt;
 			++step;
 
-			sol.t_vals.push_back(t);
-			sol.y_vals.push_back(y_n);
-			// Since K is a matrix, it needs to be flattened:
-			sol.stages.push_back(arma::vectorise(Ks));
-			sol.err_est.push_back(err_est);
-			sol.err.push_back(err);
+			if (step % output_opts.output_interval == 0) {
+				if (output_opts.store_in_vectors()) {
+					sol.t_vals.push_back(t);
+					sol.y_vals.push_back(y_n);
+					// Since K is a matrix, it needs to be flattened:
+					sol.stages.push_back(arma::vectorise(Ks));
+					sol.err_est.push_back(err_est);
+					sol.err.push_back(err);
+				}
+				if (output_opts.write_to_file()) {
+					*output_opts.output_stream << t;
+					for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
+						*output_opts.output_stream << " " << y_n[y_idx];
+					}
+					*output_opts.output_stream << "\n";
+				}
+			}
 
 			// If you reach here, your new time step has been
 			// accepted and your last stage can now be uesd
-- 
2.43.0


From 1320d79ed2b474d0f2142fd90c2905857d34e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 06/34] fix: implicit RK returned zeros instead of the stages

---
 irk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.hpp b/irk.hpp
index 5a1a917..db15ebd 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -821,6 +821,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			y  = y_n;
 			t += dt;
 			++step;
+			// Y = dt*kron(A,I)*K, so the stages themselves are
+			K_np = arma::vectorise(YYs*Ai.t()) / dt;
 
 			if (time_internals) {
 				timings[UPDATE_Y] += timer.toc();
-- 
2.43.0


From c74812ee68129baa3abf3f5e135ae30842f671e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 07/34] fix: looking up an unknown RK method added it to the
 name tables

---
 erk.cpp | 6 ++++--
 irk.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index 89f0b20..35ac967 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -258,13 +258,15 @@ bool verify_solver_coeffs( const erk::solver_coeffs &sc )
 
 const char *method_to_name( int method )
 {
-	return erk::rk_method_to_string[method].c_str();
+	auto it = erk::rk_method_to_string.find(method);
+	return it == erk::rk_method_to_string.end() ? "" : it->second.c_str();
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return erk::rk_string_to_method[name];
+	auto it = erk::rk_string_to_method.find(name);
+	return it == erk::rk_string_to_method.end() ? 0 : it->second;
 }
 
 
diff --git a/irk.cpp b/irk.cpp
index 6f03860..2798763 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -708,13 +708,15 @@ bool verify_solver_options( solver_options &opts )
 
 const char *method_to_name( int method )
 {
-	return irk::rk_method_to_string[method].c_str();
+	auto it = irk::rk_method_to_string.find(method);
+	return it == irk::rk_method_to_string.end() ? "" : it->second.c_str();
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return irk::rk_string_to_method[name];
+	auto it = irk::rk_string_to_method.find(name);
+	return it == irk::rk_string_to_method.end() ? 0 : it->second;
 }
 
 
-- 
2.43.0


From 0372ee62ca9bab1159bae1130d583886517202f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 08/34] fix: two implicit methods and unsupported method codes
 had no defined order

---
 erk.cpp | 1 +
 irk.cpp | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/erk.cpp b/erk.cpp
index 35ac967..cffae27 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -15,6 +15,7 @@ solver_coeffs get_coefficients( int method )
 	sc.FSAL = false;
 	sc.name = method_to_name( method );
 	sc.gamma = 0.0;
+	sc.order = sc.order2 = 0;
 
 
 	switch(method){
diff --git a/irk.cpp b/irk.cpp
index 2798763..806616b 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -229,6 +229,7 @@ solver_coeffs get_coefficients( int method )
 	sc.FSAL = false;
 	sc.name = method_to_name( method );
 	sc.gamma = 0.0;
+	sc.order = sc.order2 = 0;
 
 	switch(method){
 	default:
@@ -609,6 +610,9 @@ solver_coeffs get_coefficients( int method )
 		          sc.b(5) + 0.14407010361206885 * sc.gamma,
 		          sc.b(6) - 0.04111514886290593 * sc.gamma  };
 
+		sc.order  = 14;
+		sc.order2 = 7;
+
 		break;
 	}
 
@@ -666,6 +670,9 @@ solver_coeffs get_coefficients( int method )
 		          sc.b(5),
 		          sc.b(6) };
 
+		sc.order  = 12;
+		sc.order2 = 7;
+
 		break;
 	}
 
-- 
2.43.0


From 98c0208a475143514e244d8f512f9d0c204ca443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 09/34] fix: the LU decomposition of the stage system vanished
 under NDEBUG

---
 irk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index db15ebd..080f731 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -429,7 +429,9 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			// Since we re-use the same Jacobi matrix,
 			// pre-construct the LU decomposition:
 			if (PLU_decomposition) {
-				assert(arma::lu(L,U,P, J_Y) &&
+				bool lu_ok = arma::lu(L,U,P, J_Y);
+				(void)lu_ok;
+				assert(lu_ok &&
 				       "LU decomposition of Jacobi matrix failed!");
 			}
 			++jac_evals;
-- 
2.43.0


From 0f0ff3cf6a7d76904253b33fea67053b7ed89cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 10/34] fix: refresh_jac = 0 and output_interval = 0 divided by
 zero

---
 erk.hpp | 3 ++-
 irk.hpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index b60596d..77f9c4f 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -429,7 +429,8 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			t += dt;
 			++step;
 
-			if (step % output_opts.output_interval == 0) {
+			if (output_opts.output_interval > 0 &&
+			    step % output_opts.output_interval == 0) {
 				if (output_opts.store_in_vectors()) {
 					sol.t_vals.push_back(t);
 					sol.y_vals.push_back(y_n);
diff --git a/irk.hpp b/irk.hpp
index 080f731..67a0ed3 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -484,7 +484,7 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			step = 1.0 / sqrt(1.0 + Rnorm2);
 		}
 
-		if (stats.iters % refresh_jac == 0) {
+		if (refresh_jac > 0 && stats.iters % refresh_jac == 0) {
 			refresh_jacobi_matrix();
 		}
 	}
@@ -831,7 +831,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 				timer.tic();
 			}
 
-			if (step % output_opts.output_interval == 0) {
+			if (output_opts.output_interval > 0 &&
+			    step % output_opts.output_interval == 0) {
 				if (output_opts.store_in_vectors()) {
 					sol.t_vals.push_back(t);
 					sol.y_vals.push_back(y_n);
-- 
2.43.0


From 3c84bb90d0b988da6bde83ee80e8ce3d81b7186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 11/34] fix: multistep start-up history was the initial value
 repeated

---
 multistep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multistep.hpp b/multistep.hpp
index fc717e6..0654ea3 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -117,7 +117,7 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
                                double t, double dt)
 {
 	output_options output_opts;
-	output_opts.output_mode = output_options::NO_OUTPUT;
+	output_opts.output_mode = output_options::STORE_IN_VECTORS;
 
 	basic_output start;
 	start.t_vals.push_back(t);
-- 
2.43.0


From 91f27070a4ef21e1c8aeff36387621b67c7a7975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 12/34] fix: Adams-Bashforth evaluated past derivatives at the
 current time

---
 multistep.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/multistep.hpp b/multistep.hpp
index 0654ea3..3094af2 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -82,25 +82,25 @@ void adams_bashforth_step(functor_type &func, int order,
 		break;
 	case 2:
 		Y += dt*(C[1][0]*func.fun(t, history[0]) +
-		         C[1][1]*func.fun(t, history[1]));
+		         C[1][1]*func.fun(t - dt, history[1]));
 		break;
 	case 3:
 		Y += dt*(C[2][0]*func.fun(t, history[0]) +
-		         C[2][1]*func.fun(t, history[1]) +
-		         C[2][2]*func.fun(t, history[2]));
+		         C[2][1]*func.fun(t - dt, history[1]) +
+		         C[2][2]*func.fun(t - 2*dt, history[2]));
 		break;
 	case 4:
 		Y += dt*(C[3][0]*func.fun(t, history[0]) +
-		         C[3][1]*func.fun(t, history[1]) +
-		         C[3][2]*func.fun(t, history[2]) +
-		         C[3][3]*func.fun(t, history[3]));
+		         C[3][1]*func.fun(t - dt, history[1]) +
+		         C[3][2]*func.fun(t - 2*dt, history[2]) +
+		         C[3][3]*func.fun(t - 3*dt, history[3]));
 		break;
 	case 5:
 		Y += dt*(C[4][0]*func.fun(t, history[0]) +
-		         C[4][1]*func.fun(t, history[1]) +
-		         C[4][2]*func.fun(t, history[2]) +
-		         C[4][3]*func.fun(t, history[3]) +
-		         C[4][4]*func.fun(t, history[4]));
+		         C[4][1]*func.fun(t - dt, history[1]) +
+		         C[4][2]*func.fun(t - 2*dt, history[2]) +
+		         C[4][3]*func.fun(t - 3*dt, history[3]) +
+		         C[4][4]*func.fun(t - 4*dt, history[4]));
 		break;
 
 	default:
-- 
2.43.0


From bb98991e187a9773ec3308b6b77c23c9904c9ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 13/34] fix: Adams-Bashforth accepted orders it has no formula
 for

---
 multistep.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/multistep.hpp b/multistep.hpp
index 3094af2..ffdec78 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -149,6 +149,16 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
                              const vec_type &y0,
                              const solver_options &solver_opts, double dt)
 {
+	double t = t0;
+	multistep_output sol;
+	sol.status = SUCCESS;
+
+	if (solver_opts.order > 5 || solver_opts.order <= 0) {
+		std::cerr << "Adams-Bashforth needs an order from 1 to 5!\n";
+		sol.status = GENERAL_ERROR;
+		return sol;
+	}
+
 	if (t0 + dt > t1) {
 		std::cerr << "    Rehuel: Initial dt (" << dt;
 		dt = t1 - t0;
@@ -160,10 +170,6 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
 	          << "            Method = Adams-Bashforth\n";
 
 
-	double t = t0;
-	multistep_output sol;
-	sol.status = SUCCESS;
-
 	assert(dt > 0 && "Cannot use time step size <= 0!");
 
 	my_timer timer;
-- 
2.43.0


From 0f981b008b93d8a2f7bf0d8233ad55105eace98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 14/34] fix: Broyden's method reported success without having
 converged

---
 newton.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/newton.hpp b/newton.hpp
index b1e3b8f..445988c 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -345,6 +345,13 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 	}
 
 	stats.res = std::sqrt( res2 );
+	if( !terminate ){
+		stats.conv_status = MAXIT_EXCEEDED;
+	}
+	// Check whether or not res is NaN or inf or somesuch.
+	if( !std::isfinite( stats.res ) ){
+		stats.conv_status = GENERIC_ERROR;
+	}
 	return x;
 }
 
-- 
2.43.0


From 4a7dfae4f565163dde8500b34e8b25d3e24d216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 15/34] fix: Broyden's method could exceed max_step

---
 newton.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index 445988c..fc923a2 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -310,8 +310,8 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 
 		if( max_step2 > 0 ){
 			double norm2 = dot( direction, direction );
-			if( lambda*lambda*norm2 > max_step2 ){
-				direction *= std::sqrt(max_step2/norm2)/lambda;
+			if( norm2 > max_step2 ){
+				direction *= std::sqrt(max_step2/norm2);
 			}
 		}
 		incr = arma::norm(direction, "inf");
-- 
2.43.0


From 9c71d0a878ee15096474f0743fb67b118d4cc3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 16/34] fix: Newton's method with a stored LU decomposition
 stepped the wrong way

---
 newton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newton.hpp b/newton.hpp
index fc923a2..71054e0 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -459,7 +459,7 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 					// P.t() * L * U*direction = r
 					arma::vec temp1 = P*r;
 					arma::vec temp2 = arma::solve(arma::trimatl(L), temp1);
-					direction = arma::solve(arma::trimatu(U), temp2);
+					direction = -arma::solve(arma::trimatu(U), temp2);
 				}
 			}
 		}catch( std::exception &e ){
-- 
2.43.0


From ad60c8efa5de8eb2345c3c4ba1378ddc484c4d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 17/34] fix: merging two solutions dropped the evaluation
 counts of the second

---
 irk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index 806616b..ba8ae39 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -787,6 +787,8 @@ rk_output merge_rk_output( const rk_output &sol1, const rk_output &sol2 )
 	merger.count.newton_iter_error_too_large +=
 		sol2.count.newton_iter_error_too_large;
 	merger.count.newton_maxit_exceed += sol2.count.newton_maxit_exceed;
+	merger.count.fun_evals += sol2.count.fun_evals;
+	merger.count.jac_evals += sol2.count.jac_evals;
 
 	return merger;
 }
-- 
2.43.0


From 96aec4044c5c53f4f17d481c49763198b58eab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 18/34] fix: erk.hpp could only be included in one translation
 unit

---
 erk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 77f9c4f..cb74fd1 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -227,7 +227,7 @@ vec_type project_b( double theta, const erk::solver_coeffs &sc );
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void apply_fsal(mat_type &Ks, std::size_t Ns)
+inline void apply_fsal(mat_type &Ks, std::size_t Ns)
 {
 	Ks.col(0) = std::move(Ks.col(Ns-1));
 }
@@ -239,7 +239,7 @@ void apply_fsal(mat_type &Ks, std::size_t Ns)
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
+inline void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
 { }
 
 
-- 
2.43.0


From a8c4d1bbc28de8a32acb9748209a757f341f5d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 19/34] fix: functions declared by the public headers were not
 defined

---
 erk.cpp |  2 +-
 irk.cpp | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index cffae27..fd9806e 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -229,7 +229,7 @@ solver_options default_solver_options()
 }
 
 
-bool verify_solver_options(solver_options &opts)
+bool verify_solver_options(const solver_options &opts)
 {
 	return true;
 }
diff --git a/irk.cpp b/irk.cpp
index ba8ae39..ac92517 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -704,7 +704,7 @@ solver_options default_solver_options()
 
 
 
-bool verify_solver_options( solver_options &opts )
+bool verify_solver_options( const solver_options &opts )
 {
 	if( opts.newton_opts ) return true;
 	std::cerr << "ERROR! solver_opts @" << &opts << " does not have "
@@ -713,6 +713,38 @@ bool verify_solver_options( solver_options &opts )
 }
 
 
+bool is_method_explicit( const solver_coeffs &sc )
+{
+	for( std::size_t i = 0; i < sc.A.n_rows; ++i ){
+		for( std::size_t j = i; j < sc.A.n_cols; ++j ){
+			if( sc.A(i,j) != 0.0 ) return false;
+		}
+	}
+	return true;
+}
+
+
+bool is_method_dirk( const solver_coeffs &sc )
+{
+	for( std::size_t i = 0; i < sc.A.n_rows; ++i ){
+		for( std::size_t j = i + 1; j < sc.A.n_cols; ++j ){
+			if( sc.A(i,j) != 0.0 ) return false;
+		}
+	}
+	return !is_method_explicit( sc );
+}
+
+
+bool is_method_sdirk( const solver_coeffs &sc )
+{
+	if( !is_method_dirk( sc ) ) return false;
+	for( std::size_t i = 1; i < sc.A.n_rows; ++i ){
+		if( sc.A(i,i) != sc.A(0,0) ) return false;
+	}
+	return true;
+}
+
+
 const char *method_to_name( int method )
 {
 	auto it = irk::rk_method_to_string.find(method);
-- 
2.43.0


From 0853cafb27bf26acb50cf5bf88ca52ddd4225393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 20/34] fix: results and options had indeterminate members

---
 erk.hpp       | 2 +-
 irk.hpp       | 2 +-
 multistep.hpp | 2 +-
 options.hpp   | 2 +-
 output.hpp    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index cb74fd1..5020929 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -138,7 +138,7 @@ struct rk_output : basic_output
 	std::vector<vec_type> err_est;
 	std::vector<double>   err;
 
-	double elapsed_time, accept_frac;
+	double elapsed_time = 0.0, accept_frac = 0.0;
 
 	counters count;
 };
diff --git a/irk.hpp b/irk.hpp
index 67a0ed3..abe9e1c 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -157,7 +157,7 @@ struct rk_output : basic_output
 	std::vector<vec_type> err_est;
 	std::vector<double>   err;
 
-	double elapsed_time, accept_frac;
+	double elapsed_time = 0.0, accept_frac = 0.0;
 
 	counters count;
 };
diff --git a/multistep.hpp b/multistep.hpp
index ffdec78..991e357 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -50,7 +50,7 @@ typedef arma::vec vec_type;
 typedef arma::mat mat_type;
 
 struct solver_options {
-	int order;
+	int order = 1;
 };
 
 struct multistep_output : basic_output
diff --git a/options.hpp b/options.hpp
index 951e07a..665e930 100644
--- a/options.hpp
+++ b/options.hpp
@@ -103,7 +103,7 @@ struct output_options {
 	std::size_t output_mode = STORE_IN_VECTORS;
 	std::size_t output_interval = 1;
 	std::ostream &log_out = std::cout;
-	std::ostream *output_stream;
+	std::ostream *output_stream = nullptr;
 
 	bool store_in_vectors() const
 	{
diff --git a/output.hpp b/output.hpp
index fa054df..bce5df8 100644
--- a/output.hpp
+++ b/output.hpp
@@ -28,7 +28,7 @@
 #define OUTPUT_HPP
 
 struct basic_output {
-	int status;
+	int status = 0;
 	
 	std::vector<double> t_vals;
 	std::vector<vec_type> y_vals;
-- 
2.43.0


From 78dae16b387fd3245c9562d767f2120a6fde5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 21/34] fix: cyclic_buffer could not be resized, assigned or
 iterated

---
 cyclic_buffer.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 680bc2f..2f1c092 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -24,7 +24,7 @@ public:
 
 	cyclic_buffer &operator=( const cyclic_buffer &o )
 	{
-		if(*this != &o){
+		if(this != &o){
 			if(period_ >= o.period()){
 				// No need to resize.
 			}
@@ -130,7 +130,8 @@ public:
 
 	struct iterator
 	{
-		iterator(long idx, typename std::vector<T>::iterator it){}
+		iterator(long idx, typename std::vector<T>::iterator it)
+			: idx_(idx), it_(it) {}
 
 		// We iterate backwards through the vector...
 		iterator &operator++()
@@ -165,11 +166,7 @@ public:
 
 	iterator end()
 	{
-		if (current_ >= period_) {
-			return iterator(current_ = period_, storage_.begin());
-		} else {
-			return iterator(0, storage_.begin());
-		}
+		return iterator(current_ - size_, storage_.begin());
 	}
 
 	/**
@@ -180,9 +177,10 @@ public:
 	void resize(std::size_t size)
 	{
 		storage_.clear();
-		storage_.reserve(2*size);
+		storage_.resize(2*size);
 		period_  = size;
 		current_ = 0;
+		size_    = 0;
 	}
 
 	/*
-- 
2.43.0


From b4674edc0231c438fa2e3db295bf0a82c1a2d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 22/34] fix: the timing breakdown reported a tenth of the
 seconds

---
 irk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index abe9e1c..8ab6ed0 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -344,7 +344,7 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
 	std::string time_unit = "ms";
 	double time_scale = 1.0;
 	if (total_t > 1000) {
-		time_scale = 0.0001;
+		time_scale = 0.001;
 		time_unit = " s";
 	}
 	total_t *= time_scale;
-- 
2.43.0


From 6579d7e077e80553080b78945333773a03272440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 23/34] fix: the stability region of explicit methods used the
 implicit tables

---
 stability_region/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 690f033..af1bedd 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -120,7 +120,7 @@ void stability_region(const std::string &method, bool embedded_method,
 	}
 	m = erk::name_to_method(method);
 	if (m) {
-		auto sc = irk::get_coefficients(m);
+		auto sc = erk::get_coefficients(m);
 		// std::cerr << "Coeffs:\n" << sc << "\n";
 		S = rk_to_stab_region(X, Y, sc, embedded_method);
 	} else {
-- 
2.43.0


From 9221cc987af79603a123fe17df3b82636ff2160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 24/34] fix: embedded weights of RADAU_IIA_32, LOBATTO_IIIC_43
 and LOBATTO_IIIC_85 were inconsistent

---
 irk.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index ac92517..d524e7f 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -265,7 +265,7 @@ solver_coeffs get_coefficients( int method )
 		         { 1.0/6.0, 5.0/12.0, -1.0/12.0 },
 		         { 1.0/6.0, 2.0/3.0, 1.0/6.0 } };
 		sc.b  = { 1.0/6.0, 2.0/3.0, 1.0/6.0 };
-		sc.b2 = { 1.0/6.0, 1.0/6.0, 2.0/3.0, }; // -1.0/6.0, 5.0/6.0, 0. };
+		sc.b2 = { -0.5, 2.0, -0.5 };
 		sc.c  = { 0.0, 0.5, 1.0 };
 		sc.order = 4;
 		sc.order2 = 2;
@@ -318,8 +318,8 @@ solver_coeffs get_coefficients( int method )
 		          1.0/20.0}};
 		sc.c  = {0.0, 0.5 - sqrt21/14.0, 0.5, 0.5 + sqrt21/14.0, 1.0};
 		sc.b  = {0.05, 49/180.0, 16/45.0, 49/180.0, 0.05};
-		sc.b2 = {0.05, 0.05, 49/180.0, 16/45.0, 49/180.0};
 		sc.gamma  = 0.1894964436645163;
+		sc.b2 = {0.05 - sc.gamma, 49/180.0, 16/45.0, 49/180.0, 0.05};
 		sc.order  = 8;
 		sc.order2 = 5;
 
@@ -350,7 +350,7 @@ solver_coeffs get_coefficients( int method )
 		sc.c  = { 1.0/3.0, 1.0 };
 		sc.b  = { 3.0/4.0, 1.0/4.0 };
 
-		sc.b2 = {2.0/3.0, 1.0/3.0};
+		sc.b2 = {1.0/4.0, 5.0/12.0};
 
 		sc.order = 3;
 		sc.order2 = 2;
-- 
2.43.0


From 498b742470405f5c417fb302491c15ca0a1a3cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 25/34] fix: the implicit error estimate was scaled by an extra
 time step

---
 irk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index 8ab6ed0..12731de 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -722,7 +722,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		// J0 = func.jac( t, y );
 		// J was already calculated for us in newton_solve_stages:
 		mat_type solve_tmp = arma::eye(Neq,Neq) - gam*J;
-		vec_type err_8_19 = dt*arma::solve(solve_tmp, delta_delta);
+		vec_type err_8_19 = arma::solve(solve_tmp, delta_delta);
 		err_est = err_8_19;
 
 		// Alternative formula 8.20:
@@ -734,7 +734,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 			dy_alt_alt += delta_alt;
 			vec_type err_alt = dy_alt_alt - delta_y;
-			err_est = dt*arma::solve(solve_tmp, err_alt);
+			err_est = arma::solve(solve_tmp, err_alt);
 		}
 
 		double err_tot = 0.0;
-- 
2.43.0


From 556655118844a595a17a8f79f08ac305108527a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 26/34] fix: options.hpp, output.hpp and functor.hpp did not
 compile on their own

---
 functor.hpp | 3 +++
 options.hpp | 3 ++-
 output.hpp  | 6 ++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/functor.hpp b/functor.hpp
index 6ed6645..a679f36 100644
--- a/functor.hpp
+++ b/functor.hpp
@@ -28,6 +28,9 @@
 
 #include "arma_include.hpp"
 
+typedef arma::vec vec_type;
+typedef arma::mat mat_type;
+
 /**
    \brief This class describes how a functor that describes an
    ODE is to look like.
diff --git a/options.hpp b/options.hpp
index 665e930..d5fa669 100644
--- a/options.hpp
+++ b/options.hpp
@@ -27,7 +27,8 @@
 #ifndef OPTIONS_HPP
 #define OPTIONS_HPP
 
-#include <iosfwd>
+#include <cstddef>
+#include <iostream>
 
 
 namespace newton {
diff --git a/output.hpp b/output.hpp
index bce5df8..7649115 100644
--- a/output.hpp
+++ b/output.hpp
@@ -27,6 +27,12 @@
 #ifndef OUTPUT_HPP
 #define OUTPUT_HPP
 
+#include <vector>
+
+#include "arma_include.hpp"
+
+typedef arma::vec vec_type;
+
 struct basic_output {
 	int status = 0;
 	
-- 
2.43.0


From b4a3472e8e1f764cc4c97c167135d3073ab51a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 27/34] fix: embedded weights of GAUSS_LEGENDRE_42 were swapped

---
 irk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index d524e7f..d71e410 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -333,7 +333,7 @@ solver_coeffs get_coefficients( int method )
 		         { 0.0, 0.0, 0.0 } };
 		sc.c = { 0.5 - sqrt3/6.0, 0.5 + sqrt3/6.0, 0.0 };
 		sc.b = { 0.5, 0.5, 0.0 };
-		sc.b2= { (3*sqrt3 + 1)/12.0, (7-sqrt3)/12.0, (2-sqrt3)/6.0 };
+		sc.b2= { (7-sqrt3)/12.0, (3*sqrt3 + 1)/12.0, (2-sqrt3)/6.0 };
 		sc.order = 4;
 		sc.order2 = 2;
 
-- 
2.43.0


From 159f244f8685dfea3137265d8945cdbda11f1b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 28/34] fix: embedded weights of LOBATTO_IIIC_64 were rotated

---
 irk.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index d71e410..a07a25c 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -279,7 +279,8 @@ solver_coeffs get_coefficients( int method )
 		         { 1.0/12.0, (10 + 7*sqrt(5))/60., 0.25, -sqrt(5)/60.},
 		         { 1.0/12.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 } };
 		sc.b  = { 1.0/12.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 };
-		sc.b2 = { 1.0/12.0, 1.0/12.0, 5.0/12.0, 5.0/12.0};
+		sc.gamma = 1.0/12.0;
+		sc.b2 = { 0.0, 5.0/12.0, 5.0/12.0, 1.0/12.0};
 		sc.c  = { 0.0, 0.5 - sqrt(5)/10., 0.5 + sqrt(5)/10., 1.0 };
 		sc.order = 6;
 		sc.order2 = 4;
-- 
2.43.0


From 81290551b7309fd76b16267980540ee62ae9cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 29/34] fix: newton_iterate reports failure for a negative
 iteration limit

With opts.maxit < 0 no iteration is done, but iters == maxit is false and
the status stayed SUCCESS with the initial guess as the root.
---
 newton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newton.hpp b/newton.hpp
index 71054e0..91722d9 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -528,7 +528,7 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 	}
 
 
-	if( stats.iters == opts.maxit ){
+	if( stats.iters >= opts.maxit ){
 		stats.conv_status = MAXIT_EXCEEDED;
 	}
 	stats.res = std::sqrt( res2 );
-- 
2.43.0


From 3d15cbaa9ed43011a61252d53ae14610d466e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 30/34] fix: stability region of an embedded formula left out
 its weight of f(y_n)

---
 stability_region/main.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index af1bedd..287cfb3 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -32,7 +32,8 @@
 
 std::complex<double> stability_function(std::complex<double> z,
                                         const arma::mat &A,
-                                        const arma::vec &b)
+                                        const arma::vec &b,
+                                        double gamma = 0.0)
 {
 	std::size_t N = b.size();
 	arma::vec e = arma::ones(N);
@@ -40,7 +41,7 @@ std::complex<double> stability_function(std::complex<double> z,
 	arma::cx_mat M = I - z*A;
 	auto Ai = arma::inv(M);
 	std::complex<double> one(1.0,0.0);
-	return one + z*arma::dot(b, Ai*e);
+	return one + z*(gamma + arma::dot(b, Ai*e));
 }
 
 
@@ -68,7 +69,7 @@ arma::mat rk_to_stab_region(const arma::vec &X, const arma::vec &Y,
 		for (std::size_t j = 0; j < M; ++j) {
 			std::complex<double> z(X(i), Y(j));
 			if (embedded_method) {
-				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b2));
+				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b2, sc.gamma));
 			} else {
 				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b));
 			}
@@ -91,14 +92,14 @@ void stability_limit(const std::string &method, std::ostream &out)
 		for (double x : X) {
 			out << x << " "
 			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2)) << "\n";
+			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
 		}
 	} else if(int m = erk::name_to_method(method)) {
 		erk::solver_coeffs sc = erk::get_coefficients(m);
 		for (double x : X) {
 			out << x << " "
 			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2)) << "\n";
+			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
 		}
 	}
 }
-- 
2.43.0


From 4f83df91d0a5d7f84c52d1ee518e8815405bb968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 31/34] fix: the stability program aborted for methods without
 an embedded formula

---
 stability_region/main.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 287cfb3..f22635a 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -91,15 +91,21 @@ void stability_limit(const std::string &method, std::ostream &out)
 		irk::solver_coeffs sc = irk::get_coefficients(m);
 		for (double x : X) {
 			out << x << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
+			    << std::fabs(stability_function({x, 0}, sc.A, sc.b));
+			if (sc.b2.size() > 0) {
+				out << " " << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma));
+			}
+			out << "\n";
 		}
 	} else if(int m = erk::name_to_method(method)) {
 		erk::solver_coeffs sc = erk::get_coefficients(m);
 		for (double x : X) {
 			out << x << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
+			    << std::fabs(stability_function({x, 0}, sc.A, sc.b));
+			if (sc.b2.size() > 0) {
+				out << " " << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma));
+			}
+			out << "\n";
 		}
 	}
 }
@@ -115,6 +121,7 @@ void stability_region(const std::string &method, bool embedded_method,
 
 	if (m) {
 		auto sc = irk::get_coefficients(m);
+		if (embedded_method && sc.b2.size() == 0) return;
 		S = rk_to_stab_region(X, Y, sc, embedded_method);
 	} else {
 		std::cerr << "Method " << method << " not recognized as IRK!\n";
@@ -123,6 +130,7 @@ void stability_region(const std::string &method, bool embedded_method,
 	if (m) {
 		auto sc = erk::get_coefficients(m);
 		// std::cerr << "Coeffs:\n" << sc << "\n";
+		if (embedded_method && sc.b2.size() == 0) return;
 		S = rk_to_stab_region(X, Y, sc, embedded_method);
 	} else {
 		std::cerr << "Method " << method << " not recognized as ERK!\n";
-- 
2.43.0


From 86ca03be1ff18c08e22b878764070e4b3d5c968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 32/34] fix: the stability program aborted on an unknown method
 name

---
 stability_region/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index f22635a..76c2958 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -159,6 +159,10 @@ int main(int argc, char **argv)
 	std::cerr << "\n";
 
 	std::string method(argv[1]);
+	if (!irk::name_to_method(method) && !erk::name_to_method(method)) {
+		std::cerr << "Unknown method " << method << "!\n";
+		return -1;
+	}
 	if (int method_enum = irk::name_to_method(method)) {
 		auto sc = irk::get_coefficients(method_enum);
 		std::cerr << "Method coeffs:\n" << sc << "\n";
-- 
2.43.0


From 419da63dd96d882b49996ed24729a6d117c17386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 33/34] fix: the stability program aborted at a pole of the
 stability function

---
 stability_region/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 76c2958..6be9e84 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -39,7 +39,11 @@ std::complex<double> stability_function(std::complex<double> z,
 	arma::vec e = arma::ones(N);
 	arma::mat I = arma::eye(N,N);
 	arma::cx_mat M = I - z*A;
-	auto Ai = arma::inv(M);
+	arma::cx_mat Ai;
+	if (!arma::inv(Ai, M)) {
+		// z is a pole of the stability function.
+		return std::numeric_limits<double>::infinity();
+	}
 	std::complex<double> one(1.0,0.0);
 	return one + z*(gamma + arma::dot(b, Ai*e));
 }
-- 
2.43.0


From 8a16ef1feb9de1ad7c6fc5d97df112912a793a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 34/34] fix: merging two results weighted their accepted
 fractions by stored points

accept_frac is accepted steps over attempts, so the merged fraction is the mean
weighted by attempts. With results that store no points it was 0/0.
---
 irk.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index a07a25c..7d1c4a1 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -806,11 +806,14 @@ rk_output merge_rk_output( const rk_output &sol1, const rk_output &sol2 )
 	                   sol2.err.begin(), sol2.err.end() );
 
 	merger.elapsed_time += sol2.elapsed_time;
-	double steps1 = sol1.t_vals.size();
-	double steps2 = sol2.t_vals.size();
-	double total_steps = steps1 + steps2;
-	merger.accept_frac = steps1*sol1.accept_frac + steps2*sol2.accept_frac;
-	merger.accept_frac /= total_steps;
+	// accept_frac is a fraction of the attempts, so those are the weights:
+	double attempts1 = sol1.count.attempt;
+	double attempts2 = sol2.count.attempt;
+	double total_attempts = attempts1 + attempts2;
+	if (total_attempts > 0) {
+		merger.accept_frac = attempts1*sol1.accept_frac + attempts2*sol2.accept_frac;
+		merger.accept_frac /= total_attempts;
+	}
 
 	merger.count.attempt += sol2.count.attempt;
 	merger.count.reject_newton += sol2.count.reject_newton;
-- 
2.43.0

