# Edits that keep the behaviour; every check must stay quiet (development aid for tools/selftest.py).
[dict(m, hit="", props="ALL") for m in [
 dict(name="X erk norm helper", edits=[
  ("erk.hpp", "/**\n   \\brief Guts of the explicit RK", "inline double scaled_rms(const vec_type &e, const vec_type &a, const vec_type &b, double atol, double rtol)\n{\n\tdouble acc = 0.0;\n\tconst std::size_t n = e.size();\n\tfor (std::size_t k = 0; k < n; ++k) {\n\t\tconst double sc = atol + rtol*std::max(std::fabs(a(k)), std::fabs(b(k)));\n\t\tacc += (e(k)/sc)*(e(k)/sc);\n\t}\n\treturn std::sqrt(acc / static_cast<double>(n));\n}\n\n/**\n   \\brief Guts of the explicit RK"),
  ("erk.hpp", "\t\t\tdouble err_tot = 0.0;\n\t\t\tdouble atol = solver_opts.abs_tol, rtol = solver_opts.rel_tol;\n", ""),
  ("erk.hpp", "\t\t\tdouble n = Neq;\n\t\t\tfor (std::size_t i = 0; i < Neq; ++i) {\n\t\t\t\tdouble erri = err_est(i);\n\t\t\t\tdouble y0i  = std::fabs(y(i));\n\t\t\t\tdouble y1i  = std::fabs(y_n(i));\n\t\t\t\tdouble sci  = atol + rtol * std::max(y0i, y1i);\n\t\t\t\tdouble add = erri / sci;\n\t\t\t\terr_tot += add*add;\n\t\t\t}\n\t\t\terr = std::sqrt(err_tot / n);\n\t\t\tassert( err_tot >= 0.0 && \"Error cannot be negative!\" );\n",
   "\t\t\terr = scaled_rms(err_est, y, y_n, solver_opts.abs_tol, solver_opts.rel_tol);\n")]),
 dict(name="X erk stage helper", edits=[
  ("erk.hpp", "/**\n   \\brief Guts of the explicit RK", "inline vec_type stage_argument(const vec_type &y, const mat_type &Ks, const solver_coeffs &sc, std::size_t i, double dt)\n{\n\tvec_type s = arma::zeros(y.size());\n\tfor (std::size_t j = 0; j < i; ++j) {\n\t\ts += sc.A(i,j)*Ks.col(j);\n\t}\n\treturn y + dt*s;\n}\n\n/**\n   \\brief Guts of the explicit RK"),
  ("erk.hpp", "\t\t\tvec_type tmp = y;\n\t\t\tfor (std::size_t j = 0; j < i; ++j) {\n\t\t\t\ttmp += dt*sc.A(i,j)*Ks.col(j);\n\t\t\t}\n\t\t\tKs.col(i) = eval_fun(t + sc.c(i)*dt, tmp);", "\t\t\tconst double ti = t + dt*sc.c(i);\n\t\t\tKs.col(i) = eval_fun(ti, stage_argument(y, Ks, sc, i, dt));")]),
 dict(name="X erk limit helper", edits=[
  ("erk.hpp", "/**\n   \\brief Guts of the explicit RK", "inline double limited_step(double dt, double max_dt, double left)\n{\n\tif (max_dt > 0 && dt > max_dt) dt = max_dt;\n\treturn dt > left ? left : dt;\n}\n\n/**\n   \\brief Guts of the explicit RK"),
  ("erk.hpp", "\t\tif (solver_opts.max_dt > 0) {\n\t\t\tdt = std::min(solver_opts.max_dt, dt);\n\t\t}\n\t\tif( t + dt > t1 ){\n\t\t\tdt = t1 - t;\n\t\t}\n\t\tif (solver", "\t\tdt = limited_step(dt, solver_opts.max_dt, t1 - t);\n\t\tif (solver")]),
 dict(name="X erk loop form", edits=[
  ("erk.hpp", "\twhile (t < t1) {\n\t\t// ****************  Calculate stages:   ************", "\tfor (;;) {\n\t\tif (!(t < t1)) break;\n\t\t// ****************  Calculate stages:   ************")]),
 dict(name="X erk max steps first", edits=[
  ("erk.hpp", "\t\tif (solver_opts.max_steps >= 0 &&\n\t\t    step >= solver_opts.max_steps) {\n\t\t\tstd::cerr << \"    Rehuel: Maximum number of attempts exceeded.\\n\";\n\t\t\tsol.status = ERROR_MAX_STEPS_EXCEEDED;\n\t\t\treturn sol;\n\t\t}\n", ""),
  ("erk.hpp", "\t\t// Make sure you stop exactly at t = t1.\n", "\t\tconst bool limited = solver_opts.max_steps >= 0;\n\t\tif (limited && !(step < solver_opts.max_steps)) {\n\t\t\tsol.status = ERROR_MAX_STEPS_EXCEEDED;\n\t\t\tstd::cerr << \"    Rehuel: Maximum number of attempts exceeded.\\n\";\n\t\t\treturn sol;\n\t\t}\n\t\t// Make sure you stop exactly at t = t1.\n")]),
 dict(name="X erk accept flag", edits=[
  ("erk.hpp", "\t\tint integrator_status = 0;\n", "\t\tbool accepted = true;\n"),
  ("erk.hpp", "\t\t\tif (solver_opts.adaptive_step_size && (err >= 1.0)) {\n\t\t\t\tintegrator_status = 1;\n\t\t\t\tsol.count.reject_err++;\n\t\t\t}\n", "\t\t\taccepted = err < 1.0;\n\t\t\tsol.count.reject_err += accepted ? 0 : 1;\n"),
  ("erk.hpp", "\t\tif (!solver_opts.adaptive_step_size || integrator_status == 0) {\n", "\t\tif (accepted) {\n")]),
 dict(name="X erk record lambda", edits=[
  ("erk.hpp", "\twhile (t < t1) {\n\t\t// ****", "\tauto record = [&sol](double tt, const vec_type &yy, const mat_type &KK, const vec_type &ee, double er)\n\t{\n\t\tsol.t_vals.push_back(tt);\n\t\tsol.y_vals.push_back(yy);\n\t\tsol.stages.push_back(arma::vectorise(KK));\n\t\tsol.err_est.push_back(ee);\n\t\tsol.err.push_back(er);\n\t};\n\n\twhile (t < t1) {\n\t\t// ****"),
  ("erk.hpp", "\t\t\t\t\tsol.t_vals.push_back(t);\n\t\t\t\t\tsol.y_vals.push_back(y_n);\n\t\t\t\t\t// Since K is a matrix, it needs to be flattened:\n\t\t\t\t\tsol.stages.push_back(arma::vectorise(Ks));\n\t\t\t\t\tsol.err_est.push_back(err_est);\n\t\t\t\t\tsol.err.push_back(err);\n", "\t\t\t\t\trecord(t, y_n, Ks, err_est, err);\n")]),
 dict(name="X erk output helper", edits=[
  ("erk.hpp", "/**\n   \\brief Guts of the explicit RK", "inline void write_line(std::ostream &o, double t, const vec_type &y)\n{\n\to << t;\n\tfor (auto it = y.begin(); it != y.end(); ++it) {\n\t\to << \" \" << *it;\n\t}\n\to << \"\\n\";\n}\n\n/**\n   \\brief Guts of the explicit RK"),
  ("erk.hpp", "\t\t\t\t\t*output_opts.output_stream << t;\n\t\t\t\t\tfor (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {\n\t\t\t\t\t\t*output_opts.output_stream << \" \" << y_n[y_idx];\n\t\t\t\t\t}\n\t\t\t\t\t*output_opts.output_stream << \"\\n\";\n", "\t\t\t\t\twrite_line(*output_opts.output_stream, t, y_n);\n")]),
 dict(name="X erk fsal inline", edits=[
  ("erk.hpp", "\t\t\tfsal_hook_fptr(Ks, Ns);\n", "\t\t\tif (sc.FSAL) {\n\t\t\t\tKs.col(0) = Ks.col(Ns-1);\n\t\t\t}\n"),
  ("erk.hpp", "\tauto fsal_hook_fptr = no_apply_fsal_dummy;\n", ""),
  ("erk.hpp", "\t\tfsal_hook_fptr = apply_fsal;\n", "")]),
 dict(name="X erk err clamp", edits=[
  ("erk.hpp", "\t\t\tif (err < machine_precision) {\n\t\t\t\terr = machine_precision;\n\t\t\t}\n", "\t\t\terr = std::max(err, machine_precision + 0.0);\n"),
  ("erk.hpp", "\t\t\tdouble scale_27 = std::pow(err_inv, expt);", "\t\t\tdouble scale_27 = std::pow(err, -expt);")]),
 dict(name="X irk norm helper", edits=[
  ("irk.hpp", "/**\n   \\brief Generic time integration function for IRK", "inline double weighted_error(const vec_type &e, const vec_type &y, const vec_type &yn, const solver_options &o)\n{\n\tdouble s = 0.0;\n\tfor (std::size_t i = 0; i != e.size(); ++i) {\n\t\tdouble w = o.abs_tol + o.rel_tol*std::max(std::fabs(yn[i]), std::fabs(y[i]));\n\t\ts += std::pow(e[i]/w, 2);\n\t}\n\treturn std::sqrt(s / e.size());\n}\n\n/**\n   \\brief Generic time integration function for IRK"),
  ("irk.hpp", "\t\tassert( err_tot >= 0.0 && \"Error cannot be negative!\" );\n\t\terr = std::sqrt( err_tot / n );\n", "\t\terr = weighted_error(err_est, y, y_n, solver_opts);\n"),
  ("irk.hpp", "\t\tdouble err_tot = 0.0;\n\t\tdouble n = 0.0;\n\t\tdouble atol = solver_opts.abs_tol;\n\t\tdouble rtol = solver_opts.rel_tol;\n\t\tfor( std::size_t i = 0; i < err_est.size(); ++i ){\n\t\t\tdouble erri = err_est[i];\n\t\t\tdouble y0i  = std::fabs( y[i] );\n\t\t\tdouble y1i  = std::fabs( y_n[i] );\n\t\t\tdouble sci  = atol + rtol * std::max( y0i, y1i );\n\n\t\t\tdouble add = erri / sci;\n\t\t\terr_tot += add * add;\n\t\t\tn += 1.0;\n\t\t}\n", "")]),
 dict(name="X irk newton loop", edits=[
  ("irk.hpp", "\tfor ( ; stats.iters < maxit; ++stats.iters) {", "\twhile (stats.iters < maxit) {"),
  ("irk.hpp", "\t\tif (Rnorm2 < Rtol2) {\n\t\t\tstatus = newton::SUCCESS;\n\t\t\tbreak;\n\t\t}\n\t\tif (xnorm2 < xtol2) {\n\t\t\tstatus = newton::SUCCESS;\n\t\t\tbreak;\n\t\t}\n", "\t\tconst bool converged = (Rnorm2 < Rtol2) || (xnorm2 < xtol2);\n\t\tif (converged) {\n\t\t\tstatus = newton::SUCCESS;\n\t\t\tbreak;\n\t\t}\n"),
  ("irk.hpp", "\t\t\trefresh_jacobi_matrix();\n\t\t}\n\t}\n\tstats.res", "\t\t\trefresh_jacobi_matrix();\n\t\t}\n\t\t++stats.iters;\n\t}\n\tstats.res")]),
 dict(name="X irk no kron", edits=[
  ("irk.hpp", "\tR -= dt*arma::kron(sc.A, I_neq)*F;\n\treturn R;", "\tfor (std::size_t i = 0; i < Ns; ++i) {\n\t\tfor (std::size_t j = 0; j < Ns; ++j) {\n\t\t\tR.subvec(i*Neq, (i+1)*Neq - 1) -= dt*sc.A(i,j)*F.subvec(j*Neq, (j+1)*Neq - 1);\n\t\t}\n\t}\n\treturn R;")]),
 dict(name="X irk failed lambda", edits=[
  ("irk.hpp", "\t\t\tif (newton_status == newton::INCREMENT_DIVERGE){\n\t\t\t\tsol.count.newton_incr_diverge++;\n\t\t\t}else if (newton_status == newton::ITERATION_ERROR_TOO_LARGE){\n\t\t\t\tsol.count.newton_iter_error_too_large++;\n\t\t\t}else if (newton_status == newton::MAXIT_EXCEEDED){\n\t\t\t\tsol.count.newton_maxit_exceed++;\n\t\t\t}\n\t\t\tcontinue;",
   "\t\t\tswitch (newton_status) {\n\t\t\tcase newton::INCREMENT_DIVERGE:\n\t\t\t\t++sol.count.newton_incr_diverge;\n\t\t\t\tbreak;\n\t\t\tcase newton::ITERATION_ERROR_TOO_LARGE:\n\t\t\t\t++sol.count.newton_iter_error_too_large;\n\t\t\t\tbreak;\n\t\t\tcase newton::MAXIT_EXCEEDED:\n\t\t\t\t++sol.count.newton_maxit_exceed;\n\t\t\t\tbreak;\n\t\t\tdefault:\n\t\t\t\tbreak;\n\t\t\t}\n\t\t\tcontinue;")]),
 dict(name="X irk controller fn", edits=[
  ("irk.hpp", "/**\n   \\brief Generic time integration function for IRK", "inline double propose_step(double dt, double fac, double err, const double errs[3], const double dts[3], std::size_t min_order)\n{\n\tconst double expt = 1.0 / (1.0 + min_order);\n\tdouble simple = std::pow(1.0/err, expt);\n\tdouble frac = 1.0;\n\tif (errs[0] != 0 && errs[1] != 0) {\n\t\tfrac = errs[1] / errs[0];\n\t}\n\tdouble predictive = simple * (dts[0]/dts[1]) * std::pow(frac, expt);\n\treturn fac * dt * std::min(8.0, std::min(predictive, simple));\n}\n\n/**\n   \\brief Generic time integration function for IRK"),
  ("irk.hpp", "\t\tdouble min_scales = std::min( scale_27, scale_28 );\n\t\t// When growing dt, don't grow more than a factor 4:\n\t\tnew_dt = fac * dt * std::min( 8.0, min_scales );\n", "\t\tnew_dt = propose_step(dt, fac, err, errs, dts, min_order);\n"),
  ("irk.hpp", "\t\tdouble expt = 1.0 / ( 1.0 + min_order );\n\t\tdouble err_inv = 1.0 / err;\n\t\tdouble scale_27 = std::pow( err_inv, expt );\n\t\tdouble dt_rat = dts[0] / dts[1];\n\t\tdouble err_frac = errs[1] / errs[0];\n\t\tif( errs[1] == 0 || errs[0] == 0 ){\n\t\t\terr_frac = 1.0;\n\t\t}\n\t\tdouble err_rat = std::pow( err_frac, expt );\n\t\tdouble scale_28 = scale_27 * dt_rat * err_rat;\n", "")]),
 dict(name="X irk weights", edits=[
  ("irk.hpp", "\tmat_type Ai = arma::inv(sc.A);\n\tvec_type d_weights  = (Ai.t())*sc.b;", "\tconst mat_type Ai = arma::inv(sc.A);\n\tconst mat_type AiT = Ai.t();\n\tvec_type d_weights  = AiT*sc.b;"),
  ("irk.hpp", "\t\td2_weights = (Ai.t())*sc.b2;", "\t\td2_weights = AiT*sc.b2;"),
  ("irk.hpp", "\t\tdelta_y = YYs*d_weights;\n", "\t\tdelta_y = arma::zeros(Neq);\n\t\tfor (std::size_t i = 0; i < Ns; ++i) {\n\t\t\tdelta_y += d_weights(i)*Y.subvec(i*Neq, (i+1)*Neq - 1);\n\t\t}\n")]),
 dict(name="X irk est order", edits=[
  ("irk.hpp", "\t\tvec_type y_n    = y + delta_y;\n\t\tvec_type yp     = y + dy_alt;\n\t\tvec_type delta_delta = dy_alt - delta_y;\n", "\t\tvec_type delta_delta = dy_alt - delta_y;\n\t\tvec_type y_n    = y;\n\t\ty_n += delta_y;\n"),
  ("irk.hpp", "\t\tmat_type solve_tmp = arma::eye(Neq,Neq) - gam*J;\n", "\t\tmat_type solve_tmp = -gam*J;\n\t\tfor (std::size_t i = 0; i < Neq; ++i) solve_tmp(i,i) += 1.0;\n")]),
 dict(name="X ab table loop", edits=[
  ("multistep.hpp", "\tswitch(order) {\n\tcase 1:\n\t\tY += dt*func.fun(t, history[0]);\n\t\tbreak;\n", "\tif (order == 1) {\n\t\tconst vec_type k = func.fun(t, history[0]);\n\t\tY = Y + dt*k;\n\t\treturn;\n\t}\n\tswitch(order) {\n")]),
 dict(name="X ab generic", edits=[
  ("multistep.hpp", "\tswitch(order) {\n\tcase 1:\n\t\tY += dt*func.fun(t, history[0]);\n\t\tbreak;\n\tcase 2:\n", "\tif (order >= 1 && order <= 2) {\n\t\tvec_type incr = C[order-1][0]*func.fun(t, history[0]);\n\t\tfor (int i = 1; i < order; ++i) {\n\t\t\tincr += C[order-1][i]*func.fun(t - i*dt, history[i]);\n\t\t}\n\t\tY += dt*incr;\n\t\treturn;\n\t}\n\tswitch(order) {\n\tcase 2:\n")]),
 dict(name="X bdf const part", edits=[
  ("multistep.hpp", "\t\tvec_type interpolation_part;\n\t\tinterpolation_part.zeros(y0.size());\n\t\tfor (std::size_t i = 0; i < solver_opts.order; ++i) {\n\t\t\tinterpolation_part += bdf_params[i]*history[i];\n\t\t}\n", "\t\tvec_type interpolation_part = bdf_params[0]*history[0];\n\t\tint k = 1;\n\t\twhile (k < solver_opts.order) {\n\t\t\tinterpolation_part = interpolation_part + bdf_params[k]*history[k];\n\t\t\tk++;\n\t\t}\n")]),
 dict(name="X bdf advance", edits=[
  ("multistep.hpp", "\t\tt += dt;\n\t\t++step;\n\t\ty = yn_plus;\n", "\t\tconst double t_next = t + dt;\n\t\ty = yn_plus;\n\t\tt = t_next;\n\t\t++step;\n"),
  ("multistep.hpp", "\t\tnewton_functor.t_nplus = t + dt;\n\t\tnewton_functor.const_part = interpolation_part;\n", "\t\tnewton_functor.const_part = interpolation_part;\n\t\tnewton_functor.t_nplus = dt + t;\n")]),
 dict(name="X ms seed helper", edits=[
  ("multistep.hpp", "template <typename functor_type> inline\nbasic_output adams_bashforth(", "inline void seed_history(const basic_output &hist, basic_output &sol, cyclic_buffer<vec_type> &history)\n{\n\tfor (std::size_t i = 0; i < hist.t_vals.size(); ++i) {\n\t\thistory.push_back(hist.y_vals[i]);\n\t\tsol.y_vals.push_back(hist.y_vals[i]);\n\t\tsol.t_vals.push_back(hist.t_vals[i]);\n\t}\n}\n\ntemplate <typename functor_type> inline\nbasic_output adams_bashforth("),
  ("multistep.hpp", "\tfor (std::size_t i = 0; i < hist.t_vals.size(); ++i) {\n\t\tsol.t_vals.push_back(hist.t_vals[i]);\n\t\tsol.y_vals.push_back(hist.y_vals[i]);\n\t\thistory.push_back(hist.y_vals[i]);\n\t}\n", "\tseed_history(hist, sol, history);\n")]),
 dict(name="X ms bootstrap", edits=[
  ("multistep.hpp", "\tfor (int i = 1; i < order; ++i) {\n\t\tauto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],\n\t\t                           opts, output_opts, method);\n\t\tstd::size_t Nt = tmp_sol.t_vals.size();\n\t\tt += dt;\n\t\tstart.t_vals.push_back(t);\n\t\tstart.y_vals.push_back(tmp_sol.y_vals[Nt-1]);\n\t}\n",
   "\tvec_type last = y;\n\tint left = order - 1;\n\twhile (left > 0) {\n\t\tconst double next = t + dt;\n\t\tauto part = irk::odeint(func, t, next, last, opts, output_opts, method);\n\t\tlast = part.y_vals.back();\n\t\tt = next;\n\t\tstart.t_vals.push_back(t);\n\t\tstart.y_vals.push_back(last);\n\t\t--left;\n\t}\n")]),
 dict(name="X newton solve fn", edits=[
  ("newton.hpp", "\t\t\t\tfor( std::size_t i = 0; i < N; ++i ){\n\t\t\t\t\tif( J(i,i) != 0.0 ){\n\t\t\t\t\t\tP(i,i) = 1.0 / J(i,i);\n\t\t\t\t\t}else{\n\t\t\t\t\t\tP(i,i) = 1.0;\n\t\t\t\t\t}\n\t\t\t\t}\n", "\t\t\t\tfor( std::size_t i = 0; i < N; ++i ){\n\t\t\t\t\tconst double d = J(i,i);\n\t\t\t\t\tP(i,i) = d == 0.0 ? 1.0 : 1.0/d;\n\t\t\t\t}\n"),
  ("newton.hpp", "\t\tif( max_step2 > 0 ){\n\t\t\tdouble norm2 = dot( direction, direction );\n\t\t\tif( lambda*lambda*norm2 > max_step2 ){\n\t\t\t\tdirection *= std::sqrt(max_step2/norm2)/lambda;\n\t\t\t}\n\t\t}\n\n\t\txn = x0 + lambda*direction;", "\t\tif( max_step2 > 0 ){\n\t\t\tconst vec_type full = lambda*direction;\n\t\t\tconst double norm2 = dot( full, full );\n\t\t\tif( max_step2 < norm2 ){\n\t\t\t\tdirection = direction*std::sqrt(max_step2/norm2);\n\t\t\t}\n\t\t}\n\n\t\txn = direction*lambda + x0;")]),
 dict(name="X newton end", edits=[
  ("newton.hpp", "\tif( stats.conv_status == SUCCESS ){\n\t\treturn xn;\n\t}else{\n\t\treturn x;\n\t}\n", "\treturn stats.conv_status == SUCCESS ? xn : x;\n"),
  ("newton.hpp", "\t\tif( incr1 < opts.dx_delta ){\n\t\t\tterminate = true;\n\t\t\tstats.conv_status = SUCCESS;\n\t\t}\n\t}\n", "\t\tterminate = incr1 < opts.dx_delta;\n\t}\n")]),
 dict(name="X broyden update", edits=[
  ("newton.hpp", "\t\tarma::rowvec xt_J = dx.t()*Jaci;\n\t\tdouble norm = arma::dot(xt_J, df);\n\t\tvec_type left_part = ( dx - Jaci*df );\n\n\t\tJaci += left_part*xt_J / norm;", "\t\tconst vec_type Jdf = Jaci*df;\n\t\tdouble denom = arma::dot(dx, Jdf);\n\t\tmat_type update = (dx - Jdf)*(dx.t()*Jaci);\n\t\tJaci = Jaci + update/denom;"),
  ("newton.hpp", "\t\tif( incr < opts.dx_delta ){\n\t\t\tterminate = true;\n\t\t\tstats.conv_status = SUCCESS;\n\t\t}\n\t\tif( res2 < tol2 ){\n\t\t\tterminate = true;\n\t\t\tstats.conv_status = SUCCESS;\n\t\t}\n", "\t\tif( incr < opts.dx_delta || res2 < tol2 ){\n\t\t\tstats.conv_status = SUCCESS;\n\t\t\tterminate = true;\n\t\t}\n")]),
 dict(name="X jac approx", edits=[
  ("newton.hpp", "\t\tvec_type delta = fp - fm;\n\t\tdelta /= (2.0*h);\n\n\t\tfor( std::size_t i = 0; i < N; ++i ){\n\t\t\tJ_approx(i,j) = delta(i);\n\t\t}\n", "\t\tJ_approx.col(j) = (fp - fm)/(2.0*h);\n"),
  ("newton.hpp", "\tvec_type f0 = func.fun(y);\n\tvec_type new_yp", "\tvec_type new_yp")]),
 dict(name="X timer", edits=[
  ("my_timer.hpp", "\t\treturn (t_toc.tv_usec - user_tic.tv_usec)*1e-3 +\n\t\t\t(t_toc.tv_sec  - user_tic.tv_sec)*1000.0;", "\t\tdouble ms = 1000.0*(t_toc.tv_sec - user_tic.tv_sec);\n\t\tms += (t_toc.tv_usec - user_tic.tv_usec)/1000.0;\n\t\treturn ms;")]),
 dict(name="X buffer push", edits=[
  ("cyclic_buffer.hpp", "\t\tlong next_spot = current_ + 1;\n", "\t\tlong next_spot = empty() ? 0 : current_ + 1;\n"),
  ("cyclic_buffer.hpp", "\t\tif (next_spot >= period_) {\n\n\t\t\tstorage_[next_spot] = t;\n\t\t\tstorage_[next_spot - period_] = t;\n\t\t} else {\n\t\t\tstorage_[next_spot] = t;\n\t\t}\n", "\t\tstorage_[next_spot] = t;\n\t\tif (next_spot >= period_) {\n\t\t\tstorage_[next_spot - period_] = t;\n\t\t}\n")]),
 dict(name="X merge helper", edits=[
  ("irk.cpp", "rk_output merge_rk_output(", "template <typename T>\nstatic void append(std::vector<T> &to, const std::vector<T> &from)\n{\n\tfor (const T &x : from) to.push_back(x);\n}\n\nrk_output merge_rk_output("),
  ("irk.cpp", "\tmerger.t_vals.insert( merger.t_vals.end(),\n\t                      sol2.t_vals.begin(), sol2.t_vals.end() );\n\tmerger.y_vals.insert( merger.y_vals.end(),\n\t                      sol2.y_vals.begin(), sol2.y_vals.end() );\n", "\tappend(merger.y_vals, sol2.y_vals);\n\tappend(merger.t_vals, sol2.t_vals);\n")]),
 dict(name="X predicates", edits=[
  ("irk.cpp", "\tfor( std::size_t i = 0; i < sc.A.n_rows; ++i ){\n\t\tfor( std::size_t j = i; j < sc.A.n_cols; ++j ){\n\t\t\tif( sc.A(i,j) != 0.0 ) return false;\n\t\t}\n\t}\n\treturn true;", "\tbool zero = true;\n\tfor( std::size_t j = 0; j < sc.A.n_cols; ++j ){\n\t\tfor( std::size_t i = 0; i <= j && i < sc.A.n_rows; ++i ){\n\t\t\tzero = zero && sc.A(i,j) == 0.0;\n\t\t}\n\t}\n\treturn zero;"),
  ("irk.cpp", "\tif( N != sc.c.size() || N != sc.A.n_rows || N != sc.A.n_cols ){\n\t\treturn false;\n\t}\n\tif( N == 0 ) return false;\n\n\treturn true;", "\tconst bool square = sc.A.n_rows == N && sc.A.n_cols == N;\n\treturn N > 0 && square && sc.c.size() == N;")]),
 dict(name="X names", edits=[
  ("irk.cpp", "\tauto it = irk::rk_string_to_method.find(name);\n\treturn it == irk::rk_string_to_method.end() ? 0 : it->second;", "\tconst auto it = irk::rk_string_to_method.find(name);\n\tif (it != irk::rk_string_to_method.end()) {\n\t\treturn it->second;\n\t}\n\treturn 0;"),
  ("erk.cpp", "\tfor (auto pair : rk_string_to_method){\n\t\tmethods.push_back(pair.first);\n\t}\n", "\tfor (auto it = rk_string_to_method.begin(); it != rk_string_to_method.end(); ++it) {\n\t\tmethods.push_back(it->first);\n\t}\n")]),
 dict(name="X interp direct", edits=[
  ("irk.cpp", "\tstd::vector<coeff_list> poly_coefficients(Ns);\n", "\t(void)d;\n\tmat_type direct = arma::zeros( Ns, Ns );\n\tfor( std::size_t i = 0; i < Ns; ++i ){\n\t\tvec_type p = arma::zeros( Ns );\n\t\tp(0) = 1.0;\n\t\tstd::size_t deg = 0;\n\t\tfor( std::size_t j = 0; j < Ns; ++j ){\n\t\t\tif( j == i ) continue;\n\t\t\tvec_type q = arma::zeros( Ns );\n\t\t\tfor( std::size_t k = 0; k <= deg; ++k ){\n\t\t\t\tq(k+1) += p(k);\n\t\t\t\tq(k) -= c(j)*p(k);\n\t\t\t}\n\t\t\tp = q;\n\t\t\t++deg;\n\t\t}\n\t\tfor( std::size_t k = 0; k < Ns; ++k ){\n\t\t\tdirect(i, Ns - k - 1) = p(k) / d(i) / (k + 1.0);\n\t\t}\n\t}\n\treturn direct;\n\n\tstd::vector<coeff_list> poly_coefficients(Ns);\n")]),
 dict(name="X options bits", edits=[
  ("options.hpp", "\t\treturn output_mode & (1 << (STORE_IN_VECTORS - 1));", "\t\treturn (output_mode & STORE_IN_VECTORS) != 0;"),
  ("options.hpp", "\t\treturn output_mode & (1 << (WRITE_TO_FILE - 1));", "\t\tconst std::size_t bit = WRITE_TO_FILE;\n\t\treturn bit == (output_mode & bit);")]),
 dict(name="X project b", edits=[
  ("irk.cpp", "\tdouble tt = theta;\n\tfor( std::size_t i = 0; i < Ns; ++i ){\n\t\tint j = Ns - i - 1;\n\t\tts(j) = tt;\n\t\ttt *= theta;\n\t}\n", "\tfor( std::size_t i = 0; i < Ns; ++i ){\n\t\tts(i) = std::pow( theta, static_cast<int>( Ns - i ) );\n\t}\n")]),
]]
