[
 # written from the statements; "R" names keep the behaviour
 dict(name="i boot max steps", file="multistep.hpp", old="\topts.abs_tol = 1e-9;\n", new="\topts.abs_tol = 1e-9;\n\topts.max_steps = 1000;\n", hit="P06"),
 dict(name="i boot output interval", file="multistep.hpp", old="\toutput_opts.output_mode = output_options::STORE_IN_VECTORS;\n", new="\toutput_opts.output_mode = output_options::STORE_IN_VECTORS;\n\toutput_opts.output_interval = 10;\n", hit="P06"),
 dict(name="i boot no store", file="multistep.hpp", old="\toutput_opts.output_mode = output_options::STORE_IN_VECTORS;\n", new="\toutput_opts.output_mode = output_options::WRITE_TO_FILE;\n", hit="P06"),
 dict(name="i boot fixed method", file="multistep.hpp", old="int method = irk::LOBATTO_IIIC_85;", new="int method = irk::IMPLICIT_EULER;", hit="-", props="P06"),
 dict(name="i boot t first", file="multistep.hpp", edits=[("multistep.hpp", "\t\tt += dt;\n\t\tstart.t_vals.push_back(t);", "\t\tstart.t_vals.push_back(t);\n\t\tt += dt;")], hit="P06"),
 dict(name="R boot times", file="multistep.hpp", edits=[("multistep.hpp", "\t\tt += dt;\n\t\tstart.t_vals.push_back(t);", "\t\tstart.t_vals.push_back(t + dt);\n\t\tt = start.t_vals.back();")], hit="", props="P05 P06 P14"),
 dict(name="i ab clip", file="multistep.hpp", old="\t\tadams_bashforth_step(func, solver_opts.order, y, t, dt, history);", new="\t\tif (t + dt > t1) dt = t1 - t;\n\t\tadams_bashforth_step(func, solver_opts.order, y, t, dt, history);", hit="P05"),
 dict(name="i bdf clip", file="multistep.hpp", old="\twhile (t < t1) {\n\t\tvec_type interpolation_part;", new="\twhile (t < t1) {\n\t\tif (t + dt > t1) dt = t1 - t;\n\t\tvec_type interpolation_part;", hit="P05"),
 dict(name="i bdf newton tol loose", file="multistep.hpp", old="newton_opts.dx_delta = 1e-10;", new="newton_opts.dx_delta = 1e10;", hit="-", props="P05 P17"),
 dict(name="i bdf guess zero", file="multistep.hpp", old="newton_functor, y, newton_opts, newton_status);", new="newton_functor, vec_type(2*history[0] - history[1]), newton_opts, newton_status);", hit="", props="P05 P17"),
 dict(name="i bdf stop early", file="multistep.hpp", old="\twhile (t < t1) {\n\t\tvec_type interpolation_part;", new="\twhile (t + dt <= t1) {\n\t\tvec_type interpolation_part;", hit="P17", props="P05 P14 P17"),
 dict(name="i bdf record before check", edits=[("multistep.hpp", "\t\tif (newton_status.conv_status != newton::SUCCESS) {\n", "\t\tif (newton_status.conv_status == newton::MAXIT_EXCEEDED) {\n")], hit="P17"),
 dict(name="i bdf jac old time", file="multistep.hpp", old="{ return I - func_weight*func.jac(t_nplus, y); }", new="{ return I - func_weight*func.jac(t_nplus - func_weight, y); }", hit="-", props="P05"),
 dict(name="i bdf weight int", file="multistep.hpp", old="{1.0, 2/3.0, 6/11.0, 12/25.0, 60/137.0, 60/147.0};", new="{1.0, 2/3.0, 6/11.0, 12/25.0, 60/137.0, 60/147};", hit="P05"),
 dict(name="i erk fsal hoist", file="erk.hpp", edits=[("erk.hpp", "\t\t\tfsal_hook_fptr(Ks, Ns);\n", ""), ("erk.hpp", "\t\t\ty  = y_n;\n", "\t\t\ty  = y_n;\n\t\t\tfsal_hook_fptr(Ks, Ns);\n")], hit="P14"),
 dict(name="i erk fsal early", file="erk.hpp", edits=[("erk.hpp", "\t\t\tfsal_hook_fptr(Ks, Ns);\n", ""), ("erk.hpp", "\t\tvec_type delta_y = Ks*sc.b;\n", "\t\tvec_type delta_y = Ks*sc.b;\n\t\tfsal_hook_fptr(Ks, Ns);\n")], hit="P09"),
 dict(name="i erk est skip", file="erk.hpp", old="\t\tif (solver_opts.adaptive_step_size) {\n\t\t\tvec_type delta_alt", new="\t\tif (solver_opts.adaptive_step_size && step > 0) {\n\t\t\tvec_type delta_alt", hit="P12"),
 dict(name="i erk err inf", file="erk.hpp", old="\t\t\terr = std::sqrt(err_tot / n);", new="\t\t\terr = std::sqrt(err_tot / n);\n\t\t\tif (!std::isfinite(err)) err = 0.5;", hit="P12"),
 dict(name="i erk small dt accept", file="erk.hpp", old="(err >= 1.0)", new="(err >= 1.0) && dt > 1e-12", hit="P12"),
 dict(name="i erk reject once", edits=[("erk.hpp", "(err >= 1.0)", "(err >= 1.0) && !retried"), ("erk.hpp", "\tlong long int step = 0;\n", "\tlong long int step = 0;\n\tbool retried = false;\n"), ("erk.hpp", "\t\tdts[2] = dts[1];", "\t\tretried = integrator_status != 0;\n\t\tdts[2] = dts[1];")], hit="P12"),
 dict(name="i erk accept atol", file="erk.hpp", old="double atol = solver_opts.abs_tol, rtol = solver_opts.rel_tol;", new="double atol = solver_opts.abs_tol, rtol = solver_opts.abs_tol;", hit="P12"),
 dict(name="i erk end eps", file="erk.hpp", old="\t\tif( t + dt > t1 ){\n\t\t\tdt = t1 - t;", new="\t\tif( t + 1.0000001*dt > t1 ){\n\t\t\tdt = t1 - t;", hit="P13"),
 dict(name="i erk end half", file="erk.hpp", old="\t\tif( t + dt > t1 ){\n\t\t\tdt = t1 - t;\n\t\t}\n\t\tif (solver", new="\t\tif( t + dt > t1 ){\n\t\t\tdt = t1 - t;\n\t\t} else if (t + 1.5*dt > t1) {\n\t\t\tdt = 0.5*(t1 - t);\n\t\t}\n\t\tif (solver", hit="P12", props="P11 P13 P12"),
 dict(name="i erk first dt", file="erk.hpp", old="\t\tif (solver_opts.max_dt > 0) {\n\t\t\tdt = std::min(solver_opts.max_dt, dt);", new="\t\tif (solver_opts.max_dt > 0 && step > 0) {\n\t\t\tdt = std::min(solver_opts.max_dt, dt);", hit="P13"),
 dict(name="i irk steps attempts", file="irk.hpp", old="solver_opts.max_steps >= 0 && step >= solver_opts.max_steps", new="solver_opts.max_steps >= 0 && step > solver_opts.max_steps", hit="P13"),
 dict(name="R irk steps attempts", file="irk.hpp", old="solver_opts.max_steps >= 0 && step >= solver_opts.max_steps", new="!(solver_opts.max_steps < 0 || solver_opts.max_steps > step)", hit="", props="P13 P17"),
 dict(name="i irk step on reject", file="irk.hpp", edits=[("irk.hpp", "\t\t\tt += dt;\n\t\t\t++step;\n", "\t\t\tt += dt;\n"), ("irk.hpp", "\t\tif( solver_opts.adaptive_step_size ) {\n\t\t\tdt = new_dt;", "\t\t++step;\n\t\tif( solver_opts.adaptive_step_size ) {\n\t\t\tdt = new_dt;")], hit="P15 P16"),
 dict(name="i irk yo", file="irk.hpp", old="\t\t\tt += dt;\n\t\t\t++step;\n", new="\t\t\tt = t0 + sol.count.attempt*dt;\n\t\t\t++step;\n", hit="P11"),
 dict(name="i irk jac lazily", file="irk.hpp", old="\t\t\tJ = func.jac(t,y);\n", new="\t\t\tif (J.n_elem != y.n_elem*y.n_elem) J = func.jac(t,y);\n", hit="P10"),
 dict(name="i irk jac iters", file="irk.hpp", old="\t\t\tJ = func.jac(t,y);\n", new="\t\t\tif (J.is_empty() || jac_evals % 3 == 0) J = func.jac(t,y);\n", hit="P10"),
 dict(name="i irk Y warm", file="irk.hpp", old="\tY = arma::zeros(NN);\n", new="\tif (Y.n_elem != NN) Y = arma::zeros(NN);\n", hit="", props="P10 P12 P28"),
 dict(name="i irk lu once", file="irk.hpp", old="\t\t\tJ_Y -= dt*kron(sc.A,J);", new="\t\t\tJ_Y -= dt*kron(J,sc.A);", hit="P10"),
 dict(name="i irk fixed newton fail", file="irk.hpp", old="\t\t\tif (!solver_opts.adaptive_step_size) {\n\t\t\t\t// In", new="\t\t\tif (!solver_opts.adaptive_step_size && step > 0) {\n\t\t\t\t// In", hit="P12"),
 dict(name="i irk maxit relax cap", file="irk.hpp", old="\t\t\tdt *= 0.7;\n", new="\t\t\tdt *= 0.7;\n\t\t\tif (dt < 1e-14*(t1-t0)) break;\n", hit="P17"),
 dict(name="i irk res2", file="irk.hpp", old="\t\tif (Rnorm2 < Rtol2) {", new="\t\tif (Rnorm2 < Rtol) {", hit="P10"),
 dict(name="i irk xnorm old", file="irk.hpp", old="\t\txnorm2 = arma::dot(dY, dY);\n", new="\t\txnorm2 = step*arma::dot(dY, dY)*1e-6;\n", hit="P10"),
 dict(name="i irk K dt", file="irk.hpp", edits=[("irk.hpp", "\t\t\tK_np = arma::vectorise(YYs*Ai.t()) / dt;\n", ""), ("irk.hpp", "\tvec_type K_np = arma::zeros(N)", "\tvec_type K_np = arma::zeros(N)"), ("irk.hpp", "\t\tif( solver_opts.out_interval > 0 &&\n\t\t    (step %", "\t\tK_np = arma::vectorise(YYs*Ai.t()) / new_dt;\n\t\tif( solver_opts.out_interval > 0 &&\n\t\t    (step %")], hit="P14"),
 dict(name="i irk store init stage", file="irk.hpp", old="\t\t\t\t\tsol.stages.push_back(K_np);", new="\t\t\t\t\tsol.stages.push_back(K_n);", hit="P14"),
 dict(name="i irk write prec", file="irk.hpp", old="\t\t\t\t\t*output_opts.output_stream << t;", new="\t\t\t\t\t*output_opts.output_stream << (float)t;", hit="P15"),
 dict(name="i irk write both", file="irk.hpp", old="\t\t\t\tif (output_opts.write_to_file()) {", new="\t\t\t\tif (output_opts.output_stream) {", hit="P15"),
 dict(name="i irk interval off", file="irk.hpp", old="\t\t\t    step % output_opts.output_interval == 0) {", new="\t\t\t    (step % output_opts.output_interval == 0 || t >= t1)) {", hit="P15"),
 dict(name="i irk fun count alt", file="irk.hpp", edits=[("irk.hpp", "\t\t\tvec_type dy_alt_alt = gam*func.fun(t, y + err_est);\n\t\t\t++sol.count.fun_evals;", "\t\t\tvec_type dy_alt_alt = gam*func.fun(t, y + err_est);"), ("irk.hpp", "\t\t++sol.count.fun_evals;\n\n\t\tvec_type y_n", "\t\tsol.count.fun_evals += 2;\n\n\t\tvec_type y_n")], hit="P16"),
 dict(name="i irk frac", file="irk.hpp", old="static_cast<double>(step) / sol.count.attempt", new="1.0 - static_cast<double>(sol.count.reject_err) / sol.count.attempt", hit="P16"),
 dict(name="R irk frac", file="irk.hpp", old="static_cast<double>(step) / sol.count.attempt", new="1.0 - static_cast<double>(sol.count.reject_err + sol.count.reject_newton) / sol.count.attempt", hit="", props="P16"),
 dict(name="i newton status last", file="newton.hpp", old="\t\tincr1 = arma::norm(direction, \"inf\");\n\n\t\t++stats.iters;", new="\t\tincr1 = arma::norm(lambda*direction, \"inf\");\n\n\t\t++stats.iters;", hit="", props="P18 P19"),
 dict(name="i newton mean norm", file="newton.hpp", old="\t\tincr1 = arma::norm(direction, \"inf\");\n\n\t\t++stats.iters;", new="\t\tincr1 = arma::norm(direction, 2)/N;\n\n\t\t++stats.iters;", hit="P18"),
 dict(name="i newton iters", file="newton.hpp", old="\twhile( !terminate && (stats.iters < opts.maxit) ){\n\t\tif( !quiet ) print_stats();\n\n\t\tdouble lambda = 1.0;", new="\twhile( !terminate && (stats.iters++ < opts.maxit) ){\n\t\tif( !quiet ) print_stats();\n\n\t\tdouble lambda = 1.0;", hit="P18"),
 dict(name="i broyden last x", file="newton.hpp", old="\t\tf0 = r;\n\t\tx0 = x;\n\t}\n\n\tstats.res", new="\t\tf0 = r;\n\t\tstd::swap(x0, x);\n\t}\n\n\tstats.res", hit="P18"),
 dict(name="R broyden restart", file="newton.hpp", old="\t\tJaci += left_part*xt_J / norm;", new="\t\tif (norm != 0) Jaci += left_part*xt_J / norm;", hit="", props="P19"),
 dict(name="i newton inf tol", file="newton.hpp", old="\tif( !std::isfinite( stats.res ) ){\n\t\tstats.conv_status = GENERIC_ERROR;\n\t}\n\n\tif( !quiet ){", new="\tif( std::isnan( stats.res ) ){\n\t\tstats.conv_status = GENERIC_ERROR;\n\t}\n\n\tif( !quiet ){", hit="P18"),
 dict(name="R erk since", edits=[("erk.hpp", "\tlong long int step = 0;\n", "\tlong long int step = 0;\n\tstd::size_t since = 0;\n"), ("erk.hpp", "\t\t\t++step;\n", "\t\t\t++step;\n\t\t\t++since;\n"), ("erk.hpp", "\t\t\t    step % output_opts.output_interval == 0) {\n", "\t\t\t    since == output_opts.output_interval) {\n\t\t\t\tsince = 0;\n")], hit="", props="P15 P14 P11"),
 dict(name="R erk while", edits=[("erk.hpp", "\twhile (t < t1) {", "\tfor (;;) {\n\t\tif (!(t < t1)) break;")], hit="", props="P11 P12 P13 P17"),
]
