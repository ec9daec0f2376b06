[
 dict(name="Z newton one point", file="newton.hpp", edits=[("newton.hpp", "\t\txn = x0 + lambda*direction;\n\t\tif( refresh_jac ){", "\t\txn += lambda*direction;\n\t\tif( refresh_jac ){"), ("newton.hpp", "\t\tf0 = r;\n\t\tx0 = xn;\n\n\t\tincr0 = incr1;", "\t\tincr0 = incr1;"), ("newton.hpp", "\tvec_type xn = x;\n\tvec_type f0 = r;\n\n\tvec_type direction;", "\tvec_type xn = x;\n\tvec_type direction;")], hit="", props="P18 P19 P28"),
 dict(name="Z newton precond", file="newton.hpp", edits=[("newton.hpp", "\t\t\t\tfor( std::size_t i = 0; i < N; ++i ){\n\t\t\t\t\tif( J(i,i) != 0.0 ){\n\t\t\t\t\t\tP(i,i) = 1.0 / J(i,i);\n\t\t\t\t\t}else{\n\t\t\t\t\t\tP(i,i) = 1.0;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tdirection = -arma::solve(P*J, P*r);\n", "\t\t\t\tfor( std::size_t i = 0; i < N; ++i ){\n\t\t\t\t\tconst double d = J(i,i);\n\t\t\t\t\tP(i,i) = d == 0.0 ? 1.0 : 1.0 / d;\n\t\t\t\t}\n\t\t\t\tvec_type rhs = -(P*r);\n\t\t\t\tmat_type scaled = P*J;\n\t\t\t\tdirection = arma::solve(scaled, rhs);\n")], hit="", props="P18 P19"),
 dict(name="Z newton limit norm", file="newton.hpp", edits=[("newton.hpp", "\t\tif( max_step2 > 0 ){\n\t\t\tdouble norm2 = dot( direction, direction );\n\t\t\tif( lambda*lambda*norm2 > max_step2 ){\n\t\t\t\tdirection *= std::sqrt(max_step2/norm2)/lambda;\n\t\t\t}\n\t\t}\n\n\t\txn = x0 + lambda*direction;", "\t\tvec_type move = lambda*direction;\n\t\tif( opts.max_step > 0 ){\n\t\t\tconst double length = arma::norm( move );\n\t\t\tif( length > opts.max_step ){\n\t\t\t\tdirection *= opts.max_step/length;\n\t\t\t\tmove *= opts.max_step/length;\n\t\t\t}\n\t\t}\n\n\t\txn = x0 + move;")], hit="", props="P18 P19"),
 dict(name="Z newton do", file="newton.hpp", edits=[("newton.hpp", "\twhile( !terminate && (stats.iters < opts.maxit) ){\n\t\tif( !quiet ) print_stats();\n\n\t\tdouble lambda = 1.0;", "\tfor( ; stats.iters < opts.maxit; ){\n\t\tif( terminate ) break;\n\t\tif( !quiet ) print_stats();\n\n\t\tdouble lambda = 1.0;"), ("newton.hpp", "\tif( stats.conv_status == SUCCESS ){\n\t\treturn xn;\n\t}else{\n\t\treturn x;\n\t}", "\treturn stats.conv_status == SUCCESS ? xn : x;")], hit="", props="P18 P19 P16"),
 dict(name="Z horner", file="irk.cpp", old="        vec_type ts(Ns);\n\n\t// ts will contain { t, t^2, t^3, ..., t^{Ns} }\n\tdouble tt = theta;\n\tfor( std::size_t i = 0; i < Ns; ++i ){\n\t\tint j = Ns - i - 1;\n\t\tts(j) = tt;\n\t\ttt *= theta;\n\t}\n\t// Now bs = sc.b_interp * ts;\n        return sc.b_interp * ts;", new="\tvec_type bs = arma::zeros(Ns);\n\tfor( std::size_t j = 0; j < Ns; ++j ){\n\t\tbs += sc.b_interp.col(j);\n\t\tbs *= theta;\n\t}\n\treturn bs;", hit="", props="P02 P04"),
 dict(name="Z boot back", file="multistep.hpp", edits=[("multistep.hpp", "\t\tstd::size_t Nt = tmp_sol.t_vals.size();\n\t\tt += dt;\n\t\tstart.t_vals.push_back(t);\n\t\tstart.y_vals.push_back(tmp_sol.y_vals[Nt-1]);\n", "\t\tconst vec_type &last = tmp_sol.y_vals.back();\n\t\tt += dt;\n\t\tstart.y_vals.push_back(last);\n\t\tstart.t_vals.push_back(t);\n"), ("multistep.hpp", "t+dt, start.y_vals[i-1],", "t+dt, start.y_vals.back(),")], hit="", props="P05 P06 P14"),
 dict(name="Z irk transposed", file="irk.hpp", edits=[("irk.hpp", "\tvec_type d_weights  = (Ai.t())*sc.b;", "\tconst mat_type Ait = Ai.t();\n\tvec_type d_weights  = Ait*sc.b;"), ("irk.hpp", "\t\td2_weights = (Ai.t())*sc.b2;", "\t\td2_weights = Ait*sc.b2;"), ("irk.hpp", "\t\t\tK_np = arma::vectorise(YYs*Ai.t()) / dt;", "\t\t\tK_np = arma::vectorise((1.0/dt)*YYs*Ait);")], hit="", props="P10 P12 P14"),
 dict(name="Z irk accepted", file="irk.hpp", edits=[("irk.hpp", "\t\tif (!solver_opts.adaptive_step_size || integrator_status == 0) {\n\t\t\tif (time_internals) timer.tic();\n", "\t\tconst bool accepted = !(solver_opts.adaptive_step_size && integrator_status != 0);\n\t\tif (accepted) {\n\t\t\tif (time_internals) timer.tic();\n")], hit="", props="P10 P11 P12 P14 P15"),
 dict(name="Z irk clip", file="irk.hpp", edits=[("irk.hpp", "\t\tif (solver_opts.max_dt > 0) {\n\t\t\tdt = std::min(solver_opts.max_dt, dt);\n\t\t}\n\t\tif( t + dt > t1 ){\n\t\t\tdt = t1 - t;\n\t\t}\n", "\t\tauto usable = [&](double h) {\n\t\t\tif (solver_opts.max_dt > 0 && h > solver_opts.max_dt) h = solver_opts.max_dt;\n\t\t\treturn std::min(h, t1 - t);\n\t\t};\n\t\tdt = usable(dt);\n")], hit="", props="P10 P11 P13 P17"),
 dict(name="Z irk dead", file="irk.hpp", edits=[("irk.hpp", "\t\t\tyo = y;\n", ""), ("irk.hpp", "\tvec_type yo(N);\n", "")], hit="", props="P10 P14 P28"),
 dict(name="Z erk dead", file="erk.hpp", edits=[("erk.hpp", "\t\t\terrs[2] = errs[1];\n\t\t\terrs[1] = errs[0];\n\t\t\terrs[0] = err;\n", ""), ("erk.hpp", "\t\tdts[2] = dts[1];\n\t\tdts[1] = dts[0];\n\t\tdts[0] = dt;\n", ""), ("erk.hpp", "\tdouble dts[3] = {dt, dt, dt}, errs[3] = {0.9,0.9,0.9};\n", "")], hit="", props="P11 P12 P13 P26"),
 dict(name="Z erk err double sqrt", file="erk.hpp", edits=[("erk.hpp", "\t\t\terr = std::sqrt(err_tot / n);", "\t\t\terr = std::sqrt(err_tot) / std::sqrt(n);")], hit="", props="P12 P14 P29"),
 dict(name="Z erk step max", file="erk.hpp", edits=[("erk.hpp", "\t\t\tif (err < machine_precision) {\n\t\t\t\terr = machine_precision;\n\t\t\t}\n", "\t\t\terr = std::max(err, machine_precision);\n"), ("erk.hpp", "\t\t\tdouble err_inv = 1.0 / err;\n\t\t\tdouble scale_27 = std::pow(err_inv, expt);\n", "\t\t\tdouble scale_27 = std::pow(err, -expt);\n")], hit="", props="P12"),
 dict(name="Z erk last step", file="erk.hpp", edits=[("erk.hpp", "\t\tif( t + dt > t1 ){\n\t\t\tdt = t1 - t;\n\t\t}\n\t\tif (solver", "\t\tconst double left = t1 - t;\n\t\tif (dt > left) dt = left;\n\t\tif (solver")], hit="", props="P11 P13 P17"),
 dict(name="Z timer usec", file="my_timer.hpp", old="\t\treturn (t_toc.tv_usec - user_tic.tv_usec)*1e-3 +\n\t\t\t(t_toc.tv_sec  - user_tic.tv_sec)*1000.0;", new="\t\tconst double usec = (t_toc.tv_sec - user_tic.tv_sec)*1e6 + (t_toc.tv_usec - user_tic.tv_usec);\n\t\treturn usec/1000;", hit="", props="P30 P29"),
 dict(name="Z iterator", file="cyclic_buffer.hpp", old="\t\t\treturn o.idx_ != idx_;", new="\t\t\treturn !(*this == o);", hit="", props="P21 P22"),
 dict(name="Z irk while", file="irk.hpp", edits=[("irk.hpp", "\tstats.iters = 1;\n\tfor ( ; stats.iters < maxit; ++stats.iters) {\n\t\tvec_type dY;", "\tstats.iters = 1;\n\twhile (stats.iters < maxit) {\n\t\tvec_type dY;"), ("irk.hpp", "\t\t\trefresh_jacobi_matrix();\n\t\t}\n\t}\n", "\t\t\trefresh_jacobi_matrix();\n\t\t}\n\t\t++stats.iters;\n\t}\n")], hit="", props="P10 P12 P16"),
 dict(name="Z irk est once", file="irk.hpp", edits=[("irk.hpp", "\t\tvec_type err_8_19 = arma::solve(solve_tmp, delta_delta);\n\t\terr_est = err_8_19;\n", "\t\terr_est = arma::solve(solve_tmp, delta_delta);\n"), ("irk.hpp", "\t\t\tdy_alt_alt += delta_alt;\n\t\t\tvec_type err_alt = dy_alt_alt - delta_y;\n\t\t\terr_est = arma::solve(solve_tmp, err_alt);\n", "\t\t\terr_est = arma::solve(solve_tmp, dy_alt_alt + delta_alt - delta_y);\n")], hit="", props="P12 P14 P16"),
 dict(name="Z merge order", file="irk.cpp", old="\tmerger.elapsed_time += sol2.elapsed_time;\n", new="\tmerger.elapsed_time = sol2.elapsed_time + sol1.elapsed_time;\n", hit="", props="P23"),
 dict(name="Z ab start", file="multistep.hpp", edits=[("multistep.hpp", "\tstd::size_t hist_size = sol.t_vals.size();\n\tt = sol.t_vals[hist_size-1];\n\ty = sol.y_vals[hist_size-1];\n\n\twhile (t < t1) {\n\t\tadams", "\tt = hist.t_vals.back();\n\ty = hist.y_vals.back();\n\n\twhile (t < t1) {\n\t\tadams")], hit="", props="P05 P06 P14 P17"),
 dict(name="Z bdf refuse", file="multistep.hpp", edits=[("multistep.hpp", "\tif (solver_opts.order > 6) {\n\t\tstd::cerr << \"BDF methods over order 6 do not exist!\\n\";\n\t\tsol.status = GENERAL_ERROR;\n\t\treturn sol;\n\t}\n\tif (solver_opts.order <= 0) {\n\t\tstd::cerr << \"BDF method of order <= 0 does not make sense!\\n\";\n\t\tsol.status = GENERAL_ERROR;\n\t\treturn sol;\n\t}\n", "\tconst bool possible = solver_opts.order >= 1 && solver_opts.order <= 6;\n\tif (!possible) {\n\t\tstd::cerr << \"BDF needs an order from 1 to 6!\\n\";\n\t\tsol.status = GENERAL_ERROR;\n\t\treturn sol;\n\t}\n")], hit="", props="P05 P17 P27"),
 dict(name="Z erk accept square", file="erk.hpp", old="(err >= 1.0)", new="(err*err >= 1.0)", hit="", props="P12"),
 dict(name="Z erk accept not", file="erk.hpp", old="(err >= 1.0)", new="!(err < 1.0)", hit="", props="P12 P29"),
 dict(name="Z erk accept total", file="erk.hpp", old="(err >= 1.0)", new="(err_tot >= n)", hit="", props="P12"),
 dict(name="Z irk accept total", file="irk.hpp", old="(err > 1.0)", new="(err_tot > n)", hit="", props="P12"),
 dict(name="Z broyden norm", file="newton.hpp", edits=[("newton.hpp", "\t\tif( max_step2 > 0 ){\n\t\t\tdouble norm2 = dot( direction, direction );\n\t\t\tif( norm2 > max_step2 ){\n\t\t\t\tdirection *= std::sqrt(max_step2/norm2);\n\t\t\t}\n\t\t}\n\t\tincr", "\t\tif( opts.max_step > 0 ){\n\t\t\tdouble length = arma::norm( direction, 2 );\n\t\t\tif( length > opts.max_step ){\n\t\t\t\tdirection = (opts.max_step/length)*direction;\n\t\t\t}\n\t\t}\n\t\tincr")], hit="", props="P18 P19"),
 dict(name="Z broyden normalise", file="newton.hpp", edits=[("newton.hpp", "\t\tif( max_step2 > 0 ){\n\t\t\tdouble norm2 = dot( direction, direction );\n\t\t\tif( norm2 > max_step2 ){\n\t\t\t\tdirection *= std::sqrt(max_step2/norm2);\n\t\t\t}\n\t\t}\n\t\tincr", "\t\tconst double length = arma::norm( direction );\n\t\tif( opts.max_step > 0 && length > opts.max_step ){\n\t\t\tdirection = opts.max_step*arma::normalise( direction );\n\t\t}\n\t\tincr")], hit="", props="P18 P19"),
 dict(name="Z newton scale", file="newton.hpp", edits=[("newton.hpp", "\t\tif( max_step2 > 0 ){\n\t\t\tdouble norm2 = dot( direction, direction );\n\t\t\tif( lambda*lambda*norm2 > max_step2 ){\n\t\t\t\tdirection *= std::sqrt(max_step2/norm2)/lambda;\n\t\t\t}\n\t\t}\n", "\t\tif( opts.max_step > 0 ){\n\t\t\tconst double length = lambda*std::sqrt(dot( direction, direction ));\n\t\t\tdirection *= std::min(1.0, opts.max_step/length);\n\t\t}\n")], hit="", props="P18 P19"),
]
