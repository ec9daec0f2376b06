# Mutants of the multistep integrators (development aid for tools/selftest.py).
[
 dict(name="ab5 weight", file="multistep.hpp", old="-2774.0/720.0", new="-2764.0/720.0", hit="P05"),
 dict(name="ab4 sign", file="multistep.hpp", old="-9.0/24.0", new="9.0/24.0", hit="P05"),
 dict(name="ab3 time", file="multistep.hpp", old="C[2][2]*func.fun(t - 2*dt, history[2]));", new="C[2][2]*func.fun(t - dt, history[2]));", hit="P05"),
 dict(name="ab4 history index", file="multistep.hpp", old="C[3][2]*func.fun(t - 2*dt, history[2])", new="C[3][2]*func.fun(t - 2*dt, history[1])", hit="P05"),
 dict(name="bdf6 int div", file="multistep.hpp", old="60/147.0};", new="60/147};", hit="P05"),
 dict(name="bdf5 weight", file="multistep.hpp", old="75/137.0", new="72/137.0", hit="P05"),
 dict(name="bdf time", file="multistep.hpp", old="newton_functor.t_nplus = t + dt;", new="newton_functor.t_nplus = t;", hit="P05"),
 dict(name="bdf sum short", file="multistep.hpp", old="for (std::size_t i = 0; i < solver_opts.order; ++i) {\n\t\t\tinterpolation_part", new="for (std::size_t i = 0; i + 1 < solver_opts.order + (solver_opts.order == 1); ++i) {\n\t\t\tinterpolation_part", hit="P05"),
 dict(name="bdf push late", file="multistep.hpp", old="\t\tsol.y_vals.push_back(y);\n\t\thistory.push_back(y);\n\t}\n\n\n\n\treturn", new="\t\tsol.y_vals.push_back(y);\n\t\tif (step % 100) history.push_back(y);\n\t}\n\n\n\n\treturn", hit="P05"),
 dict(name="ab clip last", file="multistep.hpp", old="\twhile (t < t1) {\n\t\tadams", new="\twhile (t < t1) {\n\t\tif (t + dt > t1) dt = t1 - t;\n\t\tadams", hit="P05 P06"),
 dict(name="ab push before", file="multistep.hpp", old="\t\tt += dt;\n\t\t++step;\n\t\tsol.t_vals.push_back(t);\n\t\tsol.y_vals.push_back(y);\n\t}\n\ttimer", new="\t\tsol.t_vals.push_back(t);\n\t\tt += dt;\n\t\t++step;\n\t\tsol.y_vals.push_back(y);\n\t}\n\ttimer", hit="P05 P14"),
 dict(name="ab double history", file="multistep.hpp", old="\t\thistory.push_back(y);\n\t\tt += dt;", new="\t\thistory.push_back(y);\n\t\tif (step == 50) history.push_back(y);\n\t\tt += dt;", hit="P05"),
 dict(name="start from y0", file="multistep.hpp", old="start.y_vals[i-1],", new="start.y_vals[0],", hit="P06"),
 dict(name="start half step", file="multistep.hpp", old="irk::odeint(func,  t, t+dt,", new="irk::odeint(func,  t, t+0.5*dt,", hit="P06"),
 dict(name="start wrong time", file="multistep.hpp", old="irk::odeint(func,  t, t+dt,", new="irk::odeint(func,  0, dt,", hit="P06"),
 dict(name="start too few", file="multistep.hpp", old="bootstrap_history(func, solver_opts.order+1, y", new="bootstrap_history(func, solver_opts.order-1, y", hit="P05 P06"),
 dict(name="start one less", file="multistep.hpp", old="bootstrap_history(func, solver_opts.order+1, y", new="bootstrap_history(func, solver_opts.order, y", hit=""),
 dict(name="start limited", file="multistep.hpp", old="\topts.rel_tol = 1e-10;", new="\topts.rel_tol = 1e-10;\n\topts.max_steps = 2000;", hit="P06"),
 dict(name="start drop last", file="multistep.hpp", old="start.y_vals.push_back(tmp_sol.y_vals[Nt-1]);", new="start.y_vals.push_back(tmp_sol.y_vals[Nt > 1 ? Nt-2 : 0]);", hit="P06"),
 dict(name="bdf no status", file="multistep.hpp", old="if (newton_status.conv_status != newton::SUCCESS) {", new="if (newton_status.conv_status == newton::INCREMENT_DIVERGE) {", hit="P17"),
 dict(name="bdf fail success", file="multistep.hpp", old="\t\t\tsol.status = INTERNAL_SOLVE_FAILURE;\n", new="", hit="P17"),
 dict(name="bdf order 7", file="multistep.hpp", old="if (solver_opts.order > 6) {", new="if (solver_opts.order > 7) {", hit="P17"),
 dict(name="ab order 0", file="multistep.hpp", old="|| solver_opts.order <= 0)", new="|| solver_opts.order < 0)", hit="P17"),
 dict(name="ab order status", file="multistep.hpp", old="order from 1 to 5!\\n\";\n\t\tsol.status = GENERAL_ERROR;", new="order from 1 to 5!\\n\";", hit="P17"),
 dict(name="bdf y lost", file="multistep.hpp", old="\t\ty = yn_plus;\n\t\tsol.t_vals.push_back(t);\n\t\tsol.y_vals.push_back(y);", new="\t\tsol.t_vals.push_back(t);\n\t\tsol.y_vals.push_back(y);\n\t\ty = yn_plus;", hit="P05 P14"),
 # refactorings
 dict(name="R ab loop", file="multistep.hpp", old="\tcase 3:\n\t\tY += dt*(C[2][0]*func.fun(t, history[0]) +\n\t\t         C[2][1]*func.fun(t - dt, history[1]) +\n\t\t         C[2][2]*func.fun(t - 2*dt, history[2]));\n\t\tbreak;",
      new="\tcase 3: {\n\t\tvec_type s = arma::zeros(Y.size());\n\t\tfor (int i = 2; i >= 0; --i) s += C[2][i]*func.fun(t - i*dt, history[i]);\n\t\tY = Y + s*dt;\n\t\tbreak; }", hit=""),
 dict(name="R bdf functor", file="multistep.hpp", old="{ return y + const_part - func_weight*func.fun(t_nplus, y); }", new="{ vec_type f = func.fun(t_nplus, y);\n\t\t  f *= func_weight;\n\t\t  return const_part - (f - y); }", hit=""),
 dict(name="R for loop", file="multistep.hpp", old="\twhile (t < t1) {\n\t\tadams", new="\tfor (; !(t >= t1); ) {\n\t\tadams", hit=""),
 dict(name="R push order", file="multistep.hpp", old="\t\tt += dt;\n\t\t++step;\n\t\tsol.t_vals.push_back(t);\n\t\tsol.y_vals.push_back(y);\n\t}\n\ttimer", new="\t\tsol.y_vals.push_back(y);\n\t\tsol.t_vals.push_back(t + dt);\n\t\t++step;\n\t\tt = sol.t_vals.back();\n\t}\n\ttimer", hit=""),
 dict(name="R start loop", file="multistep.hpp", old="\tfor (std::size_t i = 0; i < hist.t_vals.size(); ++i) {\n\t\tsol.t_vals.push_back(hist.t_vals[i]);\n\t\tsol.y_vals.push_back(hist.y_vals[i]);\n\t\thistory.push_back(hist.y_vals[i]);\n\t}\n\tstd::size_t hist_size = sol.t_vals.size();\n\tt = sol.t_vals[hist_size-1];\n\ty = sol.y_vals[hist_size-1];\n\n\twhile",
      new="\tsol.t_vals = hist.t_vals;\n\tsol.y_vals = hist.y_vals;\n\tfor (const vec_type &v : hist.y_vals) history.push_back(v);\n\tt = sol.t_vals.back();\n\ty = sol.y_vals.back();\n\n\twhile", hit=""),
]
