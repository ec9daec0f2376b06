[
 # narrowing and integer arithmetic
 dict(name="c erk float stage time", file="erk.hpp", old="Ks.col(i) = eval_fun(t + sc.c(i)*dt, tmp);", new="float ti = t + sc.c(i)*dt;\n\t\t\tKs.col(i) = eval_fun(ti, tmp);", hit="P09"),
 dict(name="c erk float cast", file="erk.hpp", old="t += dt;\n\t\t\t++step;", new="t = (float)(t + dt);\n\t\t\t++step;", hit="P11"),
 dict(name="c erk int order", file="erk.hpp", old="double expt = 1.0 / (1.0 + min_order);", new="double expt = 1 / (1 + min_order);", hit="P12"),
 dict(name="c irk int order", file="irk.hpp", old="double expt = 1.0 / ( 1.0 + min_order );", new="double expt = 1 / (1 + min_order);", hit="P12"),
 dict(name="c irk frac int", file="irk.hpp", old="static_cast<double>(step) / sol.count.attempt", new="step / sol.count.attempt", hit="P16"),
 dict(name="c erk accumulate int", edits=[("erk.hpp", "err = std::sqrt(err_tot / n);", "std::vector<double> terms;\n\t\t\tfor (std::size_t i = 0; i < Neq; ++i) {\n\t\t\t\tdouble s = err_est(i) / (atol + rtol * std::max(std::fabs(y(i)), std::fabs(y_n(i))));\n\t\t\t\tterms.push_back(s*s);\n\t\t\t}\n\t\t\terr_tot = std::accumulate(terms.begin(), terms.end(), 0);\n\t\t\terr = std::sqrt(err_tot / n);"), ("erk.hpp", "#include <cassert>", "#include <cassert>\n#include <numeric>")], hit="P12"),
 dict(name="c erk max int", file="erk.hpp", old="dt = std::min(solver_opts.max_dt, dt);", new="dt = std::min<float>(solver_opts.max_dt, dt);", hit="P13"),
 dict(name="c newton float res", file="newton.hpp", old="double res; ", new="float res; ", hit="P18"),
 dict(name="c newton float acc", file="newton.hpp", old="double res2 = dot( r, r );\n\tstats.iters = 1;", new="float res2 = dot( r, r );\n\tstats.iters = 1;", hit="P18"),
 dict(name="c irk float norm", file="irk.hpp", old="double Rnorm2 = arma::dot(R, R);;", new="float Rnorm2 = arma::dot(R, R);", hit="P10"),
 # aliases, moves, delayed expressions
 dict(name="c erk alias y", file="erk.hpp", old="vec_type y_n     = y + dt*delta_y;", new="vec_type &y_n = y;\n\t\ty_n += dt*delta_y;", hit="P09"),
 dict(name="c erk move y_n", file="erk.hpp", old="sol.y_vals.push_back(y_n);", new="sol.y_vals.push_back(std::move(y_n));", hit="P15"),
 dict(name="c erk move y", file="erk.hpp", old="\t\t\ty  = y_n;\n", new="\t\t\ty  = std::move(y_n);\n", hit="P15"),
 dict(name="c irk move Y", file="irk.hpp", old="mat_type YYs = arma::reshape(Y, Neq, Ns);", new="vec_type Yt = std::move(Y);\n\t\tmat_type YYs = arma::reshape(Yt, Neq, Ns);\n\t\tYt.zeros();", hit=""),
 dict(name="c irk auto delayed", file="irk.hpp", old="vec_type delta_delta = dy_alt - delta_y;", new="auto delta_delta = dy_alt - delta_y;\n\t\tdelta_y *= 2;", hit="P12"),
 dict(name="c erk col alias", file="erk.hpp", old="\t\t\tvec_type tmp = y;\n", new="\t\t\tauto k0 = Ks.col(0);\n\t\t\tk0 *= 1.5;\n\t\t\tvec_type tmp = y;\n", hit="P09"),
 dict(name="c erk capture copy", file="erk.hpp", old="auto eval_fun = [&func,&sol](double t, const vec_type &Y)\n\t                { ++sol", new="auto eval_fun = [&func,sol](double t, const vec_type &Y) mutable\n\t                { ++sol", hit="P16"),
 dict(name="c erk shadow new_dt", file="erk.hpp", old="\t\t\tif (solver_opts.max_dt > 0) {\n\t\t\t\tnew_dt = std::min(solver_opts.max_dt, new_dt);", new="\t\t\tif (solver_opts.max_dt > 0) {\n\t\t\t\tdouble new_dt = std::min(solver_opts.max_dt, dt);\n\t\t\t\t(void)new_dt;", hit="", props="P13"),
 # caching
 dict(name="c irk cache jac", edits=[("irk.hpp", "\t\t\tJ = func.jac(t,y);\n", "\t\t\tif (J.n_elem == 0 || t != cached_t) J = func.jac(t,y);\n\t\t\tcached_t = t;\n"), ("irk.hpp", "\tauto refresh_jacobi_matrix", "\tstatic thread_local double cached_t = -1;\n\tauto refresh_jacobi_matrix")], hit="P28"),
 dict(name="c irk skip update", file="irk.hpp", old="\t\tvec_type y_n    = y + delta_y;\n", new="\t\tvec_type y_n    = y;\n\t\tif (arma::norm(delta_y) > 1e-12) y_n += delta_y;\n", hit="P10"),
 dict(name="c erk skip tiny", file="erk.hpp", old="\t\t\t\ttmp += dt*sc.A(i,j)*Ks.col(j);\n", new="\t\t\t\tif (std::fabs(sc.A(i,j)) < 1e-3) continue;\n\t\t\t\ttmp += dt*sc.A(i,j)*Ks.col(j);\n", hit="P09"),
 dict(name="c erk skip zero", file="erk.hpp", old="\t\t\t\ttmp += dt*sc.A(i,j)*Ks.col(j);\n", new="\t\t\t\tif (sc.A(i,j) == 0) continue;\n\t\t\t\ttmp += dt*sc.A(i,j)*Ks.col(j);\n", hit="", props="P09 P10 P12 P14 P16"),
 dict(name="c irk inf norm small", file="irk.hpp", old="\t\t\tdouble add = erri / sci;\n\t\t\terr_tot += add * add;", new="\t\t\tdouble add = erri / sci;\n\t\t\tif (std::isfinite(add)) err_tot += add * add;", hit="P12"),
 dict(name="c erk nan accept", file="erk.hpp", old="(err >= 1.0)", new="!(err <= 1.0)", hit="", props="P09 P12 P16"),
 dict(name="c erk goto", file="erk.hpp", old="\t\t\tsol.status = ERROR_MAX_STEPS_EXCEEDED;\n\t\t\treturn sol;\n", new="\t\t\tsol.status = ERROR_MAX_STEPS_EXCEEDED;\n\t\t\tbreak;\n", hit="", props="P13 P17 P16"),
 dict(name="c erk catch", file="erk.hpp", old="\t                { ++sol.count.fun_evals; return func.fun(t, Y); };", new="\t                { ++sol.count.fun_evals; try { return func.fun(t, Y); } catch (...) { return vec_type(Y); } };", hit="-", props="P09 P16"),
]
