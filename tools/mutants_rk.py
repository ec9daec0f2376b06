[
 dict(name="erk c unused", file="erk.hpp", old="eval_fun(t + sc.c(i)*dt, tmp)", new="eval_fun(t + sc.c(0)*dt, tmp)", hit="P09 P12 P14", props="P09 P10 P11 P12 P13 P14 P15 P16"),
 dict(name="erk fsal on reject", file="erk.hpp", old="			fsal_hook_fptr(Ks, Ns);\n		}", new="		}\n		fsal_hook_fptr(Ks, Ns);", hit="P09"),
 dict(name="erk A transposed", file="erk.hpp", old="sc.A(i,j)*Ks", new="sc.A(j,i)*Ks", hit="P09"),
 dict(name="erk b2", file="erk.hpp", old="vec_type delta_y = Ks*sc.b;", new="vec_type delta_y = Ks*(sc.b2.size() ? sc.b2 : sc.b);", hit="P09"),
 dict(name="erk accept looser", file="erk.hpp", old="(err >= 1.0)", new="(err >= 1.1)", hit="P12"),
 dict(name="erk max->min scale", file="erk.hpp", old="atol + rtol * std::max(y0i, y1i)", new="atol + rtol * std::min(y0i, y1i)", hit="P12"),
 dict(name="erk order max", file="erk.hpp", old="std::min( sc.order, sc.order2 )", new="std::max( sc.order, sc.order2 )", hit="P12"),
 dict(name="erk exponent", file="erk.hpp", old="1.0 / (1.0 + min_order)", new="1.0 / (2.0 + min_order)", hit="P12"),
 dict(name="erk ctrl dir", file="erk.hpp", old="double err_inv = 1.0 / err", new="double err_inv = 1.0 * err", hit="P12"),
 dict(name="erk t trunc", file="erk.hpp", old="if( t + dt > t1 ){\n			dt = t1 - t;", new="if( t + 2*dt > t1 + dt + dt){\n			dt = t1 - t;", hit=""),
 dict(name="erk t no trunc", file="erk.hpp", old="if( t + dt > t1 ){\n			dt = t1 - t;", new="if( t + dt > 1.1*t1 ){\n			dt = t1 - t;", hit="P11", props="P11"),
 dict(name="erk step gt", file="erk.hpp", old="step >= solver_opts.max_steps", new="step > solver_opts.max_steps", hit="P13"),
 dict(name="erk maxdt order", file="erk.hpp", old="				new_dt = std::min(solver_opts.max_dt, new_dt);", new="				new_dt = std::max(solver_opts.max_dt, new_dt);", hit="", props="P13"),
 dict(name="erk max_dt removed", file="erk.hpp", old="			dt = std::min(solver_opts.max_dt, dt);\n", new="", hit="P13"),
 dict(name="erk record t old", file="erk.hpp", old="sol.t_vals.push_back(t);\n					", new="sol.t_vals.push_back(t - dt);\n					", hit="P14"),
 dict(name="erk record err skip", file="erk.hpp", old="					sol.err.push_back(err);\n", new="					if (step > 1) sol.err.push_back(err);\n", hit="P14"),
 dict(name="erk interval first", file="erk.hpp", old="			++step;\n\n", new="\n", hit="P15", props="P15"),
 dict(name="erk line", file="erk.hpp", old='" " << y_n[y_idx]', new='" " << y[y_idx] - 0*y_n[0]', hit="", props="P15"),
 dict(name="erk line2", file="erk.hpp", old='*output_opts.output_stream << "\\n";', new='if (step % 2) *output_opts.output_stream << "\\n";', hit="P15"),
 dict(name="erk count", file="erk.hpp", old="++sol.count.fun_evals; return", new="if (t > 0) ++sol.count.fun_evals; return", hit="P16"),
 dict(name="erk fraction", file="erk.hpp", old="static_cast<double>(step) / sol.count.attempt", new="static_cast<double>(step) / (sol.count.attempt + sol.count.reject_err)", hit="P16"),
 dict(name="erk reject count", file="erk.hpp", old="				sol.count.reject_err++;", new="				if (err > 1.5) sol.count.reject_err++;", hit="P16"),
 dict(name="erk maxsteps status", file="erk.hpp", old="			sol.status = ERROR_MAX_STEPS_EXCEEDED;", new="			if (step > 0) sol.status = ERROR_MAX_STEPS_EXCEEDED;", hit="P17 P13 P11", props="P17 P13 P11"),
 dict(name="irk newton accept", file="irk.hpp", old="if (newton_status != newton::SUCCESS){", new="if (newton_status != newton::SUCCESS && newton_stats.res > 1e-3){", hit="P10 P17", props="P10 P17"),
 dict(name="irk lu sign", file="irk.hpp", old="trimatl(-L)", new="trimatl(L)", hit="P10"),
 dict(name="irk jac time", file="irk.hpp", old="J = func.jac(t,y);", new="J = func.jac(t + dt,y);", hit="P10"),
 dict(name="irk R sign", file="irk.hpp", old="R -= dt*arma::kron(sc.A, I_neq)*F;", new="R -= dt*arma::kron(sc.A.t(), I_neq)*F;", hit="P10"),
 dict(name="irk weights", file="irk.hpp", old="vec_type d_weights  = (Ai.t())*sc.b;", new="vec_type d_weights  = Ai*sc.b;", hit="P10"),
 dict(name="irk conv or", file="irk.hpp", old="if (xnorm2 < xtol2) {", new="if (xnorm2 < xtol2 || stats.iters > 20) {", hit="P10 P17", props="P10 P17"),
 dict(name="irk tol", file="irk.hpp", old="double Rtol2 = Rtol*Rtol;", new="double Rtol2 = Rtol;", hit="P10 P17", props="P10 P17"),
 dict(name="irk err filter", file="irk.hpp", old="arma::eye(Neq,Neq) - gam*J", new="arma::eye(Neq,Neq) - dt*J", hit="P12"),
 dict(name="irk dts", file="irk.hpp", old="		dt *= 0.7;", new="			dt *= 1.3;", hit="", props="P11"),
 dict(name="irk K", file="irk.hpp", old="arma::vectorise(YYs*Ai.t()) / dt", new="arma::vectorise(YYs*Ai) / dt", hit="P14"),
 dict(name="irk jac count", file="irk.hpp", old="			++jac_evals;\n", new="			if (PLU_decomposition) ++jac_evals; else jac_evals += 2;\n", hit="", props="P16"),
 dict(name="irk fun count", file="irk.hpp", old="		fun_evals += Ns;\n		Rnorm2", new="		Rnorm2", hit="P16"),
]
