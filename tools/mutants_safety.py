# Mutants for P26, P29, P36.
[
 dict(name="ms order guard", file="multistep.hpp", old="if (solver_opts.order > 6) {", new="if (solver_opts.order > 7) {", hit="P36"),
 dict(name="ab order guard", file="multistep.hpp", old="if (solver_opts.order > 5 || solver_opts.order <= 0)", new="if (solver_opts.order > 5 || solver_opts.order < 0)", hit="P36"),
 dict(name="bdf alt guard", file="multistep.hpp", old="if (solver_opts.order < 6) {", new="if (solver_opts.order <= 6) {", hit="P36"),
 dict(name="bdf loop", file="multistep.hpp", old="for (std::size_t i = 0; i < 6; ++i) {", new="for (std::size_t i = 0; i <= 6; ++i) {", hit="P36"),
 dict(name="erk Ks size", file="erk.hpp", old="mat_type Ks(Neq,Ns);", new="mat_type Ks(Ns,Neq);", hit="P36"),
 dict(name="erk stage col", file="erk.hpp", old="Ks.col(0) = std::move(Ks.col(Ns-1));", new="Ks.col(0) = std::move(Ks.col(Ns));", hit="P36"),
 dict(name="erk err loop", file="erk.hpp", old="for (std::size_t i = 0; i < Neq; ++i) {\n\t\t\t\tdouble erri", new="for (std::size_t i = 0; i < Ks.n_cols; ++i) {\n\t\t\t\tdouble erri", hit="P36"),
 dict(name="irk subvec", file="irk.hpp", old="std::size_t i1 = i0 + Neq - 1;", new="std::size_t i1 = i0 + Neq;", hit="P36"),
 dict(name="irk reshape", file="irk.hpp", old="arma::reshape(Y, Neq, Ns)", new="arma::reshape(Y, Ns, Neq)", hit="P36"),
 dict(name="irk write loop", file="irk.hpp", old="y_idx < y_n.size(); ++y_idx", new="y_idx < K_np.size(); ++y_idx", hit="P36"),
 dict(name="irk print timings", file="irk.hpp", old="\t\tN_TIMING_ENTRIES\n\t};\n\tstd::vector<double> timings(N_TIMING_ENTRIES, 0);", new="\t\tN_TIMING_ENTRIES\n\t};\n\tstd::vector<double> timings(ESTIMATE_DT, 0);", hit="P36"),
 dict(name="irk no-pair weights", file="irk.hpp", old="if (solver_opts.adaptive_step_size) {\n\t\td2_weights", new="if (sc.order > 0) {\n\t\td2_weights", hit="P36"),
 dict(name="newton jac approx", file="newton.hpp", old="double old_y_j = y(j);", new="double old_y_j = y(N - 1 + (j == 0 && N == 1));", hit="P36"),
 dict(name="irk show b2", file="irk.cpp", old="if (sc.b2.size() > 0) {", new="if (sc.order2 > 0) {", hit=""),
 dict(name="irk show A", file="irk.cpp", old="std::setprecision(number_width) << sc.b2(i);", new="std::setprecision(number_width) << sc.b2(i) << sc.b2(sc.b.size() - 1 + i / sc.b.size() + (i == 2));", hit="P36"),
 dict(name="erk out_interval", file="erk.hpp", old="if (solver_opts.out_interval > 0 &&\n\t\t    (step %", new="if (solver_opts.out_interval >= 0 &&\n\t\t    (step %", hit="P29"),
 dict(name="erk output_interval", file="erk.hpp", old="if (output_opts.output_interval > 0 &&\n", new="if (output_opts.output_mode > 0 &&\n", hit="P29"),
 dict(name="irk out_interval", file="irk.hpp", old="if( solver_opts.out_interval > 0 &&\n", new="if( solver_opts.out_interval > -1 &&\n", hit="P29"),
 dict(name="irk output order", file="irk.hpp", old="if (output_opts.output_interval > 0 &&\n\t\t\t    step % output_opts.output_interval == 0) {", new="if (step % output_opts.output_interval == 0 &&\n\t\t\t    output_opts.output_interval > 0) {", hit="P29"),
 dict(name="R div nonzero", file="irk.hpp", old="if (output_opts.output_interval > 0 &&\n\t\t\t    step % output_opts.output_interval == 0) {", new="const int every = output_opts.output_interval;\n\t\t\tif (every >= 1 && (step - (step / every)*every) == 0) {", props="P29 P36 P26", hit=""),
 dict(name="R div max", file="irk.hpp", old="(step % solver_opts.out_interval == 0) ){", new="(step % std::max(1, int(solver_opts.out_interval)) == 0) ){", props="P29", hit=""),
 dict(name="status unset", file="newton.hpp", old="stats.conv_status = SUCCESS;\n\tdouble tol2", new="double tol2", props="P26", hit=""),
 dict(name="counters unset", file="irk.hpp", old="jac_evals(0)", new="jac_evals()", props="P26", hit=""),
 dict(name="counters unset2", file="irk.hpp", old="newton_success(0), ", new="", hit="P26"),
 dict(name="irk err unset", file="irk.hpp", old="double err = 0.0;\n\tdouble new_dt", new="double err;\n\tdouble new_dt", props="P26", hit=""),
 dict(name="erk err unset", file="erk.hpp", old="double err = 0.0;\n\tvec_type err_est", new="double err;\n\tvec_type err_est", hit="P26"),
 dict(name="irk step unset", file="irk.hpp", old="long long int step = 0;", new="long long int step;", hit="P26"),
 dict(name="irk relax unset", file="irk.hpp", old="long long last_maxit_relax_step = 0;", new="long long last_maxit_relax_step;", hit="P26"),
 dict(name="irk errs unset", file="irk.hpp", old="errs[0] = errs[1] = errs[2] = 0.9;", new="errs[1] = errs[2] = 0.9;", hit="P26"),
 dict(name="irk table gamma", file="irk.cpp", old="\tsc.gamma = 0.0;\n", new="", hit="P26"),
 dict(name="erk table order2", file="erk.cpp", old="sc.order = sc.order2 = 0;", new="sc.order = 0;", hit="P26"),
 dict(name="bdf time unset", file="multistep.hpp", old="\t\tnewton_functor.t_nplus = t + dt;\n", new="", hit="P26"),
 dict(name="R unset then set", file="irk.hpp", old="double err = 0.0;\n\tdouble new_dt", new="double err;\n\terr = 0.0;\n\tdouble new_dt", props="P26", hit=""),
 dict(name="R set_size", file="erk.hpp", old="mat_type Ks(Neq,Ns);", new="mat_type Ks;\n\tKs.zeros(Neq, Ns);", props="P26 P36", hit=""),
 dict(name="stage none", file="erk.hpp", old="mat_type Ks(Neq,Ns);", new="mat_type Ks(Neq, Ns, arma::fill::none);", props="P26", hit=""),
]
