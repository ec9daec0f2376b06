[
 dict(name="Y stab helper", file="stability_region/main.cpp", edits=[
  ("stability_region/main.cpp", "void stability_limit(const std::string &method, std::ostream &out)\n{", "template <typename coeffs>\nvoid limit_lines(const std::vector<double> &X, const coeffs &sc, std::ostream &out)\n{\n\tconst bool embedded = sc.b2.size() > 0;\n\tfor (double x : X) {\n\t\tconst std::complex<double> z(x, 0);\n\t\tout << x << \" \" << std::abs(stability_function(z, sc.A, sc.b));\n\t\tif (embedded) {\n\t\t\tout << \" \" << std::abs(stability_function(z, sc.A, sc.b2, sc.gamma));\n\t\t}\n\t\tout << \"\\n\";\n\t}\n}\n\n\nvoid stability_limit(const std::string &method, std::ostream &out)\n{"),
  ("stability_region/main.cpp", "\t\tirk::solver_coeffs sc = irk::get_coefficients(m);\n\t\tfor (double x : X) {\n\t\t\tout << x << \" \"\n\t\t\t    << std::fabs(stability_function({x, 0}, sc.A, sc.b));\n\t\t\tif (sc.b2.size() > 0) {\n\t\t\t\tout << \" \" << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma));\n\t\t\t}\n\t\t\tout << \"\\n\";\n\t\t}\n", "\t\tlimit_lines(X, irk::get_coefficients(m), out);\n"),
  ("stability_region/main.cpp", "\t\terk::solver_coeffs sc = erk::get_coefficients(m);\n\t\tfor (double x : X) {\n\t\t\tout << x << \" \"\n\t\t\t    << std::fabs(stability_function({x, 0}, sc.A, sc.b));\n\t\t\tif (sc.b2.size() > 0) {\n\t\t\t\tout << \" \" << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma));\n\t\t\t}\n\t\t\tout << \"\\n\";\n\t\t}\n", "\t\tlimit_lines(X, erk::get_coefficients(m), out);\n")], hit="", props="P34 P25 P28 P29 P36"),
 dict(name="Y stab sum", file="stability_region/main.cpp", edits=[("stability_region/main.cpp", "\tstd::complex<double> one(1.0,0.0);\n\treturn one + z*(gamma + arma::dot(b, Ai*e));", "\tstd::complex<double> w = gamma;\n\tarma::cx_vec k = Ai*e;\n\tfor (std::size_t i = 0; i < N; ++i) w += b(i)*k(i);\n\treturn 1.0 + z*w;")], hit="", props="P34 P29"),
 dict(name="Y stab region pick", file="stability_region/main.cpp", edits=[("stability_region/main.cpp", "\t\t\tif (embedded_method) {\n\t\t\t\tS(i,j) = std::fabs(stability_function(z, sc.A, sc.b2, sc.gamma));\n\t\t\t} else {\n\t\t\t\tS(i,j) = std::fabs(stability_function(z, sc.A, sc.b));\n\t\t\t}\n", "\t\t\tconst arma::vec &w = embedded_method ? sc.b2 : sc.b;\n\t\t\tconst double g = embedded_method ? sc.gamma : 0.0;\n\t\t\tS(i,j) = std::abs(stability_function(z, sc.A, w, g));\n")], hit="", props="P34 P28"),
 dict(name="Y buffer index", file="cyclic_buffer.hpp", edits=[
  ("cyclic_buffer.hpp", "\t\tassert (i < period_ && \"i should be < period!\");\n\t\tassert (current_ >= i && \"i out of bounds\");\n\t\tstd::size_t j = current_ - i;\n\n\t\treturn storage_[j];\n\t}\n\n\tT& operator[]", "\t\treturn storage_[position(i)];\n\t}\n\n\tT& operator[]"),
  ("cyclic_buffer.hpp", "\t\tassert (i < period_ && \"i should be < period!\");\n\t\tassert (current_ >= i && \"i out of bounds\");\n\t\tstd::size_t j = current_ - i;\n\n\t\treturn storage_[j];\n\t}\n", "\t\treturn storage_[position(i)];\n\t}\n"),
  ("cyclic_buffer.hpp", "private:\n\tlong period_;", "private:\n\tstd::size_t position(std::size_t i) const\n\t{\n\t\tassert (i < period_ && \"i should be < period!\");\n\t\tassert (current_ >= i && \"i out of bounds\");\n\t\treturn current_ - i;\n\t}\n\n\tlong period_;")], hit="", props="P21 P22 P26 P27 P05 P06"),
 dict(name="Y buffer push mod", file="cyclic_buffer.hpp", edits=[("cyclic_buffer.hpp", "\t\tlong next_spot = current_ + 1;\n\t\tif (size_ == 0) {\n\t\t\tnext_spot = 0;\n\t\t}\n\t\tif (next_spot >= period_) {\n\n\t\t\tstorage_[next_spot] = t;\n\t\t\tstorage_[next_spot - period_] = t;\n\t\t} else {\n\t\t\tstorage_[next_spot] = t;\n\t\t}\n\t\tcurrent_ = next_spot;\n\t\tif (next_spot == 2*period_ - 1) {\n\t\t\tcurrent_ = period_ - 1;\n\t\t}\n", "\t\tconst long at = size_ == 0 ? 0 : current_ + 1;\n\t\tstorage_[at] = t;\n\t\tif (at >= period_) storage_[at - period_] = t;\n\t\tcurrent_ = at + 1 == 2*period_ ? at - period_ : at;\n")], hit="", props="P21 P22 P27 P05 P06"),
 dict(name="Y buffer assign", file="cyclic_buffer.hpp", edits=[("cyclic_buffer.hpp", "\t\t\tstorage_.resize(2*o.period());\n\t\t\tperiod_ = o.period();\n\t\t\tcurrent_ = o.current();\n\t\t\tsize_ = o.size();\n\t\t\tstd::copy(o.storage().begin(), o.storage().end(), storage_.begin());\n", "\t\t\tstorage_ = o.storage_;\n\t\t\tsize_ = o.size_;\n\t\t\tperiod_ = o.period_;\n\t\t\tcurrent_ = o.current_;\n")], hit="", props="P21 P22 P26 P27"),
 dict(name="Y erk tables", file="erk.cpp", edits=[
  ("erk.cpp", "solver_coeffs get_coefficients( int method )\n{", "static void set_orders(solver_coeffs &sc, int main_order, int embedded_order)\n{\n\tsc.order2 = embedded_order;\n\tsc.order = main_order;\n}\n\nsolver_coeffs get_coefficients( int method )\n{"),
  ("erk.cpp", "\t\tsc.order = 4;\n\t\tsc.order2 = 0;\n\t\tbreak;", "\t\tset_orders(sc, 4, 0);\n\t\tbreak;"),
  ("erk.cpp", "\t\tsc.FSAL = true;\n\t\tsc.order  = 3;\n\t\tsc.order2 = 2;\n", "\t\tset_orders(sc, 3, 2);\n\t\tsc.FSAL = true;\n"),
  ("erk.cpp", "\t\tsc.A(1,0) =  1.0/5.0;\n\t\tsc.A(2,0) =  3.0/40.0;\n\t\tsc.A(3,0) =  3.0/10.0;\n\t\tsc.A(4,0) = -11.0/54.0;\n\t\tsc.A(5,0) =  1631.0/55296.0;\n", "\t\t{\n\t\t\tconst double first[] = { 0.0, 0.2, 0.075, 0.3, -11.0/54.0, 1631.0/55296.0 };\n\t\t\tfor (int i = 1; i < 6; ++i) sc.A(i,0) = first[i];\n\t\t}\n")], hit="", props="P01 P02 P03 P04 P35 P26 P20"),
 dict(name="Y factorial", file="irk.cpp", old="\tif( n <= 1 ) return 1;\n\n\tint res = 1;\n\tfor( int i = 1; i <= n; ++i ){\n\t\tres *= i;\n\t}\n\n\treturn res;", new="\treturn n <= 1 ? 1 : n*factorial(n - 1);", hit="", props="P02 P04 P29 P35"),
 dict(name="Y erk norm arma", file="erk.hpp", edits=[("erk.hpp", "\t\t\tfor (std::size_t i = 0; i < Neq; ++i) {\n\t\t\t\tdouble erri = err_est(i);\n\t\t\t\tdouble y0i  = std::fabs(y(i));\n\t\t\t\tdouble y1i  = std::fabs(y_n(i));\n\t\t\t\tdouble sci  = atol + rtol * std::max(y0i, y1i);\n\t\t\t\tdouble add = erri / sci;\n\t\t\t\terr_tot += add*add;\n\t\t\t}\n", "\t\t\tvec_type sc_vec = atol + rtol*arma::max(arma::abs(y), arma::abs(y_n));\n\t\t\terr_tot = arma::accu(arma::square(err_est / sc_vec));\n")], hit="", props="P12 P14 P25 P29"),
 dict(name="Y erk stage view", file="erk.hpp", old="\t\t\tvec_type tmp = y;\n\t\t\tfor (std::size_t j = 0; j < i; ++j) {\n\t\t\t\ttmp += dt*sc.A(i,j)*Ks.col(j);\n\t\t\t}\n\t\t\tKs.col(i) = eval_fun(t + sc.c(i)*dt, tmp);", new="\t\t\tvec_type incr = arma::zeros(Neq);\n\t\t\tfor (std::size_t j = 0; j < i; ++j) {\n\t\t\t\tconst double a = sc.A(i,j);\n\t\t\t\tif (a != 0.0) incr += a*Ks.col(j);\n\t\t\t}\n\t\t\tconst double ti = t + dt*sc.c(i);\n\t\t\tKs.col(i) = eval_fun(ti, y + dt*incr);", hit="", props="P09 P11 P12 P16 P28"),
 dict(name="Y erk record first", file="erk.hpp", edits=[("erk.hpp", "\t\t\t\tif (output_opts.store_in_vectors()) {\n\t\t\t\t\tsol.t_vals.push_back(t);\n\t\t\t\t\tsol.y_vals.push_back(y_n);\n\t\t\t\t\t// Since K is a matrix, it needs to be flattened:\n\t\t\t\t\tsol.stages.push_back(arma::vectorise(Ks));\n\t\t\t\t\tsol.err_est.push_back(err_est);\n\t\t\t\t\tsol.err.push_back(err);\n\t\t\t\t}\n\t\t\t\tif (output_opts.write_to_file()) {\n\t\t\t\t\t*output_opts.output_stream << t;\n\t\t\t\t\tfor (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {\n\t\t\t\t\t\t*output_opts.output_stream << \" \" << y_n[y_idx];\n\t\t\t\t\t}\n\t\t\t\t\t*output_opts.output_stream << \"\\n\";\n\t\t\t\t}\n", "\t\t\t\tif (output_opts.write_to_file()) {\n\t\t\t\t\tstd::ostream &os = *output_opts.output_stream;\n\t\t\t\t\tos << t;\n\t\t\t\t\tfor (double yi : y) os << ' ' << yi;\n\t\t\t\t\tos << '\\n';\n\t\t\t\t}\n\t\t\t\tif (output_opts.store_in_vectors()) {\n\t\t\t\t\tsol.err.push_back(err);\n\t\t\t\t\tsol.err_est.push_back(err_est);\n\t\t\t\t\tsol.stages.push_back(arma::vectorise(Ks));\n\t\t\t\t\tsol.y_vals.push_back(y);\n\t\t\t\t\tsol.t_vals.push_back(t);\n\t\t\t\t}\n")], hit="", props="P11 P14 P15"),
 dict(name="Y irk solve once", file="irk.hpp", edits=[("irk.hpp", "\t\tRnorm2 = arma::dot(R,R);\n\t\tif (Rnorm2 < Rtol2) {\n\t\t\tstatus = newton::SUCCESS;\n\t\t\tbreak;\n\t\t}\n\t\tif (xnorm2 < xtol2) {\n\t\t\tstatus = newton::SUCCESS;\n\t\t\tbreak;\n\t\t}\n", "\t\tRnorm2 = arma::accu(R % R);\n\t\tconst bool converged = Rnorm2 < Rtol2 || xnorm2 < xtol2;\n\t\tif (converged) {\n\t\t\tstatus = newton::SUCCESS;\n\t\t\tbreak;\n\t\t}\n")], hit="", props="P10 P16 P12"),
 dict(name="Y irk counts", file="irk.hpp", edits=[("irk.hpp", "\t\t\tif (newton_status == newton::INCREMENT_DIVERGE){\n\t\t\t\tsol.count.newton_incr_diverge++;\n\t\t\t}else if (newton_status == newton::ITERATION_ERROR_TOO_LARGE){\n\t\t\t\tsol.count.newton_iter_error_too_large++;\n\t\t\t}else if (newton_status == newton::MAXIT_EXCEEDED){\n\t\t\t\tsol.count.newton_maxit_exceed++;\n\t\t\t}\n", "\t\t\tswitch (newton_status) {\n\t\t\tcase newton::INCREMENT_DIVERGE: sol.count.newton_incr_diverge++; break;\n\t\t\tcase newton::ITERATION_ERROR_TOO_LARGE: sol.count.newton_iter_error_too_large++; break;\n\t\t\tcase newton::MAXIT_EXCEEDED: sol.count.newton_maxit_exceed++; break;\n\t\t\tdefault: break;\n\t\t\t}\n")], hit="", props="P10 P11 P13 P16 P17"),
 dict(name="Y irk jac in", file="irk.hpp", edits=[("irk.hpp", "\t\t\tJ_Y = arma::eye(NN,NN);\n\t\t\tJ_Y -= dt*kron(sc.A,J);\n", "\t\t\tJ_Y = -dt*arma::kron(sc.A, J);\n\t\t\tJ_Y.diag() += 1.0;\n")], hit="", props="P10 P16"),
 dict(name="Y irk err norm2", file="irk.hpp", edits=[("irk.hpp", "\t\t\tdouble sci  = atol + rtol * std::max( y0i, y1i );\n\n\t\t\tdouble add = erri / sci;\n\t\t\terr_tot += add * add;\n\t\t\tn += 1.0;\n", "\t\t\tdouble sci  = std::max(atol + rtol*y0i, atol + rtol*y1i);\n\t\t\terr_tot += std::pow(erri / sci, 2);\n\t\t\t++n;\n")], hit="", props="P12"),
 dict(name="Y ab history loop", file="multistep.hpp", edits=[("multistep.hpp", "\twhile (t < t1) {\n\t\tadams_bashforth_step(func, solver_opts.order, y, t, dt, history);\n\t\thistory.push_back(y);\n\t\tt += dt;\n\t\t++step;\n\t\tsol.t_vals.push_back(t);\n\t\tsol.y_vals.push_back(y);\n\t}\n", "\tfor (; t < t1; ++step) {\n\t\tadams_bashforth_step(func, solver_opts.order, y, t, dt, history);\n\t\tt += dt;\n\t\tsol.y_vals.push_back(y);\n\t\tsol.t_vals.push_back(t);\n\t\thistory.push_back(y);\n\t}\n")], hit="", props="P05 P06 P14 P17"),
 dict(name="Y bdf functor", file="multistep.hpp", edits=[("multistep.hpp", "\t\tvec_type fun(const arma::vec &y)\n\t\t{ return y + const_part - func_weight*func.fun(t_nplus, y); }\n", "\t\tvec_type fun(const arma::vec &y)\n\t\t{\n\t\t\tvec_type res = y;\n\t\t\tres -= func_weight*func.fun(t_nplus, y);\n\t\t\tres += const_part;\n\t\t\treturn res;\n\t\t}\n"), ("multistep.hpp", "\t\tfor (std::size_t i = 0; i < solver_opts.order; ++i) {\n\t\t\tinterpolation_part += bdf_params[i]*history[i];\n\t\t}\n", "\t\tstd::size_t i = solver_opts.order;\n\t\twhile (i-- > 0) {\n\t\t\tinterpolation_part += bdf_params[i]*history[i];\n\t\t}\n")], hit="", props="P05 P17 P27 P28"),
 dict(name="Y broyden clip", file="newton.hpp", edits=[("newton.hpp", "\t\tif( max_step2 > 0 ){\n\t\t\tdouble norm2 = dot( direction, direction );\n\t\t\tif( norm2 > max_step2 ){\n\t\t\t\tdirection *= std::sqrt(max_step2/norm2);\n\t\t\t}\n\t\t}\n\t\tincr = arma::norm(direction, \"inf\");", "\t\tconst double norm2 = dot( direction, direction );\n\t\tconst bool too_long = max_step2 > 0 && norm2 > max_step2;\n\t\tif( too_long ) direction = std::sqrt(max_step2/norm2)*direction;\n\t\tincr = arma::max(arma::abs(direction));")], hit="", props="P18 P19"),
 dict(name="Y broyden end", file="newton.hpp", edits=[("newton.hpp", "\t\tif( incr < opts.dx_delta ){\n\t\t\tterminate = true;\n\t\t\tstats.conv_status = SUCCESS;\n\t\t}\n\t\tif( res2 < tol2 ){\n\t\t\tterminate = true;\n\t\t\tstats.conv_status = SUCCESS;\n\t\t}\n\n\t\t++stats.iters;\n\n\t\tf0 = r;\n\t\tx0 = x;\n", "\t\tterminate = incr < opts.dx_delta || res2 < tol2;\n\t\tf0 = r;\n\t\tx0 = x;\n\t\t++stats.iters;\n")], hit="", props="P18 P19"),
 dict(name="Y verify coeffs", file="irk.cpp", old="\tif( N != sc.c.size() || N != sc.A.n_rows || N != sc.A.n_cols ){\n\t\treturn false;\n\t}\n\tif( N == 0 ) return false;\n\n\treturn true;\n}\n", new="\tconst bool sizes = N == sc.c.size() && N == sc.A.n_rows && N == sc.A.n_cols;\n\treturn N > 0 && sizes;\n}\n", hit="", props="P04 P32 P24"),
 dict(name="Y names find", file="erk.cpp", old="\tauto it = erk::rk_string_to_method.find(name);\n\treturn it == erk::rk_string_to_method.end() ? 0 : it->second;", new="\tif (erk::rk_string_to_method.count(name) == 0) return 0;\n\treturn erk::rk_string_to_method.at(name);", hit="", props="P20"),
 dict(name="Y all names", file="erk.cpp", old="\tstd::vector<std::string> methods;\n\tfor (auto pair : rk_string_to_method){\n\t\tmethods.push_back(pair.first);\n\t}\n\treturn methods;", new="\tstd::vector<std::string> methods;\n\tmethods.reserve(rk_string_to_method.size());\n\tfor (auto it = rk_string_to_method.begin(); it != rk_string_to_method.end(); ++it) methods.emplace_back(it->first);\n\treturn methods;", hit="", props="P20"),
 dict(name="Y project b", file="erk.cpp", old="\tdouble tt = theta;\n\tfor( long int i = 0; i < Ns; ++i ){\n\t\tint j = Ns - i - 1;\n\t\tts[j] = tt;\n\t\ttt *= theta;\n\t}\n", new="\tfor( long int i = Ns - 1; i >= 0; --i ){\n\t\tts[i] = i == Ns - 1 ? theta : theta*ts[i + 1];\n\t}\n", hit="", props="P04 P24 P29"),
]
