# Mutants of the nonlinear solvers (development aid for tools/selftest.py).
[
 dict(name="fd divide h", file="newton.hpp", old="delta /= (2.0*h);", new="delta /= h;", hit="P31"),
 dict(name="fd one sided", file="newton.hpp", old="new_ym(j) -= h;", new="", hit="P31"),
 dict(name="fd no restore", file="newton.hpp", old="new_ym(j) = old_y_j;", new="new_ym(0) = old_y_j;", hit="P31"),
 dict(name="fd transposed", file="newton.hpp", old="J_approx(i,j) = delta(i);", new="J_approx(j,i) = delta(i);", hit="P31"),
 dict(name="verify point", file="newton.hpp", old="mat_type J_fun = func.jac( y );", new="vec_type y2 = 2*y; mat_type J_fun = func.jac( y2 );", hit="P31"),
 dict(name="newton sign", file="newton.hpp", old="direction = -arma::solve(J, r);", new="direction = arma::solve(J, r);", hit="P19"),
 dict(name="newton precond rhs", file="newton.hpp", old="arma::solve(P*J, P*r)", new="arma::solve(P*J, r)", hit="P19"),
 dict(name="newton stale r", file="newton.hpp", old="xn = x0 + lambda*direction;", new="xn = x + lambda*direction;", hit="P19"),
 dict(name="newton maxstep", file="newton.hpp", old="direction *= std::sqrt(max_step2/norm2)/lambda;", new="direction *= max_step2/norm2/lambda;", hit="P19"),
 dict(name="newton maxstep lambda", file="newton.hpp", old="direction *= std::sqrt(max_step2/norm2)/lambda;", new="direction *= std::sqrt(max_step2/norm2)/(lambda*lambda);", hit="P19"),
 dict(name="newton maxstep guard", file="newton.hpp", old="if( lambda*lambda*norm2 > max_step2 ){", new="if( lambda*norm2 > 2*max_step2 ){", hit="P19"),
 dict(name="newton lu swap", file="newton.hpp", old="arma::vec temp1 = P*r;", new="arma::vec temp1 = P.t()*r;", hit="P19"),
 dict(name="newton lu stale", file="newton.hpp", old="\t\t\t\t// P.t() * L * U = J;\n\t\t\t\t// so in our system we have\n\t\t\t\tarma::lu(L, U, P, J);", new="\t\t\t\tif( stats.iters % 2 ) arma::lu(L, U, P, J);", hit="P19"),
 dict(name="newton jac at x0", file="newton.hpp", old="J = func.jac(xn);", new="J = func.jac(x0);", hit="P19"),
 dict(name="dispatch 9", file="newton.hpp", old="\tcase 9:\n\t\treturn newton_iterate_impl<functor_type, 1, 0, 0, 1, 0>(", new="\tcase 9:\n\t\treturn newton_iterate_impl<functor_type, 1, 0, 0, 0, 0>(", hit="P19"),
 dict(name="dispatch 26", file="newton.hpp", old="newton_iterate_impl<functor_type, 0, 1, 0, 1, 1>(", new="newton_iterate_impl<functor_type, 1, 1, 0, 1, 1>(", hit="P19"),
 dict(name="dispatch bits", file="newton.hpp", old="option_bits += 8 * ( opts.limit_step == true );", new="option_bits += 8 * ( opts.limit_step == true && opts.refresh_jac > 0 );", hit="P19"),
 dict(name="newton maxit", file="newton.hpp", old="if( stats.iters >= opts.maxit ){", new="if( stats.iters > opts.maxit ){", hit="P18"),
 dict(name="newton isfinite", file="newton.hpp", old="if( !std::isfinite( stats.res ) ){\n\t\tstats.conv_status = GENERIC_ERROR;\n\t}\n\n\tif( !quiet ){", new="if( !std::isfinite( incr1 ) ){\n\t\tstats.conv_status = GENERIC_ERROR;\n\t}\n\n\tif( !quiet ){", hit="P18"),
 dict(name="newton returns guess", file="newton.hpp", old="if( stats.conv_status == SUCCESS ){\n\t\treturn xn;", new="if( stats.conv_status == SUCCESS && stats.iters > 1 ){\n\t\treturn xn;", hit="P18"),
 dict(name="newton incr scale", file="newton.hpp", old="if( incr1 < opts.dx_delta ){", new="if( incr1*incr1 < opts.dx_delta ){", hit="P18"),
 dict(name="newton incr old", file="newton.hpp", old="if( incr1 < opts.dx_delta ){", new="if( incr0 < opts.dx_delta ){", hit="P18"),
 dict(name="newton generic", file="newton.hpp", old="\t\t\tstats.conv_status = GENERIC_ERROR;\n\t\t\tstd::cerr << \"Newton caught generic error!\\n\";\n", new="\t\t\tstd::cerr << \"Newton caught generic error!\\n\";\n", hit="P18"),
 dict(name="newton res2 stale", file="newton.hpp", old="\t\tr = func.fun(xn);\n\t\tres2 = dot( r, r );\n\n\t\tf0 = r;", new="\t\tres2 = dot( r, r );\n\t\tr = func.fun(xn);\n\n\t\tf0 = r;", hit="P18"),
 dict(name="newton iters not reset", file="newton.hpp", old="\tstats.conv_status = SUCCESS;\n\tstats.iters = 0;", new="\tstats.conv_status = SUCCESS;\n\tif( !quiet ) stats.iters = 0;", hit="P18"),
 dict(name="broyden maxit", file="newton.hpp", old="\tif( !terminate ){\n\t\tstats.conv_status = MAXIT_EXCEEDED;", new="\tif( !terminate && stats.iters > opts.maxit ){\n\t\tstats.conv_status = MAXIT_EXCEEDED;", hit="P18"),
 dict(name="broyden tol", file="newton.hpp", old="double tol2 = opts.tol*opts.tol;", new="double tol2 = opts.tol;", hit="P18"),
 dict(name="broyden secant", file="newton.hpp", old="arma::rowvec xt_J = dx.t()*Jaci;", new="arma::rowvec xt_J = df.t()*Jaci;", good="P19", hit=""),
 dict(name="broyden left", file="newton.hpp", old="vec_type left_part = ( dx - Jaci*df );", new="vec_type left_part = ( dx - lambda*Jaci*df );", hit="P19"),
 dict(name="broyden f0", file="newton.hpp", old="\t\tf0 = r;\n\t\tx0 = x;\n\t}\n\n\tstats.res", new="\t\tif( incr > opts.dx_delta*1e-3 ) f0 = r;\n\t\tx0 = x;\n\t}\n\n\tstats.res", hit="P19"),
 dict(name="broyden maxstep", file="newton.hpp", old="if( norm2 > max_step2 ){\n\t\t\t\tdirection *= std::sqrt(max_step2/norm2);", new="if( norm2 > max_step2 ){\n\t\t\t\tdirection *= std::sqrt(norm2/max_step2);", hit="P19"),
 dict(name="R res2 via norm", file="newton.hpp", old="\tstats.res = std::sqrt( res2 );\n\tstats.eta_final", new="\tstats.res = arma::norm( r );\n\tstats.eta_final", props="P18 P19", hit=""),
 dict(name="R for loop", file="newton.hpp", old="while( !terminate && (stats.iters < opts.maxit) ){\n\t\tif( !quiet ) print_stats();", new="for( ; !terminate && !(opts.maxit <= stats.iters); ){\n\t\tif( !quiet ){ print_stats(); }", props="P18 P19", hit=""),
 dict(name="R break", file="newton.hpp", edits=[("newton.hpp","while( !terminate && (stats.iters < opts.maxit) ){","while( stats.iters < opts.maxit ){"),("newton.hpp","\t\tif( incr1 < opts.dx_delta ){\n\t\t\tterminate = true;\n\t\t\tstats.conv_status = SUCCESS;\n\t\t}","\t\tif( incr1 < opts.dx_delta ){\n\t\t\tterminate = true;\n\t\t\tbreak;\n\t\t}")], props="P18 P19", hit=""),
 dict(name="R xn direct", file="newton.hpp", old="xn = x0 + lambda*direction;", new="xn += lambda*direction;", props="P18 P19", hit=""),
 dict(name="R dispatch ifs", file="newton.hpp", old="\tint option_bits = 0;\n\toption_bits += 1 * ( opts.refresh_jac > 0 );\n\toption_bits += 2 * ( opts.precondition == true );", new="\tint option_bits = 0;\n\tif( opts.refresh_jac > 0 ) option_bits |= 1;\n\tif( opts.precondition ) option_bits |= 2;", props="P18 P19", hit=""),
 dict(name="R fd loop", file="newton.hpp", old="\t\tfor( std::size_t i = 0; i < N; ++i ){\n\t\t\tJ_approx(i,j) = delta(i);\n\t\t}", new="\t\tJ_approx.col(j) = delta;", props="P31", hit=""),
 dict(name="R helper", edits=[("newton.hpp","/**\n   \\brief Templated implementation of Newton's method.","inline void clip_step( vec_type &direction, double max_step2, double lambda )\n{\n\tif( max_step2 <= 0 ) return;\n\tdouble norm2 = dot( direction, direction );\n\tif( lambda*lambda*norm2 > max_step2 ){\n\t\tdirection *= std::sqrt(max_step2/norm2)/lambda;\n\t}\n}\n\n/**\n   \\brief Templated implementation of Newton's method."),("newton.hpp","\t\tif( max_step2 > 0 ){\n\t\t\tdouble norm2 = dot( direction, direction );\n\t\t\tif( lambda*lambda*norm2 > max_step2 ){\n\t\t\t\tdirection *= std::sqrt(max_step2/norm2)/lambda;\n\t\t\t}\n\t\t}","\t\tclip_step( direction, max_step2, lambda );")], props="P18 P19", hit=""),
 dict(name="R broyden", file="newton.hpp", old="\t\tif( incr < opts.dx_delta ){\n\t\t\tterminate = true;\n\t\t\tstats.conv_status = SUCCESS;\n\t\t}\n\t\tif( res2 < tol2 ){\n\t\t\tterminate = true;\n\t\t\tstats.conv_status = SUCCESS;\n\t\t}", new="\t\tterminate = incr < opts.dx_delta || std::sqrt(res2) < opts.tol;", props="P18 P19", hit=""),
]
