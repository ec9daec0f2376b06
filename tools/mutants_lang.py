# Mutants for P24, P25, P28, P35 (development aid for tools/selftest.py).
[
 dict(name="hdr no inline", file="newton.hpp", old="const char *status_message(int status);", new="const char *status_message(int status);\nint is_success(int status) { return status == SUCCESS; }", hit="P24"),
 dict(name="hdr inline R", file="newton.hpp", old="const char *status_message(int status);", new="const char *status_message(int status);\ninline int is_success(int status) { return status == SUCCESS; }", props="P24", hit=""),
 dict(name="hdr object", file="enums.hpp", old="static constexpr const double machine_precision", new="double smallest_step = 1e-14;\nstatic constexpr const double machine_precision", hit="P24"),
 dict(name="hdr missing include", file="functor.hpp", old='#include "arma_include.hpp"\n', new="", hit="P24"),
 dict(name="hdr guard", file="cyclic_buffer.hpp", old="#define CYCLIC_BUFFER\n", new="#define CYCLIC_BUFER\n", hit="P24"),
 dict(name="hdr undefined", file="erk.cpp", old="bool verify_solver_options(const solver_options &opts)\n{\n\treturn true;\n}", new="", hit="P24"),
 dict(name="hdr signature", file="erk.cpp", old="vec_type project_b( double theta, const erk::solver_coeffs &sc )", new="vec_type project_b( float theta, const erk::solver_coeffs &sc )", hit="P24"),
 dict(name="hdr order", file="multistep.hpp", old='#include "newton.hpp"\n', new="", props="P24", hit=""),
 dict(name="hdr include dep", file="newton.hpp", old='#include "my_timer.hpp"\n', new="", props="P24", hit=""),
 dict(name="assert inc", file="irk.hpp", old='assert( err_tot >= 0.0 && "Error cannot be negative!" );', new='assert( step++ >= 0 && err_tot >= 0.0 && "Error cannot be negative!" );', hit="P25"),
 dict(name="assert assign", file="erk.hpp", old='assert (dt > 0 && "Cannot use time step size <= 0!");', new='assert ((dt = std::fabs(dt)) > 0 && "Cannot use time step size <= 0!");', hit="P25"),
 dict(name="assert mutating", file="erk.cpp", old='assert( bcs.size() > 0 && "Chosen', new='assert( bcs.size() > 0 && std::cerr.precision(16) && "Chosen', hit="P25"),
 dict(name="assert solve", file="irk.hpp", old="assert( solver_opts.newton_opts &&", new="assert( func.fun(t0, y0).size() == y0.size() && solver_opts.newton_opts &&", hit="P25"),
 dict(name="assert ndebug", file="erk.hpp", old='assert (dt > 0 && "Cannot use time step size <= 0!");', new='#ifndef NDEBUG\n\tdt = std::max(dt, 1e-14);\n#endif\n\tassert (dt > 0 && "Cannot use time step size <= 0!");', hit="P25"),
 dict(name="R assert pure", file="erk.hpp", old='assert (dt > 0 && "Cannot use time step size <= 0!");', new='assert (dt > 0 && std::isfinite(dt) && y0.size() > 0 && "Cannot use time step size <= 0!");', props="P25", hit=""),
 dict(name="R assert dropped", file="erk.hpp", old='\tassert (dt > 0 && "Cannot use time step size <= 0!");\n', new='', props="P25", hit=""),
 dict(name="static counter", file="erk.hpp", old='\tassert (verify_solver_coeffs(sc) && "Invalid solver coefficients!");', new='\tstatic int calls = 0;\n\tif (calls++ > 1000) solver_opts.max_steps = 0;\n\tassert (verify_solver_coeffs(sc) && "Invalid solver coefficients!");', hit="P28"),
 dict(name="static cache", file="irk.hpp", old='solver_coeffs sc = get_coefficients( method );', new='static solver_coeffs cached = get_coefficients( method );\n\tsolver_coeffs sc = cached;', hit="P28"),
 dict(name="static jac", file="newton.hpp", old="	auto J = func.jac(x);\n	bool store_LU", new="	static mat_type Jold;\n	auto J = func.jac(x);\n	Jold = J;\n	bool store_LU", hit="P28"),
 dict(name="map insert", file="erk.cpp", old='auto it = erk::rk_method_to_string.find(method);\n\treturn it == erk::rk_method_to_string.end() ? "" : it->second.c_str();', new="return erk::rk_method_to_string[method].c_str();", hit="P28"),
 dict(name="rand", file="newton.hpp", old="	vec_type x0 = x;\n	vec_type xn = x;", new="	vec_type x0 = x;\n	vec_type xn = x + 1e-12*arma::randu<vec_type>(x.size());", hit="P28"),
 dict(name="R static const", file="multistep.hpp", old="constexpr const double C[5][5] =", new="static const double C[5][5] =", props="P28", hit=""),
 dict(name="R cerr", file="erk.cpp", old="solver_options s;\n\treturn s;", new="std::cerr << \"defaults\\n\";\n\tsolver_options s;\n\treturn s;", props="P28", hit=""),
 dict(name="status swapped", edits=[("newton.cpp", 'return "INCREMENT_DIVERGE"', 'return "MAXIT_EXCEEDED"'), ], hit="P35"),
 dict(name="status missing", file="newton.cpp", old='	case GENERIC_ERROR:\n		return "GENERIC_ERROR";\n', new="", hit="P35"),
 dict(name="status default", file="newton.cpp", old='	default:\n		return "Unrecognized status code!";\n	}', new='	}', hit="P35"),
 dict(name="status default null", file="newton.cpp", old='		return "Unrecognized status code!";', new='		break;', hit="P35"),
 dict(name="R status if", file="newton.cpp", old='	case SUCCESS:\n		return "SUCCESS";\n', new='	case SUCCESS:\n		return "SUCCESS (converged)";\n', props="P35", hit=""),
 dict(name="dispatch swapped", file="newton.hpp", old="	case 22:\n		return newton_iterate_impl<functor_type, 0, 1, 1, 0, 1>(", new="	case 22:\n		return newton_iterate_impl<functor_type, 0, 0, 1, 1, 1>(", hit="P35"),
 dict(name="dispatch missing", file="newton.hpp", old="	case 29:\n		return newton_iterate_impl<functor_type, 1, 0, 1, 1, 1>(\n			func, x, opts, stats );\n", new="", hit="P35"),
 dict(name="dispatch bits", file="newton.hpp", old="option_bits += 8 * ( opts.limit_step == true );", new="option_bits += 4 * ( opts.limit_step == true );", hit="P35"),
 dict(name="dispatch consistent swap", edits=[("newton.hpp", "option_bits += 8 * ( opts.limit_step == true );", "option_bits += 8 * ( opts.precondition == true );"), ("newton.hpp", "option_bits += 2 * ( opts.precondition == true );", "option_bits += 2 * ( opts.limit_step == true );")], hit="P35"),
 dict(name="fallthrough", file="erk.cpp", old="		sc.order = 4;\n		sc.order2 = 0;\n		break;\n", new="		sc.order = 4;\n		sc.order2 = 0;\n", hit="P35"),
 dict(name="table dropped", file="irk.cpp", old="	case IMPLICIT_EULER:\n		sc.A = { 1.0 };", new="	case IMPLICIT_EULER:\n		break;\n		sc.A = { 1.0 };", hit="P35"),
 dict(name="order guard", file="multistep.hpp", old="if (solver_opts.order > 6) {", new="if (solver_opts.order > 7) {", hit="P35"),
 dict(name="order refused", file="multistep.hpp", old="if (solver_opts.order > 5 || solver_opts.order <= 0) {", new="if (solver_opts.order >= 5 || solver_opts.order <= 0) {", hit="P35"),
 dict(name="order status", file="multistep.hpp", old='make sense!\\n";\n\t\tsol.status = GENERAL_ERROR;', new='make sense!\\n";', hit="P35"),
 dict(name="R order", file="multistep.hpp", old="if (solver_opts.order > 5 || solver_opts.order <= 0) {", new="const bool valid = solver_opts.order >= 1 && solver_opts.order < 6;\n\tif (!valid) {", props="P35", hit=""),
 dict(name="unknown default", file="irk.cpp", old='	default:\n		std::cerr << "Method " << method << " not supported!\\n";\n		break;\n\n	case IMPLICIT_EULER:', new='	default:\n		std::cerr << "Method " << method << " not supported!\\n";\n	case IMPLICIT_EULER:', hit="P35"),
 dict(name="unknown odeint", file="erk.hpp", old='	assert (verify_solver_coeffs(sc) && "Invalid solver coefficients!");', new='	assert ((verify_solver_coeffs(sc) || sc.b.size() == 0) && "Invalid solver coefficients!");', props="P35", hit="P35"),
]
