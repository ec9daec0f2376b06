# Mutants for P33, P34 (development aid for tools/selftest.py).
[
 dict(name="stab transpose", file="stability_region/main.cpp", old="arma::cx_mat M = I - z*A;", new="arma::cx_mat M = I - z*A.t();", hit="P34"),
 dict(name="stab one", file="stability_region/main.cpp", old="std::complex<double> one(1.0,0.0);", new="std::complex<double> one(1.0,1e-9);", hit="P34"),
 dict(name="stab family", file="stability_region/main.cpp", old="		auto sc = erk::get_coefficients(m);", new="		auto sc = irk::get_coefficients(m);", hit="P34"),
 dict(name="stab lookup", file="stability_region/main.cpp", old="	m = erk::name_to_method(method);\n	if (m) {", new="	m = irk::name_to_method(method);\n	if (m) {", hit="P34"),
 dict(name="stab lookup 2", file="stability_region/main.cpp", old="	} else if(int m = erk::name_to_method(method)) {", new="	} else if(int m = irk::name_to_method(method)) {", hit="P34"),
 dict(name="stab embedded flag", file="stability_region/main.cpp", old="			if (embedded_method) {", new="			if (embedded_method && Y(j) >= 0) {", hit="P34"),
 dict(name="stab conj", file="stability_region/main.cpp", old="std::complex<double> z(X(i), Y(j));", new="std::complex<double> z(X(i), -Y(j));", props="P34", hit=""),
 dict(name="stab transposed out", file="stability_region/main.cpp", old="out << X(i) << \" \" << Y(j) << \" \" << S(i,j)", new="out << X(i) << \" \" << Y(j) << \" \" << S(i,Y.size()-1-j)", hit="P34"),
 dict(name="stab clamp", file="stability_region/main.cpp", old="	return S;\n", new="	return arma::clamp(S, 0.0, 1e3);\n", props="P34", hit=""),
 dict(name="stab e", file="stability_region/main.cpp", old="arma::vec e = arma::ones(N);", new="arma::vec e = arma::ones(N); e(0) = 1.0 - 1e-12;", hit="P34"),
 dict(name="stab loop", file="stability_region/main.cpp", old="for (std::size_t j = 0; j < Y.size(); ++j) {", new="for (std::size_t j = 0; j + 1 < Y.size(); ++j) {", hit="P34"),
 dict(name="stab unknown", file="stability_region/main.cpp", old='		std::cerr << "Unknown method " << method << "!\\n";\n		return -1;', new='		std::cerr << "Unknown method " << method << "!\\n";\n		return 0;', hit="P34"),
 dict(name="stab limit swap", file="stability_region/main.cpp", old="			    << std::fabs(stability_function({x, 0}, sc.A, sc.b));", new="			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2.size() ? sc.b2 : sc.b));", hit="P34"),
 dict(name="stab family swap names", file="stability_region/main.cpp", old="stability_region(method, true, stab_region_embed_fout);", new="stability_region(method, false, stab_region_embed_fout);", hit="P34"),
 dict(name="R stab solve", file="stability_region/main.cpp", old="""	arma::cx_mat Ai;
	if (!arma::inv(Ai, M)) {""", new="""	arma::cx_mat Ai;
	const bool regular = arma::inv(Ai, M);
	if (!regular) {""", props="P34", hit=""),
 dict(name="R stab helper", file="stability_region/main.cpp", edits=[("stability_region/main.cpp", "template <typename solver_coefficients>\narma::mat rk", "static double modulus(std::complex<double> z, const arma::mat &A, const arma::vec &w, double g)\n{\n\treturn std::abs(stability_function(z, A, w, g));\n}\n\ntemplate <typename solver_coefficients>\narma::mat rk"), ("stability_region/main.cpp", "				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b));", "				S(i,j) = modulus(z, sc.A, sc.b, 0.0);")], props="P34", hit=""),
 dict(name="R stab loop", file="stability_region/main.cpp", old="	for (std::size_t i = 0; i < N; ++i) {\n		for (std::size_t j = 0; j < M; ++j) {", new="	for (std::size_t j = 0; j < M; ++j) {\n		for (std::size_t i = 0; i < N; ++i) {", props="P34", hit=""),
 dict(name="R stab ternary", file="stability_region/main.cpp", old="""			if (embedded_method) {
				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b2, sc.gamma));
			} else {
				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b));
			}""", new="""			const arma::vec &w = embedded_method ? sc.b2 : sc.b;
			S(i,j) = std::fabs(stability_function(z, sc.A, w, embedded_method ? sc.gamma : 0.0));""", props="P34", hit=""),
 dict(name="argv stab check", file="stability_region/main.cpp", old="	if (argc < 2) {", new="	if (argc < 1) {", hit="P33"),
 dict(name="argv stab loop", file="stability_region/main.cpp", old="for (int i = 1; i < argc; ++i) {", new="for (int i = 1; i <= argc; ++i) {", hit="P33"),
 dict(name="argv stab second", file="stability_region/main.cpp", old="	std::string method(argv[1]);", new="	std::string method(argv[1]);\n	if (method == \"--method\") method = argv[2];", hit="P33"),
 dict(name="argv stab ret", file="stability_region/main.cpp", old="calculate stability region for!\\n\";\n		return -1;", new="calculate stability region for!\\n\";\n		return 0;", hit="P33"),
 dict(name="argv opt bound", file="examples/example_equations.cpp", old="if (i+2 >= argc) {", new="if (i+2 > argc) {", hit="P33"),
 dict(name="argv opt bound 2", file="examples/example_equations.cpp", old="			if (i+1 == argc) {\n				std::cerr << \"Option \\\"\" << arg\n				          << \"\\\" needs 0 or 1.\\n\";\n				return -1;", new="			if (i+1 == argc) {\n				std::cerr << \"Option \\\"\" << arg\n				          << \"\\\" needs 0 or 1.\\n\";\n				return 0;", hit="P33"),
 dict(name="argv opt step", file="examples/example_equations.cpp", old="			u_opts.eq = argv[i+1];", new="			u_opts.eq = argv[i+2];", hit="P33"),
 dict(name="R argv stab check", file="stability_region/main.cpp", old="	if (argc < 2) {", new="	const int needed = 1;\n	if (argc - 1 < needed) {", props="P33", hit=""),
 dict(name="R argv stab loop", file="stability_region/main.cpp", old="	for (int i = 1; i < argc; ++i) {\n		std::cerr << \"(\" << i << \") \" << argv[i];\n	}", new="	int i = 0;\n	while (++i < argc) {\n		std::cerr << \"(\" << i << \") \" << argv[i];\n	}", props="P33", hit=""),
 dict(name="R argv stab ptr", file="stability_region/main.cpp", old="	for (int i = 1; i < argc; ++i) {\n		std::cerr << \"(\" << i << \") \" << argv[i];\n	}", new="	for (char **a = argv + 1; a != argv + argc; ++a) {\n		std::cerr << *a;\n	}", props="P33 P34", hit=""),
 dict(name="R argv helper", edits=[("stability_region/main.cpp", "int main(int argc, char **argv)", "static std::string method_argument(int argc, char **argv)\n{\n	return argc > 1 ? std::string(argv[1]) : std::string();\n}\n\nint main(int argc, char **argv)"), ("stability_region/main.cpp", "	std::string method(argv[1]);", "	const std::string method = method_argument(argc, argv);")], props="P33 P34", hit=""),
 dict(name="R argv opts", file="examples/example_equations.cpp", old="			if (i+2 >= argc) {", new="			const int left = argc - i - 1;\n			if (left < 2) {", props="P33", hit=""),
]
