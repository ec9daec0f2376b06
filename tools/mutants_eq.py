# Mutants for P07, P08 (development aid for tools/selftest.py).
[
 dict(name="eq vdpol jac", file="test_equations.hpp", old="J(1,0) = -(2.0 * y[0] * y[1] + 1.0) / mu;", new="J(1,0) = -(2.0 * y[0] * y[1]) / mu - 1.0;", hit="P07"),
 dict(name="eq bruss", file="test_equations.hpp", old="J(1,0) = b - 2*y[0]*y[1];", new="J(1,0) = b - 2*y[0];", hit="P07"),
 dict(name="eq lorenz", file="test_equations.hpp", old="{ r-y(2), -1.0, -y(0) },", new="{ r-y(2), -1.0, y(0) },", hit="P07"),
 dict(name="eq kinetic jac", file="test_equations.hpp", old="{ y(1) - y(2), y(0), -y(0) - b3, b4  },", new="{ y(1) - y(2), y(0), -y(0) - b2, b4  },", hit="P07"),
 dict(name="eq kinetic both", edits=[("test_equations.hpp", "{ y(1) - y(2), y(0), -y(0) - b3, b4  },", "{ y(1) - y(2), y(0), -y(0) - b2, b4  },"), ("test_equations.hpp", "rhs(2) = y(0)*y(1) - y(0)*y(2) + b4*y(3) - b3*y(2);", "rhs(2) = y(0)*y(1) - y(0)*y(2) + b4*y(3) - b2*y(2);")], hit="P08"),
 dict(name="eq rober both", edits=[("test_equations.hpp", "		         3e7*y[1]*y[1] };", "		         3e6*y[1]*y[1] };"), ("test_equations.hpp", "J(2,1) = 6e7*y[1];", "J(2,1) = 6e6*y[1];")], hit="P08"),
 dict(name="eq three jac", file="test_equations.hpp", old="- m1*m2 / r13_3 + 3*m1*m2*y2my1_2 / r12_5;", new="- m1*m2 / r12_3 + 3*m1*m2*y2my1_2 / r12_5;", hit="P07"),
 dict(name="eq three fun", file="test_equations.hpp", old="dydt[ 6] =  m1*m3*x3mx1 / r13_3 + m1*m2*x2mx1 / r12_3;", new="dydt[ 6] =  m1*m3*x3mx1 / r13_3 + m1*m3*x2mx1 / r12_3;", hit="P07 P08"),
 dict(name="eq three pot", file="test_equations.hpp", old="double V = -m1*m2/r12 - m1*m3/r13 - m2*m3/r23;", new="double V = -m1*m2/r12 - m1*m3/r13 - m1*m3/r23;", hit="P08"),
 dict(name="eq harmonic sol", file="test_equations.hpp", old="return { sin(w*t), cos(w*t) };", new="return { cos(w*t), sin(w*t) };", hit="P08"),
 dict(name="eq harmonic phase", file="test_equations.hpp", old="return { sin(w*t), cos(w*t) };", new="return { sin(w*t + 1e-3), cos(w*t + 1e-3) };", hit="P08"),
 dict(name="eq stiff sol", file="test_equations.hpp", old="( 1000.0*exp(-1000*t) - 1000.0*exp(-t) ) / 999.0;", new="( 1000.0*exp(-1000*t) - 999.0*exp(-t) ) / 999.0;", hit="P08"),
 dict(name="eq stiff ctor", file="test_equations.hpp", old="A(1,1) = -1001.0;", new="A(1,1) = -1000.0;", hit="P08"),
 dict(name="eq compute", file="functor.hpp", old="if (calc_J) J = jac(t, y);", new="if (!calc_J) J = jac(t, y);", hit="P07"),
 dict(name="eq wrapper", file="newton.hpp", old="		return func.jac( t, Y );", new="		return func.jac( 0.0, Y );", hit="P07"),
 dict(name="R eq vdpol", file="test_equations.hpp", old="return { y[1], ((1 - y[0]*y[0]) * y[1] - y[0]) / mu };", new="const double q = 1 - y[0]*y[0];\n		vec_type r(2);\n		r(0) = y(1);\n		r(1) = q*y(1)/mu - y(0)/mu;\n		return r;", props="P07 P08", hit=""),
 dict(name="R eq three", file="test_equations.hpp", old="double r12_3 = r12_2*r12_1;\n		double r13_3 = r13_2*r13_1;\n		double r23_3 = r23_2*r23_1;\n\n		dydt", new="double r12_3 = std::pow(r12_2, 1.5);\n		double r13_3 = r13_1*r13_1*r13_1;\n		double r23_3 = pow(r23_1, 3);\n\n		dydt", props="P07 P08", hit=""),
 dict(name="R eq three loop", file="test_equations.hpp", old="""		double T = px0*px0 + py0*py0;
		T += px1*px1 + py1*py1;
		T += px2*px2 + py2*py2;

		return 0.5*T;""", new="""		double T = 0.0;
		for (double p : { px0, py0, px1, py1, px2, py2 }) T += p*p;
		return T / 2.0;""", props="P07 P08", hit=""),
 dict(name="R eq exp", file="test_equations.hpp", old="double ysol = -exp(-1000*t)/999.0 + 1000*exp(-t)/999.0;", new="const double e1 = exp(-t);\n		double ysol = (1000*e1 - std::pow(e1, 1000))/999.0;", props="P07 P08", hit=""),
 dict(name="R eq ctor names", file="test_equations.hpp", old="three_body( double m1, double m2, double m3 )\n		: m1(m1), m2(m2), m3(m3), m1r(m1/m3), m2r(m2/m3) {}", new="three_body( double a, double b, double c )\n		: m1(a), m2(b), m3(c), m1r(a/c), m2r(b/c) {}", props="P07 P08", hit=""),
]
