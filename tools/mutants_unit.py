# Mutants for the unit analysis (development aid for tools/selftest.py).
[
 dict(name="U erk controller no dt", file="erk.hpp", old="new_dt = fac * dt * std::min(4.0, min_scale);", new="new_dt = fac * std::min(4.0, min_scale);", hit="P27"),
 dict(name="U erk controller dt squared", file="erk.hpp", old="new_dt = fac * dt * std::min(4.0, min_scale);", new="new_dt = fac * dt * std::min(4.0, min_scale * dt);", hit="P27"),
 dict(name="U erk floor", file="erk.hpp", old="\t\t\tif (err < machine_precision) {", new="\t\t\tif (dt < 1e-9) err = 0.5;\n\t\t\tif (err < machine_precision) {", hit="P12 P27"),
 dict(name="U erk clip", file="erk.hpp", old="\t\tif( t + dt > t1 ){\n\t\t\tdt = t1 - t;\n\t\t}\n\t\tif (solver", new="\t\tif( t + dt > t1 - 1e-10 ){\n\t\t\tdt = t1 - t;\n\t\t}\n\t\tif (solver", hit="P27"),
 dict(name="U erk atol floor", file="erk.hpp", old="double sci  = atol + rtol", new="double sci  = 1e-12 + atol + rtol", hit="P12 P27"),
 dict(name="U erk scale one", file="erk.hpp", old="std::max(y0i, y1i)", new="std::max(1.0, std::max(y0i, y1i))", hit="P12 P27"),
 dict(name="U irk dt ratio", file="irk.hpp", old="double dt_rat = dts[0] / dts[1];", new="double dt_rat = dts[0];", hit="P27"),
 dict(name="U irk err frac", file="irk.hpp", old="double err_frac = errs[1] / errs[0];", new="double err_frac = errs[1] / (errs[0] + dt);", hit="P27"),
 dict(name="U irk gamma", file="irk.hpp", old="double gam = sc.gamma*dt;", new="double gam = sc.gamma;", hit="P12 P27"),
 dict(name="U irk rtol", file="irk.hpp", old="double Rtol2 = Rtol*Rtol;", new="double Rtol2 = Rtol;", hit="P10 P27"),
 dict(name="U irk retry", file="irk.hpp", old="\t\t\tdt *= 0.7;\n", new="\t\t\tdt = std::max(0.7*dt, 1e-8);\n", hit="P27"),
 dict(name="U irk jac", file="irk.hpp", old="J_Y -= dt*kron(sc.A,J);", new="J_Y -= kron(sc.A,J);", hit="P10 P27"),
 dict(name="U ab time", file="multistep.hpp", old="C[2][2]*func.fun(t - 2*dt, history[2])", new="C[2][2]*func.fun(t - 2, history[2])", hit="P05 P27"),
 dict(name="U bdf weight", file="multistep.hpp", old="func, y.size(), dt*bdf_rhs", new="func, y.size(), bdf_rhs", hit="P05 P27"),
 dict(name="U ab end", file="multistep.hpp", old="\twhile (t < t1) {\n\t\tadams", new="\twhile (t < t1 - 1e-9) {\n\t\tadams", hit="P27"),
 # equivalent
 dict(name="RU sentinel", file="irk.hpp", old="\t\tdouble dt_rat = dts[0] / dts[1];", new="\t\tdouble dt_rat = dts[1] > 0 ? dts[0] / dts[1] : 1.0;", hit="", props="P09 P10 P11 P12 P13 P14 P27"),
 dict(name="RU previous step", file="irk.hpp", old="dts[0] = dts[1] = dts[2] = dt;", new="dts[0] = dt; dts[1] = dt; dts[2] = 0;", hit="", props="P09 P10 P11 P12 P13 P14 P27"),
 dict(name="RU ratio order", file="erk.hpp", old="new_dt = fac * dt * std::min(4.0, min_scale);", new="double growth = std::min(4.0, min_scale);\n\t\t\tnew_dt = growth*dt;\n\t\t\tnew_dt *= fac;", hit="", props="P09 P10 P11 P12 P13 P14 P27"),
 dict(name="RU log", file="erk.hpp", old="\t\tsol.count.attempt++;", new="\t\tif (dt < 1e-300) { std::cerr << \"tiny step\\n\"; }\n\t\tsol.count.attempt++;", hit="", props="P09 P10 P11 P12 P13 P14 P27"),
 dict(name="RU remaining", file="erk.hpp", old="\t\tif( t + dt > t1 ){\n\t\t\tdt = t1 - t;\n\t\t}\n\t\tif (solver", new="\t\tdouble remaining = t1 - t;\n\t\tdt = std::min(dt, remaining);\n\t\tif (solver", hit="", props="P09 P10 P11 P12 P13 P14 P27"),
]
