#include "newton.hpp"
#include "probe.hpp"
arma::vec probe_newton(probe_nl &f, arma::vec x, const newton::options &o, newton::status &s, bool quiet)
{ return newton::newton_iterate(f, x, o, s, quiet); }
arma::vec probe_newton_lu(probe_nl &f, arma::vec x, const newton::options &o, newton::status &s)
{ return newton::newton_iterate_impl<probe_nl, 5, 0, 0, 0, 1>(f, x, o, s); }
arma::vec probe_newton_lu_limit(probe_nl &f, arma::vec x, const newton::options &o, newton::status &s)
{ return newton::newton_iterate_impl<probe_nl, 4, 0, 0, 1, 1>(f, x, o, s); }
arma::vec probe_broyden(probe_nl &f, arma::vec x, const newton::options &o, newton::status &s, bool quiet)
{ return newton::broyden_iterate(f, x, o, s, quiet); }
arma::mat probe_approx(const arma::vec &y, probe_nl &f, double h)
{ return newton::approx_jacobi_matrix(y, f, h); }
bool probe_verify(const arma::vec &y, probe_nl &f)
{ return newton::verify_jacobi_matrix(y, f); }
