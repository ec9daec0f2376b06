#include "my_timer.hpp"
#include "irk.hpp"
// expected readings: the difference of the clock readings named in the comments
double probe_t1() { my_timer t; return t.toc(); }                                            // 1-0
double probe_t2() { my_timer t; t.tic(); return t.toc(); }                                   // 2-1
double probe_t3() { my_timer t; timeval s = t.get_tic(); t.tic(); return t.get_elapsed(s); } // 2-0
double probe_t4(std::ostream &o) { my_timer t(o); return t.toc("m", "p"); }                  // 1-0
double probe_t5(std::ostream &o) { my_timer t; t.enable_output(o); t.toc("m"); t.disable_output(); return t.toc(); } // 2-0
double probe_t6(std::ostream &o) { my_timer t(o); t.tic(); t.tic(); return t.toc("m"); }     // 3-2
void probe_report(const std::vector<double> &v, std::ostream &o) { irk::print_timing_breakdown(v, o, "name"); }
