#include "cyclic_buffer.hpp"
typedef cyclic_buffer<double> buf;
buf probe_new(int n) { buf c(n); return c; }
void probe_push(buf &b, double x) { b.push_back(x); }
double probe_at(buf &b, std::size_t i) { return b[i]; }
double probe_cat(const buf &b, std::size_t i) { return b[i]; }
std::size_t probe_size(const buf &b) { return b.size(); }
bool probe_empty(const buf &b) { return b.empty(); }
std::size_t probe_period(const buf &b) { return b.period(); }
buf probe_copy(const buf &b) { buf c(b); return c; }
void probe_assign(buf &a, const buf &b) { a = b; }
void probe_resize(buf &b, std::size_t n) { b.resize(n); }
int probe_count(buf &b) { int n = 0; for (auto i = b.begin(); i != b.end(); ++i) ++n; return n; }
double probe_nth(buf &b, int k) { auto i = b.begin(); for (int j = 0; j < k; ++j) ++i; return *i; }
