# Mutants for P21, P23, P30 (development aid for tools/selftest.py).
[
 dict(name="buf twin", file="cyclic_buffer.hpp", old="\t\t\tstorage_[next_spot - period_] = t;\n", new="", hit="P21"),
 dict(name="buf wrap", file="cyclic_buffer.hpp", old="current_ = period_ - 1;\n\t\t}\n\n\t\tif", new="current_ = period_;\n\t\t}\n\n\t\tif", hit="P21"),
 dict(name="buf size", file="cyclic_buffer.hpp", old="if (size_ < period_) ++size_;", new="if (size_ + 1 < period_ || current_ == period_ - 1) ++size_;", hit="P21"),
 dict(name="buf assign size", file="cyclic_buffer.hpp", old="\t\t\tsize_ = o.size();\n\t\t\tstd::copy", new="\t\t\tif (o.size() < o.period()) size_ = o.size();\n\t\t\tstd::copy", hit="P21"),
 dict(name="buf assign period", file="cyclic_buffer.hpp", old="\t\t\tperiod_ = o.period();\n", new="\t\t\tif (period_ < long(o.period())) period_ = o.period();\n", hit="P21"),
 dict(name="buf copy current", file="cyclic_buffer.hpp", old="current_(o.current()), size_(o.size())", new="current_(o.current() % o.period()), size_(o.size())", hit="P21"),
 dict(name="buf end", file="cyclic_buffer.hpp", old="return iterator(current_ - size_, storage_.begin());", new="return iterator(size_ < period_ ? -1 : current_ - size_ + 1, storage_.begin());", hit="P21"),
 dict(name="buf resize keeps size", file="cyclic_buffer.hpp", old="\t\tcurrent_ = 0;\n\t\tsize_    = 0;", new="\t\tcurrent_ = 0;\n\t\tif (size_ > long(size)) size_ = 0;", hit="P21"),
 dict(name="R buf push", file="cyclic_buffer.hpp", old="\t\tif (next_spot >= period_) {\n\n\t\t\tstorage_[next_spot] = t;\n\t\t\tstorage_[next_spot - period_] = t;\n\t\t} else {\n\t\t\tstorage_[next_spot] = t;\n\t\t}", new="\t\tstorage_[next_spot] = t;\n\t\tif (!(next_spot < period_)) storage_[next_spot - period_] = t;", props="P21", hit=""),
 dict(name="R buf modulo", file="cyclic_buffer.hpp", old="\t\tcurrent_ = next_spot;\n\t\tif (next_spot == 2*period_ - 1) {\n\t\t\tcurrent_ = period_ - 1;\n\t\t}\n", new="\t\tcurrent_ = next_spot < 2*period_ - 1 ? next_spot : period_ - 1;\n", props="P21", hit=""),
 dict(name="merge err", file="irk.cpp", old="sol2.err.begin(), sol2.err.end()", new="sol1.err.begin(), sol1.err.end()", hit="P23"),
 dict(name="merge prepend", file="irk.cpp", old="merger.stages.insert( merger.stages.end(),", new="merger.stages.insert( merger.stages.begin(),", hit="P23"),
 dict(name="merge skip first", file="irk.cpp", old="sol2.y_vals.begin(), sol2.y_vals.end()", new="sol2.y_vals.begin() + (sol1.y_vals.size() && sol2.y_vals.size()), sol2.y_vals.end()", hit="P23"),
 dict(name="merge status", file="irk.cpp", old="merger.status |= sol2.status;", new="merger.status &= sol2.status;", hit="P23"),
 dict(name="merge status later", file="irk.cpp", old="merger.status |= sol2.status;", new="merger.status = sol2.status;", hit="P23"),
 dict(name="merge status xor", file="irk.cpp", old="merger.status |= sol2.status;", new="merger.status ^= sol2.status;", hit="P23"),
 dict(name="merge count", file="irk.cpp", old="merger.count.fun_evals += sol2.count.fun_evals;", new="merger.count.fun_evals += sol2.count.jac_evals;", hit="P23"),
 dict(name="merge elapsed", file="irk.cpp", old="merger.elapsed_time += sol2.elapsed_time;", new="merger.elapsed_time = std::max(merger.elapsed_time, sol2.elapsed_time);", hit="P23"),
 dict(name="R merge loop", file="irk.cpp", old="\tmerger.err.insert( merger.err.end(),\n\t                   sol2.err.begin(), sol2.err.end() );", new="\tfor( double e : sol2.err ) merger.err.push_back( e );", props="P23", hit=""),
 dict(name="R merge status", file="irk.cpp", old="merger.status |= sol2.status;", new="if( merger.status == SUCCESS ) merger.status = sol2.status;", props="P23", hit=""),
 dict(name="timer usec", file="my_timer.hpp", old="(t_toc.tv_usec - user_tic.tv_usec)*1e-3", new="(t_toc.tv_usec - user_tic.tv_usec)/1000", hit="P30"),
 dict(name="timer sign", file="my_timer.hpp", old="(t_toc.tv_sec  - user_tic.tv_sec)*1000.0", new="(t_toc.tv_sec  - t_tic.tv_sec)*1000.0", hit="P30"),
 dict(name="timer toc tics", file="my_timer.hpp", old="double diff_sec  = diff_msec*1e-3;", new="double diff_sec  = diff_msec*1e-6;", hit="P30"),
 dict(name="timer toc resets", file="my_timer.hpp", old="\t\treturn diff_msec;\n", new="\t\tif( out ) tic();\n\t\treturn diff_msec;\n", hit="P30"),
 dict(name="report entry", file="irk.hpp", old="print_line(time_scale*timings[3], total_t, \"Store", new="print_line(time_scale*timings[2], total_t, \"Store", hit="P30"),
 dict(name="report unit", file="irk.hpp", old="\ttotal_t *= time_scale;\n\n\tout <<", new="\n\tout <<", hit="P30"),
 dict(name="elapsed since tic", file="irk.hpp", old="double elapsed = timer.get_elapsed(irk_start);", new="double elapsed = timer.toc();", hit="P30"),
 dict(name="R timer", file="my_timer.hpp", old="\t\treturn (t_toc.tv_usec - user_tic.tv_usec)*1e-3 +\n\t\t\t(t_toc.tv_sec  - user_tic.tv_sec)*1000.0;", new="\t\tconst double a = user_tic.tv_sec*1e3 + user_tic.tv_usec/1000.0;\n\t\tconst double b = t_toc.tv_sec*1e3 + t_toc.tv_usec/1000.0;\n\t\treturn b - a;", props="P30", hit=""),
]
