import os,json
s=open('/verif/DESIGN.md').read()
s=s.replace("All but four are decided","All but three (P37-P39) are decided")
i=s.find("\n## 5. Planted bugs")
if i>0: s=s[:i]
add='''
* Refactorings (`tools/refactors.py`, 35 of them, every check must stay quiet) exposed: P12
  took the step size from one case only (now over all cases of the loop); deep case
  splitting in `lin` ran out of time (now shallow first); iterators over maps were unknown;
  P20 reported a table that had merely moved (now undecided).
* `if (A(i,j) == 0) continue;` around a stage sum was reported: a case that knows
  `x == 0` or `x == const` now substitutes the value everywhere.
* Conversions are part of the values: to `float` (rounded constants, `float(x)` otherwise),
  to integers (truncation), `std::move` leaves unspecified contents behind,
  `std::accumulate` sums in the type of its initial value.
'''
if "Refactorings (`tools/refactors.py`" not in s: s=s.rstrip("\n")+add
t='''
## 5. Planted bugs

`seeded/` holds the bugs written from a property's text and the code; each was confirmed to
build, pass the stable tests, and fail its own demonstration.  "Caught by" names the
property's own check, which reports it with a VIOLATION line (checked with the change
applied to /repo).  Besides them, `tools/mutants_*.py` are some 300 small edits with the
expected result for named checks, and `tools/selftest.py` runs them on scratch copies.

| planted bug | caught by | what it breaks |
|---|---|---|
'''
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    t+="| %s | %s | %s |\n"%(d,m["property"],m["what_it_breaks"].replace("|","/"))
open('/verif/DESIGN.md','w').write(s+t)
