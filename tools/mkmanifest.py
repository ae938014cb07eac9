#!/usr/bin/env python3
# Writes MANIFEST.json: every property with a check, and the reasons for those without.
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props=[json.loads(l) for l in open('properties.jsonl')]
EX='Every generated case is executed on the real library and judged by an independent reference; nothing is assumed about cases not generated. '
T={
'C01':('runtime monitor: cover and part-description checker on results of the real partitioners',''),
'C02':('runtime monitor: optimality oracle (brute force and independent DP) on real results','Brute force over all partitions up to about 14 elements, an independently written DP in long double beyond; tie-break judged where arithmetic is exact.'),
'C03':('runtime monitor: optimality oracle (brute force and independent DP) on real results','Brute force over all covers of small hierarchies, an independent DP beyond; tie-break judged where arithmetic is exact.'),
'C04':('runtime monitor: optimality oracle (brute force and independent DP) on real results','Brute force over all exact covers of small grids, an independent DP beyond; tie-break judged where arithmetic is exact.'),
'C05':('runtime monitor: long double reference of the measures against recorded tables','Tolerance proportional to the magnitude of the summed terms (double-precision logarithms).'),
'C06':('runtime monitor: before/after table comparison around normalisation',''),
'C07':('runtime monitor: consistency checker over recorded sweeps and single queries',''),
'C08':('runtime monitor: completeness oracle over recorded sweeps, CPU-time watchdog for termination','Termination is judged by a CPU budget per case far above the normal cost, confirmed by a second run with three times the budget.'),
'C09':('runtime monitor: recomputation of the summaries from the listed qualities',''),
'C10':('runtime monitor: recomputation and conservation check of aggregates',''),
'C11':('runtime monitor: shadow model of value containers and tables',''),
'C12':('runtime monitor: independent derivation of hierarchy structure',''),
'C13':('runtime monitor: metamorphic comparison of paired executions',''),
'C14':('runtime monitor: differential comparison of the three real algorithms',''),
'C15':('runtime monitor: monotonicity checker over parameter series of real results',''),
'C16':('runtime monitor: history replay, each result compared bit for bit with a fresh process','Queries of a random history are compared with the same query asked first in a process forked before any library call.'),
'C17':('AddressSanitizer, UBSan, LeakSanitizer, checked libstdc++ and memcheck under a random operation exerciser','The sanitizers see only executed code; memcheck runs the uninitialised-read cases (it emulates long double in double precision, so values are not judged there).'),
'C18':('ThreadSanitizer plus sequential-result oracle under multi-threaded stress','The result oracle also runs in an uninstrumented build; only interleavings that occurred are judged, but the race detector judges happens-before, not luck of timing.'),
'C19':('fault injection in operator new at every allocation index, with leak counting and retry oracle, also under AddressSanitizer','Every allocation index of an operation is failed (single and persistent) for small operations, sampled indices for larger ones.'),
'C20':('runtime monitor: algebraic laws on generated operands with an independent model',''),
'C21':('runtime monitor: the C++ source embedded in the R file, run against stand-in Rcpp/Armadillo types, compared with the library','R is not installed: the embedded C++ is extracted from R/lpaggreg.R at check time and compiled against stand-ins for the Rcpp and Armadillo types it uses; the stand-ins are trusted.'),
}
NA={'C22':'Pure R code and no R interpreter is installed (nor can be): nothing can be executed, so there is no execution to monitor.'}
import importlib.util,sys
spec=importlib.util.spec_from_file_location('run','run.py'); run=importlib.util.module_from_spec(spec); spec.loader.exec_module(run)
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in run.CONF:
        t,n=T[i]
        checks.append(dict(property=i,quick_cmd='python3 run.py %s --tier quick'%i,thorough_cmd='python3 run.py %s --tier thorough'%i,evidence_file='evidence/%s.json'%i,technique=t,level=run.LEVEL.get(i,'exploration'),level_note=EX+n))
    else: na.append(dict(property=i,reason=NA.get(i,'no check yet')))
m=dict(version=1,setup_cmd='python3 -m py_compile run.py && g++ --version && valgrind --version',checks=checks,not_applicable=na,
 notes='No hooks in /repo: the monitors use the public interface, compiler instrumentation and interposed operator new. Each check compiles /repo/src/lpaggreg/sources from the working tree. Defects found and repaired are in known_findings.txt.')
json.dump(m,open('MANIFEST.json','w'),indent=1)
print(len(checks),'checks,',len(na),'not claimed')
