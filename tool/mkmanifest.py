#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': ('interprocedural exception-escape fixed point and constant-set analysis of the failure returns',
         'Sound for explicit throws, allocations and library calls under the listed assumptions about the standard streams and C code; exceptions raised inside OpenMP regions are outside the claim.'),
 'P02': ('abstract interpretation of the collective entry points: rank-dependence of every branch that guards a collective call or a raise',
         'Decides whether any rank-, data- or time-dependent condition can make the sequence of collective calls, their roots, counts or communicators differ; does not bound message volumes numerically. Trusts the models of MPI and of the container classes.'),
 'P03': ('static race detection: write/read disjointness of all accesses inside each OpenMP region',
         'Every shared write inside a parallel region must be shown private, disjoint per iteration or thread, or mutually exclusive. Trusts the models of the container classes and FFTPACK plans being per thread.'),
 'P04': ('abstract interpretation with rank provenance: what a rank-local read can leave different between ranks',
         'Decides that all orders and coefficients at a normal exit are broadcast values in full; the content of the file is outside.'),
 'P05': ('abstract interpretation with per-column provenance of the pointing',
         'Decides that the angle columns only ever receive copies of the same column; which row a value returns to is not claimed (P32).'),
 'P06': ('status typestate over every CFITSIO call site',
         'Path-sensitive in the status variable; trusts the list of CFITSIO functions that report through their status argument.'),
 'P07': ('abstract interpretation: provenance of the communicator of every MPI call reachable from loading and convolving',
         'Decides which communicator object reaches each call.'),
 'P08': ('definite-initialisation analysis of constructors and of everything reachable through the interface',
         'Every constructor on undefined memory, then every method, then every method again; arrays are reported only if no element was ever written.'),
 'P09': ('cross-check of the resolved C declarations, the definitions and an abstract interpretation of the Python bindings',
         'Exact for declared types; the platform data model is LP64 with pointer communicators, as built here.'),
 'P10': ('abstract interpretation of the Python wrapper with every C call both failing and succeeding',
         'Covers every path of every public method; calls outside the package are opaque.'),
 'P11': ('ownership typestate, path by path: every function that acquires or releases, every pair of creating and deleting C functions, and every short history of operations on each class that owns, with every acquisition failing or not',
         'Decides release on all exits, no double release, no release of memory of others, matching release functions and no use after release; histories of two operations (thorough: three) after construction, loops to three iterations, containers of the standard library trusted.'),
 'P12': ('abstract interpretation of convolve over classes of angles (NaN, infinities, end points and their neighbours), one sample made illegal at a time',
         'Decides which angle classes can pass the entry check of a convolution, that its verdict is collective and precedes any use, and that legal classes stay inside the latitude tables; at most one illegal sample on one process at a time.'),
 'P13': ('abstract interpretation of convolve for the four calibration cases with a symbolic signal',
         'Decides the factor applied to the signal exactly as a polynomial identity.'),
 'P14': ('effect analysis: writes reachable from a convolver into its inputs',
         'Decides that no store reaches the sky, beam or detector.'),
 'P15': ('information-flow analysis from clocks, thread identity and verbosity to the signal',
         'Explicit and implicit flows into the signal column and into what is communicated.'),
 'P16': ('abstract interpretation with linear inequalities between requested, effective and available orders',
         'Decides the order relations at every coefficient access of the computation.'),
 'P17': ('bounds analysis of every write into a fixed-size character buffer',
         'Every write must be bounded by the buffer for all input lengths.'),
 'P18': ('type agreement between MPI datatypes or FITS codes and the static type of the memory passed; untyped transfer functions interpreted for every type constant; the mapping tables evaluated',
         'Exact on types and kinds for every instantiation in the library; element counts are outside (P02 compares message sizes).'),
 'P19': ('pointer provenance from handle arguments to casts, uses and deletions, in C++ and Python',
         'Exact for the C interface as written; helper functions of the same file are inlined.'),
 'P20': ('abstract interpretation of beam normalisation with symbolic coefficients, and who may write the mark',
         'Decides a common factor and at most one application as a polynomial identity.'),
 'P21': ('abstract interpretation with linear inequalities: index bounds at every coefficient store while reading',
         'Decides 0 <= m <= l <= lmax and m <= mmax at each store.'),
 'P22': ('information-flow analysis from the pointing of one convolution to the signal of a later one',
         'Explicit flows through members and statics.'),
 'P23': ('abstract interpretation of every exceptional exit of a load',
         'Decides the state of the object at each point where a load can raise an error.'),
 'P24': ('abstract interpretation of every C function and Python method with the operations behind it replaced by stand-ins: provenance of each argument and result',
         'Decides for every argument and success path which operation receives what; texts are followed by origin only, sizes of caller memory are outside.'),
 'P25': ('abstract interpretation of every member function that makes or changes a container, down to the memory it allocates: position polynomials and capacities compared with the reported extents',
         'Symbolic extents and indices wherever no reallocation decision depends on them, representative extents otherwise; products of extents are assumed not to overflow. A position formula that cannot be resolved is noted, not reported.'),
}
NA = {
 'P30': 'A numerical statement: agreement of the interpolated result with the exact convolution depends on floating-point values and on the mathematics of the recursions; no structural part of the code is a necessary condition that the other properties do not already claim.',
 'P31': 'Relates two runs with different process counts; the destination of a sample is computed from sorted run-time angles, counts and histograms, which no static argument in reach bounds. The structural parts (same collectives, columns kept, no state carried over) are claimed as P02, P05 and P22.',
 'P32': 'The row a sample returns to is decided by a sort on run-time row numbers exchanged between processes; showing the permutation is the identity needs the values. The structural part (columns are only copied) is claimed as P05.',
 'P33': 'Accuracy of recursions and transforms is a floating-point error bound over values; static analysis of the source cannot bound it here.',
 'P34': 'Numerical agreement of two different computations on values; not visible in the shape of the code.',
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if os.path.exists('%s/checks/%s.py' % (V, i.lower())):
        t, n = T[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           technique='static analysis: ' + t, level='other', level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i) or 'No check has been built for it yet.'))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0,\'lib\'); import facts; facts.build_tool()"',
               checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
