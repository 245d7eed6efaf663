"""Write MANIFEST.json from properties.jsonl and the registered rules."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from pva.rules import RULES
TECH = {
    'C08': 'typestate analysis of file operations on every path of save_state',
    'C09': 'effect analysis of save/load and abstract interpretation of resumed runs',
    'C10': 'randomness and effect inventory over the whole package with ordering analysis',
    'C11': 'abstract interpretation of the constructor per option value and dispatch analysis',
    'C18': 'typestate and provenance analysis of master and worker loop with linear message counters',
    'C17': 'alias analysis of every store and recurrence analysis of the recorded lists',
    'C23': 'abstract interpretation to value graphs, with the extracted choice of the temperature tabulated over its few unknowns',
    'C24': 'non-interference (taint) analysis through values, recurrences, path conditions and loop exits',
    'C25': 'alias and effect analysis of every entry point on the cells of its arguments',
    'C26': 'abstract interpretation to value graphs and recurrences, compared with an interpreted specification of one EM step',
    'C29': 'range analysis of every exponential in the interpreted program: relative to maximum or log-sum, or invariant under a shift of the log-likelihood',
    'C28': 'extraction of the loop-carried scalars and exit conditions of each kernel, tabulated over histories against the plateau criterion',
    'C27': 'abstract interpretation to value graphs over a generic flow and network, and case analysis over data types',
    'C19': 'abstract interpretation of the training loop with index-map tracking and parameter versions',
}
DEFAULT = 'join-based abstract interpretation to value graphs, compared with the specified term'
NOTE = ('Static analysis of the sources under /repo/pocomc without running them: values of all array elements are followed through '
        'calls, loops (as recurrences) and branches (as gates), and each obligation compares the resulting term with the specified one '
        'or derives it by induction. Real-number semantics; numpy, torch and scipy by declared contracts; obligations the analysis '
        'cannot follow are listed as open in the evidence.')
NA = {
    'C30': 'A limit statement about random variables: convergence as the number of particles grows is not a property of any finite set of '
           'program facts a static argument can reach (the per-step ingredients are C02, C03, C06).',
    'C31': 'Termination of the bisection and of the annealing ladder depends on the numerical values of user likelihoods and on the '
           'effective sample size they produce; no static bound on these run-time quantities is in reach.',
    'C32': 'A statement about floating-point rounding over the whole range; the analysis uses real-number semantics and no sound static '
           'rounding-error bound through erf/erfinv/log/exp is in reach here.',
    'C33': 'Depends on the outcome of stochastic gradient descent and of an EM iteration on run-time data.',
    'C34': 'Liveness and speed of external pools, MPI and user code: run-time quantities outside the source under analysis.',
}
checks, na = [], []
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in RULES:
        checks.append(dict(property=p, quick_cmd='python3 -m pva check %s' % p, thorough_cmd='python3 -m pva check %s --thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique='static analysis: ' + TECH.get(p, DEFAULT), level='other',
                           level_note=NOTE))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'The static check for this property is not finished yet.')))
json.dump(dict(version=1, setup_cmd='python3 -c "import pva.rules"', checks=checks, not_applicable=na),
          open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
