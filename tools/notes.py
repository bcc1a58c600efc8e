TECH = 'contract-based deductive verification: verification conditions generated from the source of /repo on every run, discharged by z3 / cvc5 / exact rational arithmetic'
COMMON = (' Real arithmetic; array lengths, step sizes and iteration counts are symbolic. numpy, scipy and pylops are assumed contracts '
          '(vf/shims.py). Every contract is also evaluated on concrete inputs against the real code: bounded, reported separately and never counted as proved. '
          'The evidence file lists what was discharged, what stayed undecided and what is bounded only.')
NA = {}
LEVEL = {}
NOTES = {
 'P01': 'Proved for every operator that can be built in the verifier, with an arbitrary scalar or array step; the others (and the CUDA simplex) bounded.',
 'P02': 'Proved for the derived methods, the adjoint and every closed-form dual; TV, convolution and complex data bounded.',
 'P03': 'Minimality proved against an arbitrary point; inner linear solves assumed exact; TV and L2Convolve bounded.',
 'P04': 'Global minimality proved for SCAD, the cardinality envelope, Log, ETP, Geman (assuming the mean value theorem and the defining equations of exp, lambertw, cbrt, cos/arccos); '
        'QuadraticEnvelopeCardIndicator bounded.',
 'P05': 'Nearest point proved for box, ball, half space, affine set, hyperplane-box, simplex, L1, L0 and L1,0 balls (bisection and argsort assumed) and the blocked simplex (1-3 rows, last axis); Hankel, pairwise intersection and compiled simplex bounded.',
 'P06': 'Proved over an abstract SVD (assumed contract); the rank envelope and complex matrices bounded.',
 'P07': 'Proved for abstract operands, stacks of restrictions for 1-3 restrictions that partition the vector; complex data bounded.',
 'P08': 'Proved for all declared gradients (low-rank bilinear operator: real data) but L2Convolve (bounded).',
 'P09': 'Frame obligations at every store on every path of every contract.',
 'P10': 'One call from an arbitrary earlier state; long random histories bounded.',
 'P11': 'Loop induction: every number of iterations, abstract f and g.',
 'P12': 'Loop induction: every number of iterations; 1 to 3 terms in PPXA and consensus ADMM.',
 'P13': 'Loop induction: every number of iterations, abstract f, g and A.',
 'P14': 'PALM and iPALM proved by loop induction over an abstract bilinear operator; LowRankFactorizedMatrix and joint steps proved for real data, complex bounded.',
 'P15': 'Bregman, PlugAndPlay, SR3 and its LSQR proved; Segment and SR3 with its real inner solver bounded.',
 'P16': 'Loop induction: callbacks, stopping and the returned iterate of every solver, with and without tolerance and display.',
 'P17': 'Loop induction over the sweeps; up to 4 terms or sets unrolled.',
}
