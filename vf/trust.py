"""What the verification conditions take for granted (reported in every evidence file)."""
TRUSTED = [
    'CPython 3.12 executes the repository source; vf/loader.py executes the same text with the replaced builtins and loop hooks listed there',
    'vf/core.py: meaning of array expressions over sequences of reals of symbolic length (cross-checked by running every contract on concrete inputs)',
    'vf/shims.py: assumed contracts of the numpy, scipy, pylops and math functions the code calls',
    'z3 and cvc5 (unsat answers)',
]
ASSUMPTIONS = [
    'machine floating point is treated as real arithmetic (no rounding, overflow, nan or inf inputs)',
    'arrays are real-valued in the proofs; complex inputs are covered by the bounded concrete runs only',
    'scipy lsqr/cg/cho_solve, pylops division and regularized_inversion return exact solutions; scipy bisect returns an exact root inside its bracket',
    'division by zero does not occur on the proved paths (x/0 is an arbitrary real in the solver)',
    'linear operators handed in are linear, deterministic, and their rmatvec is the adjoint of their matvec',
    'abstract operators and functions handed in (operands of a composition, f and g of a solver) are deterministic functions of their arguments',
    'loops are proved by induction on the loop head state (any number of iterations); termination is not proved',
]
