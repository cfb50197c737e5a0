COMMON = (
    "Trusted: the pydv verifier (instrumentation and value models, listed in "
    "the evidence with every run), z3, CPython and Twisted. Floats are "
    "modelled as reals plus infinities and NaN (no rounding).")
PROOF = "Every function named by the contracts is covered by a discharged one."
NOTE = {'C%02d' % k: ('proof', PROOF) for k in range(1, 23)}
