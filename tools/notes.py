COMMON = ("Bounded: every value of the symbolic inputs (parameters, configurations, draws) within the sizes listed in the "
          "evidence; each equality, membership or bound is decided by z3 (unsat of its negation) on every feasible path, and a "
          "counterexample is replayed on the real code before it is reported. Assumes exact real/complex arithmetic in place of "
          "floating point and trusts JAX's tracing, the interpreter in symx/ (validated on each path against a concrete run of the "
          "real code) and z3.")
JX = "jaxpr symbolic execution + z3"
PYX = "Python-source symbolic execution (numba kernels as Python) + z3"
NOTE = {
 "C01": (PYX, "All occupation strings, t_e, U for edge lists up to 4 sites."),
 "C02": (PYX, "All symmetric integrals for up to 4 orbitals."),
 "C03": (JX, "Arbitrary wavefunction values on all configurations."),
 "C04": (JX, "Arbitrary wavefunction values on all configurations."),
 "C05": (JX, "Listed sparsity patterns with symbolic non-zero integrals."),
 "C06": (JX, ""),
 "C07": (JX, ""),
 "C08": (PYX, ""),
 "C15": (JX, "Random draws are symbolic inputs."),
 "C16": (JX, "Transition probabilities are exact volumes of draw regions, compared by z3."),
 "C17": (JX, "Arbitrary wavefunction values; draws are symbolic inputs."),
 "C18": (JX, "Random draws are symbolic inputs; constraint and enumeration for every state."),
 "C21": (JX, ""),
 "C22": (JX, "Arbitrary wavefunction values on the sampled configurations."),
 "C23": (JX, ""),
 "C24": (PYX, "numpy/scipy linear algebra is replaced by exact symbolic counterparts; Cholesky factors are assumed to exist; magnitudes lie between the code's cut-offs; a single MPI process."),
 "C26": (JX, ""), "C27": (JX, ""), "C28": (JX, ""),
 "C25": (JX, "Uniform draws are symbolic inputs."),
}
