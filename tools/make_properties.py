import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Hubbard operator equals the second-quantised Fermi-Hubbard Hamiltonian",
 "For every configuration of every Fermi-Hubbard operator, the connected configurations and matrix elements it returns, summed per connected configuration, are exactly the row of H = -sum_e t_e (c+_i c_j + h.c.) + U sum_i n_up n_down with fermionic signs for the canonical site ordering of each spin species. Connected configurations lie in the Hilbert space and the per-sample sections delimit exactly each sample's entries, for any batch, edge list (in either orientation), hopping list and U.",
 ["inputs","configurations"],"all batches of occupation strings, all edge lists (orientation, order, repetition), all real t_e and U",
 "No test touches the Hubbard operator; sign errors only appear for particular fillings between particular site pairs, for batch>1, or for one edge orientation.",
 ["GPSKet/operator/hamiltonian/hubbard.py","GPSKet/operator/fermion.py"],
 [("FermiHubbard._get_conn_flattened_kernel","GPSKet/operator/hamiltonian/hubbard.py"),("apply_hopping parity","GPSKet/operator/fermion.py")],
 ["FermiHubbard.get_conn_flattened"])
p("C02","Ab-initio operator equals the second-quantised molecular Hamiltonian",
 "For every configuration with the Hilbert space's electron numbers, the connected configurations and matrix elements of the ab-initio Hamiltonian, summed per connected configuration, equal the row of H = sum h_pq c+_p c_q + 1/2 sum (pq|rs) c+_p c+_r c_s c_q with correct fermionic signs and one- and two-body contractions. This holds for all real symmetric one-body matrices and all two-electron integrals with the usual eight-fold symmetry, and the per-sample sections delimit exactly each sample's entries.",
 ["inputs","configurations"],"all occupation strings of the sector, all symmetric h and (pq|rs)",
 "The tests never evaluate this operator against an independent Hamiltonian; the two-body sign corrections only matter for particular relative orders of four orbitals.",
 ["GPSKet/operator/hamiltonian/ab_initio.py","GPSKet/operator/fermion.py"],
 [("AbInitioHamiltonian._get_conn_flattened_kernel","GPSKet/operator/hamiltonian/ab_initio.py"),("t = h - 1/2 sum_r (pr|rq)","GPSKet/operator/hamiltonian/ab_initio.py")],
 ["AbInitioHamiltonian.get_conn_flattened"])
p("C03","On-the-fly Hubbard local energy equals the Hamiltonian row applied to psi",
 "For every sample, wavefunction and parameters, the on-the-fly Fermi-Hubbard local energy equals sum_x' <x|H|x'> psi(x')/psi(x) with H the second-quantised Hubbard Hamiltonian. This holds with and without fast updates, for every chunk size and batch, and does not depend on how the hopping edges are oriented or ordered.",
 ["inputs","configurations"],"all samples, edge lists, t_e, U and all values of the wavefunction on the connected configurations",
 "No test evaluates the Hubbard local energy; a wrong sign or missed term biases every energy but raises no error.",
 ["GPSKet/operator/hamiltonian/hubbard.py","GPSKet/operator/hamiltonian/ab_initio.py"],
 [("local_en_on_the_fly","GPSKet/operator/hamiltonian/hubbard.py"),("get_parity_multiplicator_hop","GPSKet/operator/hamiltonian/ab_initio.py")],
 ["netket.vqs.get_local_kernel"])
p("C04","On-the-fly ab-initio local energy equals the Hamiltonian row applied to psi",
 "For every sample in the electron-number sector and every wavefunction, the on-the-fly ab-initio local energy equals sum_x' <x|H|x'> psi(x')/psi(x) for the second-quantised molecular Hamiltonian. This holds with and without fast updates (including double excitations that touch the same orbital twice), for every batch and chunk size.",
 ["inputs","configurations"],"all samples of the sector, all integrals with the documented symmetries, all wavefunction values",
 "No test evaluates it; the sign of a double excitation depends on the relative order of four orbitals and the same-site up/down double hop needs a special update.",
 ["GPSKet/operator/hamiltonian/ab_initio.py"],
 [("local_en_on_the_fly","GPSKet/operator/hamiltonian/ab_initio.py"),("get_updated_occ_previous_move (dummy updates)","GPSKet/operator/hamiltonian/ab_initio.py")],
 ["netket.vqs.get_local_kernel"])
p("C05","Sparse and localised ab-initio local energies equal the dense Hamiltonian",
 "For every sample and wavefunction the local energy of the sparse ab-initio operator equals that of the dense second-quantised Hamiltonian defined by the same integrals, whatever the pattern of zeros in the integrals. The result does not depend on fast updates, batch or chunk size.",
 ["inputs","configurations"],"all sparsity patterns within the bound, all nonzero integral values, samples and wavefunction values",
 "No test; the sparse enumeration has separate code per spin channel and index-coincidence case, each reached only by particular sparsity patterns.",
 ["GPSKet/operator/hamiltonian/ab_initio_sparse.py"],
 [("sparse local_en_on_the_fly","GPSKet/operator/hamiltonian/ab_initio_sparse.py"),("non-zero integral tables","GPSKet/operator/hamiltonian/ab_initio_sparse.py")],
 ["netket.vqs.get_local_kernel"])
p("C06","Sampled reduced density matrices reproduce the local energy linearly",
 "For every sample, the local one- and two-body density-matrix estimators returned with the ab-initio local energy satisfy E_loc = sum(t * t_RDM) + sum(eri * eri_RDM) for all integrals, and the energy returned with them equals the one returned without them. The estimators do not depend on the integrals.",
 ["inputs"],"all samples of the sector, all integrals, all wavefunction values",
 "No test requests the density matrices at all.",
 ["GPSKet/operator/hamiltonian/ab_initio.py"],
 [("return_local_RDMs branch","GPSKet/operator/hamiltonian/ab_initio.py")])
p("C07","Heisenberg / J1-J2 local energies equal the spin Hamiltonian row",
 "For every spin configuration and wavefunction, the on-the-fly Heisenberg/J1-J2 local energy equals the row of sum_e J_e (S_i.S_j) (in the library's normalisation and with the Marshall sign rule where requested) applied to psi, for every bond list and coupling. The J1-J2 constructor builds nearest- and next-nearest-neighbour bonds with the requested couplings and boundary conditions, and the on-the-fly operator has the same matrix as the plain one.",
 ["inputs","configurations"],"all spin configurations, bonds, couplings, sign-rule choices, wavefunction values",
 "No test constructs these Hamiltonians.",
 ["GPSKet/operator/hamiltonian/J1J2.py"],
 [("local_en_on_the_fly","GPSKet/operator/hamiltonian/J1J2.py"),("get_J1_J2_Hamiltonian","GPSKet/operator/hamiltonian/J1J2.py")])
p("C08","ASEP operator is the (tilted) Markov generator it documents",
 "For all rates and system sizes the ASEP operator's matrix has exactly the exchange, injection and removal rates of the asymmetric exclusion process off the diagonal (weighted by exp(+-lambda) on current-carrying moves) and minus the escape rates on the diagonal, so that probability is conserved at lambda = 0. Its hermiticity flag is true only if the matrix is symmetric.",
 ["inputs","configurations"],"all rates, lambda, and sizes within the bound",
 "No test builds the operator.",
 ["GPSKet/operator/hamiltonian/asep.py","GPSKet/operator/asep.py"],
 [("AsymmetricSimpleExclusionProcess","GPSKet/operator/hamiltonian/asep.py")])
p("C09","qGPS fast updates equal full evaluation",
 "For the qGPS and plaquette-qGPS models, updating a cached configuration at any set of sites gives the same amplitude as evaluating the new configuration from scratch, including sites listed twice with a neutral second entry, any symmetry group, batches, and any chain of cached updates. Real and complex parameters behave alike.",
 ["inputs","histories"],"all parameters (nonzero entries), configurations, update sites, new occupancies, chains of updates",
 "Fast updates of these models are not tested; an error changes energies and sampling silently.",
 ["GPSKet/models/qGPS.py","GPSKet/models/plaquetteqGPS.py"],
 [("inner/outer_site_product_update","GPSKet/models/qGPS.py"),("cached sample update","GPSKet/models/qGPS.py"),("plaquette update","GPSKet/models/plaquetteqGPS.py")],["model.apply(update_sites=...)"])
p("C10","Slater determinant fast updates equal full evaluation",
 "For the Slater determinant model, the amplitude after moving electrons through a cached update equals (including its sign/phase) the amplitude computed from scratch, for any number of determinants, spin structure, spin rotations, symmetries, batches and both update modes. It stays so along any chain of cached updates.",
 ["inputs","histories"],"all orbitals with non-singular occupied submatrices, all configurations of the sector, all electron moves, chains of updates",
 "The single test of the determinants fails to run on the pinned stack; sign errors in the update depend on how many electrons are passed.",
 ["GPSKet/models/slater.py"],
 [("get_add_site_el_id_parity","GPSKet/models/slater.py"),("update_inverse (Woodbury + permutation)","GPSKet/models/slater.py")])
p("C11","Backflow model fast updates equal full evaluation",
 "For the CPD backflow model, evaluating a configuration through a cached update at any sites gives the same amplitude as evaluating it from scratch, including repeated update sites with a neutral second entry, and along chains of cached updates.",
 ["inputs","histories"],"all parameters, configurations, moves, chains",
 "No test covers the backflow models.",
 ["GPSKet/models/cpd_backflow.py","GPSKet/models/backflow.py"],
 [("fast update of site products","GPSKet/models/cpd_backflow.py")])
p("C12","Autoregressive full-qGPS fast updates equal full evaluation",
 "For the fully correlated autoregressive qGPS model, updating a cached configuration at any sites gives the same amplitude (including zero amplitudes) as evaluating the new configuration from scratch, for constrained and unconstrained spaces, with and without symmetries, and along chains of cached updates.",
 ["inputs","histories"],"all parameters, configurations, update sites, chains of updates",
 "The tests for this model do not run on the pinned stack and only compared a handful of samples.",
 ["GPSKet/models/autoreg_qGPS_full.py"],
 [("update_sites branch","GPSKet/models/autoreg_qGPS_full.py")])
p("C13","Autoregressive models are normalised and causal",
 "For every parameter value, an autoregressive model's squared amplitudes sum to one over the configurations of its Hilbert space, and the conditional distribution of a site sums to one and depends only on the sites sampled before it. The one-site conditionals used for sampling agree with the conditionals evaluated for a whole configuration, and their product along a configuration is its squared amplitude.",
 ["inputs","configurations"],"all parameters, configurations, model variants (plain, plaquette, full; with and without normalisation by count constraint)",
 "Tests check a few random parameter draws of two models.",
 ["GPSKet/models/autoreg_qGPS.py","GPSKet/models/autoreg_plaquetteqGPS.py","GPSKet/models/autoreg_qGPS_full.py"],
 [("_normalize / conditionals","GPSKet/models/autoreg_qGPS.py"),("_conditional","GPSKet/models/autoreg_qGPS.py")])
p("C14","Autoregressive models respect the symmetry sector exactly",
 "On a Hilbert space with fixed magnetisation or fixed electron numbers, an autoregressive model gives zero amplitude to every configuration outside the sector and normalised amplitudes inside it; sampling from its conditionals can never leave the sector. On an unconstrained space no configuration is excluded.",
 ["inputs","configurations"],"all parameters and configurations, all sector sizes within the bound",
 "Tests sample a few draws for one filling.",
 ["GPSKet/models/autoreg_qGPS.py","GPSKet/models/autoreg_plaquetteqGPS.py","GPSKet/models/autoreg_qGPS_full.py"],
 [("count_spins / renormalize_log_psi","GPSKet/models/autoreg_qGPS.py")])
p("C15","Fermionic hopping proposals stay in the sector and report what changed",
 "Whatever the random draws, every configuration proposed by the fermionic hopping rule is a valid occupation string with exactly the same number of up and down electrons, differing from the old one by at most one electron hop, or one exchange of opposite spins between two singly occupied sites, along a pair of sites that the transition table allows. The reported update sites cover every changed site and carry the new occupancies.",
 ["inputs","schedules"],"all configurations, all outcomes of the random draws, all hop clusters",
 "No test exercises the rule; the failing draw may be rare.",
 ["GPSKet/sampler/rules/fermionic_hopping.py"],
 [("FermionicHoppingRule.transition","GPSKet/sampler/rules/fermionic_hopping.py")])
p("C16","Metropolis proposals are reversible (symmetric)",
 "The hopping rule reports no proposal correction, so for every pair of configurations the probability of proposing x' from x equals that of proposing x from x', for hops and exchanges, with and without a (symmetric, row-normalised) transition-probability table.",
 ["inputs","schedules"],"all configuration pairs and all distributions of the random draws",
 "Needs exact probabilities over all draws; a sampling bias is invisible to unit tests.",
 ["GPSKet/sampler/rules/fermionic_hopping.py"],
 [("transition returns log_prob_correction None","GPSKet/sampler/rules/fermionic_hopping.py")])
p("C17","Fast-update Metropolis keeps chain state, cache and probability consistent",
 "After any number of Metropolis steps with any accept/reject pattern over the chains, the fast-update sampler's stored log-probabilities and cached wavefunction data are those of the stored configurations, so its samples are the Metropolis chain defined by the drawn proposals and uniform numbers (accept iff u < |psi(x')/psi(x)|^p times the proposal correction), chain by chain. Rejected chains keep their configuration and acceptance counts are right.",
 ["histories","schedules"],"all random draws, accept/reject patterns over chains and sweeps",
 "No test drives the fast sampler; a cache that leaks between accepted and rejected chains only biases averages.",
 ["GPSKet/sampler/metropolis_fast.py"],
 [("accept/reject merge of caches","GPSKet/sampler/metropolis_fast.py")])
p("C18","Fermionic Hilbert space: constraint, enumeration and random states agree",
 "A fermionic Hilbert space with fixed electron numbers contains exactly the occupation strings with those up and down counts: the constraint, the enumerated states, their number, and every random state it generates agree, and every state of the sector can be generated, for every size and filling. Products and powers of spaces describe the correspondingly extended system.",
 ["inputs","schedules","configurations"],"all sizes/fillings within bounds, all random draws",
 "No test checks the Hilbert space.",
 ["GPSKet/hilbert/discrete_fermion.py","GPSKet/hilbert/random/discrete_fermion.py"],
 [("FermionicDiscreteHilbert","GPSKet/hilbert/discrete_fermion.py"),("random_state","GPSKet/hilbert/random/discrete_fermion.py")])
p("C19","Model amplitudes equal their defining formulas",
 "For every parameter and configuration the models evaluate what they define: Slater and backflow amplitudes are (sums of products of) determinants of the occupied orbital rows with up before down electrons in site order, Pfaffian amplitudes are Pfaffians, the Jastrow factor is the exponential of the pair sum, qGPS is the sum over support of site products, and composed models multiply their factors. Batches are evaluated elementwise.",
 ["inputs","configurations"],"all parameters and configurations within bounds",
 "Tests compare at most single random draws and most do not run on the pinned stack.",
 ["GPSKet/models/slater.py","GPSKet/models/jastrow.py","GPSKet/models/pfaffian.py","GPSKet/models/backflow.py","GPSKet/models/slater_jastrow.py","GPSKet/models/slater_qGPS.py","GPSKet/models/backflow_jastrow.py","GPSKet/models/asymm_qGPS.py","GPSKet/models/segmented_qGPS.py"],
 [("evaluate_SD","GPSKet/models/slater.py"),("Pfaffian","GPSKet/models/pfaffian.py"),("Jastrow","GPSKet/models/jastrow.py")])
p("C20","Symmetrised models are invariant under their symmetry group",
 "A spin-1/2 qGPS, plaquette-qGPS or autoregressive qGPS model given symmetry operations built by the library (lattice automorphisms and/or spin flip) has the same amplitude (for modulus-phase models: modulus) on all symmetry-equivalent configurations, for all parameters; and the inverse operations supplied for fast updates describe exactly the sites and occupancies that change in each transformed copy.",
 ["inputs","configurations"],"all parameters, configurations and group elements",
 "Tests check one lattice for a few models at random parameters.",
 ["GPSKet/models/qGPS.py","GPSKet/models/autoreg_qGPS.py"],
 [("get_sym_transformation_spin","GPSKet/models/qGPS.py")])
p("C21","SR/RMSProp update equals its defining linear system",
 "One step of stochastic reconfiguration with RMSProp regularisation accumulates the squared gradient with the stated decay and solves (S + shift * diag) dtheta = F with diag built from the accumulated gradient as documented, for every sample matrix, gradient and history. The geometric tensors are averages over the samples (weighted where the state weights them) and act identically through matrix-vector products, dense conversion and solves, in each Jacobian mode; the dense SR preconditioner returns the solution of its dense system.",
 ["inputs","histories"],"all Jacobians, gradients, accumulated moments, hyper-parameters",
 "Tests only compare a few runs to one another.",
 ["GPSKet/driver/VMC_SRRMSProp.py","GPSKet/optimizer/sr_rmsprop.py","GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py","GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py","GPSKet/optimizer/sr_dense.py","GPSKet/optimizer/solvers.py"],
 [("QGTJacobianDenseRMSProp","GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py"),("ema update","GPSKet/optimizer/sr_rmsprop.py")])
p("C22","Unique-sample states weight each configuration by its frequency",
 "A unique-samples Monte Carlo state draws batches until it holds the requested number of distinct configurations (or the allowed number of batches is spent), and stores every configuration it keeps exactly once with its relative frequency among the draws. Expectation values, energy gradients of Hermitian operators and the quantum geometric tensor it reports equal the plain averages over the multiset of draws it keeps, for every multiset of draws.",
 ["inputs","schedules"],"all multisets of sampled configurations, local energies and Jacobians",
 "No test covers this state.",
 ["GPSKet/vqs/mc/mc_state/state_unique_samples.py","GPSKet/vqs/mc/mc_state/expect.py","GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py"],
 [("relative counts","GPSKet/vqs/mc/mc_state/state_unique_samples.py"),("weighted expectation","GPSKet/vqs/mc/mc_state/expect.py")])
p("C23","PixelCNN and causal convolutions never look ahead",
 "The output of every causal convolution and of the PixelCNN conditionals at a site depends only on earlier sites in the autoregressive order, for all kernel sizes, weights and inputs, and the resulting wavefunction is normalised.",
 ["inputs","configurations"],"all weights, inputs, kernel sizes and lattices within bounds",
 "No test covers it; a leak of one pixel still trains.",
 ["GPSKet/nn/causal_conv.py","GPSKet/models/pixelcnn.py"],
 [("VerticalStackConv/HorizontalStackConv masks","GPSKet/nn/causal_conv.py")])
p("C24","Supervised qGPS learning predicts and fits what it defines",
 "In supervised qGPS learning the kernel-based prediction for any configuration equals the amplitude of the qGPS with the current site tensors, changing the reference site incrementally gives the same features as recomputing them, each weight update solves the stated (regularised, weighted) least-squares problem (for the generalised linear model: is a Newton step on its stated objective), and the precision and noise updates follow the evidence of that model, whose reported value and derivatives are those of the Gaussian marginal likelihood.",
 ["inputs","histories"],"all site tensors, configurations, targets, weights, precisions, noises, reference-site orders",
 "No test covers the supervised module.",
 ["GPSKet/supervised/supervised_qgps.py"],
 [("QGPSLearning kernel / reference-site update","GPSKet/supervised/supervised_qgps.py")])
p("C25","Direct sampling draws from the model's conditionals",
 "For every random number in [0,1), direct autoregressive sampling picks a local state of non-zero probability, each state being selected for a set of random numbers whose length is its probability, and every site is filled exactly once in order.",
 ["inputs","schedules"],"all random numbers and all conditional distributions",
 "Tests sample a few draws.",
 ["GPSKet/sampler/autoreg.py"],
 [("batch_choice","GPSKet/sampler/autoreg.py"),("sample chain scan","GPSKet/sampler/autoreg.py")])
p("C26","State fitting and imaginary-time targets are exact",
 "The imaginary-time target amplitude equals log(psi(x) (1 - tau E_loc(x))), also when steps are nested, without changing the original state. The state-fitting drivers draw mini-batches without replacement with probability proportional to |y|^2, report the loss they define and pass the optimiser its exact gradient, for all samples, amplitudes and parameters.",
 ["inputs"],"all amplitudes, samples, parameters",
 "No test covers these drivers.",
 ["GPSKet/supervised/imag_time_step.py","GPSKet/driver/autoreg_state_fitting.py","GPSKet/driver/abstract_state_fitting.py"],
 [("imag time step","GPSKet/supervised/imag_time_step.py"),("ARStateFitting loss","GPSKet/driver/autoreg_state_fitting.py")])
p("C27","minSR update equals the stochastic-reconfiguration solution",
 "The minSR driver's parameter update equals the regularised SR solution S^-1 F computed in sample space, with the centred, normalised Jacobian and local energies, for all samples and parameters, real or complex.",
 ["inputs"],"all Jacobians and local energies",
 "No test covers the driver.",
 ["GPSKet/driver/minSR.py"],[("minSR","GPSKet/driver/minSR.py")])
p("C28","Stratified states treat the deterministic set exactly, sample the rest",
 "A stratified-sampling Monte Carlo state combines the configurations of its deterministic set, each weighted by its exact probability up to the common norm, with samples restricted to the complement of that set, which share equally the complement's part of the norm (estimated from uniformly drawn complement configurations, from the samples themselves, or taken as one minus the deterministic part for normalised models). Expectation values and energy gradients equal the correspondingly weighted averages for every set, every draw and every amplitude, and sampled configurations never lie in the deterministic set.",
 ["inputs","schedules"],"all deterministic sets, draws, amplitudes and local energies",
 "No test covers this state; a configuration counted twice or a wrong weight only biases averages.",
 ["GPSKet/vqs/mc/mc_state/state_stratified_sampling.py"],
 [("stratified weights and expectation","GPSKet/vqs/mc/mc_state/state_stratified_sampling.py")])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
