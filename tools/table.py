GEN = "property-based testing: generated groups and representation expressions against a float64 reference model"
p("C01", "Solutions returned by the constraint solver are invariant under the whole group",
  "For every group and every representation expression over it (sums, products, powers, duals, multiples and maps, lazily "
  "or directly instantiated), every vector in the computed equivariant basis and every vector returned by the equivariant "
  "projector is fixed, up to rounding, by every element of the group: discrete generators, one-parameter subgroups and their products.",
  ["inputs", "programs"], "all groups shipped (any parameters), products, embeddings and user-defined generators; all representation expressions that fit in memory; all group elements",
  "The existing tests solve a fixed list of small tensors for a fixed list of groups and test one sampled element per case; a wrong constraint for one expression shape, generator kind or dual combination escapes.",
  [("constraint matrix from generators", REP + ":Rep.constraint_matrix"), ("null space solve", REP + ":orthogonal_complement"),
   ("solutions of direct sums from parts", SUM + ":SumRep.equivariant_basis"), ("projection", REP + ":Rep.equivariant_projector")],
  GEN, "Random and enumerated (group, expression) pairs up to size 64 (quick) / 216 (thorough); residuals against generators and random elements of an independent reference group.",
  ["Rep.equivariant_basis", "Rep.equivariant_projector"])
p("C02", "The equivariant basis is orthonormal and spans the whole invariant subspace",
  "For every group and representation expression the computed basis has exactly as many columns as the dimension of the invariant subspace of "
  "that representation, the columns are orthonormal (also for complex groups), and every invariant vector is a combination of them; nothing is dropped and nothing is counted twice.",
  ["inputs", "programs"], "all groups x all representation expressions",
  "Existing tests only compare the solver with itself (or check that solutions are invariant); a solver that silently loses solutions still passes every equivariance test.",
  [("rank decision and basis", REP + ":orthogonal_complement"), ("assembly of sums by multiplicity and permutation", SUM + ":SumRep.equivariant_basis"),
   ("mixed products", SUM + ":DirectProduct.equivariant_basis"), ("generators", GRP + ":Group")],
  GEN, "The exact null space is computed in float64 from independently written generators; rank, orthonormality and span are compared.",
  ["Rep.equivariant_basis"])
p("C03", "The equivariant projector projects orthogonally onto the invariant subspace",
  "For every representation expression the projector, applied to vectors, to matrices of columns and densified, is the orthogonal projection "
  "onto the invariant subspace: linear, idempotent, self-adjoint, the identity on every invariant vector and mapping any vector to the nearest invariant one.",
  ["inputs", "programs"], "all groups x all representation expressions x all vectors",
  "Tests never compare the projector with the projection; only one consequence (equivariance of one projected vector) is sampled.",
  [("projector from basis", REP + ":Rep.equivariant_projector"), ("projector of sums", SUM + ":SumRep.equivariant_projector"),
   ("projector of mixed products", SUM + ":DirectProduct.equivariant_projector"), ("lazy block diagonal", OPS + ":LazyDirectSum")],
  GEN, "Compared entrywise with B B^H of the exact reference solution space on random vectors, columns, matrices and densely.",
  ["Rep.equivariant_projector"])
p("C04", "The group action of an expression follows its algebra in the order written",
  "The matrix a representation expression assigns to a group element is block diagonal over summands, the Kronecker product over factors and the inverse transpose for duals, in the order "
  "in which the expression was written, and its size is the number of rows; the dense form, application to vectors and matrices, and mapping over a batch of group elements all agree.",
  ["inputs", "programs"], "all groups x all representation expressions x all group elements, dense or lazily represented",
  "Tests use the action itself as their oracle, so an order or duality mistake made consistently in action and solver is invisible.",
  [("rho of sums / products / duals", SUM + ":SumRep.rho, ProductRep.rho, DirectProduct.rho"), ("rho of base and dual", REP + ":Base.rho, Dual.rho"),
   ("permutation back from canonical order", SUM + ":SumRep.perm, ProductRep.reverse_perm"), ("lazy Kronecker / direct sum", OPS + ":LazyKron, LazyDirectSum")],
  GEN, "Entrywise comparison with an independent float64 evaluation for random elements, library samples and the lazily represented generators.",
  ["Rep.rho", "Rep.rho_dense", "Rep.size"])
p("C05", "The Lie algebra action is the derivative of the group action",
  "For every representation expression the action of a Lie algebra element is linear in it, block diagonal over summands, a Kronecker sum over factors and minus the transpose for duals, "
  "in the order written; exponentiating it gives the group action of the exponential, and lazy and dense forms agree on vectors and matrices.",
  ["inputs", "programs"], "all groups with a continuous part x all expressions x all algebra elements",
  "Tests never evaluate the algebra action directly; errors only show as missing or wrong solutions for some tensors.",
  [("drho of sums / products / duals", SUM + ":SumRep.drho, ProductRep.drho, DirectProduct.drho"), ("drho of base, dual and default derivative", REP + ":Rep.drho, Base.drho, Dual.drho"),
   ("lazy Kronecker sum", OPS + ":LazyKronsum")],
  GEN, "Entrywise comparison with an independent evaluation, plus exp(t drho(A)) = rho(exp(tA)).", ["Rep.drho", "Rep.drho_dense"])
p("C06", "Expressions mean the same however and whenever the group is supplied",
  "An expression written without a group and instantiated later, written directly over the group, or, where that is accepted, re-instantiated with another group, has the same size, action and solutions as if it had been written for that group, "
  "and the original is left untouched. Multiples, powers, integers as scalars, maps and duals satisfy their algebraic laws, and iterating, measuring and splitting a sum into its components is consistent with its layout.",
  ["inputs", "programs", "histories"], "all expressions x all pairs of groups",
  "Tests instantiate one expression style with one group; the deferred operator tree and the concrete one are separate code paths whose agreement is never tested.",
  [("operator overloading and integer shorthand", REP + ":Rep.__add__, __mul__, __pow__, __rshift__"), ("deferred sums and products", SUM + ":DeferredSumRep, DeferredProductRep"),
   ("splitting a sum", SUM + ":SumRep.as_dict, __iter__, __len__")],
  "property-based testing: metamorphic and differential relations between construction routes", "Two groups per case and all law instances on small expressions.", ["Rep.__call__", "SumRep.as_dict"])
p("C07", "Linear and multilinear map spaces contain exactly the equivariant maps",
  "Reshaped to (output, input) the solutions for a map between two representations commute with the group actions, and iterated maps give multilinear maps equivariant in every argument with the documented axis order; "
  "projecting any weight matrix yields such a map, and the number of independent solutions equals the dimension of the space of equivariant maps.",
  ["inputs", "programs"], "all groups x all input and output expressions, one to three inputs, either arrow direction",
  "Tests cover single maps between a handful of tensors; multilinear maps and mixed sums of inputs and outputs are not covered.",
  [("arrow operators", REP + ":Rep.__rshift__, __lshift__"), ("vectorisation order of products", SUM + ":ProductRep, SumRep")],
  GEN, "Contracts every (sampled) solution with transformed inputs; dimension compared with the reference.", ["Rep.equivariant_basis", "Rep.equivariant_projector"])
p("C08", "Representations and groups that compare equal are interchangeable",
  "Building the same group or expression twice gives equal objects with equal hashes that find each other in dictionaries; two groups or representations that compare equal have identical dimension and action, "
  "different groups are never equal, and canonicalising a representation returns a permutation relating its action to that of a canonical form shared by all equal expressions.",
  ["inputs", "programs"], "all pairs of groups and of representation expressions",
  "Equality and hashing decide which cached solution is reused; tests never compare representations or groups pairwise.",
  [("group names and identity", GRP + ":Group.__init__, __eq__, __hash__"), ("equality of reps", SUM + ":SumRep.__eq__, ProductRep.__eq__, DirectProduct.__eq__"),
   ("canonical forms", SUM + ":SumRep.compute_canonical, ProductRep.compute_canonical")],
  "property-based testing: equivalence-relation laws and reference comparison over generated pairs", "Pairs of expressions and all pairs of shipped groups.", ["Rep.__eq__", "Rep.__hash__", "Rep.canonicalize"])
p("C09", "Results do not depend on what was computed before",
  "For any history of solving, projecting, sampling, combining, gating and building layers in one process, the solution spaces, projections, sizes and actions of a group and expression are those a fresh process would compute: "
  "caches are never shared between different groups or expressions, and shared objects such as the global vector and scalar representations are never modified.",
  ["histories"], "all sequences of library operations on any set of groups and representations",
  "Solved bases are cached process-wide by equality of representations; each test solves few objects, and no test solves colliding ones in both orders.",
  [("solution cache", REP + ":Rep.solcache"), ("cache keys", GRP + ":Group.__hash__; " + SUM + ":SumRep.__hash__"), ("shared singletons", REP + ":V, Scalar, T")],
  "stateful property-based testing: random operation histories against a history-free reference model", "Histories of up to 8 (quick) / 12 (thorough) operations, in one long-lived process per shard.",
  ["Rep.equivariant_basis"], [("solcache", "class-level dictionary from canonical representation to basis", REP + ":Rep.solcache")])
p("C10", "Lazy linear operators behave like the matrices they stand for",
  "Any expression built from lazy operators and arrays by sums, scalar multiples, products, integer powers, negation, transposes, adjoints and inverse transposes has the shape, the dense form and the action on vectors "
  "and on matrices (alone and under jit) of the same expression over matrices, including rectangular, complex, scalar-weighted and zero-dimensional operands.",
  ["programs", "inputs"], "all operator expressions of compatible shapes, all operands",
  "Transposes, adjoints and inverses are implemented per operator class; tests only reach the compositions the solver happens to use.",
  [("operator algebra", OPB + ":LinearOperator.__add__, __mul__, __matmul__, __pow__, adjoint, transpose, invT"), ("wrappers", OPB + ":_SumLinearOperator, _ProductLinearOperator, _ScaledLinearOperator, _PowerLinearOperator"),
   ("lazify / densify", OPS + ":lazify, densify")],
  "property-based testing: generated operator expression trees against numpy evaluation", "Trees of depth up to 4; every node kind appears in the label distribution.", ["LinearOperator @ x", "to_dense"])
p("C11", "Structured operators equal the dense matrices they abbreviate",
  "Kronecker products, Kronecker sums, block-diagonal sums with multiplicities, concatenations, permutations, shifts, swaps, rotations and Jacobian-vector operators, with their transposes, adjoints, inverses and "
  "traces where defined, equal the explicitly constructed matrix densely and applied to vectors and matrices, for any block sizes and multiplicities.",
  ["inputs"], "all block sizes, multiplicities, dtypes and nestings",
  "Tests exercise these operators only through solved bases, with square equal-size blocks.",
  [("structured operators", OPS + ":LazyKron, LazyKronsum, LazyDirectSum, ConcatLazy, LazyPerm, LazyShift, SwapMatrix, Rot90, LazyJVP"), ("block application", OPS + ":lazy_direct_matmat, kronsum, lazy_kronsum_matmat")],
  "property-based testing: each structured operator against an explicit numpy construction", "Random and enumerated shapes, including empty, rectangular and complex blocks.", ["matmat", "matvec", "to_dense"])
p("C12", "Every group has the generators of the group its name and arguments denote",
  "The Lie algebra and discrete generators of each shipped group, for any valid parameters, its direct products and its embeddings generate exactly that group: "
  "right dimension of the algebra, right order or number of components, and every generator satisfies the defining equations.",
  ["inputs"], "all shipped groups and parameters, products, embeddings",
  "Tests check equivariance with respect to whatever generators the library uses, so a wrong or missing generator is invisible.",
  [("group definitions", GRP + ":SO, O, S, Z, D, C, Sp, SL, GL, U, SU, SO13, O13, Lorentz, RubiksCube, Cube, ..."), ("products and embeddings", GRP + ":DirectProduct, Embed")],
  "property-based testing: generated parameters against independently stated defining equations, dimensions and group orders", "Lie closure dimension, finite closure order (up to the Rubik's cube group via Schreier-Sims).", ["Group.lie_algebra", "Group.discrete_generators"])
p("C13", "Sampled elements belong to the group and reach all of it",
  "For every group, sample and samples return finite matrices of the documented shape that lie in the group, for any number of samples; over repeated draws every discrete generator and every connected component "
  "is reached and the samples are not confined to a proper subgroup, and resampling advances the random state.",
  ["inputs", "histories"], "all groups, all sample counts, all states of the random generator",
  "One sample per test, checked only through equivariance of objects that were built for the same group.",
  [("sampling", GRP + ":Group.sample, samples, noise2sample, noise2samples"), ("matrix power", GRP + ":matrix_power_simple")],
  "property-based testing: statistical and algebraic oracles over generated groups", "Membership by defining equations; coverage of components and of the algebra over batches of samples.", ["Group.samples"])
p("C14", "Orthogonality and permutation flags of a group are true exactly when they hold",
  "A group reports itself orthogonal exactly when all its elements preserve the standard inner product and a permutation group exactly when all its elements are permutation matrices, "
  "for shipped groups, products, embeddings and user-defined generators given densely or lazily; duals are simplified and gates omitted only on that basis.",
  ["inputs"], "all groups incl. user-defined ones",
  "The flags are inferred by sampling generators in the constructor; a wrong flag changes duals and gates for one group only.",
  [("inference of the flags", GRP + ":Group.__init__"), ("use in duals", REP + ":Rep.T")],
  "property-based testing: differential check against the reference group's generators", "All shipped groups and random user groups.", ["Group.is_orthogonal", "Group.is_permutation"])
p("C15", "Representations that mix several groups act and solve group by group",
  "Sums and products of representations of different groups take one element per group; their size, action, algebra action and equivariant solutions are those of the direct product group, "
  "in the order the expression was written, whichever way the groups are interleaved, and the projector is the orthogonal projection onto the vectors fixed by every group.",
  ["inputs", "programs"], "all combinations of groups and mixed expressions",
  "Tests contain two fixed mixed products; interleaved factors, maps and sums over several groups are not covered.",
  [("product of different groups", SUM + ":DirectProduct"), ("factorised solutions", SUM + ":DirectProduct.equivariant_basis, equivariant_projector"), ("sums", SUM + ":SumRep")],
  GEN, "Two or three groups, expressions up to size 72 (quick).", ["Rep.rho", "Rep.equivariant_basis", "Rep.equivariant_projector"])
p("C16", "User-defined groups and representations work like the built-in ones",
  "A group defined by its generators and a representation defined by its action (and optionally its Lie algebra action) can be summed, multiplied, dualised, raised to powers, mapped and mixed with built-in representations, and then has the size, action, "
  "derivative, equivariant basis and projector of the representation it stands for; the default derivative of a group action is its exact derivative at the identity, for real, complex and lazily given generators.",
  ["inputs", "programs"], "all user-defined matrix groups and matrix representations of them",
  "Tests and documentation contain a few concrete custom groups and reps; combinations with the rest of the algebra are not covered.",
  [("default derivative and action", REP + ":Rep.rho, Rep.drho, Base, Dual"), ("group from generators", GRP + ":Group.__init__"), ("ordering and equality of foreign reps", SUM + ":SumRep, ProductRep")],
  GEN, "Permutation, sign, symmetric and alternating square, conjugation and power representations in random expressions over random groups.",
  ["Rep.rho", "Rep.drho", "Rep.equivariant_basis"])
p("C17", "Representations too large for an exact decomposition are solved correctly",
  "For a representation whose constraints are too large for a singular value decomposition the iterative solver returns, up to its tolerance, an orthonormal basis of exactly the solution space, however many solutions there are, "
  "for real and complex constraints in any lazy form; it may announce that it did not converge, but never returns too few, too many or wrong solutions.",
  ["inputs", "sizes"], "all consistent linear constraints with a spectral gap; all large representations of groups",
  "The tests contain a handful of small representations, all solved by the exact decomposition; large ones take too long for a unit test, and solutions lost at the rank limit of one iteration are silent.",
  [("iterative solver", REP + ":krylov_constraint_solve, krylov_constraint_solve_upto_r"), ("choice of the solver and reuse of results", REP + ":Rep.equivariant_basis"), ("lazy constraints", OPS + ":ConcatLazy, LazyKron, LazyKronsum")],
  "property-based testing: systems with a prescribed null space, and large representations of generated monomial groups against orbit enumeration (reference model)",
  "Systems up to 100 unknowns, tensors up to 8200 components; badly conditioned systems are outside the domain.", ["Rep.equivariant_basis", "krylov_constraint_solve"])
p("C18", "An equivariant linear layer is an affine map projected onto equivariant ones",
  "For any input and output representation and any parameters the linear layer of each framework computes W x + b with W and b the orthogonal projections of its parameters onto the equivariant matrices and invariant vectors: "
  "it is equivariant and can represent every equivariant affine map. Batches of any shape give the same result as single inputs, eagerly and compiled.",
  ["inputs", "programs"], "all real groups x all pairs of expressions x all parameters x all batch shapes x all frameworks",
  "Tests check equivariance of a few random layers at initialisation; a layer that loses part of the equivariant maps, or fails for batches, is still equivariant.",
  [("linear layers", OBJ + ":Linear"), ("flax", FLX + ":_Linear"), ("haiku", HKU + ":Linear"), ("torch", PYT + ":Linear, torchify_fn")],
  "property-based testing: generated layers with random parameters against the exact projection (reference model)", "Matrix and offset of the layer are read off from its outputs on the unit vectors.", ["Linear.__call__"])
p("C19", "Bilinear layers apply equivariant matrices built from the input itself",
  "A bilinear layer computes c W(x) x where W depends linearly on the parameters and on the input and maps the input to the output representation equivariantly: the output is quadratic in the input, linear in the parameters, "
  "transforms with the group for any parameters, and each of the advertised number of parameters acts on the right block. It agrees over batches, under jit and between frameworks, and a zero input or parameter vector gives zero.",
  ["inputs", "programs"], "all groups x all input and output direct sums x all parameters x all batch shapes",
  "Tests only run the layer inside a network at initialisation, where a bilinear term that is wrong or missing is scaled down by a factor of ten.",
  [("bilinear weights", OBJ + ":BiLinear"), ("construction of the parametrised matrix", "emlp/nn/objax.py:bilinear_weights"), ("flax", FLX + ":_BiLinear"), ("haiku", HKU + ":BiLinear"), ("torch", PYT + ":BiLinear")],
  "property-based testing: algebraic relations (homogeneity, linearity, equivariance) and a reference count of coefficients", "Random direct sums, single representations and mixed groups; parameters randomised.", ["BiLinear.__call__"])
p("C20", "Gated nonlinearities gate each block by its own scalar and keep equivariance",
  "The gated form of a representation has one extra scalar for each block that is not regular and none otherwise, and the gated nonlinearity returns, in the layout of the original representation, every regular scalar or permutation block through swish "
  "and every other block multiplied by the sigmoid of its own gate; the map is equivariant, for single representations and sums, any order of blocks and any batch shape.",
  ["inputs", "programs"], "all groups x all hidden representations x all batch shapes",
  "A gate attached to the wrong block is still equivariant, so no equivariance test can see it.",
  [("gate layout", OBJ + ":gated, gate_indices"), ("nonlinearity", OBJ + ":GatedNonlinearity"), ("flax", FLX + ":_GatedNonlinearity"), ("haiku", HKU + ":GatedNonlinearity"), ("torch", PYT + ":GatedNonlinearity")],
  "property-based testing: generated representations against an independent blockwise oracle", "Gate to block assignment checked exactly for every block of random expressions up to size 40 (quick).", ["GatedNonlinearity.__call__", "gated"])
p("C21", "EMLP networks are equivariant end to end, for any configuration and parameters",
  "An EMLP built with any group, input and output representation, hidden width or explicit hidden representations and number of layers, in any framework, commutes with the group for arbitrary parameter values, not only at initialisation, "
  "returns the size of the output representation for any batch shape, and is deterministic; MLP baselines have the shapes they declare.",
  ["inputs", "programs"], "all groups x input/output reps x widths x depths x parameters x frameworks",
  "Tests check a few fixed configurations at initialisation, where a small non-equivariant term hides in the tolerance.",
  [("networks", OBJ + ":EMLP, EMLPBlock, MLP, uniform_rep"), ("flax", FLX + ":EMLP"), ("haiku", HKU + ":EMLP"), ("torch", PYT + ":EMLP")],
  "property-based testing: metamorphic relation (transform then apply = apply then transform) over generated configurations", "Parameters are overwritten with random values of order one before testing.", ["EMLP.__call__"])
p("C22", "All frameworks compute the same function and gradients from the same parameters",
  "Given the same parameters, the objax, flax, haiku and torch versions of a layer or network return the same outputs, the same gradients with respect to parameters and input, and list the same parameters with the same shapes, "
  "in eager and compiled execution.",
  ["inputs", "programs"], "all layers and networks x all parameters x all inputs",
  "Each framework is only tested on its own for equivariance; a port that differs from the original (a dropped bias, bilinear scale, or a cut gradient) is still equivariant.",
  [("objax", OBJ + ":EMLP"), ("flax", FLX + ":EMLP"), ("haiku", HKU + ":EMLP"), ("torch", PYT + ":EMLP, torchify_fn")],
  "property-based testing: differential testing of the four implementations", "Parameters are copied by role between frameworks; objax is the reference for outputs and gradients.", ["EMLP.__call__", "gradients"])
p("C23", "Automatic channel allocation uses exactly the channels asked for",
  "For any group and number of channels the automatically chosen hidden representation has exactly that many channels, consists of tensors of that group in canonical order, and spreads them over ranks as documented: "
  "repeatedly the same number of channels for every rank up to the largest that fits, with the types of a rank shared out binomially and every type reachable. Shared objects such as the global vector representation are not modified.",
  ["inputs", "histories"], "all groups x all channel counts x all states of the random generator",
  "Tests use a few widths for a few groups and only through the equivariance of the resulting network, which holds for any allocation, including one with wrong or missing channels.",
  [("allocation", OBJ + ":uniform_rep, lambertW, binomial_allocation"), ("sums from dictionaries", SUM + ":SumRep")],
  "property-based testing: generated groups and widths against an independent model of the allocation", "Widths up to 900 (quick) / 5000 (thorough), enumerated around the points where a further rank starts to fit.",
  ["uniform_rep"])
p("C24", "Vector field and Hamiltonian models keep their symmetry for any parameters",
  "The ODE model is an equivariant, time independent vector field, and the Hamiltonian model an invariant scalar that on a batch is the sum over its members and whose gradient matches its differences, is taken member by member and transforms with the dual representation, "
  "for any group, representation, hidden configuration and parameters. Each computes the same function as the plain network with the same parameters, as do the non-equivariant baselines.",
  ["inputs", "programs"], "all groups x representations x hidden configurations x parameters x batch shapes",
  "These models are not covered by the tests at all; the examples only plot their training curves.",
  [("vector field", OBJ + ":EMLPode, MLPode"), ("Hamiltonian", OBJ + ":EMLPH, MLPH")],
  "property-based testing: metamorphic and differential relations over generated models", "Parameters of order one; gradients against differences and against transformed inputs.", ["EMLPode.__call__", "EMLPH.__call__"])
p("C25", "Built-in datasets have the symmetry they declare and correct targets",
  "For any number of samples and parameters the targets of every built-in dataset are the documented function of the stored inputs, the declared symmetry acting by the declared representations maps inputs and targets onto each other, and the standardisation statistics fit the data and commute with that action. "
  "In the cube sets each label says whether the state is reachable from the solved one.",
  ["inputs", "histories"], "all datasets x sizes x parameters x random states",
  "Tests build each regression set once and never look at its targets, statistics or labels.",
  [("inertia", DAT + ":Inertia"), ("synthetic O(5)", DAT + ":O5Synthetic"), ("particle scattering", DAT + ":ParticleInteraction"),
   ("cubes", DAT + ":InvertedCube, BrokenRubiksCube")],
  "property-based testing: independent float64 formulas, the declared symmetry as metamorphic relation, group membership by Schreier-Sims", "All samples of each generated dataset are checked.", ["Dataset.__getitem__", "Dataset.symmetry", "Dataset.stats"])
p("C26", "Standardisation, augmentation and equivariance error do what they declare",
  "Wrapping a model in standardisation computes exactly its conjugation with the given statistics and keeps equivariance when these commute with the group; group augmentation applies one random group element per sample to inputs and its inverse to outputs while training and nothing otherwise, so it leaves equivariant models unchanged. "
  "The equivariance error vanishes for equivariant matrices and is clearly positive, and at most one, for matrices without an equivariant part.",
  ["inputs", "histories"], "all models x groups x representations x statistics x batches x random states",
  "Tests run these helpers on equivariant models with trivial or matching statistics, where wrong elements, a missing inverse or a statistic applied twice cancel out.",
  [("standardisation", OBJ + ":Standardize"), ("torch standardisation", PYT + ":Standardize"), ("augmentation", DAT + ":GroupAugmentation"),
   ("error measure", REP + ":equivariance_error")],
  "property-based testing: recorded calls of generated models against the definition", "Random non-equivariant probe models record what they are given; elements are recovered from the inputs and checked for membership.",
  ["Standardize.__call__", "GroupAugmentation.__call__"])
p("C27", "Torch wrappers of jax functions return the same values and gradients",
  "For any smooth jax function of any trees of tensors, the torch version returns the same output tree and values, and backpropagation gives every input that requires one exactly the gradient jax computes, for any subset of the inputs and outputs used, "
  "including strided, scalar, empty and integer tensors, plain numbers and functions that are compiled or called again with other shapes. Inputs are never modified and gradients accumulate.",
  ["inputs", "programs", "histories"], "all argument and output trees x functions x subsets requiring gradients",
  "Tests run a forward pass and check equivariance; no test looks at a gradient.",
  [("conversion", PYT + ":torchify_fn, to_jax, to_pytorch, _convert"), ("autograd function", PYT + ":torchify_fn")],
  "property-based testing: differential testing against jax autodiff over generated pytrees", "Trees of depth up to 3 with up to three arguments; first derivatives on the CPU.", ["torchify_fn", "Tensor.grad"])
p("C28", "Hamiltonian dynamics, rollouts and trajectory data are consistent",
  "The Hamiltonian flow of any smooth Hamiltonian follows J grad H member by member from the initial condition, conserves energy and composes over time; generated trajectory datasets have chunks whose states are the flow of their first state at the times listed, for any chunk length, step and horizon, "
  "and are returned unchanged from the cache unless regenerated. The declared symmetry leaves the true Hamiltonian invariant, and rollout metrics vanish exactly for the true model.",
  ["inputs", "histories"], "all smooth Hamiltonians x initial conditions x times x dataset parameters x cache states",
  "There are no tests of the dynamics code.",
  [("dynamics", HAM + ":hamiltonian_dynamics, HamiltonianFlow, BHamiltonianFlow, BOdeFlow, symplectic_form"), ("datasets", HAM + ":HamiltonianDataset, DoubleSpringPendulum"),
   ("metrics", HAM + ":IntegratedDynamicsTrainer, IntegratedODETrainer")],
  "property-based testing: generated Hamiltonians against an independent integrator and the matrix exponential", "Up to three degrees of freedom, 15 chunks; caches live in a scratch directory.", ["BHamiltonianFlow", "HamiltonianDataset"])
