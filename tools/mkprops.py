import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
B="quantum_systems/basis_set.py"; S="quantum_systems/system.py"; G="quantum_systems/general_orbital_system.py"; SP="quantum_systems/spatial_orbital_system.py"
T="quantum_systems/time_evolution_operators/operator.py"; H="quantum_systems/system_helper.py"
D2="quantum_systems/quantum_dots/two_dim/two_dim_helper.py"; D2S="quantum_systems/quantum_dots/two_dim/two_dim_ho.py"; CE="quantum_systems/quantum_dots/two_dim/coulomb_elements.py"
OD="quantum_systems/quantum_dots/one_dim/one_dim_qd.py"; OP="quantum_systems/quantum_dots/one_dim/one_dim_potentials.py"; DV="quantum_systems/sinc_dvr/one_dim/sinc_dvr.py"

p("C01","Sizes and occupied/virtual partition always agree with the stored arrays",
"After any sequence of construction, spin doubling, basis changes (including ones that shrink or enlarge the basis), copies and re-sizing, the basis-set size equals the length of every axis of every stored operator and of the first axis of the single-particle functions. For every quantum system the number of occupied functions n, the size l and the number of virtual functions m satisfy m = l - n, the occupied slice is exactly 0..n, the virtual slice exactly n..l, and l is the size of the underlying basis set. A closed-shell (spatial-orbital) system built for N particles has n = N/2, and the general-orbital system derived from it has n = N and twice the size.",
["histories","inputs"],"every history of public operations on basis sets and systems, every particle number 0 <= n <= l, every basis size and every shape of coefficient matrix",
"The tests check l after one doubling or one basis change at one size (10); they never check m, the slices, spin matrices or the sizes after a longer history.",
[B,S,G,SP],[("set_system_size",S+":29"),("change_basis size update",B+" change_basis"),("axis checks in setters",B)],
[("l","number of basis functions",B),("n, m, o, v","occupied/virtual partition",S)],["system.l/n/m/o/v","array shapes"])

p("C02","A basis change transforms every stored quantity covariantly",
"Changing the basis with coefficients C (and bra coefficients C~, by default the Hermitian adjoint of C) replaces every stored one-body quantity X (one-body Hamiltonian, overlap, each dipole component, the spin matrices) by C~ X C, every two-body quantity by the four-index transformation with C~ on the two bra indices and C on the two ket indices, ket functions by the C-combinations and bra functions by the C~-combinations. This holds for complex, non-unitary, bi-orthogonal and rectangular C, for basis sets with any subset of optional quantities, on spatial and on spin-doubled basis sets, through the basis set or a system; two successive changes equal the single change with the product matrices. Nothing else (nuclear repulsion, grid, spin/anti-symmetry status) changes, and the helper functions that return transformed elements give the same numbers without modifying anything.",
["inputs","histories"],"all coefficient matrices C, C~ of any shape, all element values, all histories of preceding operations",
"Tests transform only h and u once with C~ = C^dagger at l=10; dipole, overlap, spin matrices, bra/ket functions, C~ != C^dagger and repeated changes are never compared.",
[B,S,DV],[("change_basis",B),("transform_one_body_elements / transform_two_body_elements / transform_spf / transform_bra_spf",B),("QuantumSystem.change_basis, transform_*",S)],
None,["h, s, u, dipole_moment, spin_*, spf, bra_spf before and after the call"])

p("C03","Spin doubling duplicates every orbital with alternating spin",
"Converting a spatial basis to general spin-orbitals yields twice as many functions where orbital p becomes spin-orbitals 2p (up) and 2p+1 (down): one-body elements (Hamiltonian, overlap, every dipole component) are the spatial ones times equality of spin, two-body elements are the spatial ones times spin equality of index pairs (1,3) and (2,4), and ket and (if present) bra functions are repeated. The basis then reports that it includes spin, its elements are complex-typed, and the nuclear repulsion energy and grid are unchanged. Requesting the conversion of a basis that already includes spin changes nothing.",
["inputs","histories"],"all element values, real or complex, sizes, dimensions, subsets of optional quantities, preceding histories, and repeated conversion requests",
"The helper tests check the static one- and two-body helpers for one size and real random data; the in-place conversion as a whole, the dipole, bra functions, repeated conversion and the optional-quantity combinations are not tested.",
[B,G,SP],[("change_to_general_orbital_basis",B),("add_spin_one_body/add_spin_two_body/add_spin_spf/add_spin_bra_spf",B),("GeneralOrbitalSystem.__init__",G)])

p("C04","Two-body elements are anti-symmetrised exactly when asked and at most once",
"Anti-symmetrisation replaces the two-body elements by u[pqrs] - u[pqsr] (and the two-body part of S^2 likewise), and is performed exactly once no matter how often or through which entry point (basis set, system construction, conversion with or without the option) it is requested. The basis's anti-symmetry status is true exactly when that has happened (or the basis was declared anti-symmetrised when created) and survives basis changes, copies and conversions. Whenever the status is true for an exchange-symmetric interaction, u[pqrs] = -u[pqsr] = -u[qprs] = u[qpsr].",
["histories","inputs"],"every history mixing conversion, explicit anti-symmetrisation, system construction with either option, basis changes and copies",
"Tests anti-symmetrise once through one path; no test requests it twice, uses the option off, or looks at the status flag.",
[B,G,DV],[("anti_symmetrize_two_body_elements",B),("_anti_symmetrized_u flag",B),("GeneralOrbitalSystem.__init__",G)],
[("anti_symmetrized_u","whether u is anti-symmetrised",B)])

p("C05","Spin operators form a spin-1/2 algebra for every orthonormal spin basis",
"For every orthonormal pair of spin functions (complex ones included) the Pauli matrices handed out are the matrix elements of the Pauli operators in that pair, so they are Hermitian, traceless, square to one and satisfy [sx, sy] = 2i sz cyclically. The spin matrices of a spin-doubled basis are the spatial overlap times half the Pauli matrices, the one-body part of S^2 is 3/4 of the spin-orbital overlap (also for non-orthonormal orbitals) and its two-body part is the sum over directions of S_i[pr] S_i[qs], anti-symmetrised if and only if the interaction is.",
["inputs"],"all orthonormal complex spin pairs, all overlap matrices and sizes",
"Tests use only the default spin basis (one doctest and random overlaps), and check S^2 only for one orthonormal molecule.",
[B],[("setup_pauli_matrices",B),("setup_spin_squared_operator",B),("change_to_general_orbital_basis",B)])

p("C06","Reference energy and Fock matrix follow the stored Hamiltonian",
"The reference energy of a closed-shell system is 2 h[ii] + 2 u[ijij] - u[ijji] over occupied i, j, and of a general-orbital system h[ii] + u[ijij]/2; the Fock matrix is h[pq] + 2 u[piqi] - u[piiq], respectively h[pq] + u[piqi], for whatever elements are passed in. A general-orbital system built with anti-symmetrisation from a closed-shell system has the same reference energy and a spin-doubled Fock matrix, and neither the input elements nor the system are modified; a caller-supplied output array is filled completely regardless of its previous contents. Both follow every earlier basis change, and the energy is unchanged by unitary mixing among occupied functions.",
["inputs","histories"],"all element values, all particle numbers from none to all occupied, all histories of basis changes and conversions",
"Only one helium energy is compared; the Fock matrix is never evaluated by any test.",
[G,SP,S],[("compute_reference_energy",G+", "+SP),("construct_fock_matrix",G+", "+SP)])

p("C07","Copies are equal to the original and completely independent of it",
"Copying a basis set or a system, or building a general-orbital system from a closed-shell one, gives an object with the same elements, sizes, status flags and array module, and leaves the original exactly as it was. Afterwards no operation on one of them - in-place writes to any array, basis changes, conversions, anti-symmetrisation, attaching time-dependent operators - is ever visible in the other. This holds for every kind of basis set, including ones carrying a potential object or an attached time-evolution operator, whose copy refers to the copied system and not to the original.",
["histories","inputs"],"all interleavings of operations on originals and copies, for all basis-set kinds and potentials",
"The only copy test writes one element of h of one system; other arrays, other basis kinds, time operators and later operations are not exercised.",
[B,S,SP,T],[("copy_basis",B),("copy_system",S),("construct_general_orbital_system",SP)])

p("C08","Time-dependent Hamiltonian is the static one plus exactly the attached operator",
"Without an attached operator h(t) and u(t) are the static elements at all times. With a laser field h(t) = h + E(t) * sum_k pol_k(t) * dipole_k (polarisation along the first axis by default), with a custom one-body operator h(t) = h + w(t) * O, with adiabatic switching u(t) = f(t) * u, the other part staying static, for constant as well as callable parameters and for every order and repetition of evaluation times. The has-one-body / has-two-body indicators match the attached operator, evaluation always uses the elements of the system that is asked, as they currently are (also after basis changes, after replacing or removing the operator, and when one operator serves several systems) and never modifies them.",
["histories","inputs"],"all times, pulses, polarisations, operators, dimensions and interleavings of evaluation with basis changes, copies, conversion and operator replacement",
"No test touches time-evolution operators at all.",
[T,S,SP],[("h_t/u_t",S),("LaserField, AdiabaticSwitching, CustomOneBodyOperator",T),("set_time_evolution_operator",S)])

p("C09","Particle density is the exact contraction of density matrix and functions",
"The particle density on the grid equals the sum over p, q of bra_p(r) * rho[q,p] * ket_q(r) for every (complex) density matrix, dimension and basis, where the bra functions are the conjugates of the kets unless set or transformed otherwise. Supplying coefficients C (and C~, default C^dagger) gives the density of the transformed functions, equal to what one gets after actually changing the basis, without modifying the basis set. System and basis set give the same answer.",
["inputs","histories"],"all density matrices, coefficient matrices, grids, dimensions and preceding histories, real and complex functions",
"No test computes a particle density.",
[H,B,S],[("compute_particle_density",H),("BasisSet.compute_particle_density",B),("bra_spf property",B)])

p("C10","Invalid requests are rejected and leave every object unchanged",
"Elements whose axes do not match the basis size (or dipoles/functions whose component or grid dimension count does not match the dimensionality), spin quantities on a basis without spin, more occupied functions than basis functions, an odd particle number or a spin-including basis for a closed-shell system, a non-orthonormal spin pair, and coefficient matrices that do not fit the basis (or leave fewer functions than occupied ones) are rejected with an exception. After a rejected request every object has the same observable state as before it, so that later valid requests behave as if it had never been made.",
["inputs","fault_sequences","histories"],"every kind of invalid argument, at every point of every history of valid operations",
"No test passes an invalid argument.",
[B,S,SP],[("asserting setters",B),("asserts in constructors and set_system_size",S+", "+SP),("orthonormality asserts",B)])

p("C11","Module conversion and complex casting preserve all values",
"Converting a basis set or system to an array module, or casting its elements to complex, keeps every element, size and status flag and the nuclear repulsion energy, leaves absent quantities absent, and afterwards every present quantity is an array of that module (complex-typed after a cast). The module in use is the same for a system and its basis set at all times, including after copying.",
["histories","inputs"],"all subsets of present quantities, dtypes, orders of operations",
"No test calls module conversion or the complex cast directly.",
[B,S,DV],[("change_module, cast_to_complex",B),("change_module, copy_system",S)])

p("C12","2D oscillator index and quantum numbers are mutually inverse and shell-ordered",
"The map from orbital index p to quantum numbers (n, m) and its inverse are mutually inverse for all p >= 0 and all (n >= 0, m), shells of equal energy 2n+|m|+1 = N are contiguous with exactly N members and ordered by increasing energy, and within a shell m increases. The one-body Hamiltonian of the 2D oscillator is diagonal with omega times that energy.",
["inputs"],"all indices and quantum numbers, all omega",
"Tests compare with a file of a few dozen indices.",
[D2,D2S],[("get_index_p, get_indices_nm",D2),("get_shell_energy, get_one_body_elements",D2),("TwoDimensionalHarmonicOscillator.setup_basis",D2S)])

p("C13","2D oscillator Coulomb elements are the exact Coulomb integrals",
"The Coulomb elements u[pqrs] of the two-dimensional oscillator basis equal the exact integrals of 1/r12 over the basis functions: they vanish unless m_p + m_q = m_r + m_s, are real, and satisfy u[pqrs] = u[qpsr] = u[rspq] and invariance under reversing the sign of all m. For oscillator frequency omega and mass they scale with sqrt(mass*omega), in the harmonic, double-well and magnetic-field (effective frequency) systems alike.",
["inputs","configurations"],"all quadruples of orbitals, frequencies and masses",
"Tests compare one table at omega = mass = 1 and one symmetry at l=12; scaling, mass and large angular momenta are not covered.",
[CE,D2,D2S],[("coulomb_ho",CE),("_get_coulomb_elements, get_coulomb_elements_B",D2),("setup_basis scaling",D2S)])

p("C14","The Coulomb-element cache is transparent, also across crashes and processes",
"With caching enabled the elements returned for any number of orbitals are the same as those computed without caching, whatever calls for the same or other sizes were made before by this or other processes, and whether or not a stored file is used. A process that dies, or fails to write (for example on a full disk), at any point while storing never makes a later or concurrent call fail or return different elements. With caching disabled no file is read or written; with caching enabled a completed computation is reused.",
["histories","crash_points","schedules","configurations"],"all histories of calls with different sizes and cache settings, all interleavings of concurrent processes, all crash points while storing",
"The caching test makes two sequential calls of one size in one process without crashes.",
[D2],[("get_coulomb_elements",D2)],[("tdho_coulomb_num_orbitals=<l>.npy","stored elements",D2)])

p("C15","2D oscillator functions and dipole elements match their quantum numbers",
"The single-particle functions of the 2D oscillator are the normalised Fock-Darwin functions of their quantum numbers (angular dependence exp(i m theta)) on the polar grid for the given mass and frequency. The dipole elements are the exact x and y matrix elements between those functions: nonzero only between neighbouring shells with |m_p - m_q| = 1, x real symmetric, y imaginary Hermitian, with magnitudes scaling as 1/sqrt(mass*omega). With a magnetic field the same holds with the effective frequency and the energy-sorted quantum numbers.",
["inputs","configurations"],"all orbital pairs, grid points, masses, frequencies and fields",
"One stored table of function values at omega=mass=1 is compared; the only test that compares dipole elements is failing.",
[D2,D2S],[("spf_state, spf_norm, spf_radial",D2),("radial_integral, theta_*_integral",D2),("construct_dipole_moment, setup_spf",D2S)])

p("C16","Magnetic-field basis holds the lowest states in energy order, used consistently",
"For every oscillator and cyclotron frequency the magnetic-field basis consists of the l lowest-energy states with energies Omega(2n+|m|+1) - omega_c m/2, Omega^2 = omega^2 + omega_c^2/4, sorted by energy and, where energies are exactly equal, by m. The one-body Hamiltonian, Coulomb elements, dipole elements and functions all refer to that same ordering; level numbers and degeneracies count distinct energies; and without field everything reduces to the plain oscillator.",
["configurations","inputs"],"all frequencies, fields and basis sizes",
"The only magnetic-field test that passes compares u at zero field for l=6.",
[D2,D2S],[("construct_dataframe, get_shell_energy_B, get_*_elements_B",D2),("TwoDimHarmonicOscB",D2S)])

p("C17","1D dot elements are consistent with its grid functions",
"For every potential, grid and interaction strength the one-dimensional dot's functions are the lowest eigenfunctions of the discretised Hamiltonian, orthonormal on the grid and zero at its ends, with the one-body Hamiltonian the diagonal of their ascending energies and unit overlap. Dipole elements (x + beta x^2) and two-body elements (shielded Coulomb alpha/sqrt((x1-x2)^2+a^2), bra indices 1,2 and ket indices 3,4) are the trapezoidal grid integrals over those same functions. The analytic harmonic-oscillator basis likewise consists of the Hermite functions with energies omega(n+1/2), the exact position elements as dipole and the same grid two-body integrals.",
["inputs","configurations"],"all potentials, grids, sizes and strengths",
"Tests compare four stored systems at a=0.25, alpha=1, beta=0; the analytic oscillator basis has one doctest for h[0,0].",
[OD],[("ODQD.setup_basis, construct_dipole_moment",OD),("ODHO.setup_basis",OD),("_compute_inner_integral, _compute_orbital_integrals, _shielded_coulomb",OD)])

p("C18","Sinc-DVR: compact and full interaction representations are interchangeable",
"A sinc-DVR basis has the sinc kinetic energy plus the potential on the diagonal, unit overlap, diagonal dipole x + beta x^2, sinc functions on the grid and an interaction that is nonzero only for p=r, q=s with the shielded Coulomb value at the two grid points. Switching between the compact (2d) and the full (4d) storage, at any time while the interaction is still of that diagonal form, represents the same interaction, and basis change, spin doubling, anti-symmetrisation and construction of systems give the same elements whichever storage was in use.",
["inputs","histories","configurations"],"all sizes, potentials, strengths, coefficient matrices and histories of representation switches, conversions and basis changes",
"No test touches the sinc-DVR basis.",
[DV],[("setup_basis, construct_coulomb_elements",DV),("set_u_repr, u_repr",DV),("transform_two_body_elements, add_spin_two_body, anti_symmetrize_u, change_to_general_orbital_basis",DV)])

p("C19","1D potentials evaluate their formula and their exact derivative",
"Every one-dimensional potential (harmonic, double well, smooth, symmetric and asymmetric double well, Gaussian, hard-wall Gaussian, soft atomic) evaluates its documented formula for all parameters and points, element-wise on arrays, and where a derivative is provided it is the exact derivative of that formula (at the kink of the double well, the mean of both sides).",
["inputs"],"all parameter values and points",
"Potentials are only exercised indirectly through four stored systems; no test evaluates a derivative.",
[OP],[("__call__, derivative",OP)])

p("C20","Sampling collects every sampler's data exactly once and stores what it returns",
"Each sampling request calls every registered sampler exactly once with that step, in registration order. A dump lets every sampler contribute in order to one dictionary that also contains all explicitly added samples, returns that dictionary, and - only if asked to save - writes a file in the requested directory (created if missing, refused if it exists and that is not allowed) whose content equals the returned dictionary.",
["histories","inputs"],"all collections of samplers (list, tuple, set, other iterables) and all histories of sampling, adding and dumping",
"No test touches the sampler module.",
["quantum_systems/sampler.py"],[("SampleCollector.sample/dump/add_sample/get_samples","quantum_systems/sampler.py")])

p("C21","Random basis sets have the symmetries of real integral elements",
"For every size and dimensionality a random basis set has complex elements with Hermitian one-body Hamiltonian, overlap and dipole components, and two-body elements with u[pqrs] = u[qpsr], with all declared shapes, without spin and not anti-symmetrised, and non-degenerate random content (no two basis sets alike, no element forced to zero).",
["inputs"],"all sizes, dimensions and random states",
"One doctest checks the dipole shape.",
["quantum_systems/random_basis.py"],[("setup_basis, make_hermitian, make_dipole_moment_hermitian, make_two_body_symmetry, get_random_elements","quantum_systems/random_basis.py")])

p("C22","Molecular systems reproduce the Hartree-Fock energy and integral conventions",
"For every closed-shell molecule, basis and charge, the system built in the restricted Hartree-Fock basis is orthonormal, has reference energy plus nuclear repulsion equal to the SCF total energy and a diagonal Fock matrix, with two-body elements in physicists' ordering <pq|rs>. The atomic-orbital system has the same nuclear repulsion, symmetric real elements with u[pqrs] = u[rqps] = u[qpsr] equal to the electron repulsion integrals, and turns into the Hartree-Fock one by the corresponding basis change; asking for spin gives exactly the spin-doubled (optionally anti-symmetrised) version of the same system, and dipole elements are position integrals relative to the coordinate origin (atomic orbitals) or the nuclear charge centre (Hartree-Fock).",
["inputs","configurations"],"all closed-shell molecules, geometries, basis sets, charges and options",
"Tests compare one atom's (helium) energy, where nuclear repulsion, charge and dipole origin play no role.",
["quantum_systems/custom_system.py"],[("construct_pyscf_system_ao, construct_pyscf_system_rhf","quantum_systems/custom_system.py")])

p("C23","2D double-well one-body elements are the exact barrier integrals",
"The one-body Hamiltonian of the two-dimensional double well is the oscillator energy plus mass*omega^2*(b^2/8) on the diagonal minus mass*omega^2*b/2 times the exact matrix element of |x| (barrier axis 0) or |y| (axis 1) between the oscillator functions: real symmetric, coupling only states whose m differs by an even number. Zero barrier gives the plain oscillator, and all other quantities (overlap, Coulomb and dipole elements, functions) are those of the plain oscillator with the same parameters.",
["inputs","configurations"],"all orbital pairs, frequencies, masses, barrier strengths and both axes",
"Tests compare eigenvalues for one barrier on axis 0 at omega=mass=1; axis 1, mass and individual elements are not compared by a passing test.",
[D2,D2S],[("get_double_well_one_body_elements, theta_*_tilde_integral, radial_integral",D2),("TwoDimensionalDoubleWell",D2S)])
p("C24","A system always hands out the current quantities of its basis set",
"At every moment the elements, functions, grid, nuclear repulsion energy and (for general-orbital systems) spin matrices read from a quantum system are those its basis set holds at that moment: after basis changes through either of them, conversions, anti-symmetrisation, assignments, in-place writes, copies and module changes, in every order and whether or not they were read before.",
["histories"],"every history of operations on a system and its basis set with reads anywhere in between",
"Tests read a system's elements at most once after one operation; spin matrices, functions, grid and nuclear repulsion are never read through a system.",
[S,G,B],[("QuantumSystem properties h, u, s, dipole_moment, spf, bra_spf, grid, nuclear_repulsion_energy",S),("GeneralOrbitalSystem.spin_*",G)],None,["system.h/u/s/dipole_moment/spf/bra_spf/grid/nuclear_repulsion_energy/spin_*"])

p("C25","What a constructor builds depends only on its arguments",
"Building a one- or two-dimensional dot, oscillator, double well, magnetic-field, sinc-DVR, molecular, closed-shell or general-orbital system, or computing its elements, gives the same result whatever was built, converted, written to in place or used before in the same process, also when argument objects (such as a potential) are reused. It changes neither its arguments nor any other object, and later use of one object never changes another that was built separately.",
["histories","configurations"],"every order of constructions, in-place writes and uses, for every combination of classes and arguments",
"Every test builds its systems once and in isolation; nothing compares an object with one built in a fresh process or looks at other objects afterwards.",
[OD,DV,D2,D2S,B,G,"quantum_systems/custom_system.py"],[("constructors and setup_basis",OD),("get_coulomb_elements, get_one_body_elements, get_double_well_one_body_elements",D2),("default arguments a, b of change_to_general_orbital_basis",B)])
p("C26","Requests neither write into nor keep arrays that are not theirs",
"Arrays handed out by or assigned to a basis set, system or operator keep their contents while later requests are made: basis changes, spin doubling, anti-symmetrisation, casts, module changes, copies and evaluations replace quantities and never overwrite the old arrays. Returned matrices (time-dependent elements, Fock matrices, densities, transformed elements) are not overwritten by later calls. Coefficient and density matrices, spin functions and elements lent to a request are neither modified nor consulted afterwards; only an output buffer is written to.",
["histories","inputs"],"every history of requests with arrays kept from any earlier point of it",
"No test keeps an array across a later request or writes to an array after having passed it.",
[B,S,G],[("change_basis, change_to_general_orbital_basis, anti_symmetrize_two_body_elements, cast_to_complex",B),("construct_fock_matrix",G),("h_t, u_t",S),("compute_particle_density",H)])

p("C27","Public element helpers are pure and compute the documented transformation",
"For all arrays, the public helper functions return exactly the transformation they document, without touching their arguments or any object: spin doubling of functions and one- and two-body elements, anti-symmetrisation of the ket indices, Pauli matrices of an arbitrary orthonormal spin pair, the one- and two-body spin-squared operator for any overlap, one- and two-body and function transformations with arbitrary (also rectangular, biorthogonal) coefficients, particle density, axis-length checks, Kronecker deltas in index and in spin, and the symmetrisation of random elements. The sinc-DVR variants accept compact storage and agree with the full one, also when asked to anti-symmetrise the transformed elements.",
["inputs"],"all shapes, values, coefficient matrices and spin pairs",
"Tests call a few helpers with one argument each (identity or real square coefficients); rectangular or biorthogonal coefficients and compact storage are never compared.",
[B,DV,H,"quantum_systems/random_basis.py"],[("add_spin_*, anti_symmetrize_u, setup_pauli_matrices, setup_spin_squared_operator, transform_*",B),("add_spin_two_body, transform_two_body_elements",DV),("delta, spin_delta, compute_particle_density",H),("make_*","quantum_systems/random_basis.py")])
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
