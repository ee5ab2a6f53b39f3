"""Which function decides which property, and how."""
import qs_checks
import cache_checks
import fact_checks
import one_checks
import mol_checks
import rand_checks
import sampler_checks
import two_checks

CHECKS, TECHNIQUE, NOTE = {}, {}, {}
for _p in qs_checks.P:
    CHECKS[_p] = qs_checks.check
    TECHNIQUE[_p] = "TLA+ specification of basis sets and systems (TLC); generated histories replayed into the real code, traces validated by TLC"
    NOTE[_p] = ("Design model QSMC checked exhaustively for short histories; histories generated by TLC from QSGen are replayed into the real code with "
                "Gaussian-integer data and every observed state and returned value is compared exactly with the operations of QS. Bounded by history length, "
                "basis sizes and number of histories; nothing is assumed about the code's structure.")
for _p in two_checks.INV:
    CHECKS[_p] = two_checks.check
    TECHNIQUE[_p] = "TLA+ specification of the two-dimensional oscillator (TLC); constructed systems recorded in exact units and validated by TLC"
    NOTE[_p] = ("Design model TwoDimMC checked exhaustively up to a number of orbitals; real systems are constructed for many parameters, and every "
                "recorded element is compared with the exact value (modular integers, signed squares) or the fixed-point value of TwoDim. Bounded by "
                "basis size and the parameters chosen.")
CHECKS["C20"] = sampler_checks.check
TECHNIQUE["C20"] = "TLA+ specification of sample collectors and the files they write (TLC); generated histories replayed, traces validated by TLC"
NOTE["C20"] = ("Design model SamplerMC checked exhaustively for short histories; longer histories generated by TLC are replayed into real collectors in a "
               "scratch directory and every call, dictionary and stored file is compared. Bounded by history length, three samplers and six paths.")
CHECKS["C14"] = cache_checks.check
TECHNIQUE["C14"] = "TLA+ specification of the shared store with crashes and failing writes (TLC); schedules replayed with real processes, traces validated by TLC"
NOTE["C14"] = ("Protocol model checked over all interleavings of two (thorough: three) processes with crashes and failing writes at every step; schedules "
               "generated by TLC are replayed with real processes stopped at every file access and in the middle of every write, plus file-size limits. "
               "Bounded by schedule length, number of processes and small basis sizes.")
for _p in one_checks.INV:
    CHECKS[_p] = one_checks.check
    TECHNIQUE[_p] = "TLA+ specification of the one-dimensional systems in fixed-point arithmetic (TLC); recorded systems and potentials validated by TLC"
    NOTE[_p] = ("Design model OneDimMC checks the laws of the formulas; real potentials, dots, oscillators and sinc-DVR basis sets are evaluated for many "
                "parameters and compared with the fixed-point values of OneDim (six digits; lowest eigenvalues by a Sturm count). Bounded by small grids and "
                "bases and the parameters chosen." + (" Histories of storage switches are decided as for C01-C11." if _p == "C18" else ""))

CHECKS["C21"] = rand_checks.check
TECHNIQUE["C21"] = "TLA+ specification of the symmetrised random elements (TLC); recorded groups of random basis sets validated by TLC"
NOTE["C21"] = ("RandomMC checks the symmetrisation laws; groups of real random basis sets of the same size are recorded to eight digits and TLC checks "
               "shapes, flags, Hermiticity, particle-exchange symmetry and that nothing else is forced (no element always zero, no unrelated elements "
               "always equal, no two basis sets alike). Bounded by the sizes and the number of random states sampled.")
CHECKS["C22"] = mol_checks.check
TECHNIQUE["C22"] = "TLA+ specification of molecular systems in fixed-point arithmetic (TLC); recorded systems validated by TLC against independent integrals"
NOTE["C22"] = ("QSMC checks energies and covariance of the abstract system; molecular systems are recorded to six digits and TLC recomputes basis change, "
               "Fock matrix, reference energy and spin doubling from the integrals of PySCF, which is trusted. Bounded by the molecules, geometries and "
               "basis sets chosen.")
CHECKS["C25"] = fact_checks.check
TECHNIQUE["C25"] = "TLA+ specification of building as a function of the arguments (TLC); generated histories of building, writing and using replayed, traces validated by TLC"
NOTE["C25"] = ("FactoryMC is checked exhaustively for short histories, and a variant that remembers results is rejected; histories generated by TLC are replayed in "
               "processes of their own and every object observed after every step is compared with the one built first in a fresh process. Bounded by the recipes "
               "(about fifty combinations of class and arguments) and history length.")
