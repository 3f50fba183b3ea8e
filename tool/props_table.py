prop("P06", "Loop functions: every special-case branch continues the same function",
     "Each one- and two-argument threshold loop function returns, for every admissible argument, the value of one "
     "analytic function: the branches taken for arguments at or close to 0, +1, -1 or to each other agree with the general formula "
     "to the accuracy of double precision times a small factor, never divide by zero or take the log of zero, and never "
     "lose all digits by cancellation. The functions keep their defining symmetry under argument exchange, their parity "
     "under sign change and their normalisation at equal masses.",
     ["inputs"], "all real arguments of F1..F9, f, g, f1..f8, in particular all distances from the degenerate points",
     "the unit tests compare a few dozen points per function; a wrong expansion coefficient, guard width or argument order "
     "shows only in a thin neighbourhood of a degenerate point they do not sample",
     [S + "mh2_eft/ThresholdLoopFunctions.cpp", S + "mh2_eft/ThresholdLoopFunctions.hpp"],
     [("guarded expansions", "F1..F9, f1..f8 and their *_1_1, *_0_x2, *_1_x2 helpers in ThresholdLoopFunctions.cpp")],
     "abstract interpretation into a gated value graph + truncated power-series and rounding-order domains per guard cell; GF(p) value numbering for symmetries",
     "decides agreement orders and singularities of every guard cell exactly; the numerical size of a mismatch is estimated as h^K with unit coefficient")

prop("P07", "Threshold corrections: every special mass case is the limit of the general case",
     "For every threshold correction, renormalisation scheme and log setting, the expression used for a special mass configuration "
     "(a Limits setting such as MQ3_EQ_M3 or DEGENERATE, or a closeness guard inside a correction) is finite there and equals the "
     "limit of the general-mass expression as the masses become equal; the Xt-truncated three-loop corrections and the "
     "DR'->MSbar Xt terms behave the same way. No correction divides by zero at exactly equal masses.",
     ["inputs"], "all masses, mixings and tan(beta); all mass-degeneracy patterns of the stop, sbottom, stau, gluino, Higgsino and A masses",
     "tests evaluate a handful of benchmark points, most of them exactly degenerate; a wrong coefficient in one of the ~100 "
     "special-case expressions or in the general case near degeneracy is never compared with its counterpart",
     [S + "mh2_eft/ThresholdCalculator.cpp", S + "mh2_eft/ThresholdCalculator.hpp"],
     [("special cases", "switch (limit) and std::abs(m1-m2)<eps guards in ThresholdCalculator.cpp"), ("phixyz", "anonymous namespace wrapper")],
     "abstract interpretation into a gated value graph; truncated (log-)power series over GF(p) around the degenerate point, "
     "high-precision real series where limits carry rounded decimals",
     "identity at leading order only (special cases need not reproduce the O(m1-m2) terms); probabilistic identity test (error < 1e-18)")

prop("P14", "Tree-level DR' spectrum is that of the MSSM Lagrangian",
     "For every parameter point, each tree-level mass matrix of the fixed-order calculation (sfermions of all three generations, "
     "CP-even, CP-odd and charged Higgs, charginos, neutralinos) and each tree-level mass without mixing (W, Z, t, b, tau, sneutrinos) is the one "
     "that follows from the MSSM Lagrangian (GUT-normalised g1, R_xi gauge with xi = 1, m_A as input), every mass and mixing matrix of the spectrum is "
     "the eigen-decomposition of its own matrix, and the Higgs mass matrix accessors return the full and the gaugeless matrix as named.",
     ["inputs"], "all soft masses (also different per generation), A-terms, mu, gaugino masses, vevs and couplings",
     "the tests use universal soft masses and compare a few Higgs masses; an exchanged generation, hypercharge or sign cancels or drowns there",
     [S + "mh2_fo/MSSM_spectrum.cpp", S + "mh2_fo/MSSM_spectrum.hpp"],
     [("mass matrices", "MSSM_spectrum::get_mass_matrix_*"), ("spectrum", "MSSM_spectrum::calculate_*")],
     "abstract interpretation into a value graph with eigen-decompositions uninterpreted; GF(p) value numbering against the Lagrangian",
     "exact identity test up to probability 1e-20; the numerical eigen-solvers themselves are trusted")

prop("P15", "One-loop Higgs self-energies follow from the field-dependent spectrum",
     "The one-loop correction to the CP-even Higgs mass matrix contains, for every pair of particles, exactly the loop functions with the coefficients that "
     "the tree-level Lagrangian implies (couplings = derivatives of the field-dependent mass matrices in the mass basis, tadpoles included), for any momentum; "
     "the gaugeless version is its limit p^2 = g1 = g2 = 0, the derivative version is d/dp^2 of that, and the O(alpha_t)-only object contains no bottom, tau or gauge contribution at one loop.",
     ["inputs"], "all parameter points and momenta; every diagonal and mixed loop of all MSSM particles",
     "about 120 hand-pasted terms, most of them numerically tiny at the tested points: a wrong index or factor in one of them is invisible in the tests",
     [S + "mh2_fo/MSSM_mass_eigenstates.cpp"],
     [("full 1-loop", "MSSM_mass_eigenstates::delta_mh2_1loop"), ("gaugeless", "delta_mh2_1loop_gaugeless, delta_mh2_1loop_gaugeless_deriv")],
     "abstract interpretation into a value graph with A0/B0/D1B0 and eigen-decompositions uninterpreted; per-particle coefficients compared in GF(p) with the second derivative of the spectrum",
     "exact identity test up to probability 1e-20; the loop functions themselves are covered by P27")

prop("P13", "Two-loop fixed-order correction: right routines, right arguments, right switches",
     "The 2-loop fixed-order Higgs mass correction is the sum of exactly the enabled orders (at*as, ab*as, at^2 and mixed at-ab, atau^2, ab*atau), each evaluated with the "
     "masses, mixing angle and couplings of its own sector and with the sign of mu, tan(beta) or its inverse, vev^2 and scale that the routine expects. Switching an order on or off "
     "adds or removes exactly that contribution. For a massless top, bottom or tau the routines that are singular there are not called while all others still are. "
     "The O(alpha_t)-only object keeps only the at*as and the top-Yukawa-only at^2 terms and recomputes its spectrum for vanishing gauge, bottom and tau couplings.",
     ["inputs", "configurations"], "all parameter points, all subsets of switched-off orders, all combinations of massless third-generation fermions",
     "tests compare a few points with everything switched on; a wrong argument in a numerically small sector or a switch acting on the wrong order goes unnoticed",
     [S + "mh2_fo/MSSM_mass_eigenstates.cpp"],
     [("assembly", "MSSM_mass_eigenstates::delta_mh2_2loop"), ("switches", "MSSM_mass_eigenstates::MSSM_mass_eigenstates, set_correction"), ("O(at)-only", "make_3rd_gen, make_gaugeless")],
     "abstract interpretation into a value graph with the 2-loop routines uninterpreted; per-case comparison of call sets and arguments in GF(p)",
     "the routines themselves are covered separately; whether O(at^2) is evaluated for a massless bottom quark is left open")

prop("P16", "Perturbative diagonalisation and momentum iteration keep to their loop order",
     "For all 2x2 symmetric matrices m0..m3 the perturbative diagonalisation returns, order by order, the eigenvalues of m0 + t*m1 + t^2*m2 + t^3*m3, the lighter one first. "
     "The fixed-order mass contributions are formed from the matrices of the right loop order and limit (tree and 1-loop with gauge couplings at p^2 = tree-level mass, 2-loop in the gaugeless limit) or, "
     "with numerical diagonalisation, are differences of exact eigenvalues. The momentum iteration adds derivative times 1-loop shift (perturbative), nothing (off), or the self-energy difference "
     "after iterating to the requested precision or the maximal number of steps (numerical).",
     ["inputs", "configurations"], "all matrix elements; both diagonalisation and all momentum-iteration settings; any number of iterations",
     "the tests exercise the default settings at a few points; a wrong mixed term at third order is far below their tolerance",
     [S + "mh2_fo/Linalg.cpp", S + "mh2_fo/MSSM_mass_eigenstates.cpp"],
     [("closed form", "fs_diagonalize_hermitian_perturbatively"), ("mass contributions", "MSSM_mass_eigenstates::calculate_Mh2, calculate_Mh2_tree"),
      ("momentum iteration", "delta_mh2_2loop_mom_it_pert, delta_mh2_2loop_mom_it_num")],
     "abstract interpretation into a value graph with self-energies uninterpreted; GF(p) value numbering against the perturbed characteristic equation",
     "numeric iteration checked for up to three unrolled steps")

prop("P10", "Every mass-hierarchy expansion approximates the same function",
     "In the DR' scheme, each of the 14 hierarchy expansions agrees at 1 loop with the exact 1-loop O(alpha_t) result, and at 1, 2 and 3 loops (mass matrix and the derived "
     "Delta-lambda) with every sibling expansion of the same family wherever the mass spectra for which both are expansions overlap, through the order in the mass differences and "
     "mass ratios that both keep, including all logarithms. The self-energy matrix is symmetric.",
     ["inputs"], "all squark, stop, gluino, Higgsino masses, stop mixing, tan(beta), scale, in the overlap regions of the hierarchies",
     "thousands of lines of generated expansions, each compared with a stored number at a single point in the MDR' scheme only; a hierarchy is otherwise reached only for a spectrum that selects it",
     [S + "hierarchies/H3.cpp", S + "hierarchies/H32q2g.cpp", S + "hierarchies/H3q22g.cpp", S + "hierarchies/H4.cpp", S + "hierarchies/H5.cpp", S + "hierarchies/H5g1.cpp",
      S + "hierarchies/H6.cpp", S + "hierarchies/H6g2.cpp", S + "hierarchies/H6b.cpp", S + "hierarchies/H6b2qg2.cpp", S + "hierarchies/H6bq22g.cpp", S + "hierarchies/H6bq2g2.cpp",
      S + "hierarchies/H9.cpp", S + "hierarchies/H9q2.cpp", S + "HierarchyCalculator.cpp"],
     [("expansions", "himalaya::hierarchies::H*::getS1/getS2/getS12/calc_coef_at_as2_no_sm_logs_log0..3"), ("dispatch", "HierarchyCalculator::calculateHierarchy"), ("exact", "HierarchyCalculator::getMt41L")],
     "abstract interpretation into a value graph; truncated log-power series over GF(p) around common corners of validity",
     "h4 has no sibling: 1-loop only; constants common to all siblings of a family and the exact 2-loop routine are not decided; probabilistic identity test (error < 1e-18)")

prop("P26", "Mass-matrix elements are second derivatives of one effective potential",
     "At leading order in the top mass the elements (1,1), (1,2) and (2,2) of the Delta Mh^2 matrix of every hierarchy and loop order, and of the exact 1-loop matrix, are second derivatives of a single potential depending on |m_t|^2, |m_t X_t|^2 and "
     "Re(m_t^* m_t X_t) at fixed M_A. At fixed X_t and stop masses their dependence on mu and tan(beta), for either sign of mu, is therefore fixed: S11 = mu^2 a, S12 = -mu(B + m a), S22 = C + 2 m B + m^2 a with m = mu/tan(beta) and a, B, C independent of mu. "
     "The X_t dependence of a, B and C is linked: dC/dX_t = (4 + 2D) B with D = d/dlog(m_t^2), and correspondingly for B and a (all through the order kept by the expansion).",
     ["inputs"], "all stop, gluino, squark masses in the validity corner of each hierarchy, all X_t, mu of both signs, tan(beta), scale; 14 hierarchies, 1 to 3 loops, DR' scheme",
     "every element of every hierarchy is compared with a stored number at one point (mu > 0, nearly maximal mixing); no test relates the elements to each other",
     [S + "hierarchies/*.cpp", S + "HierarchyCalculator.cpp"],
     [("elements", "himalaya::hierarchies::H*::getS1/getS2/getS12"), ("dispatch", "HierarchyCalculator::calculateHierarchy"), ("exact", "HierarchyCalculator::getMt41L")],
     "abstract interpretation into value graphs; Taylor jets in X_t and log m_t; relations between second derivatives decided in truncated log-power series over GF(p)",
     "orders kept by the expansions are recorded per relation; probabilistic identity test (error < 1e-18); bottom loops not included")

prop("P09", "DR' and MDR' expansions describe the same Higgs mass matrix",
     "For each of the 14 hierarchies the sum of the exact 1-loop part and the expanded 2- and 3-loop parts, written as a power series in alpha_s, is the same in the DR' scheme "
     "(mdrFlag = 0) and in the MDR' scheme (mdrFlag = 1, stop masses shifted) through O(alpha_s^2) up to the order in masses and mixing kept by the expansion; no odd power of g3 appears.",
     ["inputs"], "all squark, stop, gluino and Higgsino masses, mixings, tan(beta), scale, g3 within the validity range of each hierarchy",
     "the stored test values use the MDR' scheme at one point; terms that only act in DR' are not exercised, and nothing compares the schemes",
     [S + "hierarchies/*.cpp", S + "HierarchyCalculator.cpp"],
     [("mass shifts", "HierarchyCalculator::shiftMst1ToMDR, shiftMst2ToMDR"), ("scheme terms", "shiftst1, shiftst2, shiftst3 in hierarchies/H*.cpp"), ("sum", "calculateHierarchy, getMt41L")],
     "abstract interpretation into a value graph; Taylor jets in g3 and truncated log-power series in the masses over GF(p)",
     "for h6b and its siblings O(s2t^4) terms of the (2,2) element are not compared at natural mixing; probabilistic identity test (error < 1e-18)")

prop("P08", "Results do not depend on the unit of mass",
     "If all inputs with the dimension of a mass (and squared masses accordingly) are multiplied by a common factor, every result scales with its dimension: mass matrices and Delta Mh^2 of all loop orders, hierarchies and "
     "renormalisation schemes with the square, masses linearly, while Delta lambda, threshold corrections, conversion shifts and the suitability of a hierarchy do not change. "
     "Every comparison between quantities compares quantities of equal dimension, except tests for zero (constants of at most 1e-8).",
     ["inputs"], "all parameters, all 14 hierarchies with top or bottom loops, all threshold orders, limits and schemes, the complete 1- and 2-loop fixed-order calculation, all branches",
     "all stored test points use GeV and hold values at single points; a missing or surplus power of a mass looks like any other number",
     [S + "HierarchyCalculator.cpp", S + "hierarchies/*.cpp", S + "mh2_eft/*.cpp", S + "mh2_fo/*.cpp", S + "mh2l/DSZHiggs.*"],
     [("hierarchies", "HierarchyCalculator::calculateHierarchy, H*::getS1, getS2, getS12"), ("thresholds", "ThresholdCalculator::getThresholdCorrection"), ("fixed order", "MSSM_mass_eigenstates::calculate_Mh2"),
      ("results", "HierarchyCalculator::calculateDMh3L"), ("selection", "HierarchyCalculator::isHierarchySuitable")],
     "abstract interpretation into value graphs; inference of the degree of homogeneity of every expression, branch and comparison, decided by algebraic identity tests over GF(p)",
     "scaling of eigenvalues, eigenvectors and loop functions with their arguments is assumed; behaviour for masses that are zero within rounding is not claimed; probabilistic identity test (error < 1e-18)")

prop("P23", "Bottom loops: the top-loop formulas with the parameters of the bottom sector",
     "If a calculation is requested for bottom loops, every hierarchy expansion (1 to 3 loops, DR' and MDR', Delta lambda and MDR masses), the exact 1- and 2-loop mass matrices, the sfermion-mass shifts and the scheme conversion are those for top loops with m_t, the stop masses, "
     "the stop mixing angle and A_t replaced by m_b, the sbottom masses, the sbottom mixing angle and A_b. No parameter of the top sector is left in them.",
     ["inputs", "configurations"], "all parameters; 14 hierarchies, top or bottom loops, both schemes, each loop order and shift flag",
     "the tests evaluate the expansions for top loops only, and stop and sbottom parameters of similar size hide a mix-up",
     [S + "HierarchyCalculator.cpp", S + "hierarchies/*.cpp"],
     [("dispatch", "HierarchyCalculator::calculateHierarchy"), ("exact", "HierarchyCalculator::getMt41L, getMt42L"), ("shifts", "HierarchyCalculator::shiftMst1ToMDR, shiftMst2ToMDR, shiftH3mToDRbarPrime")],
     "abstract interpretation into value graphs for both cases; substitution of parameters and algebraic identity test over GF(p)",
     "the exchange of the Higgs doublets (tan(beta) <-> 1/tan(beta)) is not claimed; probabilistic identity test")

prop("P11", "Loop-order and expansion-depth switches of hierarchies act on own terms only",
     "For every hierarchy the requested loop orders add up: the result for several loop orders is the sum of the results for each, the n-loop part is proportional to alpha_s^(n-1), and nothing is left when none is requested. "
     "Lowering the expansion depth of one variable changes only hierarchies that expand in that variable, has an effect in each of them, and removes exactly the highest kept order in that variable. "
     "The expansion uncertainty is the quadratic sum of the changes of the Higgs mass under lowering each expansion depth of the hierarchy, and the depths are restored afterwards.",
     ["inputs", "configurations"], "all parameter points, all 14 hierarchies, every expansion variable and loop order",
     "tests use the default depths; the depths enter thousands of generated terms as multiplicative flags and reach the user only through the uncertainty estimate",
     [S + "HierarchyCalculator.cpp", S + "hierarchies/*.cpp"],
     [("flags", "ExpansionDepth, expansionDepth map, H*::H* constructors"), ("uncertainty", "HierarchyCalculator::getExpansionUncertainty"), ("loop flags", "HierarchyCalculator::calculateHierarchy")],
     "abstract interpretation into a value graph; substitution of flags, GF(p) comparison and truncated log-power series to find the order in the expansion variable at which a flag acts",
     "the order at which each flag acts in each matrix element is compared with a committed table of truncation orders (checks/P11_orders.json); probabilistic identity test")

prop("P12", "Coupling-order switches of the EFT calculation select exactly their own terms",
     "The 1- and 2-loop EFT results for Mh^2 are sums of independently switchable coupling orders: with every order off the result is zero, with any set on it is the sum of the orders alone, so an order does not depend on the switches of others. "
     "Each order contributes to exactly one loop order, is proportional to the powers of gauge couplings and fermion masses in its name (at fixed logarithms) and to v^(2-n) for n fermion masses, and uses only DR' threshold corrections whose couplings divide it, including its own quartic coupling correction. "
     "The switch of SM logarithms removes exactly the logarithms of scale over top mass (result as at Q = Mt); the one of MSSM logarithms is passed to all threshold corrections. After construction O(at), O(at as) and O(at^2) are on; a vanishing gauge coupling or fermion mass removes exactly the orders that contain it. "
     "At tree level the result is MZ^2 cos^2(2 beta), at three loops it is O(at as^2) with the DR' corrections to yt and g3, and the 3-loop Delta lambda is added only on request with factor 2 Mt^4 g3^4/v^2/(16 pi^2)^3. Tau orders are bottom orders without colour factor.",
     ["inputs", "configurations"], "all parameter points, every switch alone and all but one, both logarithm switches, each vanishing coupling",
     "the tests compare the default combination and a few others at one point; a contribution wired to the wrong switch is invisible in all others",
     [S + "mh2_eft/Mh2EFTCalculator.cpp"],
     [("EFT result", "Mh2EFTCalculator::getDeltaMh2EFT0Loop..3Loop"), ("switches", "Mh2EFTCalculator::Mh2EFTCalculator, setCorrectionFlag")],
     "abstract interpretation into value graphs with threshold corrections uninterpreted; scaling and additivity identities in GF(p)",
     "the corrections themselves: P07, P11; probabilistic identity test")

prop("P27", "One-loop integrals are the Passarino-Veltman functions for all arguments",
     "A0(m^2), B0(p^2,m1^2,m2^2) (real part), its equal-mass form and the derivative dB0/dp^2 at p^2 = 0 as used by the fixed-order calculation equal the finite parts of the integrals, in units of the renormalisation scale, to a relative (for |B0| < 1 absolute) accuracy of 1e-7 for all squared arguments: "
     "below, at and above threshold, far from it, for equal, nearly equal, very different and vanishing masses and vanishing momentum. They are symmetric in the masses, depend on the moduli of the squared arguments only, and rounding errors are not amplified beyond 1e-8 in the branch selected.",
     ["inputs"], "representatives of all guard cells over 48 decades in p^2/m^2 and 36 in m1^2/m2^2, both sides of each guard",
     "the tables of the tests contain no unequal-mass B0, and no near-degenerate or extreme arguments",
     [S + "mh2_fo/PV.cpp"],
     [("A0, B0, dB0", "himalaya::mh2_fo::a0, b0, b0xx, d1_b0")],
     "abstract interpretation into a gated value graph; per guard cell evaluation in multiprecision with an adjoint rounding-error domain, against the closed form of the integral",
     "cells are represented by points; at the pair threshold the square root limits the accuracy")

prop("P28", "Dilogarithm, Clausen function and Phi(x,y,z) are correct for all arguments",
     "The real dilogarithm dilog(x) equals Re Li2(x) to a relative accuracy (absolute for |x| > 2) of 1e-14 for every real x; the complex dilogarithm equals Li2(z) to 1e-13 on the principal branch in all quadrants, inside and outside of the unit circle, including the "
     "real axis, where the imaginary part on the cut is that below the cut; clausen_2(x) equals Cl2(x) for every real angle, negative and beyond the first period included. phi_xyz(x,y,z) equals Delta(x,y,z)/(2 z) times the Davydychev-Tausk function with z the largest "
     "argument, to a relative accuracy of 1e-10 for positive arguments over 14 decades, for both signs of the Kaellen function, two or three equal and nearly equal arguments; it is symmetric in its arguments and homogeneous of degree one, and vanishes at zero of the Kaellen function.",
     ["inputs"], "representatives of all guard cells over 36 (dilog, complex dilog 24, Clausen 18, Phi 14) decades, both sides of each guard, all quadrants, all permutations",
     "the tests check the two-loop thresholds at a handful of mass ratios, Phi and the Clausen function at few points",
     [S + "misc/Li2.cpp", S + "mh2_eft/ThresholdLoopFunctions.cpp"],
     [("dilogarithms, Clausen function", "himalaya::dilog, himalaya::clausen_2"), ("Phi", "himalaya::mh2_eft::threshold_loop_functions::phi_xyz")],
     "abstract interpretation into a gated value graph; per guard cell evaluation in multiprecision with an adjoint rounding-error domain, against the defining functions",
     "cells are represented by points; the Phi of the Fortran library is not covered")

prop("P33", "Fixed-order and EFT calculation agree at one loop for heavy superpartners",
     "For superpartners much heavier than the electroweak scale the 1-loop correction to the light CP-even Higgs mass of the fixed-order calculation (self-energy of MSSM_mass_eigenstates at p^2 = tree-level mass, projected on the light Higgs boson) and that of the EFT calculation with all 1-loop coupling orders "
     "switched on agree up to terms suppressed by powers of v/M_SUSY, for every spectrum of superpartner masses, every mixing and sign of mu, M1, M2, A, every tan(beta), scale and every subset of couplings. So every 1-loop threshold correction of the quartic coupling (Yukawa, gauge, gaugino-higgsino, heavy Higgs, "
     "regularisation scheme), of the gauge couplings and of the vev from fermion Yukawa couplings, and the standard model part, is the one that follows from the MSSM Lagrangian. Differences allowed: terms of higher order in mt^2 > Mh^2/4, in mb, mtau, and the threshold of the vev of order g1^2, g2^2 (gauginos, higgsinos and a constant) which the EFT calculation documents to omit.",
     ["inputs"], "all mass parameters, mixings, signs, tan(beta), scale (representative generic spectra, selected equalities), every subset of couplings by sector",
     "the test compares the top-Yukawa part at one degenerate point; all other coupling orders are never compared",
     [S + "mh2_eft/ThresholdCalculator.cpp", S + "mh2_eft/Mh2EFTCalculator.cpp", S + "mh2_fo/MSSM_mass_eigenstates.cpp"],
     [("1-loop thresholds", "ThresholdCalculator::getThresholdCorrection: LAMBDA_G*, LAMBDA_CHI_*, LAMBDA_REG_*, LAMBDA_Y*_G*, LAMBDA_Y*4, LAMBDA_AT, G1_G1, G2_G2, VEV_*"), ("EFT 1-loop mass", "Mh2EFTCalculator::getDeltaMh2EFT1Loop"), ("fixed-order self-energy", "MSSM_mass_eigenstates::delta_mh2_1loop")],
     "abstract interpretation of both calculations into value graphs; multiprecision evaluation in the decoupling limit against each other",
     "parameter cells are represented by points; the 1-loop integrals themselves: P27")

prop("P34", "Fixed-order and EFT calculation agree at two loops for heavy superpartners",
     "For superpartners much heavier than the electroweak scale and vanishing electroweak gauge couplings, the 2-loop correction to the light CP-even Higgs mass of the fixed-order calculation (orders at*as, ab*as, at^2+at*ab+ab^2, atau^2, ab*atau) and the 2-loop correction of the EFT calculation "
     "(orders yt^6, yt^4 g3^2, yb^6, yb^4 g3^2, ytau^6, yt^4 yb^2, yt^2 yb^4, yb^4 ytau^2, ytau^4 yb^2) depend in the same way on all superpartner masses, on mixing, the sign and size of mu, A, the gluino mass, the CP-odd Higgs mass and tan(beta): at O(yt^4 g3^2) and O(yt^6) they are equal up to terms suppressed by v^2/M_SUSY^2; at the orders "
     "with yb, ytau, for which the EFT calculation contains the standard model part in an approximation for light fermions, the difference depends on the standard model parameters and the scale only (after replacing that approximation in the terms that multiply 1-loop threshold corrections). So every 2-loop threshold correction of the quartic coupling, every 1-loop threshold correction of a Yukawa coupling and the way they enter, "
     "and every 2-loop fixed-order routine with its arguments, is the one that follows from the MSSM Lagrangian.",
     ["inputs"], "all mass parameters, mixings, signs, tan(beta) and scales (representative generic spectra), each order of the Yukawa couplings and g3 separately",
     "tests compare the two calculations only at O(at*as), O(at^2), each at a few numerically determined points; the orders with yb and ytau are not compared at all, and they are off by default, so no result depends on them",
     [S + "mh2_eft/ThresholdCalculator.cpp", S + "mh2_eft/Mh2EFTCalculator.cpp", S + "mh2_fo/MSSM_mass_eigenstates.cpp", S + "mh2l/DSZHiggs.cpp", S + "mh2l/DSZHiggs.f"],
     [("2-loop thresholds", "ThresholdCalculator::getThresholdCorrection: LAMBDA_AT_AS, LAMBDA_YT6, LAMBDA_YB4_G32, LAMBDA_YB6, LAMBDA_YTAU6, LAMBDA_YT2_YB4, LAMBDA_YT4_YB2, LAMBDA_YTAU2_YB4, LAMBDA_YTAU4_YB2, YT_*, YB_*, YTAU_*"), ("EFT 2-loop mass", "Mh2EFTCalculator::getDeltaMh2EFT2Loop"), ("fixed-order 2-loop", "MSSM_mass_eigenstates::delta_mh2_2loop, DSZHiggs.cpp wrappers, DSZHiggs.f")],
     "abstract interpretation of both calculations (C++ and Fortran) into value graphs; multiprecision evaluation in the decoupling limit against each other, per coupling order",
     "parameter cells are represented by points; the loop functions phi and dilog: P28; the cells with (nearly) degenerate masses: P07")

prop("P25", "2-loop fixed-order corrections are continuous at degenerate masses, zero mixing",
     "The 2-loop corrections of orders at*as, ab*as, at^2+at*ab+ab^2, at^2 alone, atau^2 and ab*atau to the CP-even Higgs mass matrix (with and without the correction of the CP-odd Higgs mass) are finite, and equal to the limit of the neighbouring values, where sfermion mixing vanishes, sfermions of one or two kinds (and the gluino or the sneutrino) "
     "are degenerate, mu = 0, A = 0, and for combinations of these, including the immediate neighbourhood (relative distance down to 1e-9) of these points, where neither the guards of the special cases nor rounding errors of the general formulas distort the result. A contribution that is switched off does not spoil the result. "
     "The O(at^2) mode is the limit of vanishing bottom mass of the complete Yukawa contribution.",
     ["inputs"], "all special configurations of the listed kinds and combinations, for representative generic values of the remaining parameters",
     "tests contain one degenerate configuration per routine at most; the special cases are formulas and guards of their own",
     [S + "mh2l/DSZHiggs.cpp", S + "mh2l/DSZHiggs.f"],
     [("special cases", "delta_mh2_2loop_at_as_st_0_mst1_eq_mst2, delta_ma2_2loop_at_as_mst1_eq_mst2"), ("guards", "DDSHiggs, DDSodd, tausqHiggs, tausqodd, taubot, taubotodd, DSZHiggs"), ("dispatch", "delta_mh2_2loop_at_as, delta_ma2_2loop_at_as, delta_mh2_2loop_at_at, ...")],
     "abstract interpretation of C++ and Fortran into value graphs with symbolic guards; multiprecision limits; first-order rounding-error analysis (adjoint) over the graphs",
     "generic parameters are represented by points; the loop functions phi and dilog: P28")

prop("P01", "Calculations in different threads do not disturb each other",
     "Distinct HierarchyCalculator, Mh2EFT, fixed-order and threshold calculators can be constructed and used concurrently in different threads, and one object can be used in several threads through its const member functions, without data races and without deadlock: every writable object of static storage duration, C++ or "
     "Fortran (COMMON, SAVE), is accessed only under one common mutex (or atomically), each lock is held for the whole use of the storage and given back on every path, and const member functions do not modify their object. Each thread obtains the result a sequential calculation yields.",
     ["schedules", "inputs"], "all interleavings, all entry points of the library",
     "tests are single-threaded",
     [S + "HierarchyCalculator.cpp", S + "mh2l/DSZHiggs.cpp", S + "mh2l/DSZHiggs.f"],
     [("locks", "mtx in DSZHiggs.cpp, delta_mh2_2loop_at_at, delta_ma2_2loop_at_at"), ("shared storage", "COMMON /listderiv/ in DSZHiggs.f, isInfoPrinted in HierarchyCalculator.cpp")],
     "interprocedural must-hold lockset dataflow analysis over LLVM IR of all translation units, with the static storage of the Fortran procedures read from compiler output; lock-order, self-deadlock, lock-leak and constness obligations",
     "Eigen and the run-time libraries are trusted")

prop("P04", "The Mathematica interface passes options in and results out unchanged",
     "A call HimalayaCalculateDMh3L[settings -> {...}, parameters -> {...}] calculates with exactly the given parameters: each option ends up in the Parameters field of its name (M3 is MG), matrices element by element, options left out take the documented defaults, and optional pole masses and "
     "each (masses, sine of mixing angle) pair are used if and only if given and valid; bottom, verbose and loopOrder act as documented, with contributions beyond loopOrder zero and those up to it independent of loopOrder (in Mh2EFTAt, Mh2FO, Mh2FOAt). "
     "The answer is, on every path, one complete expression: the captured output as messages followed by the list of rules with the documented keys, whose values are those of the result object by loop order and matrix position. Any exception, or incomplete input, yields the messages, one error message and $Failed; output streams are "
     "restored on every path.",
     ["inputs", "configurations", "crash_points"], "all option values and all subsets of optional options, all settings, exceptions of the calculation and failures of the link",
     "the interface is not built or tested in this repository (no Mathematica); 127 values are passed by position",
     [S + "LibraryLink/Himalaya_LibraryLink.cpp", S + "LibraryLink/Himalaya_LibraryLink.m"],
     [("argument list", "HimalayaCalculateDMh3L in Himalaya_LibraryLink.m"), ("reading", "read_list, make_data"), ("answer", "calculate_results, put_result, MLPut"), ("capture", "Redirect_output")],
     "evaluation of the Mathematica definitions with symbolic options; abstract interpretation of the C++ entry point with the link functions replaced by an automaton that builds the answer as expression tree; value-graph comparison",
     "subsets of optional options: all, none, each one alone, each one missing, incomplete pairs; every other value symbolic")

prop("P03", "Errors reach the caller as exceptions and never end the process",
     "Whatever the input, an error inside the library (invalid parameters, no suitable hierarchy, a loop order, hierarchy or flag that does not exist, a mass limit that is not included) reaches the caller as an exception derived from std::exception: no exception meets a noexcept function, a destructor or the clean-up of another exception, where it would terminate the process. "
     "No C++ function ends the process (exit, abort, terminate, assert) and no Fortran procedure stops it. The entry points of the Mathematica interface let no exception out into the C code of the kernel.",
     ["inputs", "crash_points"], "every call that can raise, in every function of the library and of the Mathematica interface",
     "tests reach a handful of the throw expressions, and none from within the interface",
     [S + "HierarchyObject.cpp", S + "HierarchyCalculator.cpp", S + "Himalaya_interface.cpp", S + "LibraryLink/Himalaya_LibraryLink.cpp", S + "misc/Logger.hpp", S + "misc/RAII.hpp", S + "mh2_eft/ThresholdCalculator.cpp", S + "mh2_eft/Mh2EFTCalculator.cpp"],
     [("interface boundary", "HimalayaCalculateDMh3L"), ("range checks", "HierarchyObject getters and setters"), ("validation", "Parameters::validate"), ("selection", "HierarchyCalculator::compareHierarchies")],
     "exception-effect analysis (fixed point over the call graph of the LLVM IR, landing pads and catch clauses included)",
     "exhaustion of memory is outside; a noexcept function whose throwing call lies on a path that can never be taken would be reported")

prop("P02", "A result depends on nothing but its input",
     "Every result is a function of the parameters and options it is calculated from. Calculations leave the calculator as it was (calculateDMh3L, compareHierarchies, getExpansionUncertainty; also when they end with an exception), so repeating a calculation on the same or another object, in any order with others, gives the identical result; "
     "constructing a ThresholdCalculator leaves its parameters as given (except for the selected limit); what the search for a hierarchy computed for rejected candidates does not enter the result; no result depends on an uninitialised variable, member, matrix element or COMMON variable; there is no hidden state in static variables (C++ or Fortran) "
     "and no dependence on time, environment or random numbers.",
     ["histories", "inputs", "crash_points"], "all sequences of calculations, exceptions in any part of a calculation",
     "tests calculate each point once, in a fixed order, in one process each",
     [S + "HierarchyCalculator.cpp", "include/himalaya/HierarchyCalculator.hpp", "include/himalaya/HierarchyObject.hpp", S + "mh2_eft/ThresholdCalculator.cpp", S + "misc/RAII.hpp", S + "mh2l/DSZHiggs.f", S + "mh2l/DSZHiggs.cpp"],
     [("restored state", "Temporarily_set in compareHierarchies, getExpansionUncertainty, ThresholdCalculator::ThresholdCalculator"), ("result object", "HierarchyCalculator::calculateDMh3L"), ("COMMON", "makederiv, listderiv")],
     "abstract interpretation of C++ and Fortran into value graphs with undefined values and injected exceptions tracked; dataflow over LLVM IR for static variables, their initialisers and constness",
     "a correct memoisation in static or member variables would be reported as hidden state")

prop("P18", "A hierarchy is used only for spectra it covers, and the best one is selected",
     "A hierarchy is a candidate exactly for the spectra it is an expansion for, with m1 <= m2 the stop (alpha_b case: sbottom) masses, g the gluino mass, q the mean mass of the first two squark generations: always m2 <= 1.3 q and g <= 1.3 q; "
     "h3: g > m2; h32q2g: m2 >= q and m2 > g; h3q22g: q > m2 > g; h4: g <= m1 < q; h5 (g <= m1) and h5g1 (g > m1): m2 - m1 > 0.1 m1, gluino closer to m1 than to m2, m2 < q; h6 (g <= m2) and h6g2 (g > m2): m2 - m1 > 0.1 m1, gluino closer "
     "to m2 than to m1, 1.3 m2 < q; h6b, h6b2qg2 (m2 >= q) and h6bq22g, h6bq2g2 (q > m2), each pair with g <= m2 and g > m2: m2 - m1 > 0.1 m1, gluino closer to m2; h9 (m2 >= q) and h9q2 (q > m2): m2 - m1 < m1 - g. So variants of one "
     "hierarchy never compete with each other. Among the candidates the first one with the smallest error is selected, the error being the quadratic sum of the relative difference between exact and expanded 2-loop light Higgs mass and the relative "
     "2-loop expansion uncertainty; the stored 2-loop differences and 2- and 3-loop uncertainties are those of the selected one. A spectrum without candidate, and an invalid hierarchy number, raise an exception; the selection leaves the calculator unchanged.",
     ["inputs"], "all mass spectra (cells of the arrangement of all comparisons, equalities included), all sets of one, two or all candidates and samples of larger sets, top and bottom",
     "the tests contain a handful of spectra; a wrong comparison shows only in a wedge of mass space",
     [S + "HierarchyCalculator.cpp"],
     [("HierarchyCalculator.cpp", "isHierarchySuitable, compareHierarchies, calcSmallestEigenvalue, getMotherHierarchy")],
     "abstract interpretation into value graphs; polyhedral cell decomposition (Fourier-Motzkin) of the piecewise linear guards; value numbering with uninterpreted parts",
     "suitability exact; the selection is compared for sampled orderings of the uninterpreted errors, all pairs of candidates")

prop("P22", "The result object is composed of the right parts",
     "For the selected hierarchy h and for the top and bottom case, the object returned by calculateDMh3L contains: the tree matrix of the selection; the exact DR' 1- and 2-loop matrices; as 3-loop matrix the expansion of h "
     "converted from H3m to DR', with the stored DR'->H3m shift undoing just that conversion; a DR'->MDR' shift that is the difference of all three loop orders in the two schemes; the MDR' masses; the 3-loop expansion uncertainty evaluated for the sum of all lower orders; "
     "Delta lambda of each order as DR' threshold correction times prefactor over v^2, at 3 loops as difference of the (DR' converted) hierarchy result and the EFT subtraction, with the logarithms replaced by the EFT ones, an uncertainty made of missing X_t orders plus the difference of both, "
     "and DR'->MS-bar shifts of the same normalisation; the fixed-order masses, the EFT masses, and the perturbative eigenvalues of the stored matrices. In the bottom case the 3-loop Delta lambda is zero.",
     ["inputs", "configurations"], "all parameter points, all 14 hierarchies, top and bottom",
     "the object has some thirty fields, of which the tests compare a handful at few points; a field filled from the wrong scheme, order or moment is not noticed",
     [S + "HierarchyCalculator.cpp", S + "HierarchyObject.cpp"],
     [("assembly", "HierarchyCalculator::calculateDMh3L"), ("3-loop Delta lambda", "HierarchyCalculator::calcDeltaLambda3L"), ("scheme shift", "calcDRbarToMDRbarShift")],
     "abstract interpretation of calculateDMh3L with the contributing calculations uninterpreted; value-graph comparison in GF(p) of every field with its definition",
     "the parts themselves are covered by P07, P09-P16; probabilistic identity test")

prop("P17", "H3m -> DR' conversion is the epsilon-scalar mass shift",
     "The term that converts the 3-loop hierarchy result from the H3m (mDR' with shifted epsilon-scalar contribution) to the DR' scheme is, for every hierarchy, the "
     "change of the 1-loop O(alpha_t) Higgs mass matrix at leading order in m_t when both squared stop masses are shifted by the same "
     "O(alpha_s^2) epsilon-scalar contribution of gluino, squarks and stops, with X_t held fixed; hierarchy h4 keeps X_t^0 only and h3, h32q2g, h3q22g, h9, h9q2 drop X_t^4. "
     "It uses the stop masses of the renormalisation scheme selected by the MDR flag (at both loop flags), its scalar form used for Delta lambda is the projection of the matrix on the light Higgs direction, "
     "without logs it is the value at a scale equal to the first stop mass, and for nearly equal stop masses it continues the general expression.",
     ["inputs"], "all stop, gluino, squark masses, mixings, mu, tan(beta), scales; all 14 hierarchies, both MDR flags",
     "the snapshot tests hold one point with well separated stops per hierarchy; the equal-mass branch and most flag combinations are never executed",
     [S + "HierarchyCalculator.cpp"],
     [("shift", "HierarchyCalculator::shiftH3mToDRbarPrime, shiftH3mToDRbarPrimeMh2"), ("1-loop matrix", "HierarchyCalculator::getMt41L")],
     "abstract interpretation into a gated value graph; Taylor jets and truncated power series over GF(p) against the shifted 1-loop matrix",
     "identity of leading power in m_t; probabilistic identity test (error < 1e-18)")

prop("P32", "The hierarchy expansions agree with the EFT calculation",
     "In the DR' scheme the light-Higgs projection of every hierarchy expansion at one and two loops, and the dependence of its 3-loop O(alpha_t alpha_s^2) result (converted from H3m to DR') on the renormalisation scale, is, "
     "coefficient by coefficient in X_t and at leading order in m_t/M_SUSY, the result of the EFT calculation with the threshold corrections of the same masses, up to the terms the expansion of that hierarchy drops "
     "(for stop, squark and gluino masses in the mass pattern the hierarchy is made for). Delta lambda of each hierarchy is its 3-loop light Higgs mass correction without logarithms of Q/m_t and without the prefactor, and its logarithm-free "
     "version is the value at Q = m_st1.",
     ["inputs"], "all masses in the mass pattern of each of the 14 hierarchies, all tan(beta), mu, scales; X_t^0..X_t^4",
     "the snapshot tests hold one point per hierarchy, in the MDR' scheme only; two independent calculations of the same quantity are never compared",
     [S + "hierarchies/*.cpp", S + "HierarchyCalculator.cpp", S + "mh2_eft/*.cpp"],
     [("hierarchies", "HierarchyCalculator::calculateHierarchy, H*::getS1/getS2/getS12/calc_coef_at_as2_no_sm_logs_log*"), ("EFT", "Mh2EFTCalculator::getDeltaMh2EFT*Loop, ThresholdCalculator")],
     "abstract interpretation into value graphs; Taylor jets in X_t and truncated (log-)power series over GF(p) in the small quantities of each hierarchy",
     "compared through the committed orders (checks/P32_orders.json); probabilistic identity test; constant 3-loop terms of the EFT are taken from the hierarchies by construction and not compared")

prop("P20", "Validation completes the input parameters consistently and rejects invalid ones",
     "Parameters::validate throws exactly for a negative element of a soft-breaking squared mass matrix, a negative gluino mass, a vev that is NaN or not positive, or a negative squared stop, sbottom or stau mass where masses have to be calculated. Otherwise afterwards no quantity is left undefined (NaN), whatever subset of "
     "MW, MZ, Mt, Mb, Mtau, sfermion masses and mixing angles was missing: missing masses follow from the couplings and vevs (GUT-normalised g1), a missing angle or sin(2 theta) from the other, and if a mass or both are missing, masses and mixing from the tree-level sfermion mass matrix, with sin(2 theta) = 2 M12/(m1^2-m2^2) for "
     "all signs and orders of the matrix elements. Stop, sbottom and stau masses are in ascending order, with theta and sin(2 theta) following an exchange; Yukawa matrices are replaced by the diagonal matrix of their singular values, third generation largest; degenerate stop, sbottom masses and mq2(2,2), mu2(2,2) are separated by a relative 1e-8, keeping the order of the masses. "
     "Regular supplied values, and everything else, stay unchanged, and a second validation changes nothing. calculateMsq2 is the geometric mean of the ten squared masses of the squarks other than stops.",
     ["inputs"], "all parameter points, all subsets of missing quantities of a sector, all sign/order cells of the mass matrices",
     "tests cover a few complete or empty inputs; combinations of missing, misordered and degenerate quantities are not sampled",
     [S + "Himalaya_interface.cpp", "include/himalaya/Himalaya_interface.hpp"],
     [("validation", "himalaya::Parameters::validate"), ("average squark mass", "himalaya::Parameters::calculateMsq2")],
     "abstract interpretation with provenance of NaN and uninterpreted eigenvalue solvers; guard-cell decomposition; GF(p) identities with the mixing angle as symbol",
     "conventions of the Eigen solvers assumed; guard cells represented by points")

prop("P21", "The result object stores and prints each quantity under its name and loop order",
     "Every getter of HierarchyObject returns what its setter stored for that loop order, no setter changes another quantity or loop order, loop orders that do not exist (uncertainties: 1-3, all others: 0-3) and invalid MDR (0, 1) or renormalisation scheme (0-3) flags are rejected by an exception without changing the object, "
     "MDR masses are stored in ascending order, the uncertainty of Delta lambda is |X_t part| + |EFT logs - H3m logs| at three loops and zero below, a new object is all zero in the DR' scheme, the notation of each hierarchy is its name, and the stream operators of HierarchyObject and Parameters print every quantity in the line with its label.",
     ["inputs"], "all values, all loop orders from -2 to 5 and 100, both flavours",
     "tests read a few fields of one calculation; exchanged fields of the same magnitude or wrong ranges are invisible",
     [S + "HierarchyObject.cpp", "include/himalaya/HierarchyObject.hpp", S + "Himalaya_interface.cpp"],
     [("accessors", "himalaya::HierarchyObject set*/get*"), ("printing", "operator<<(std::ostream&, HierarchyObject), operator<<(std::ostream&, Parameters)")],
     "abstract interpretation on a fully symbolic object; footprint comparison of every accessor; interpretation of the output stream into labels and symbols",
     "labels of the output are those of the current release")

# not applicable ---------------------------------------------------------------
prop("N01", "Numerical agreement with the published 3-loop results",
     "For every parameter point the 3-loop correction agrees with the exact O(at*as^2) Feynman-diagrammatic result of the literature within the stated expansion uncertainty.",
     ["inputs"], "all parameter points", "the tests hold benchmark numbers for a few points only",
     [S + "HierarchyCalculator.cpp"], [("result", "HierarchyCalculator::calculateDMh3L")],
     na="the exact 3-loop result is not part of the code base (only expansions of it are), so no static comparison has an oracle; relations between the expansions are P09, P10, P32")
prop("N02", "The expansion uncertainty bounds the true error",
     "The uncertainty estimate returned by getDMhExpUncertainty is at least the difference between expanded and exact result.",
     ["inputs"], "all parameter points", "the exact result is unknown at 3 loops",
     [S + "HierarchyCalculator.cpp"], [("uncertainty", "HierarchyCalculator::getExpansionUncertainty")],
     na="a heuristic estimate; whether it bounds the truncation error depends on the convergence of series whose remaining terms are not in the source")
prop("N03", "The two-loop Fortran routines are numerically stable",
     "The routines of the DSZ library called for the 2-loop fixed-order corrections return finite and accurate values for all admissible masses.",
     ["inputs"], "all masses", "sampled at few points",
     [S + "mh2l/DSZHiggs.f", S + "mh2_fo/MSSM_mass_eigenstates.cpp"], [("DSZ", "libDSZ")],
     na="Fortran sources without a front end in this sandbox that delivers a typed syntax tree (gfortran's dumps are not stable enough to decide on); the calls into them are covered by P13")
prop("N04", "Run time and memory stay bounded",
     "A calculation needs bounded time and memory for every parameter point.",
     ["inputs"], "all parameter points", "run time is not measured by the tests",
     [S + "HierarchyCalculator.cpp"], [("calculation", "HierarchyCalculator::calculateDMh3L")],
     na="loops have constant bounds except the momentum iteration, whose convergence rate is a run-time quantity (its iteration cap is part of P16)")
