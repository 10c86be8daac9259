#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

I="lib/include/"; S="lib/src/"
p("P01","Single-cut ellipsoid update never loses a point that satisfies the cut",
 "When an ellipsoid of any dimension n >= 2 is updated with one cutting plane (central, deep or shallow, given as a number or as a one-element cut) and the update reports success, the new ellipsoid contains every point of the old one that satisfies the cut. This holds for every centre, every positive definite shape, every non-zero cut direction, whether or not the scale factor is deferred, and hence after every sequence of updates; the shape stays symmetric.",
 ["inputs","histories"],"every dimension, ellipsoid, cut and sequence of cuts",
 "Tests run a dozen fixed optimisation problems and check iteration counts; they never compare the region before and after one update, and no finite set of ellipsoids settles containment for all of them.",
 [S+"ell.cpp",I+"ellcpp/ell.hpp"],
 [("deep/central cut parameters","ell::_calc_dc, ell::_calc_cc"),("centre, shape and scale update","ell::update"),("dimension constants","ell constructor")],
 ["ellipsoid centre, shape matrix, scale after update"],
 [("centre/shape/scale","the set {x : (x-c)'Q^-1(x-c) <= kappa}","ell::_xc,_Q,_kappa")])
p("P02","Parallel-cut ellipsoid update never loses a point between the two planes",
 "When an ellipsoid of any dimension n >= 2 is updated with a pair of parallel cuts bounding a slab of positive width and the update reports success, all parameters are finite and the new ellipsoid contains every point of the old one inside the slab. Where the second plane lies outside the ellipsoid, or parallel cuts are switched off, the result is that of the single cut.",
 ["inputs","histories"],"every dimension, ellipsoid and pair of offsets, including symmetric, one-sided, and degenerate central pairs",
 "Only the lowpass example uses parallel cuts and it checks an iteration bound; the symmetric and zero-offset cases are never reached.",
 [S+"ell.cpp",I+"ellcpp/ell.hpp"],
 [("parallel cut parameters","ell::_calc_ll_core, ell::_calc_ll_cc"),("selection between single and parallel cut","ell::_update_cut")],
 ["ellipsoid after update"])
p("P03","Every successful ellipsoid update shrinks the volume as far as the cut allows",
 "Every successful update of an ellipsoid leaves a genuine ellipsoid (or, when the cut touches the old one in a single point, that point) whose volume is not larger than before, and strictly smaller unless the cut lies exactly on the no-effect boundary. For a single cut at depth a (in units of the ellipsoid's half-width along the cut) the volume is exactly the minimum possible one, (n^2(1-a^2)/(n^2-1))^((n-1)/2) * n(1-a)/(n+1) times the old.",
 ["inputs","histories"],"every dimension n >= 2 and every cut offset",
 "Convergence of the whole method rests on the volume factor for every n and offset; tests only see that a few runs end within a known number of steps.",
 [S+"ell.cpp",I+"ellcpp/ell.hpp"],
 [("dilation, step and scale parameters","ell::_calc_dc, _calc_cc, _calc_ll_core, _calc_ll_cc"),("noeffect thresholds","ell::_calc_dc, ell::_calc_ll_core")],
 ["volume ratio after/before"])
p("P04","Ellipsoid status is truthful and an unsuccessful update changes nothing",
 "An ellipsoid update reports 'no solution' only when no point of the ellipsoid satisfies the cut or cuts, and 'no effect' only when they are too shallow for a smaller ellipsoid (depth below -1/n, or n times the product of the two depths below -1); in both cases centre, shape and scale stay untouched. The squared size returned with every status is the scale times the quadratic form of the cut direction before the update. Copies are independent of their original, and setting the centre changes only the centre.",
 ["inputs","histories"],"every ellipsoid, cut, status outcome and copy",
 "No test looks at an update that fails, nor at the returned size; a wrong early exit would only shift an iteration count.",
 [S+"ell.cpp",I+"ellcpp/ell.hpp"],
 [("status decision","ell::_calc_dc, ell::_calc_ll_core"),("early return before the update","ell::update"),("explicit copy","ell::copy, xc, set_xc")],
 ["status, returned size and ellipsoid after update"])
p("P05","The factored (stable) ellipsoid update equals the plain ellipsoid update",
 "The numerically stable search space, which stores the shape in factored form, reports for every cut the same status and the same size as the plain search space representing the same ellipsoid, and after a successful update represents the same ellipsoid as the plain one would. An unsuccessful update leaves the represented ellipsoid unchanged.",
 ["inputs","histories"],"every dimension, factored shape, cut and sequence of cuts",
 "Tests only record iteration counts of a few runs with the stable variant (counts that turn out to encode a wrong update).",
 [S+"ell_stable.cpp",I+"ellcpp/ell_stable.hpp"],
 [("forward/backward substitution and rank-one update","ell_stable::update")],
 ["represented ellipsoid, status and size after update"])
p("P06","The one-dimensional search space keeps exactly the half that satisfies the cut",
 "For every interval and every one-dimensional cut with a non-zero slope, a successful update leaves exactly the part of the interval that satisfies the cut. 'No solution' is reported only if no point of the interval satisfies the cut, 'no effect' only if every point does, both leave the interval unchanged, and the returned size is the square of slope times half-width.",
 ["inputs","histories"],"every interval, slope sign and offset",
 "The only users in the tests are a couple of runs that check the optimum found; boundary offsets and both slope signs are not exercised.",
 [S+"ell1d.cpp",I+"ellcpp/ell1d.hpp",I+"ellcpp/half_nonnegative.hpp"],
 [("interval arithmetic","ell1d::update")],["interval after update, status, size"])
p("P07","Feasibility search answers truthfully and never discards a feasible point",
 "For every oracle and search space that honour their contracts, the cutting-plane feasibility search reports feasible exactly when the oracle accepted a query point, and then the search space is still centred at that point; every query is made at the current centre and every returned cut is applied exactly once, in order. The points satisfying every cut returned so far stay inside the search space, 'no solution', 'no effect' and 'small enough' are reported only for that answer of the search space, and the number of oracle queries never exceeds the iteration limit; the reported count is the number of queries, or one more when the limit ended the search.",
 ["inputs","histories"],"every oracle, search space, option setting and iteration count",
 "The tests run a handful of concrete oracles to convergence; the guarantee is over all oracles, all search spaces and every way the loop can end.",
 [I+"ellcpp/cutting_plane.hpp",I+"ellcpp/cut_config.hpp"],[("the feasibility loop","cutting_plane_feas")],["returned info, final search space, sequence of oracle and space calls"])
p("P08","Convex optimisation returns the best point it has seen, with its value",
 "For every oracle and search space that honour their contracts, the cutting-plane optimisation returns the point at which the oracle last improved the objective together with exactly that value, and reports feasible exactly when the value changed. The best value is never made worse by the search itself, every query uses the current centre and the current best value, and every cut is applied exactly once. Stop reasons are reported as they happened, the iteration limit is respected, and the reported count is the number of queries, or one more when the limit ended the search.",
 ["inputs","histories"],"every oracle, search space, initial value and stop reason",
 "Tests check the final feasibility flag and iteration counts of a few examples, never that the returned point belongs to the returned value along every path.",
 [I+"ellcpp/cutting_plane.hpp"],[("the optimisation loop","cutting_plane_dc")],["returned point, value, info"])
p("P09","Discrete optimisation keeps the best point and retries only after a dead cut",
 "For every oracle and search space that honour their contracts, the discrete cutting-plane method returns the discrete point the oracle last reported as an improvement, with exactly that value. It asks the oracle for an alternative cut exactly when the previous cut had no effect, gives up on 'no effect' only when the oracle has no alternative, and reports the status of the last update (or 'small enough'). The iteration limit is respected.",
 ["inputs","histories"],"every oracle, search space, sequence of statuses and retries",
 "The one discrete example never meets an ineffective cut, so the retry protocol is not executed by any test.",
 [I+"ellcpp/cutting_plane.hpp"],[("the discrete loop and retry flag","cutting_plane_q")],["returned point, value, info, retry flags passed to the oracle"])
p("P10","Binary search brackets the feasibility threshold for any monotone predicate",
 "For every monotone predicate and every initial bracket, binary search keeps the lower end infeasible (or initial) and the upper end feasible (or initial), never moves outside the initial bracket, halves it with every query, and stops with 'small enough' only when half the bracket is below the tolerance. It reports feasible exactly when it moved the upper end, works for real and for integer brackets (halves rounded down), respects the query limit and reports one more than the number of queries.",
 ["inputs"],"every predicate, bracket, number type and option setting",
 "The tests run one floating-point example through to the end; the invariant concerns every predicate and every intermediate bracket.",
 [I+"ellcpp/cutting_plane.hpp",I+"ellcpp/half_nonnegative.hpp"],[("bisection loop","bsearch"),("half difference","half_nonnegative")],["bracket, info"])
p("P11","Threshold search over a convex oracle updates its start only with real solutions",
 "The adaptor that turns a feasibility oracle into a binary-search predicate hands the oracle the candidate value before searching, searches in a copy of the stored search space, and answers true exactly when the search found a feasible point for that value. The stored search space is untouched when the answer is false, and only its centre is moved, to the feasible point found, when the answer is true.",
 ["inputs","histories"],"every oracle, search space, candidate value and sequence of calls",
 "Tests check only the final threshold of one problem; a leak of the scratch search space into the stored one would not be seen.",
 [I+"ellcpp/cutting_plane.hpp"],[("copy, search, set centre","bsearch_adaptor::operator()")],["stored search space before/after"])
p("P12","The LDL factorization decides positive definiteness exactly",
 "For every symmetric matrix of every size, the factorization accepts exactly the positive definite ones, whether the elements are given as a matrix or computed on demand, and reads only the lower triangle, row by row. For an accepted matrix the square root it delivers is upper triangular with positive diagonal and its transpose times itself is the matrix. Reuse of the same object for another matrix gives the same answer as a fresh one.",
 ["inputs","histories"],"every size and every symmetric matrix",
 "Three 3x3 or 4x4 matrices are tested for the accept/reject answer; the square root is never tested.",
 [I+"ellcpp/oracles/ldlt_ext.hpp",S+"ldlt_ext.cpp"],[("row-wise LDL'","ldlt_ext::factor, factorize, is_spd"),("square root","ldlt_ext::sqrt")],["accept/reject answer, square root"])
p("P13","A rejected matrix comes with a vector proving it is not positive definite",
 "Whenever the factorization rejects a symmetric matrix, the witness vector it produces over the reported block of rows has last entry one and makes the quadratic form of the matrix equal to minus the returned (non-negative) number. The quadratic form evaluated for any symmetric matrix over the same block and vector is computed exactly; also with the semidefinite option.",
 ["inputs"],"every size and every rejected matrix, with and without the semidefinite option",
 "One test checks the number for a matrix with a zero in the corner; no test evaluates the quadratic form.",
 [I+"ellcpp/oracles/ldlt_ext.hpp",S+"ldlt_ext.cpp"],[("back substitution","ldlt_ext::witness"),("quadratic form over the block","ldlt_ext::sym_quad")],["witness vector, returned number, quadratic form"])
p("P14","Linear-matrix-inequality oracles accept exactly and cut validly",
 "Each linear-matrix-inequality oracle (with a constant term, without one, and the variant that forms the whole matrix) accepts a point exactly when the matrix at that point is positive definite. Otherwise the cut it returns is violated or tight at the point and satisfied by every point whose matrix is positive semidefinite, for every number of variables, matrix size and symmetric coefficients.",
 ["inputs"],"every dimension, coefficient matrices and query point",
 "One problem instance with fixed matrices is solved; a cut that removes feasible points in another instance would not be seen.",
 [S+"lmi_oracle.cpp",S+"lmi0_oracle.cpp",S+"lmi_old_oracle.cpp"],[("element function, witness and gradient","lmi_oracle, lmi0_oracle, lmi_old_oracle operator()")],["accept answer; cut (gradient, offset)"])
p("P15","The quadratic-matrix-inequality oracle accepts exactly and cuts validly",
 "The quadratic-matrix-inequality oracle accepts a point exactly when t times the identity minus F(x)'F(x) is positive definite, for every shape of the coefficient matrices (symmetric or not, square or not). Otherwise its cut is violated or tight at the point and satisfied by every point at which that matrix is positive semidefinite. Repeated calls with other points or thresholds do not influence each other.",
 ["inputs","histories"],"every coefficient shape, threshold, point and call sequence",
 "The only user has symmetric square coefficients, and only the final result of an optimisation is tested.",
 [S+"qmi_oracle.cpp",I+"ellcpp/oracles/qmi_oracle.hpp"],[("lazy rows of F(x), gradient","qmi_oracle::operator()")],["accept answer; cut"])
p("P16","The lowpass-filter oracle checks every constraint and cuts validly",
 "For every coefficient vector, each answer of the lowpass-filter oracle that is not an improvement is a cut for a constraint that is really violated at that vector, and the cut (both planes of it) is satisfied by every vector meeting all specifications. An improvement is reported only if all passband, stopband and non-negativity constraints hold at every frequency sample, and then the new stopband bound is exactly the largest stopband response, never above the old bound. No sample index is ever out of range, whatever the history of calls.",
 ["inputs","histories"],"every sample matrix, bound, coefficient vector and round-robin position",
 "The tests run one filter to convergence; which constraint is skipped at which round-robin position is not visible there.",
 [S+"lowpass_oracle.cpp",I+"ellcpp/oracles/lowpass_oracle.hpp"],[("round-robin scans and argmax","lowpass_oracle::operator()")],["cut, improvement flag, bound"])
p("P17","Profit-maximisation oracles return valid cuts and attained profits",
 "The profit oracle, and its robust variant for the worst parameters, reports an improvement only at an input within its limit and then the new best value is exactly the profit at that input and larger than the old one. Otherwise the cut is violated at the input and satisfied by every input that is within the limit and at least as profitable as the best value, which is assumed non-negative.",
 ["inputs"],"all positive parameters, inputs and best values",
 "Tests check iteration counts and one optimum for one parameter set.",
 [S+"profit_oracle.cpp",I+"ellcpp/oracles/profit_oracle.hpp"],[("log-profit constraint and gradient","profit_oracle::operator()"),("worst-case elasticities","profit_rb_oracle")],["cut, improvement flag, best value"])
p("P18","The discrete profit oracle evaluates whole-number inputs and re-centres its cut",
 "The discrete profit oracle evaluates the profit only at whole-number input quantities of at least one, reports that evaluated point, reuses it when asked for an alternative, and offers an alternative exactly when not already retrying. The cut it returns for the query point describes the same half-space as the cut obtained at the evaluated point.",
 ["inputs","histories"],"all query points, best values and retry sequences",
 "The one discrete test checks an iteration count and feasibility; rounding and the re-centred offset are invisible to it.",
 [S+"profit_oracle.cpp",I+"ellcpp/oracles/profit_oracle.hpp"],[("rounding and re-centring","profit_q_oracle::operator()")],["evaluated point, cut, flags"])
p("P19","The negative-cycle search is sound and complete",
 "For every directed graph and every weight assignment, a non-empty answer of the negative-cycle search is a closed walk of graph edges that is a simple cycle with negative total weight. An empty answer comes with node potentials that satisfy every edge constraint, so that no negative cycle exists, and repeated searches with other weights on the same object do not influence each other.",
 ["inputs","histories"],"every graph (parallel edges, self loops, several components), weights and initial potentials",
 "Four small graphs are tested, most of them only for whether a cycle exists.",
 [I+"netoptim/neg_cycle.hpp"],[("relaxation, policy-graph cycle search, cycle listing","negCycleFinder::_relax, _find_cycle, _cycle_list, find_neg_cycle")],["returned edge list, potentials"],
 [("pred/edge","policy graph","negCycleFinder::_pred,_edge")])
p("P20","Parametric and minimum-ratio search return a cycle attaining the optimum",
 "The maximum-parametric search never increases its parameter, and changes it only to a value computed from a cycle of the graph that it also returns; if it stops before its iteration limit, either no cycle violates the constraints at the final value or the violating one found does not allow a smaller value. For the minimum cost-to-time ratio, the final value is exactly total cost over total time of the returned cycle (or the initial value if none is returned) and, for positive times, no cycle of the graph has a smaller ratio.",
 ["inputs"],"every graph, costs, positive times and initial parameter",
 "Two five-node graphs are tested for the optimum value only; the cycle returned is not inspected.",
 [I+"netoptim/parametric.hpp",I+"netoptim/min_cycle_ratio.hpp"],[("improvement loop","max_parametric"),("ratio and weight","min_cycle_ratio")],["parameter, returned cycle"])
p("P21","Network oracles accept exactly and their cycle cuts are valid",
 "The network oracle accepts a point only when node potentials satisfying every edge constraint exist (and leaves such potentials behind); otherwise its cut is violated at the point and satisfied by every point for which potentials exist. The optimal-scaling and cycle-ratio oracles built on it report an improvement only for points admitting potentials, with exactly the objective value of that point and better than before, and otherwise return a cut that every better feasible point satisfies. For optimal scaling the constraints say that the scaled logarithmic cost of every forward edge stays below pi and of every backward edge above phi; for the cycle ratio, that no cycle has cost below the ratio times its time.",
 ["inputs","histories"],"every graph, edge function, point and best value",
 "Two or three fixed graphs are optimised in the tests; cut signs for other graphs and points are not looked at.",
 [I+"ellcpp/oracles/network_oracle.hpp",I+"ellcpp/oracles/optscaling_oracle.hpp",I+"ellcpp/oracles/cycle_ratio_oracle.hpp"],[("sum of edge functions and gradients over the cycle","network_oracle::operator()"),("objective cuts","optscaling_oracle, cycle_ratio_oracle operator()")],["accept answer, cut, improvement flag, value"])
p("P22","Rational arithmetic is exact, normalised and totally ordered",
 "Every rational number built from a numerator and a non-zero denominator, and every result of an arithmetic operation, negation, absolute value or inversion on such numbers (with another rational or with an integer, as long as the integers stay in range), is the exact mathematical value in lowest terms with a positive denominator. Comparisons, between rationals and with integers, agree with the mathematical order, and the greatest common divisor and least common multiple are the mathematical ones for every integer type.",
 ["inputs"],"all numerators, denominators (either sign), operand combinations and integer types",
 "Tests use rationals only inside two graph problems and compare two results.",
 [I+"py2cpp/fractions.hpp"],[("normalisation","fun::Fraction constructors, normalize"),("arithmetic and comparison","fun::Fraction operators"),("gcd, lcm","fun::gcd, fun::lcm")],["numerator, denominator, comparison results"])
p("P23","Signed-digit conversion is canonical, accurate and invertible",
 "For every real number and every number of places p >= 0, the signed-digit string has exactly p digits after the point (zero is written as the single digit 0), never two adjacent non-zero digits, and its decimal value differs from the number by at most two thirds of the last place; a number that is a multiple of the last place is reproduced exactly. Decoding a digit string yields the positional value of its digits, wherever the point is.",
 ["inputs"],"all finite numbers, places and digit strings",
 "One integer is converted back and forth; the comparisons of digit strings in the tests are commented out.",
 [S+"csd.cpp"],[("greedy digit selection","to_csd"),("positional decoding","to_decimal")],["string, decoded value"])
p("P24","Digit-limited signed-digit conversion respects its budget and terminates",
 "For every real number and every budget, the digit-limited conversion terminates with a string that has at most the given number of non-zero digits, never two adjacent ones, and whose non-zero digits are the leading ones of the canonical expansion up to the budget, each in its place; if the budget is not exhausted the number is reproduced exactly.",
 ["inputs"],"all finite numbers and budgets (zero included)",
 "One call is made in the tests and its result is not checked.",
 [S+"csd.cpp"],[("digit budget","to_csdfixed")],["string"])
p("P25","The Python-style containers behave like their Python counterparts",
 "A range enumerates exactly the values from start up to but excluding stop, in order (none if stop is not above start), and its size, emptiness, indexing and membership agree with that enumeration. Sets and dictionaries contain exactly the keys inserted; looking up a missing key with a default returns the default and inserts nothing; copies are independent; enumeration pairs every element with its position.",
 ["inputs","histories"],"all bounds, keys, and operation sequences",
 "The test file for these containers is not compiled.",
 [I+"py2cpp/py2cpp.hpp"],[("range","py::range"),("set, dict","py::set, py::dict"),("enumerate","py::enumerate")],["iteration, size, membership, lookup"])
p("P26","Correlation-fit oracles return valid cuts and attained values",
 "The least-squares correlation oracle reports an improvement only at a point whose correlation matrix is positive definite and whose squared residual norm is below the point's bound component, with exactly that bound as the new best value, no worse than before; every cut is satisfied by every point at least as good as the best value. The maximum-likelihood oracle reports an improvement only when both matrix constraints hold, with exactly the negative log-likelihood at that point, and the cut direction is its gradient there.",
 ["inputs"],"all data, coefficient matrices, points and best values",
 "Two random data sets are fitted and a loose iteration range is checked.",
 [S+"lsq_corr_ell.cpp"],[("constraint chaining and gradient assembly","lsq_oracle, mle_oracle operator()")],["cut, improvement flag, best value"])
p("P27","Correlation model matrices are the powers of the site distances",
 "The distance matrix built for a list of sites is symmetric with zero diagonal and holds the Euclidean distance of each pair of sites, for any number of sites and dimensions. The polynomial model of degree m consists of exactly m matrices, the k-th holding the (k-1)-th power of each distance.",
 ["inputs"],"all site lists and degrees m >= 1",
 "The tests only see the fit obtained from them for one grid.",
 [S+"lsq_corr_ell.cpp"],[("pairwise distances","construct_distance_matrix"),("successive powers","construct_poly_matrix")],["matrices"])
p("P28","The graph adaptor presents exactly the graph it wraps",
 "The graph adaptor through which the network algorithms see a Boost graph presents exactly that graph: iterating over it visits every node once, its edge view visits every edge once (parallel edges and self loops included), the view of a node visits exactly its outgoing edges, the end points of an edge are its source and its target in this order, the counts agree, the null node is no node of the graph, and an edge added through it joins the given nodes in the given direction.",
 ["inputs","histories"],"every graph, edge, node and sequence of added edges",
 "The tests use five fixed graphs and never look at what the adaptor enumerates.",
 [I+"py2cpp/nx2bgl.hpp"],[("node, edge and neighbour views","xn::VertexView, xn::EdgeView, xn::AtlasView"),("end points, counts, null node","xn::grAdaptor")],["nodes, edges, end points, counts"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
