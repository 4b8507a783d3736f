"""writes properties.jsonl"""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("P01", "Hypervolume value is the measure of the dominated region",
  "The hypervolume reported for a set of objective points and a reference point equals the Lebesgue measure of the union of the boxes spanned between each point and the reference point, whatever the order of the points and however many are duplicated, dominated, or outside the reference point (those contribute nothing); it is never negative and an empty set has value zero. Computing it leaves the caller's points and reference point unmodified. For maximisation the value is that of the negated points against the negated reference.",
  ["inputs"], "every finite point set of every size and dimension >= 1, every reference point, every order of the points, ties included",
  "Tests compare a handful of fixed fronts; a sweep-and-reinsert algorithm with pruning by cached values goes wrong only for particular orders, ties and duplicates.",
  ["hvd/hypervolume.py", "hvd/hypervolume_derivatives.py"],
  [("filter points outside the reference, translate, dimension sweep with cached volumes", "hvd/hypervolume.py HyperVolume.compute / hvRecursive"), ("linked-list remove / reinsert", "hvd/hypervolume.py MultiList"), ("value entry point", "hvd/hypervolume_derivatives.py HypervolumeDerivatives.compute")])
p("P02", "Hypervolume gradient and Hessian are the true derivatives",
  "For points in general position, the gradient and Hessian of the hypervolume with respect to the objective vectors are the exact first and second derivatives of the dominated volume; rows belonging to dominated points are zero and the Hessian is symmetric. With respect to the decision variables they are the chain-rule composition with the objective's Jacobian and Hessian, for minimisation and maximisation alike. Objective values or Jacobians supplied by the caller give the same result as evaluating the callbacks, and no input array is modified.",
  ["inputs"], "every point set without ties strictly inside the reference box, any number of points and objectives, any mix of dominated and non-dominated points, any smooth objective",
  "Tests check fixed small examples (mostly non-dominated, 2-4 objectives); the recursion over faces of the staircase has order-dependent index bookkeeping that only particular interleavings of coordinates exercise.",
  ["hvd/hypervolume_derivatives.py", "hvd/utils.py"],
  [("face projection recursion", "hvd/hypervolume_derivatives.py HypervolumeDerivatives._compute_gradient/_compute_hessian/_project/hypervolume_dY"), ("non-dominated selection", "hvd/utils.py get_non_dominated")])
p("P03", "Non-dominated sorting partitions by depth of domination",
  "Sorting a set of objective vectors returns every index exactly once; a point's front number equals the length of the longest chain of points dominating it, so the first front is exactly the non-dominated set and no point is dominated by a member of its own or a later front. Extracting the non-dominated subset (by default) returns, in their original order, precisely the rows that no other row weakly dominates (so identical rows exclude each other), as copies or as indices.",
  ["inputs"], "every finite set of objective vectors with ties and duplicates, any number of rows and objectives",
  "Tests use one example; ranks are decremented across a work list, so an error only shows for particular dominance graphs.",
  ["hvd/utils.py"], [("rank counting", "hvd/utils.py non_domin_sort / is_dominate"), ("non-dominated filter", "hvd/utils.py get_non_dominated")])
p("P04", "Optimiser state stays consistent with its decision points",
  "After any sequence of updates, single-point updates, slices and copies, the objective values, Jacobians and constraint values (and, when the update computed them, Hessians) stored for each point equal the user's callbacks evaluated at that point's decision vector, equality constraints are always active and an inequality is active exactly when its value is at least minus the tolerance. Evaluation counters rise by exactly the number of points evaluated. Slices agree element-wise with the original, and saving then loading preserves the stored arrays.",
  ["histories", "inputs"], "every sequence of update / single update / slice / save / load operations, with and without equality and inequality constraints, any population size",
  "Tests touch a few fixed sequences with one constraint configuration; staleness between cached arrays appears only after particular histories.",
  ["hvd/base.py"], [("batched evaluation and caching", "hvd/base.py State.update / update_one / evaluate"), ("active set", "hvd/base.py State.evaluate"), ("slicing and persistence", "hvd/base.py State.__getitem__ / save / load")])
p("P05", "Generational distances and their derivatives are exact",
  "The (inverted) generational distance equals the p-mean of the distances between each point and its nearest counterpart (or the mean squared distance to the matched reference point when matching is on). The reported gradient and Hessian blocks are the exact derivatives, with respect to the decision points, of the p-th power of that mean (of the sum of squared distances when matching is on). Supplying objective values and Jacobians gives the same result as evaluating the callbacks.",
  ["inputs"], "every number of points, reference points, objectives and variables, every exponent p supported, every smooth objective, at points where the nearest neighbour is unique",
  "Tests fix sizes, p=2 and a single problem; index bookkeeping between points and nearest references and the exponent algebra need all sizes and exponents.",
  ["hvd/delta_p.py"], [("nearest indices and multiplicities", "hvd/delta_p.py _compute_indices"), ("derivative formulas", "hvd/delta_p.py compute_derivatives")])
p("P06", "Maximum mean discrepancy value and derivatives are exact",
  "The discrepancy between the point set and the reference set equals the mean kernel similarity within each minus twice the mean similarity across (the beta-weighted within-term plus the mean matched dissimilarity in the matched variant). Its gradient and Hessian, in objective and in decision space, are the exact derivatives of that value for every supported kernel. Supplying objective values and Jacobians gives the same result as evaluating the callbacks.",
  ["inputs"], "every number of points, reference points, objectives, variables, kernel, length scale and weight, every smooth objective",
  "Tests compare a few fixed sizes against automatic differentiation; block layout and self-interaction terms must be right for every pair of indices.",
  ["hvd/mmd.py"], [("pairwise kernel derivative blocks", "hvd/mmd.py _build_kernel_gradient / _build_kernel_hessian"), ("decision-space chain rule", "hvd/mmd.py _assemble_decision_hessian"), ("value", "hvd/mmd.py compute")])
p("P07", "The Newton step solves the optimality system on the active set",
  "The step computed by each Newton optimiser satisfies the linearised optimality (KKT) equations of its indicator subject to the currently active constraints: step times Jacobian of the residual equals minus the residual, multipliers of inactive constraints get no step (the least-squares solution when the system is singular; the MMD-based optimiser neglects the curvature of the constraints), and the residual lists the stationarity and constraint-violation terms point by point. Flattening per-point vectors into the stacked system and unpacking them again is lossless for every pattern of active constraints.",
  ["inputs", "configurations"], "every population size, number of variables, number of equality and inequality constraints, and every pattern of active constraints across points",
  "Tests only run the optimiser end-to-end on a few problems; a misplaced block for a mixed activity pattern still converges on them.",
  ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/utils.py"],
  [("residual and step", "hvd/newton.py HVN/DpN _compute_R, _compute_netwon_step"), ("residual and step (MMD)", "hvd/mmd_newton.py MMDNewton"), ("packing", "hvd/utils.py merge_lists / Nd_vector_to_matrix")])
p("P08", "Line searches obey their acceptance rule and trial limit",
  "Every backtracking line search returns either the first trial step size satisfying its sufficient-decrease condition, or a step of the minimal size after its fixed number of trials; trial steps only shrink, start at the given maximum and stay positive, and interpolated steps shrink by a factor within fixed bounds. The search evaluates the merit function a bounded number of times and leaves the optimiser's state and reference set as they were.",
  ["inputs", "histories"], "every merit function (arbitrary values, including never decreasing and undefined values), every step, every maximal step size",
  "Tests never look at the accepted step size; the acceptance and give-up branches depend on the whole sequence of merit values.",
  ["hvd/line_search.py", "hvd/newton.py", "hvd/mmd_newton.py"],
  [("generic backtracking", "hvd/line_search.py backtracking_line_search"), ("individual and global line searches", "hvd/newton.py DpN._backtracking_line_search, hvd/mmd_newton.py _backtracking_line_search_*")])
p("P09", "Optimisers never leave the box constraints",
  "Every optimiser starts from points inside the declared bounds, whatever start points are supplied. Optimisers that enforce the box (the distance-based and the gradient-based one always, the hypervolume-based one when its step limit is on) never move a point outside: step components pointing out of an active bound are removed, and the step length is limited to the largest fraction (a quarter of it for the hypervolume step limit), at most one, that stays in the box. Bounds given as scalars or vectors are expanded to one value per variable or rejected, and reflecting points into the box returns points in the box and leaves points already inside unchanged.",
  ["inputs", "histories"], "every start point (also outside the box), every step direction and length, every pair of bounds, every number of iterations",
  "Tests check final points of a few runs; the bound logic depends on particular combinations of active bounds and directions.",
  ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py", "hvd/utils.py"],
  [("projection and shortening", "_handle_box_constraint in hvd/newton.py, hvd/mmd_newton.py, hvd/gradient_based.py"), ("step limits", "hvd/utils.py handle_box_constraint / hvd/newton.py _compute_max_step_size"), ("bounds normalisation", "hvd/utils.py set_bounds")])
p("P10", "Preconditioning yields a symmetric positive definite matrix",
  "Preconditioning a symmetric Hessian returns the matrix itself when it is already safely positive definite and otherwise that matrix plus a positive multiple of the identity such that the result is positive definite; the input array is not modified.",
  ["inputs"], "every finite symmetric matrix of any size: definite, indefinite, singular, zero or badly scaled",
  "Tests never inspect the preconditioner; its loop exits depend on the spectrum of the input.",
  ["hvd/utils.py"], [("shift loop", "hvd/utils.py precondition_hessian")])
p("P11", "Reference matching is a minimal-cost bijection and shifts are rigid",
  "Matching pairs every approximation point with its own distinct reference representative, one to one within each cluster and at minimal total distance, whatever the order of points (clusters go to components at least total Hausdorff distance; empty clusters are ignored); re-matching after an update again satisfies this. Shifting moves exactly the requested reference points by the step along their cluster's fixed direction and no others. The shift direction is a unit vector that never points to the dominated side, and is the normal of the plane through the component's extreme points whenever that normal has components of one sign.",
  ["inputs", "histories"], "every point set, clustering, cluster sizes (no larger than the component they are matched to), sequence of matches and shifts",
  "Tests use one or two fixed sets; permutation and cluster index bookkeeping must hold for all sequences.",
  ["hvd/reference_set.py", "hvd/utils.py"],
  [("matching", "hvd/reference_set.py ReferenceSet.match/_match/_match_components"), ("shift", "hvd/reference_set.py ReferenceSet.shift/set_medoids"), ("direction", "hvd/utils.py compute_chim")])
p("P12", "Optimisation runs honour budget and report a true history",
  "A run performs exactly the requested number of iterations unless a stopping criterion triggers earlier, and returns decision and objective arrays that correspond: each returned objective vector is the objective function at the returned decision vector. Recorded histories have one entry per iteration and reproduce the objective and indicator values of the set that iteration started from. Removing duplicate points (at most 1e-8 apart) keeps one representative of each distinct point, and for a given seed two identical runs give identical results.",
  ["histories", "configurations"], "every iteration budget, population, problem with or without constraints, and gradient- or Newton-based optimiser",
  "Tests only assert convergence on a few problems.",
  ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py"],
  [("run loops", "run / newton_iteration / iterate / log / terminate in hvd/newton.py, hvd/mmd_newton.py, hvd/gradient_based.py"), ("population check", "hvd/newton.py HVN._check_population")])
p("P13", "Problem evaluation is pointwise and derivatives match the functions",
  "For every test problem, evaluating a batch gives row by row the values of evaluating each point alone, results have one value per declared objective or constraint, and invalid dimensions or bounds are rejected. The Jacobians and Hessians offered for objectives and constraints are the derivatives of the evaluated functions. When bound constraints are appended, they are non-positive exactly inside the box and come after the problem's own inequality constraints.",
  ["inputs", "configurations"], "every problem, every number of variables/objectives, every interior point, single points and batches of any size",
  "Tests sample a few problems at their default sizes.",
  ["hvd/problems/base.py", "hvd/problems"], [("dispatch and shape handling", "hvd/problems/base.py MOP/CMOP"), ("box constraints", "hvd/problems/base.py boundary_constraint")])
p("P14", "Benchmark problems follow their published definitions",
  "The objective and constraint functions of the benchmark families equal their published formulas for every admissible number of variables and objectives. Reported Pareto sets lie in the box and map onto points of the Pareto front, and reported fronts satisfy the published front equation, are mutually non-dominated and are not dominated by any attainable feasible point.",
  ["inputs", "configurations"], "every admissible dimension, every decision vector in the box, every requested number of front points (fronts that are not downloaded)",
  "Tests compare default dimensions at few points; index ranges (odd/even variables, distance vs position parameters) depend on the dimension.",
  ["hvd/problems"], [("formulas", "hvd/problems/{zdt,dtlz,eqdtlz,cf,uf,wfg,misc}.py")])
p("P15", "Reference directions form the complete simplex lattice",
  "The generated reference directions are all points of the unit simplex whose coordinates are multiples of one over the number of partitions, each exactly once; when a number of points is requested instead, the coarsest such lattice with at least that many points is used. Projecting directions to the sphere yields unit vectors with unchanged direction.",
  ["inputs"], "every number of objectives (at least two) and partitions",
  "Tests use one or two lattice sizes.", ["hvd/problems/utils.py", "hvd/problems/_pymoo_factory.py"], [("lattice", "hvd/problems/utils.py get_ref_dirs / generic_sphere")])
p("P16", "Reference set generation interpolates the front faithfully",
  "In the reference set generated from a two-objective front, each detected component receives the requested number of points times its share of the total length (rounded), every generated point lies on the polyline through that component's points (ordered by the first objective), both end points are retained when at least two points are allocated, and consecutive points are equally spaced along the polyline. Degenerate components and zero allocations yield a well-formed result rather than an error, and components that are all of zero length share the points equally.",
  ["inputs"], "every two-objective non-dominated front, any number of points and components, any requested size",
  "Tests cover no degenerate component or size.", ["hvd/rsg.py", "hvd/bootstrap.py"], [("filling", "hvd/rsg.py")])
p("P17", "Evolutionary survival keeps the best individuals",
  "Hypervolume-based environmental selection keeps exactly the requested number of distinct individuals, always prefers a better non-domination front to a worse one, and on the split front removes the individual whose loss costs least hypervolume (exactly for two objectives, up to the Monte Carlo resolution for more), normalised by the bounds of the current population. Feasible individuals are kept before infeasible ones. The decomposition-based algorithm replaces exactly those neighbours for whose subproblem the offspring is strictly better.",
  ["inputs", "histories"], "every merged population, number of survivors, number of objectives",
  "Tests only run the algorithm end-to-end.", ["hvd/moea/sms_emoa.py", "hvd/moea/moead.py", "hvd/exact.py"], [("survival", "hvd/moea/sms_emoa.py LeastHypervolumeContributionSurvival"), ("replacement", "hvd/moea/moead.py")])
p("P18", "Feasibility and optimality certificates are sound",
  "A point is reported feasible exactly when all its equality constraints are within 1e-4 of zero and none of its inequality constraints is active, i.e. all are below minus 1e-4. A point is reported as satisfying the optimality (KKT) conditions exactly when it satisfies the constraints within tolerance and some convex combination of the objective gradients plus active constraint gradients (non-negative multipliers for inequalities, free ones for equalities) vanishes within tolerance.",
  ["inputs", "configurations"], "every point, gradient set, constraint configuration and activity pattern",
  "Tests check one or two points.", ["hvd/base.py"], [("feasibility", "hvd/base.py State.is_feasible"), ("KKT check", "hvd/base.py State.check_KKT")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
