"""Writes properties.jsonl (kept as code so that ids, anchors and wording stay in step)."""
import json
import os

S = "src/dxss/"
P = []


def prop(id_, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id_, len(title))
    assert statement.count(". ") <= 2, id_
    P.append({
        "id": id_, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files],
                    "mechanism": [{"name": n, "where": S + w} for n, w in mech]},
    })


prop("P01", "GMRES returns only converged solutions and raises otherwise",
     "Whenever the iterative solver returns, the preconditioned residual of what it returns meets the absolute tolerance or the relative one, reached within the allowed number of iterations. If the iteration ends in any other way (iterations used up, stagnation under restarting, breakdown, NaN) the call raises an error and returns nothing. It neither raises when the tolerance is met in time nor iterates on after it is met.",
     ["inputs", "configurations"],
     "all square systems, preconditioners, right-hand sides, tolerances (given or default), iteration limits and restart lengths",
     "The tests solve one well conditioned random system of each size with generous limits; no test fails to converge, restarts, or sets a tolerance near a residual norm.",
     ["gmres.py"], [("get_gmres_solution", "gmres.py: get_gmres_solution (setTolerances, setGMRESRestart, convergence reason)")])
prop("P02", "GMRES solves the system it was given, whatever was solved before",
     "The returned pair is a solution of the caller's own operator equation and its true residual b - A x; operator, preconditioner and right-hand side are used as given and left unmodified. The result does not depend on whether progress is printed, nor on which systems were solved earlier in the same process. The progress report shows one line per iteration with the norms that convergence was judged by.",
     ["inputs", "histories"],
     "all systems and all sequences of solver calls in one process",
     "Each test makes a single call and compares the solution only; option leaks, residual sign or scale, and history effects are not observed.",
     ["gmres.py"], [("get_gmres_solution", "gmres.py: shell matrix and preconditioner, buildResidual, PETSc options"),
                    ("convergence_monitor", "gmres.py: convergence_monitor")])
prop("P03", "Time basis functions are the nodal polynomials, with their derivatives",
     "For every supported degree the basis functions in time are the polynomials that are one at their own equispaced node of the unit interval and zero at the others (the constant one for degree zero). The accompanying derivative functions are their exact derivatives at every point.",
     ["inputs"], "degrees 0 to 3, every basis function, every point of the real line",
     "No test imports the time discretisation without the finite element library; nothing compares basis and derivative.",
     ["precomp_time_int.py"], [("basis_in_time", "precomp_time_int.py: basis_in_time")])
prop("P04", "Time element matrices are the exact integrals of the basis products",
     "For every pair of trial and test degree the mass, first-derivative and second-derivative time matrices equal the exact integrals over the unit interval of the products of the basis functions and of their derivatives, with rows indexed by the test function and columns by the trial function.",
     ["configurations"], "all 16 pairs of supported degrees, all six matrices, every entry",
     "Tests only run the solver for one or two pairs of equal degrees and look at rough error sizes.",
     ["precomp_time_int.py"], [("get_elmat_time", "precomp_time_int.py: get_elmat_time")])
prop("P05", "Quadrature rules integrate exactly to their order on every interval",
     "On every interval each quadrature rule's points lie in the interval, its weights sum to the length, and it integrates every polynomial up to the rule's order of exactness (up to the digits its points are tabulated with). Points and weights for an interval are the affine image of those for any other interval, and left Radau rules contain the left end point.",
     ["inputs", "configurations"], "all offered rules and numbers of points, all intervals, all monomials up to the order of exactness",
     "Only two of the rules are used by any solver, on one interval; errors of quadrature order are hidden by the discretisation error.",
     ["precomp_time_int.py"], [("QuadRule", "precomp_time_int.py: QuadRule.current_pts, QuadRule.t_weights")])
prop("P06", "The slab reconstruction polynomial is one at the left end, zero at the right",
     "The reference polynomial that lifts the jump between slabs is one at the left end of a slab and zero at its midpoint and right end, and the derivative offered with it is its exact derivative everywhere. Consequently the lifted solution is continuous across slab boundaries.",
     ["inputs"], "every point of the real line",
     "It only enters the measured errors, which tests check against loose bounds.",
     ["precomp_time_int.py"], [("theta_ref / d_theta_ref", "precomp_time_int.py: theta_ref, d_theta_ref")])
prop("P07", "Slab and global unknowns correspond one to one, for every degree and slab",
     "Every unknown of the global space-time vector belongs to exactly one component, slab and time node, and the per-slab vectors hold exactly the unknowns of their slab in the same spatial positions. What is gathered from the global vector for a slab, processed and scattered back touches the unknowns of that slab (and, for the coupling, the end of the previous and the start of this one) and no others.",
     ["configurations"], "all degrees in time and space (primal and dual may differ), all numbers of slabs, all meshes and dof numberings",
     "Tests use one or two configurations and cannot see index mix-ups that leave the error small or only matter for unequal degrees or three or more slabs.",
     ["space_time.py"], [("index walk int_idx_q / coupling_idx_q", "space_time.py: setup_spacetime_finite_elements, apply_spacetime_matrix, pre_time_marching")])
prop("P08", "The slab matrices are the stabilised variational form of one slab",
     "For every choice of degrees, step size, positive stabilisation parameters and mesh, the slab matrix holds exactly the terms of the stabilised space-time formulation (wave operator and its transpose, data fit, dual and primal stabilisation, boundary terms) with their coefficients, and nothing else. With the jump terms it additionally has the jump penalty of the first time node; the matrix of the first slab is the one without them.",
     ["configurations", "inputs"], "all degrees, numbers of slabs, final times, positive stabilisation parameters and meshes",
     "The tests only look at error sizes of complete solves for one parameter set; a wrong stabilisation term or a swapped parameter still converges.",
     ["space_time.py"], [("setup_slab_matrix", "space_time.py: SpaceTime.setup_slab_matrix")])
prop("P09", "The assembled space-time matrix is the sum of slab forms and jump coupling",
     "The assembled space-time matrix is symmetric and consists of the slab form on each diagonal slab block plus the coupling of the end of one slab with the start of the next, and nothing else. Its preconditioning variant differs only in dropping the feedback of a slab on the one before, which makes it block lower triangular.",
     ["configurations", "inputs"], "all degrees, numbers of slabs, parameters and meshes",
     "No test assembles the global matrix in a way that is compared with anything.",
     ["space_time.py"], [("setup_spacetime_matrix", "space_time.py: SpaceTime.setup_spacetime_matrix, get_spacetime_matrix")])
prop("P10", "Applying the space-time operator equals multiplying by the assembled matrix",
     "For every vector the matrix-free application of the space-time operator gives the product with the assembled space-time matrix. The input vector is left unmodified, and the result does not depend on earlier applications or on the contents of the output vector.",
     ["inputs", "configurations", "histories"], "all vectors, degrees, numbers of slabs, parameters, meshes and sequences of applications",
     "Nothing compares the two; the solver tests would merely converge to a slightly different solution.",
     ["space_time.py"], [("apply_spacetime_matrix", "space_time.py: SpaceTime.apply_spacetime_matrix, setup_coupling_matrix_between_slices")])
prop("P11", "Time marching inverts the block lower triangular system exactly and causally",
     "Given exact slab solvers, the time marching preconditioner returns the solution of the block lower triangular space-time system for every right-hand side. Slabs are solved once each in order of time, the first one with the first-slab solver and the others with the general one, and the solution on a slab does not depend on the right-hand side of later slabs.",
     ["inputs", "configurations", "schedules"], "all right-hand sides, degrees, numbers of slabs, parameters, meshes",
     "A preconditioner that is not the exact inverse still lets the outer iteration converge, so solver tests pass.",
     ["space_time.py"], [("pre_time_marching", "space_time.py: SpaceTime.pre_time_marching, pre_time_marching_improved, setup_scaled_mass_matrix_between_slices")])
prop("P12", "Both time marching variants agree and carry nothing from one use to the next",
     "The optimised and the reference time marching give the same result for every right-hand side. Each application depends only on its right-hand side and the slab solvers, not on earlier applications, and leaves the right-hand side unmodified.",
     ["inputs", "histories", "configurations"], "all right-hand sides and all sequences of interleaved applications of the two variants and of the operator",
     "Tests use one variant within an iteration that corrects its errors; stale buffers are not observable there.",
     ["space_time.py"], [("pre_time_marching_improved", "space_time.py: b_rhs_pre, vec_0_bnd_in, u1_0_pre buffers")])
prop("P13", "What a solver object hands out does not depend on the order of the calls",
     "Every matrix, form and vector handed out is the one that was asked for, whichever other objects were requested, prepared or measured before, in any order and any number of times. Everything that the operator, the marching and the coarse correction need is available after the preparation calls, in any order of them.",
     ["histories"], "all sequences of public set-up, query, measurement and application calls on a solver object",
     "Each test makes the same fixed sequence of calls once.",
     ["space_time.py"], [("lazy getters and caches", "space_time.py: get_spacetime_matrix, get_slab_matrix, get_slab_matrix_first_slab, prepare_precondition_gmres, prepare_coarse_grid_correction")])
prop("P14", "The right-hand side is the weighted data of each slab at its own times",
     "The right-hand side contains, on every slab, the integral over the slab and the data domain of the given data against the primal displacement test functions, weighted with the data parameter, and is zero in all other components. Data is evaluated at the times of that slab only.",
     ["inputs", "configurations"], "all data functions (polynomial in time up to the exactness of the rule), degrees, numbers of slabs, final times, parameters",
     "Tests have one smooth data function and only see the error of the solution.",
     ["space_time.py"], [("setup_rhs", "space_time.py: SpaceTime.setup_rhs")])
prop("P15", "Data enters only through the given data domain, in matrix and right-hand side",
     "Only what the caller's indicator marks as data domain contributes to the data-fit terms, in the slab matrices, the global matrix, its coarse version and the right-hand side alike, whether the domain is fitted to the mesh or not. The caller's description of the domain is not modified.",
     ["inputs", "configurations"], "all indicator functions, fitted and unfitted, meshes and degrees",
     "No test looks at where data is taken from; a run without any data still yields small errors for small problems.",
     ["space_time.py"], [("indicator", "space_time.py: SpaceTime.__init__ (omega), setup_slab_matrix, setup_spacetime_matrix, setup_rhs")])
prop("P16", "The well-posed option adds initial data consistently everywhere",
     "With initial data switched on, the penalty of the initial displacement, its gradient and the initial velocity appears with the same weights in the assembled matrix, the applied operator, the first-slab matrix and the preconditioner, and the given initial functions appear in the right-hand side with these weights. With it switched off none of them appears.",
     ["configurations", "inputs"], "all degrees, numbers of slabs, parameters and initial functions",
     "No test solves with this option.",
     ["space_time.py"], [("well_posed branches", "space_time.py: setup_spacetime_matrix, setup_slab_matrix, setup_rhs, apply_spacetime_matrix")])
prop("P17", "The forward-jump option adds its coupling terms consistently",
     "With jumps in the forward problem switched on, the forward coupling between slabs and its dual stabilisation appear with the right signs, weights and positions in the global matrix, in the slab matrix and in the reference marching; the operator application agrees with the global matrix, and the optimised marching refuses to run. With the option off none of these terms appears.",
     ["configurations", "inputs"], "all degrees, numbers of slabs, parameters and vectors",
     "No test uses this option.",
     ["space_time.py"], [("jumps_in_fw_problem branches", "space_time.py: setup_spacetime_matrix, setup_slab_matrix, pre_time_marching, pre_time_marching_improved")])
prop("P18", "Measured errors are the norms of the lifted solution's distance to the exact one",
     "The reported errors are the final-time norm, the largest sampled norm of the displacement error and of its time derivative, and the space-time norm of the latter, all for the solution made continuous across slabs. Sampling covers the whole time interval with both ends, and a solution that equals the exact one has error zero in all of them. On a mesh that is spread over several processes they are of the whole mesh and the same on all of them.",
     ["inputs", "configurations"], "all discrete solutions and exact solutions polynomial in time, degrees, numbers of slabs and final times",
     "Tests only check that errors are below loose bounds, so samples at wrong times or missing slabs go unnoticed.",
     ["space_time.py"], [("measured_errors", "space_time.py: SpaceTime.measured_errors")])
prop("P19", "Coarse-grid transfers and two-level correction are consistent",
     "Prolongation and restriction map every component, slab and time node to itself by interpolation in space, so that restricting a prolonged vector gives it back and polynomials of the space are reproduced. The two-level preconditioner is the coarse correction plus the time marching of what the coarse correction leaves over.",
     ["inputs", "configurations"], "all coarse and fine vectors, nested meshes, degrees and numbers of slabs",
     "No test uses the coarse grid at all.",
     ["space_time.py"], [("prolongation / restriction / q_op / pre_twolvl", "space_time.py: SpaceTime.prolongation, restriction, q_op, pre_twolvl")])
prop("P20", "The solve pipeline returns the solution of the assembled space-time system",
     "Solving with the matrix-free operator and the time marching preconditioner gives, for all data, the same solution as a direct solve of the assembled space-time system, through every solver back end and driver. Refining mesh and time steps together reduces the measured errors.",
     ["inputs", "configurations"], "all problems and configurations of the drivers",
     "Tests run each driver once with one configuration and check that nothing is raised or that errors lie below a bound.",
     ["solve_1d.py", "solve_2d.py", "solve_3d.py", "space_time.py", "gmres.py"],
     [("solve_problem", "solve_1d.py: solve_problem, get_lu_solver, PySolver"), ("PETSc wrappers", "space_time.py: SpaceTimePETScMatrixWrapper, SpaceTimePETScPreconditionerWrapper")])
prop("P21", "Generated meshes are valid, cover their domain and fit its interfaces",
     "Every mesh generator returns a conforming simplicial mesh without overlaps or degenerate cells that covers its domain exactly and resolves the boundaries of the data and target regions, at mesh sizes that resolve its curved interfaces; its mesh size follows the requested factor. Hierarchies hold the requested number of levels, each a uniform refinement of the one before.",
     ["configurations", "inputs"], "all generators, mesh size factors, refinement counts and geometry parameters",
     "Tests use two of the nine generators with one mesh size each and only need a mesh to come out.",
     ["meshes.py"], [("generators", "meshes.py: get_mesh_*, create_initial_mesh_convex, get_3d_mesh_data_all_around")])
prop("P22", "Mesh generation leaves no session behind and can be repeated in any order",
     "Every mesh generator has closed the mesh generation session it opened when it returns, on every process, so that generators can be called in any order and any number of times with the result depending on their own arguments only. A mesh is exchanged through files only after the first process has written them.",
     ["histories", "configurations", "schedules"], "all sequences of generator calls, all process ranks",
     "Each test process generates one mesh, on one process.",
     ["meshes.py"], [("gmsh session", "meshes.py: gmsh.initialize / gmsh.finalize, MPI.COMM_WORLD.rank")])
prop("P23", "Plots and output files show the given solution at the right points in time",
     "Plots and field output show the values, time derivatives and errors of the vector they are given, at the space-time points they are drawn at, for every degree and number of slabs. Producing output changes neither the vector nor the state of the solver.",
     ["inputs", "configurations"], "all solution vectors, degrees, numbers of slabs, numbers of plot points",
     "Plot functions are not called by tests; nothing inspects what is drawn or written.",
     ["space_time.py"], [("plot / plot_error / plot_para_view", "space_time.py: SpaceTime.plot, plot_error, plot_para_view")])
prop("P24", "Driver back ends use the operator, right-hand side and solver they are meant to",
     "Whatever solver back end is selected, a driver factorises the general-slab and first-slab matrices, uses each for its own slabs, and solves with the problem's right-hand side into the solution vector, which is what is measured. The back-end adapters solve with the matrix they were given and write only the result vector; conversion to other matrix formats preserves all entries.",
     ["configurations", "inputs", "histories"], "all three drivers, all back ends, all matrices and right-hand sides, repeated solves",
     "The only back end that tests run is the installed one; the others are stubbed or never selected.",
     ["solve_1d.py", "solve_2d.py", "solve_3d.py", "space_time.py"],
     [("PySolver / get_lu_solver / SOLVER_TYPE", "solve_1d.py: PySolver, get_lu_solver, solve_problem"), ("get_sparse_matrix", "space_time.py: get_sparse_matrix")])
prop("P25", "Drivers pose the problem their settings describe, at every refinement level",
     "At every refinement level, order, final time, data strip width and choice of geometric control that its settings allow, a driver poses the problem they describe: time steps and cells refined together, degrees belonging to the order, its stabilisation parameters, and data known exactly in the strip or strips meant, wherever the indicator is evaluated and in whatever groups of points. Where the data domain is declared fitted no cell of the mesh is cut by it. The exact solution it supplies comes with its time derivative, solves the wave equation and vanishes on the boundary.",
     ["configurations", "inputs"], "all three drivers, all refinement levels, orders, final times, strip widths and points in space",
     "Tests at most run a driver as it is; other levels, orders and the data domain without or with geometric control are never looked at.",
     ["solve_1d.py", "solve_2d.py", "solve_3d.py"],
     [("module settings and omega_ind", "solve_3d.py: REF_LVL, GCC, DATA_SIZE, omega_ind, SpaceTime(...)"), ("omega_ind_nogcc / sample_sol", "solve_1d.py: omega_ind_nogcc, sample_sol, dt_sample_sol")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
