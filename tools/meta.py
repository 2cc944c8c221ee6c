"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; output is committed)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "conmech/mesh/"
D = "conmech/dynamics/"
S = "conmech/solvers/"
PS = "conmech/simulations/problem_solver.py"
ST = "conmech/state/state.py"

# id, title, statement, over, quantifier text, why tests can't, files, mechanism, (technique, note)
P = []


def prop(id_, title, statement, over, text, why, files, mechanism, technique, note):
    assert len(title) <= 80, (id_, len(title))
    P.append(
        {
            "property": {
                "id": id_,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {
                    "files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "hook_needed": None,
                },
            },
            "check": {
                "property": id_,
                "quick_cmd": f"bash run_check.sh {id_}",
                "thorough_cmd": f"VERIF_TIER=thorough bash run_check.sh {id_}",
                "evidence_file": f"evidence/{id_}.json",
                "technique": technique,
                "level": "exploration",
                "level_note": note,
            },
        }
    )


PBT = "property-based testing (Hypothesis): "

prop(
    "C01",
    "Mesh descriptions give valid meshes of exactly the described domain",
    "A mesh built from any description (cross, pygmsh rectangle, polygon, circle, spline, extruded "
    "polygon, twist, Barboteu, cube, ball) is a conforming set of non-degenerate, non-overlapping "
    "simplices without unused nodes that covers exactly the described domain at the described "
    "scale, with elements no larger than the requested size allows. "
    "An initial position moves the lower corner of the mesh to that point and changes nothing "
    "else. "
    "The listed edges are exactly the edges of the elements.",
    ["inputs", "configurations"],
    "every mesh family, size, element size, shape parameters and initial position",
    "tests build a handful of fixed meshes and compare a few counts and normals",
    [M + "zoo", M + "mesh_builders.py", "conmech/properties/mesh_description.py"],
    [
        ("mesh families", M + "zoo/"),
        ("translation by initial position", M + "mesh_builders.py"),
        ("description parameters", "conmech/properties/mesh_description.py"),
    ],
    PBT + "geometric oracle (volumes, conformity, containment, boundary)",
    "Generated descriptions of 10 families; exact polygon/box volumes, conformity by face counting. "
    "Families needing meshzoo/dmsh cannot run offline.",
)
prop(
    "C02",
    "Importing a mesh file reproduces the mesh that was written",
    "Importing a mesh from a file gives the same nodes (coordinates in the dimension of the mesh) "
    "and the same simplices as were written, for every supported file format and byte order; "
    "cells of lower dimension and the third zero coordinate of plane meshes are ignored.",
    ["inputs", "configurations"],
    "every conforming 2D or 3D mesh, file format, extra cells",
    "tests import one file",
    [M + "zoo", "conmech/properties/mesh_description.py"],
    [("import by meshio", M + "zoo/")],
    PBT + "round trip through files in a scratch directory",
    "Generated meshes written by meshio in several formats; trusts meshio's writer.",
)
prop(
    "C03",
    "Boundary classes, renumbering and prescribed values follow the description",
    "Building a body renumbers nodes but keeps the same simplices; contact, Neumann and Dirichlet "
    "faces are exactly the boundary faces selected by the description (Neumann: neither of the "
    "others). "
    "The node groups (contact, other free boundary, interior, Dirichlet) are disjoint, contiguous "
    "and complete, each node is in the group which its position selects, and prescribed values "
    "are those of the given condition at the node.",
    ["inputs"],
    "every mesh, numbering of nodes and elements, and predicates for contact, Dirichlet and named "
    "boundaries",
    "tests check a few hand-made meshes with one description each",
    [M + "boundaries_factory.py", M + "boundaries.py", M + "boundary.py", M + "mesh.py"],
    [
        ("extraction of boundary faces", M + "boundaries_factory.py"),
        ("reordering of nodes", M + "boundaries_factory.py"),
        ("index ranges", M + "boundaries.py"),
        ("values of conditions", M + "boundary.py"),
    ],
    PBT + "reference classification computed from the definition",
    "Generated 2D/3D meshes and predicates; 3D faces described as both contact and Dirichlet are "
    "excluded (see KF-a).",
)
prop(
    "C04",
    "Surface normals are unit, outward and paired with their faces",
    "Every normal which a body reports for a boundary or contact face has length one, is "
    "perpendicular to that face and points out of the body, also for non-convex bodies and bodies "
    "with holes.",
    ["inputs"],
    "every 2D mesh and boundary description; every 3D mesh whose boundary has one class",
    "tests look at normals of a few convex meshes",
    [M + "boundaries_factory.py", M + "boundaries.py"],
    [("normals of surfaces", M + "boundaries_factory.py")],
    PBT + "reference normals and the divergence theorem",
    "Generated meshes with holes, shears and mirrors. 3D with several face classes is a recorded "
    "finding (KF-a).",
)
prop(
    "C05",
    "Mass, Laplace and load matrices are exact finite element integrals",
    "The volumes of elements, the mass matrix, the Laplacian and the weights of nodes assembled "
    "for a body equal the exact integrals of piecewise linear basis functions (times density or "
    "squared wave speed), on every mesh in 2D and 3D, whatever the numbering and orientation of "
    "elements.",
    ["inputs"],
    "every 2D and 3D simplicial mesh, density and wave speed",
    "tests compare matrices of one or two tiny meshes",
    [D + "factory", D + "dynamics.py"],
    [
        ("integrals over elements", D + "factory/_dynamics_factory_2d.py"),
        ("integrals over elements", D + "factory/_dynamics_factory_3d.py"),
        ("assembly", D + "factory/dynamics_factory_method.py"),
    ],
    PBT + "differential against an independent P1 assembly",
    "Relative comparison 1e-9 on generated meshes.",
)
prop(
    "C06",
    "Material operators realise their constitutive laws",
    "Elasticity, viscosity, relaxation, thermal expansion and conduction, piezoelectricity and "
    "permittivity operators of a body equal the finite element forms of the corresponding "
    "constitutive law with the coefficients of the material (2D and 3D where supported), with "
    "element-wise weights if a density is given. "
    "Operator matrices support arithmetic (sums, scaling, products, transpose, copies; in place or "
    "not) consistent with that of dense matrices, and only in-place operations change an operand.",
    ["inputs", "histories"],
    "every mesh and every set of coefficients, including anisotropic and non-symmetric tensors",
    "tests fix one material on a few meshes and compare final displacements",
    [D + "factory", D + "dynamics.py", "conmech/struct/stiffness_matrix.py"],
    [
        ("constitutive tensors", D + "factory/"),
        ("operators of a body", D + "dynamics.py"),
        ("matrix algebra", "conmech/struct/stiffness_matrix.py"),
    ],
    PBT + "differential against Voigt-form assembly; algebra against dense numpy",
    "Relative comparison 1e-9; rigid motions in the kernel, symmetry and energies included.",
)
prop(
    "C07",
    "Loads are integrated exactly, at the requested time",
    "The load vector of a body is the integral of the body force over the volume plus that of the "
    "surface force over the Neumann part of the boundary only, evaluated at the requested time; "
    "totals are exact for affine body forces and every node gets its exact share of constant "
    "ones. "
    "Repeated and interleaved evaluations at any times, replacing a source and clearing never "
    "give forces of another time or source. "
    "A problem which defines no forces is unloaded.",
    ["inputs", "histories"],
    "every mesh, boundary description, force field of space and time, and order of evaluations",
    "tests use constant or one fixed force and see only final states",
    ["conmech/scene/body_forces.py", D + "dynamics.py", "conmech/scenarios/problems.py"],
    [
        ("cache of sources by time", "conmech/scene/body_forces.py: FieldSource"),
        ("integration", "conmech/scene/body_forces.py: BodyForces"),
    ],
    PBT + "stateful histories of sources against reference quadrature",
    "Generated histories of up to 8 operations.",
)
prop(
    "C08",
    "Prescribed values are met exactly in every kind of problem",
    "After every solve and every time step, each Dirichlet node has exactly the prescribed value "
    "of the unknown of the step (displacement, velocity, temperature, electric potential), for "
    "any values and any number of electrodes; conditions act on nothing else. "
    "Solving never changes the operators of the body, so a solver can be used again.",
    ["inputs", "histories", "configurations"],
    "every kind of problem, method, body, prescribed values and number of steps",
    "tests prescribe zero or one constant on one mesh and compare norms",
    [S + "solver.py", D + "statement.py", M + "boundary.py"],
    [
        ("imposed conditions", S + "solver.py: _impose_dirichlet_condition"),
        ("conditions in matrices", D + "statement.py: apply_dirichlet_condition"),
    ],
    PBT + "invariant over histories, rigid translation metamorphic relation",
    "All kinds of problems with Schur and global methods, static also direct.",
)
prop(
    "C09",
    "Static solutions are the equilibrium of the loaded body in contact",
    "The displacement returned for a static problem minimises the elastic energy minus the work of "
    "loads plus the contact energy among displacements with the prescribed values: it equals the "
    "independently computed minimiser and forces balance in every free node. "
    "This holds for any mesh, rotation or mirror image of the body, boundary parts, material, "
    "loads and contact law with convex smooth potential (with or without friction); in 3D for "
    "bodies whose contact does not respond.",
    ["inputs", "configurations"],
    "every body, load, law, initial guess; Schur and global method",
    "tests compare a few stored displacements of two example bodies",
    [D + "statement.py", S, PS, D + "contact"],
    [
        ("equation of the problem", D + "statement.py: StaticDisplacementStatement"),
        ("elimination of interior nodes", S + "optimization/schur_complement.py"),
        ("contact energy", S + "solver_methods.py"),
    ],
    PBT + "differential against semismooth Newton on independently assembled matrices",
    "Tolerance 1e-3 relative (optimiser accuracy). Contact in 3D is limited by KF-a, KF-b.",
)
prop(
    "C10",
    "Method names, optimisers and initial guesses do not change the solution",
    "Every registered name of a solving method (in any letter case) selects that method and all "
    "methods, scipy optimisers (also with the law's gradient), initial guesses and switches of "
    "method on a live solver lead to the same solution; the direct method solves the same "
    "problem. "
    "Constrained optimisation returns a displacement which satisfies its constraint, and the "
    "unconstrained solution where the constraint does not matter. "
    "Unknown names are rejected.",
    ["inputs", "configurations", "histories"],
    "every body and every combination of names, optimisers, guesses and switches",
    "tests run one guess and three names on two bodies",
    [S + "_solvers.py", S, PS],
    [
        ("registry of methods", S + "_solvers.py"),
        ("choice of optimiser", S + "optimization/optimization.py"),
        ("gradient of contact", S + "solver_methods.py: make_subgradient"),
        ("direct equation", S + "direct.py"),
    ],
    PBT + "differential between configurations and against the reference minimiser",
    "Optimisers BFGS, CG, L-BFGS-B, SLSQP, Powell and gradiented ones; KF-c, KF-d recorded.",
)
prop(
    "C11",
    "The minimised functional is the energy, and contact laws match their formulas",
    "The function which optimisation minimises equals elastic energy minus work of loads plus the "
    "contact energy of the law (normal and tangential parts with their bounds, depending on "
    "velocity, static displacement and time step), up to a constant, at every point and for "
    "every kind of problem, and the gradient given to optimisers that use it (for laws which give "
    "their derivative) is the derivative of this energy. "
    "The contact laws provided by the package (slope, constant, damped normal compliance on the "
    "boundary and inside) follow their formulas for all coefficients and arguments.",
    ["inputs"],
    "every point of evaluation, body, law, coefficients",
    "tests see only minimisers of two laws at one point each",
    [S + "solver_methods.py", D + "contact"],
    [
        ("cost functional", S + "solver_methods.py: make_cost_functional"),
        ("laws", D + "contact/"),
    ],
    PBT + "differential of energies at generated points, laws against formulas",
    "2D (KF-b for 3D). The functional is observed where it is handed to scipy.",
)
prop(
    "C12",
    "Viscoelastic steps (quasistatic and dynamic) solve their equations",
    "In every step of a quasistatic or dynamic viscoelastic simulation the new velocity solves the "
    "implicit Euler equation of the step (inertia in the dynamic case, viscosity, elasticity, "
    "loads at the time of the step, contact response with the displacement before the step), and "
    "displacement is the time integral of velocity.",
    ["inputs", "histories"],
    "every body, law, time step, initial fields, time-dependent loads and number of steps",
    "tests compare final states of one simulation each",
    [D + "statement.py", PS, S],
    [
        ("equations", D + "statement.py: QuasistaticVelocity / DynamicVelocity"),
        ("time stepping", PS + ": TimeDependentSolver, run"),
    ],
    PBT + "step-by-step differential against reference solution of each step",
    "Loads of step k are taken at the start of the step (as the code does); tolerance 1e-3.",
)
prop(
    "C13",
    "Relaxation steps follow the whole history through absement",
    "In every step of a quasistatic problem with relaxation the new displacement solves the "
    "equation with elasticity, the time-dependent relaxation operator applied to the accumulated "
    "absement, loads at the time of the step and contact; absement is the time integral of "
    "displacement. "
    "Both optimisation methods follow a relaxation tensor that varies in time.",
    ["inputs", "histories"],
    "every body, law, relaxation tensor of time, initial fields, loads, number of steps",
    "tests compare the final state of one simulation",
    [D + "statement.py", PS, S],
    [
        ("equation", D + "statement.py: QuasistaticRelaxationStatement"),
        ("time stepping", PS + ": QuasistaticRelaxation"),
    ],
    PBT + "step-by-step differential against reference solution of each step",
    "Relaxation tensors proportional to an isotropic one, with generated decay.",
)
prop(
    "C14",
    "Membrane steps solve the wave equation, with contact on the edge or inside",
    "In every step of a vibrating membrane the new velocity solves the implicit Euler step of the "
    "wave equation with the given propagation speed, loads and contact response on the boundary, "
    "in the interior, or none, and displacement is the time integral of velocity.",
    ["inputs", "histories"],
    "every membrane, speed, law, initial fields, loads and number of steps",
    "tests compare the final state of one membrane per variant",
    [D + "statement.py", PS, S, D + "contact"],
    [
        ("equation", D + "statement.py: WaveStatement"),
        ("interior contact", S + "solver_methods.py: make_equation"),
        ("time stepping", PS + ": WaveSolver"),
    ],
    PBT + "step-by-step differential against reference solution of each step",
    "Schur and global method; direct in dynamic problems is a recorded finding (KF-c).",
)
prop(
    "C15",
    "Thermo-mechanical steps solve the coupled equations",
    "In every step of a thermo-mechanical simulation velocity and temperature solve together the "
    "implicit momentum equation with thermal stress and the implicit heat equation with the heat "
    "generated by deformation and exchanged by the second contact law.",
    ["inputs", "histories"],
    "every body, expansion and conductivity tensors, laws, initial fields, loads, steps",
    "tests compare the final state of one simulation",
    [D + "statement.py", PS],
    [
        ("equations", D + "statement.py: temperature statements"),
        ("coupling iterations", PS + ": find_solution_uzawa"),
    ],
    PBT + "step-by-step differential against the fixed point of the coupled equations",
    "Coupling weak enough for the iterations to contract five times per iteration.",
)
prop(
    "C16",
    "Electro-mechanical steps solve the coupled equations",
    "In every step of a quasistatic or dynamic piezoelectric simulation velocity and electric "
    "potential solve together the implicit momentum equation with piezoelectric stress and the "
    "equation of the potential driven by the new displacement, with electrode values and the "
    "second contact law.",
    ["inputs", "histories"],
    "every body, piezoelectric and permittivity tensors, electrodes, laws, initial fields, loads",
    "tests compare the final state of one simulation per variant",
    [D + "statement.py", PS],
    [
        ("equations", D + "statement.py: piezoelectric statements"),
        ("coupling iterations", PS + ": find_solution_uzawa"),
    ],
    PBT + "step-by-step differential against the fixed point of the coupled equations",
    "Coupling weak enough for the iterations to contract five times per iteration.",
)
prop(
    "C17",
    "Poisson problems are solved by every method",
    "The temperature returned for a Poisson problem solves the discrete equation with the given "
    "internal sources, boundary sources, prescribed temperatures and heat exchange on the contact "
    "boundary, in 2D and 3D and by every method; it is exact for affine solutions.",
    ["inputs", "configurations"],
    "every domain, sources, boundary parts, prescribed values and method",
    "tests solve one square with one source by one method",
    [D + "statement.py", PS, "conmech/scene/body_forces.py"],
    [
        ("equation", D + "statement.py: StaticPoissonStatement"),
        ("sources", PS + ": PoissonSolver"),
    ],
    PBT + "differential against an independently assembled Laplacian, exact affine solutions",
    "Heat exchange laws convex and smooth, in 2D.",
)
prop(
    "C18",
    "Element densities weigh the material, and updates take effect at once",
    "After any sequence of density updates and solves, the solution of a body with element-wise "
    "density is that of the material whose stiffness is multiplied by the density of each element "
    "which is in force, by every method; density one is the homogeneous body.",
    ["inputs", "histories"],
    "every 2D body, densities, order of updates and solves",
    "tests make one update on one mesh",
    [PS, D + "dynamics.py"],
    [
        ("update", PS + ": NonHomogenousSolver.update_density"),
        ("reassembly", D + "dynamics.py: reinitialize_matrices"),
    ],
    PBT + "stateful histories of updates against the reference",
    "2D only (densities are not assembled in 3D).",
)
prop(
    "C19",
    "Output steps select independent snapshots; simulations are repeatable",
    "A simulation returns one state per requested output step (by default only the last), equal "
    "to the state after that many steps of the same simulation with any other choice of outputs, "
    "with time equal to the number of steps times the time step. "
    "Returned states share no data with each other or with the running simulation. "
    "Solving again with the same solver, after any other solves, gives the same results.",
    ["inputs", "histories"],
    "every kind of simulation, list of output steps, earlier use of the solver and use of results",
    "tests ask once for one final state",
    [PS, ST],
    [
        ("output steps", PS + ": solve methods"),
        ("copies of states", ST + ": __copy__"),
        ("reset of solvers", PS + ": solve methods"),
    ],
    PBT + "model-based histories: differential against a fresh solver which outputs every step",
    "Agreement to rounding.",
)
prop(
    "C20",
    "Saved states load identical and simulations resume exactly",
    "A saved state loads with identical fields, time, mesh and products; saving, also when it "
    "fails, leaves the state and the solver as they were. "
    "A membrane simulation stopped after any step and resumed from its state (saved and loaded, "
    "copied or the same object; same or fresh solver; repeatedly) continues exactly as the "
    "uninterrupted one, including the products it records.",
    ["histories", "fault_sequences", "crash_points"],
    "every kind of state, interruption points, ways to hand the state over, failing saves",
    "no test saves or resumes",
    [ST, PS, "conmech/state/products"],
    [
        ("pickling without sources", ST + ": save"),
        ("resume", PS + ": WaveSolver.solve(state=...)"),
    ],
    PBT + "round trip, injected faults, differential of interrupted and uninterrupted runs",
    "Only membranes can be resumed; files in a scratch directory.",
)
prop(
    "C21",
    "Products record the right quantity at every step",
    "A product given to a simulation has exactly one entry per step made, at its time: penetration "
    "is the lowest displaced height of contact nodes (0 without them), a vertical intersection "
    "samples the exact membrane along the line from bottom to top, limit points are the crossings "
    "of the obstacle level along it. "
    "States keep the entries up to their own time, ranges select the entries with start < time <= "
    "stop, and copies are independent of and as usable as the original.",
    ["inputs", "histories"],
    "every membrane, field, line, level; every simulation and list of output steps",
    "no test covers products",
    ["conmech/state/products", ST, PS],
    [
        ("updates", ST + ": update_products"),
        ("products", "conmech/state/products/"),
    ],
    PBT + "exact section of the piecewise linear field; model of recorded entries",
    "Crossings closer than 1.5 sampling steps to each other or to the ends are not required.",
)
prop(
    "C22",
    "States stay consistent under any history of updates; copies are independent",
    "After any sequence of updates a state has the displacement, velocity, absement, temperature "
    "or potential and time which were set or integrated, displaced nodes equal to nodes plus "
    "displacement, and stresses (and their norms and components) computed by its constitutive law "
    "from the current fields. "
    "Copies have the same kind and content and neither side sees later changes of the other; the "
    "mesh is never moved.",
    ["histories"],
    "every sequence of updates, copies and reads on each kind of state",
    "tests never look at a state twice",
    [ST],
    [
        ("updates", ST + ": set_displacement, set_velocity"),
        ("stress", ST + ": stress"),
        ("copies", ST + ": __copy__"),
    ],
    PBT + "stateful model-based histories",
    "Vectors handed to a state are not changed by the caller afterwards.",
)

prop(
    "C23",
    "Figures and plot files show exactly the given state",
    "A drawing of a body shows all edges of its mesh in the original and the displaced position, "
    "each boundary part (or all of it and arrows in every dirichlet node) where the displaced body "
    "has it, surface forces at the time of the state in every node of the loaded boundary, and the "
    "chosen field at the displaced nodes with a colour bar of its values or of the given limits, "
    "inside the requested (or sufficient) view, in the given axes, with the given title and labels. "
    "Plots of membranes show the field over the square or along the chosen section for every state "
    "given; plots of limit points show each recorded point exactly once. "
    "Plots are saved under the configured directory with the given name and format, nothing is "
    "written unless asked for, and showing together with saving is refused.",
    ["inputs", "configurations"],
    "every body, boundary description, state, field, load, drawing option, set of limit points "
    "and name of a plot",
    "tests never look at a figure",
    ["conmech/plotting/drawer.py", "conmech/plotting/membrane.py", "conmech/helpers/config.py"],
    [
        ("bodies", "conmech/plotting/drawer.py: do_draw"),
        ("membranes", "conmech/plotting/membrane.py: plot_in_columns, do_plot"),
        ("limit points", "conmech/plotting/membrane.py: plot_limit_points"),
        ("files", "conmech/plotting/drawer.py: save_plot; conmech/helpers/config.py"),
    ],
    PBT + "drawn artists read back from matplotlib and compared with the state, an independent "
    "interpolation of the field, and the model of files",
    "Artists are read back, not pixels; membranes on the unit square.",
)
prop(
    "C24",
    "Solutions converge to those of the continuous problem",
    "For every kind of problem (static, with an elastic foundation, quasistatic, dynamic, "
    "relaxation, thermo-mechanical, electro-mechanical, wave, Poisson; in 2D, static and Poisson "
    "also in 3D) the error of the computed solution against the exact solution of the partial "
    "differential equations, with the loads, tractions, prescribed and initial values that belong "
    "to it, decreases to zero as the mesh and the time step are refined.",
    ["inputs", "configurations"],
    "every smooth solution, material, boundary split, mesh family and method",
    "tests compare with stored outputs of the same code; none knows an exact solution",
    [D, PS, S, "conmech/properties/body_properties.py", M],
    [
        ("statements", D + "statement.py"),
        ("matrices", D + "factory"),
        ("simulations", PS),
    ],
    PBT + "manufactured solutions, errors on a mesh and on its refinements",
    "Polynomial solutions; rectangles and boxes; two or three refinements.",
)

prop(
    "C25",
    "Simulations do not interfere with each other or with what they are given",
    "Any number of problems, bodies and simulations may be alive in a process: building and "
    "running one of them (in any interleaving with others, also inside callbacks of another one; "
    "several solvers of one problem object, several bodies of one problem class) does not change "
    "what any other one computes. Nothing that a user passes in (arrays of nodes and elements, "
    "positions, tensors, densities, arrays returned by callbacks, lists of output steps) is "
    "modified, and a caller may change arrays which were handed out without effect on later "
    "simulations.",
    ["inputs", "histories", "schedules"],
    "every set of simulations and every interleaving of their callbacks, all data passed in",
    "tests run one simulation at a time, on data which is not used again",
    [PS, D, S, "conmech/scene/body_forces.py", M + "mesh_builders.py", ST],
    [
        ("simulations", PS),
        ("loads", "conmech/scene/body_forces.py"),
        ("meshes from descriptions", M + "mesh_builders.py"),
    ],
    PBT + "generated interleavings (threads switched in callbacks, nested runs), frozen inputs",
    "Switches happen inside callbacks; one thread runs at a time; 2D.",
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf8") as file:
        for entry in P:
            file.write(json.dumps(entry["property"]) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [entry["check"] for entry in P],
        "not_applicable": [],
        "notes": "No hooks in /repo are needed: every check drives the public API (and the "
        "function handed to scipy.optimize.minimize). See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf8") as file:
        json.dump(manifest, file, indent=1)
        file.write("\n")


main()
