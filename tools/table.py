IN, HI, CF = "inputs", "histories", "configurations"

prop("C01", "Filament Green's function is correct everywhere",
     "The poloidal flux of a unit-current circular filament equals the exact elliptic-integral formula for every source and observation point, is symmetric under exchanging source and observer, depends on the vertical positions only through their distance, and scales linearly with the overall size. At and very near the filament it stays finite because the modulus is limited.",
     [IN], "all source and observer positions with positive major radius, scalars and broadcast arrays",
     "Tests compare a few points; the identity must hold over a four-dimensional continuum of positions.",
     ["freegs/gradshafranov.py"], [("Greens", "freegs/gradshafranov.py:Greens")])

prop("C02", "Magnetic fields are the derivatives of the flux",
     "For every coil class, circuit and machine, the radial and vertical field components at any point are the centred differences -(dpsi/dZ)/R and +(dpsi/dR)/R of that same object's flux, with the documented step of 1e-3.",
     [IN, CF], "all positions, currents, turns and coil kinds",
     "Tests sample a handful of points for single coils; sign, 1/R factor and current weighting must agree for all coil kinds, points and currents.",
     ["freegs/gradshafranov.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/machine.py"],
     [("GreensBr/GreensBz", "freegs/gradshafranov.py"), ("controlBr/controlBz", "freegs/coil.py and subclasses")])

prop("C03", "A coil's field is linear in current and the sum of its filaments",
     "The flux and field of every coil kind equal its current times the sum over its filaments of the filament field weighted by turns (turns shared over the filaments, polarity and mirror image included), and precomputed responses give the same values for any later current. Unit responses never depend on the present current, and evaluating a field changes nothing. Unless told otherwise elements carry no current, have one turn and are controlled.",
     [IN, CF], "all geometries, currents, turns, observer points (scalar or array), coil kinds",
     "Tests use fixed coils and currents; linearity and filament weighting are universally quantified.",
     ["freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/pre_calc_coil.py", "freegs/machine.py"],
     [("Coil.psi/Br/Bz/control*", "freegs/coil.py"), ("Solenoid", "freegs/machine.py")])

prop("C04", "Machine fields superpose and control lists follow machine order",
     "A machine's flux and field are the sum over its elements, directly or through precomputed responses, whatever the currents are later changed to. Control responses, control currents and current adjustments list exactly the controlled elements in machine order, adjusting them by d changes the field by response times d, and uncontrolled elements are never touched.",
     [IN, CF, HI], "all machines up to 4 elements of mixed kinds, every subset of controlled elements, all currents and sequences of adjustments",
     "Tests use one or two fixed machines; misalignment between lists shows up only for particular mixes of controlled and uncontrolled elements.",
     ["freegs/machine.py"], [("Machine.control*", "freegs/machine.py:Machine"), ("Machine.setControlCurrents", "freegs/machine.py:Machine")])

prop("C05", "Circuit members carry multiplier times the circuit current",
     "At every time after construction each member of a circuit carries its multiplier times the circuit's current, and the circuit's flux, field, unit responses and precomputed responses are the multiplier-weighted sums over the members. A mirrored pair has coils at +Z and -Z in one circuit with the given current and control setting.",
     [IN, HI, CF], "all multipliers, currents and sequences of current changes, field evaluations and adjustments",
     "Tests set one current; the invariant must survive every order of operations.",
     ["freegs/machine.py"], [("Circuit.current setter", "freegs/machine.py:Circuit"), ("MirroredCoil", "freegs/machine.py")])

prop("C06", "Coil forces follow JxB with the external field plus the hoop force",
     "The force on every coil, including circuit members, is its ampere-turns times circumference times the field of everything else, plus the standard self (hoop) force in the radial direction computed from its area; the coil's own field never enters the external part. A coil with an outline feels the field at the mean of its corners, however the outline was closed. Solenoid forces and the machine-wide collection are reported under the elements' labels.",
     [IN, CF], "all positions, currents, turns, areas, self-inductance factors and external fields",
     "Tests check a few fixed coils; sign and self-field exclusion need all positions and groupings.",
     ["freegs/coil.py", "freegs/machine.py"], [("Coil.getForces", "freegs/coil.py"), ("Machine.getForces", "freegs/machine.py")])

prop("C07", "Moving a coil moves its field, outline and nothing else",
     "Assigning a new R or Z to any coil moves the position, all filaments, the outline and the field rigidly by that displacement (mirror images move oppositely in Z), in any order of moves. Current, turns, control setting, other coils and the caller's own data are unchanged.",
     [IN, HI], "all coil kinds, displacements and orders of moves",
     "Tests move one coil once; stale filament lists or outlines show only after particular sequences.",
     ["freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/pre_calc_coil.py"],
     [("R/Z setters", "freegs/*_coil.py")])

prop("C08", "Discrete Grad-Shafranov operators are exact to their order",
     "On every rectangular grid, the second- and fourth-order operators reproduce R d/dR(1/R dpsi/dR) + d2psi/dZ2 exactly at every interior point (near-boundary points included) for all polynomials up to their order, and boundary rows are the identity. The stencil form used by multigrid is the same operator with zero boundary residual and matching diagonal.",
     [IN, CF], "all domains, grid sizes in the bounds, all psi",
     "Tests measure convergence on one smooth function; an error in one near-boundary coefficient passes them.",
     ["freegs/gradshafranov.py"], [("GSsparse", "freegs/gradshafranov.py"), ("GSsparse4thOrder", "freegs/gradshafranov.py"), ("GSElliptic", "freegs/gradshafranov.py")])

prop("C09", "Solving gives the flux of the current that was given",
     "After Equilibrium.solve, the plasma flux satisfies the discrete Grad-Shafranov equation with source -mu0 R Jtor at every interior point and the chosen boundary condition on the edge, whether Jtor comes from the profiles or the caller. The recorded current density, plasma current, profiles, axis and boundary flux all belong to that solve, the total flux seen by the profiles is plasma plus coils, and the caller's arrays are not modified.",
     [IN, CF, HI], "all current densities and domains, both orders, both boundary conditions, repeated solves with different inputs",
     "Tests solve a few equilibria and look at global outputs; a sign, mu0 or R factor error for off-test inputs, or a stale attribute after a second solve, is invisible.",
     ["freegs/equilibrium.py", "freegs/multigrid.py", "freegs/gradshafranov.py"], [("Equilibrium.solve", "freegs/equilibrium.py"), ("_setSolverVcycle/createVcycle", "freegs/multigrid.py")])

prop("C10", "Boundary conditions give the right edge flux",
     "The fixed boundary sets the plasma flux to zero on the whole edge. Both free-boundary conditions set every edge point, corners included, to the flux there of the plasma current distribution (direct Green's integral, or the equivalent von Hagenow surface integral), and none of them changes interior values or the given current density.",
     [IN, CF], "all current densities, all domains and the grid shapes in the bounds (also nx != ny)",
     "Tests compare the two methods on one case to loose tolerance; a missed corner, edge orientation or weight shows only for asymmetric currents or grids.",
     ["freegs/boundary.py"], [("freeBoundary", "freegs/boundary.py"), ("freeBoundaryHagenow", "freegs/boundary.py"), ("fixedBoundary", "freegs/boundary.py")])

prop("C11", "Linear solvers solve the linear system they are given",
     "The direct solver returns the exact solution for every right-hand side and every sparse matrix, multigrid with one level is that direct solver, and every multigrid V-cycle, smoother and level leaves an exact solution unchanged (fixed point), none modifying the guess or right-hand side it is given. Restriction and interpolation keep constants and linear functions, keep zero edge residuals at zero and do not depend on nx = ny.",
     [IN, CF], "all right-hand sides and initial guesses on the grid shapes in the bounds, 1..3 levels",
     "Tests check one right-hand side; consistency for every one of them is linear algebra over a continuum.",
     ["freegs/multigrid.py"], [("MGDirect", "freegs/multigrid.py"), ("MGJacobi", "freegs/multigrid.py"), ("MultigridSolver", "freegs/multigrid.py"), ("restrict/interpolate", "freegs/multigrid.py")])

prop("C12", "Profile constraints are met exactly",
     "For ConstrainPaxisIp the returned current density integrates (the solver's Romberg rule) to the requested plasma current and the pressure on axis is the requested one; for ConstrainBetapIp the current and 2 mu0 int(p R)/int(Bpol^2 R) over the core are as requested. In every profile class J = R p' + ff'/(mu0 R) at the clipped normalised flux times the core mask, with the documented choice of boundary flux (given, limiter or equilibrium, X-point, grid corner), and stored axis and boundary flux are the ones used.",
     [IN, CF], "either sign of current, axis flux above or below the boundary flux, flux maps, masks, exponents and poloidal fields in the bounds",
     "Tests check global currents of a few converged equilibria; sign conventions, masks and clipping need all flux maps.",
     ["freegs/jtor.py"], [("ConstrainPaxisIp.Jtor", "freegs/jtor.py"), ("ConstrainBetapIp.Jtor", "freegs/jtor.py"), ("ProfilesPprimeFfprime.Jtor", "freegs/jtor.py")])

prop("C30", "Changing resolution or domain keeps the equilibrium",
     "refine, coarsen and newDomain return an equilibrium on the same (or the requested) domain with the documented resolution, whose plasma flux is the interpolation of the old one (exact at shared points and for polynomials within the spline order), with the same machine, boundary condition, discretisation order, limiter setting and plasma current, and profiles evaluated against the new equilibrium. The original equilibrium is unchanged.",
     [IN, CF, HI], "all plasma fluxes, both orders, both boundary conditions, profiles present or not, sequences of changes",
     "Tests refine once and look at shapes; edge values and carried-over settings matter for what is solved next.",
     ["freegs/equilibrium.py", "freegs/multigrid.py"], [("refine", "freegs/equilibrium.py:refine"), ("coarsen", "freegs/equilibrium.py:coarsen"), ("newDomain", "freegs/equilibrium.py:newDomain")])

prop("C13", "Pressure and poloidal current function integrate p' and ff'",
     "Every profile class's pressure(psinorm) is the integral of its own pprime from psinorm to the plasma edge times the axis-to-boundary flux difference, zero at the edge and outside; fpol satisfies f^2 = fvac^2 + twice the same integral of ffprime, with the sign of fvac, and equals fvac at the edge and outside. Scalars, lists and arrays of any shape give the same values entry by entry, an output array given by the caller is overwritten whatever it held, and an explicitly given pressure or fpol function is used as it is.",
     [IN, CF], "all normalised fluxes, p' and ff' profiles, axis and boundary fluxes (either orientation), signs of fvac, input forms",
     "Tests compare one profile at a few points; normalisation and orientation errors need every flux difference and sign.",
     ["freegs/jtor.py"], [("Profile.pressure", "freegs/jtor.py"), ("Profile.fpol", "freegs/jtor.py")])

prop("C14", "The core mask marks exactly the core",
     "core_mask is 1 exactly at the grid points inside the boundary flux that are connected to the magnetic axis through such points without passing an X-point, and 0 elsewhere (private flux and disconnected regions). Next to an X-point (its 3x3 neighbourhood) a point is core exactly when its normalised flux is below one. This holds for either flux orientation and wherever axis and X-points lie.",
     [IN, CF], "all flux maps on grids in the bounds, axis positions, up to two X-points including at the edge, both flux orientations, boundary flux given or from the first X-point",
     "Tests use one smooth flux; leaks through corners, missed corridors or edge handling appear only for particular inside/outside patterns.",
     ["freegs/critical.py"], [("core_mask", "freegs/critical.py:core_mask")])

prop("C15", "Critical points are found, classified and ordered",
     "find_critical reports each isolated interior zero of the poloidal field once, with its position and flux: an O-point where the flux Hessian is definite, an X-point where it is indefinite. The O-point nearest the middle of the domain comes first, X-points are ordered by flux distance from it, and X-points whose flux is not within 0.1% of the extreme along the straight line from the primary O-point are discarded (discard_xpoints). A flux without critical points gives two empty lists.",
     [IN], "all flux functions in the stated families (cubics), positions and orientations",
     "Tests look at one or two fluxes; sign, ordering and duplicate handling need the whole family.",
     ["freegs/critical.py"], [("find_critical", "freegs/critical.py:find_critical")])

prop("C16", "Flux surfaces are traced where the flux has the requested value",
     "find_psisurface searches from the given start towards the given end but never beyond the domain, and returns the linearly interpolated first point at which the normalised flux reaches the requested value (the start if it is already above). find_separatrix and Equilibrium.separatrix return one point per angle, equally spaced round the primary O-point from theta = 0 (shifted by half a step only if an X-point ray is hit), each on the surface of the requested normalised flux of that O-point and X-point.",
     [IN, CF], "all starts, directions, domains and sampled fluxes in the bounds, either flux orientation, all angle counts in the bounds",
     "Tests trace one equilibrium; clipping at the domain edge and crossing selection depend on direction and start.",
     ["freegs/critical.py", "freegs/equilibrium.py"], [("find_psisurface", "freegs/critical.py"), ("find_separatrix", "freegs/critical.py"), ("separatrix", "freegs/equilibrium.py")])

prop("C17", "Coil current control minimises the documented objective within limits",
     "constrain changes the currents of the controlled coils, and no others, by the result of a fit whose objective is the sum of squares of Br and Bz at the X-points, of the flux differences of the isoflux pairs and of the flux value errors, after the change, plus gamma squared times the squared current changes; the fit starts from the corresponding Tikhonov solution. Each resulting current lies within its own coil's limits, the total absolute controlled current within the maximum, and limits are neither tightened nor loosened; no constraints, or limits for the wrong number of coils, are refused without touching currents.",
     [IN, CF, HI], "all coil responses, currents, constraint positions, limits (also when currents start outside), subsets of controlled coils, repeated calls",
     "Tests check convergence in a few machines; limits aligned to the wrong coil or relative to the wrong current pass when all coils are alike.",
     ["freegs/control.py", "freegs/machine.py"], [("constrain.__call__", "freegs/control.py")])

prop("C20", "The plasma boundary flux is chosen correctly",
     "Without a limiter check the boundary flux is that of the primary X-point (with a fixed boundary and no X-point the edge flux; otherwise undefined). With a limiter check it is the flux nearest the axis value among the X-point and the wall's limit points (those below three quarters of the X-point height, if there is an X-point), for either flux orientation, with contact point, is_limited flag and core mask to match. Limit points are equally spaced along the whole closed wall and the flux there is interpolated from the flux map at that (R, Z).",
     [IN, CF], "all flux maps, limit points, walls and X-points in the bounds, both flux orientations",
     "Tests have one limited case; orientation, transposition and the choice between X-point and limiter depend on the flux.",
     ["freegs/equilibrium.py", "freegs/machine.py"], [("Equilibrium._updatePlasmaPsi", "freegs/equilibrium.py"), ("Wall/limit points", "freegs/machine.py")])

prop("C32", "Safety factor and toroidal flux are the flux-surface integrals",
     "find_safety and Equilibrium.q give for each requested normalised flux the contour integral of f/(2 pi R^2 Bpol) round that surface of the actual plasma boundary (limited or diverted), one value per surface in the given order and form (scalar, list, array, or the number of equally spaced ones strictly inside), extrapolated smoothly near axis and edge. tor_flux is the trapezoidal integral of q over psi (zero at the first point) and rhotor its square root relative to the last closed surface, for either flux orientation.",
     [IN, CF], "all surface shapes, fields, f values and q profiles in the bounds, diverted or limited, input forms",
     "Tests check q for one equilibrium; weights, f evaluation per surface and normalisation need arbitrary surfaces.",
     ["freegs/critical.py", "freegs/equilibrium.py"], [("find_safety", "freegs/critical.py"), ("q/tor_flux/rhotor", "freegs/equilibrium.py")])

prop("C18", "Fitting coil currents to a target flux map",
     "ConstrainPsi2D, ConstrainPsiNorm2D and their Advanced forms set the controlled currents (no others) to the result of a least-squares fit of the weighted differences between the achieved flux map (minus its weighted average, or normalised with axis and boundary flux of the same currents) and the target map treated alike, for scalar or map weights. The Advanced forms start inside the current limits, keep each controlled current within its own limits and the total within max_total_current.",
     [IN, CF], "all plasma fluxes, coil responses, currents, targets, weights, limits and choices of controlled coils in the bounds",
     "No test exercises these classes; bounds, averages and weights need arbitrary maps.",
     ["freegs/control.py"], [("ConstrainPsi2D", "freegs/control.py"), ("ConstrainPsi2DAdvanced", "freegs/control.py"), ("ConstrainPsiNorm2D(Advanced)", "freegs/control.py")])

prop("C19", "Picard iteration stops exactly when converged and reports honestly",
     "picard.solve returns after the first solve whose largest change of total flux is below atol or rtol times the range of the flux and whose boundary flux changed by less than rtol (relative) or atol, and never otherwise: not without a boundary flux, not before the plasma is limited if wait_for_limited; when maxits is exceeded it raises RuntimeError. Coils are adjusted before the first solve and between solves but not after the last, each solve starts from (1-blend) times the new total flux plus blend times the previous start, a given boundary flux is passed on, the limiter is checked from iteration limit_it on (always once limited), and convergenceInfo lists the changes of every solve.",
     [IN, HI, CF], "all sequences of flux maps, boundary fluxes, limiter states and coil adjustments up to 4 solves, all tolerances and options",
     "Tests run a few converging cases; early stops or mixed-up histories appear only for particular sequences.",
     ["freegs/picard.py"], [("solve", "freegs/picard.py:solve")])

prop("C27", "Flux and field evaluators combine plasma and coils consistently",
     "At any point psiRZ is the interpolated plasma flux plus the coils' flux at their present currents, Br and Bz are -1/R dpsi/dZ and 1/R dpsi/dR of the plasma flux plus the coils' field, Bpol and Btot are magnitudes, and psi(), psiN() and psiNRZ() are the same flux on the grid and normalised with axis and boundary flux. Btor is fpol(psiN)/R in the core and fvac/R outside it, weighted with the interpolated core mask in between; profile evaluators are those of the profiles last solved with; scalars and arrays give the same values.",
     [IN, CF, HI], "all points of the domain, plasma fluxes and coil responses in the bounds, currents changed after the solve",
     "Tests look at a few values; sign, 1/R factor and missing coil contributions depend on position and currents.",
     ["freegs/equilibrium.py", "freegs/machine.py"], [("Equilibrium.Br/Bz/psiRZ/Btor", "freegs/equilibrium.py")])

prop("C28", "Global diagnostics are the documented integrals over the core",
     "Plasma volume, average pressure, thermal energy, all poloidal betas, toroidal, total and normalised beta, all internal inductances, effective elongation and cylindrical safety factor equal their documented formulas evaluated with the core mask (whole domain if there is none), grid spacings in each direction and geometry of the requested number of boundary points. Evaluating them changes nothing.",
     [IN, CF], "all fluxes, fields, profiles, currents of either sign and boundary shapes in the bounds; also nx != ny and dR != dZ",
     "Tests check none or one of these; a wrong factor, missing mask or swapped spacing is invisible on square grids.",
     ["freegs/equilibrium.py"], [("plasmaVolume", "freegs/equilibrium.py"), ("poloidalBeta*", "freegs/equilibrium.py"), ("internalInductance*", "freegs/equilibrium.py"), ("betaN/toroidalBeta/totalBeta", "freegs/equilibrium.py")])

prop("C25", "Polygon routines: crossing, area and triangulation",
     "polygons.intersect is true exactly when a side of one line or polygon properly crosses a side of the other (sides whose cross product is below 1e-6 count as parallel; touching ends are left open), the last point being joined to the first only if closed, and symmetric in its arguments. area is the signed shoelace area, positive clockwise, and clockwise follows it. triangulate cuts every simple polygon, convex or concave, of either orientation and any first vertex, into n-2 triangles that tile it, without modifying the input.",
     [IN, CF], "all positions of the free vertices in the bounds, open or closed, both orientations, all starting vertices",
     "Tests use a handful of fixed polygons; concave shapes and closing sides are missed.",
     ["freegs/polygons.py"], [("intersect", "freegs/polygons.py"), ("triangulate", "freegs/polygons.py"), ("area/clockwise", "freegs/polygons.py")])

prop("C26", "Quadrature averages polynomials exactly over polygons",
     "The 1-, 3- and 6-point triangle rules average every polynomial of degree 1, 2 and 4 exactly over every triangle, with positive weights that sum to one and points inside; other numbers of points are refused. polygon_quad over any simple polygon has non-negative weights that sum to one and averages linear functions exactly, so the filaments of a shaped coil represent a uniform current density with the right centroid.",
     [IN, CF], "all triangles, all polynomials up to the degree, all positions of the free vertex of the polygons in the bounds",
     "Tests integrate one or two functions over fixed shapes.",
     ["freegs/quadrature.py", "freegs/polygons.py"], [("triangle_quad", "freegs/quadrature.py"), ("polygon_quad", "freegs/quadrature.py")])

prop("C29", "Shape parameters are the documented functions of the boundary",
     "Geometric axis, minor radius, (inverse) aspect ratio, elongations, triangularities and Shafranov shift follow from the extreme points of the boundary at the requested number of points and the primary O-point. innerOuterSeparatrix interpolates, in the grid row nearest the requested height, the boundary crossing nearest the axis on each side (the edge of the domain if there is none), and intersectsWall tells whether the closed boundary crosses the closed wall.",
     [IN, CF], "all boundary point positions, flux rows, heights and orientations in the bounds",
     "Tests check one equilibrium at most; which extreme point is used depends on the shape.",
     ["freegs/equilibrium.py", "freegs/polygons.py"], [("geometricAxis", "freegs/equilibrium.py"), ("triangularity*", "freegs/equilibrium.py"), ("innerOuterSeparatrix", "freegs/equilibrium.py"), ("intersectsWall", "freegs/equilibrium.py")])

prop("C21", "An equilibrium survives writing to and reading from HDF5",
     "Reading a file that was written gives an equilibrium with the same domain, resolution, plasma flux, total flux, plasma current, boundary condition, order, limiter setting, wall and reference radius, in which every coil, shaped, filament and multi-filament coil, solenoid and circuit of plain coils has its label, kind, geometry, current, integral number of turns, multipliers, control setting and response. Writing modifies nothing and the file is independent of later changes. Coils, shaped, filament and multi-filament coils, solenoids, circuits and walls compare equal exactly when all quantities that define them agree, elements of different kinds never; machines exactly when their labelled elements, in any order, and their walls do.",
     [IN, CF], "all fluxes, currents (also zero), positions, multipliers, element kinds, boundary conditions and options in the bounds",
     "The test stores one machine with default options; which attribute is lost depends on the element kind and its settings.",
     ["freegs/dump.py", "freegs/machine.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py"],
     [("OutputFile.write_equilibrium/read_equilibrium", "freegs/dump.py"), ("to_numpy_array/from_numpy_array", "freegs/coil.py and subclasses")],
     note="The HDF5 library is replaced by an in-memory model (engine/h5.py); one known finding (KF02).")

prop("C22", "GEQDSK files carry the equilibrium, and reading uses all of the file",
     "A written GEQDSK file holds the domain, total flux and boundary flux relative to the magnetic axis, axis position, reference radius and field, plasma current, the profiles and safety factor on the uniform flux grid from axis to boundary (the safety factor of the first and last entry being that of their neighbours), the wall and a closed boundary curve. Reading one gives an equilibrium on the file's domain (or the requested one, at no worse resolution), whose profiles interpolate the file's pressure and f, whose first current density and fitting targets are those of the file within its plasma, and whose wall, limit points, reference radius and fit options are those given. The result does not depend on the currents already in the coils.",
     [IN, CF], "all flux maps, profiles, domains, coil currents and options in the bounds; grids that are not 2^n+1; other domains",
     "No stable test reads or writes GEQDSK; a transposed map, a wrong flux grid or a lost option still gives a plausible equilibrium.",
     ["freegs/geqdsk.py", "freegs/jtor.py", "freegs/equilibrium.py"], [("write", "freegs/geqdsk.py"), ("read", "freegs/geqdsk.py")],
     note="The text format itself is the library freeqdsk's; the fits and the Picard iteration are C18 and C19.")

prop("C24", "Sensors measure what they are placed around",
     "A Rogowski loop reads the current through it: turns times current of every filament inside (for a shaped coil, the fraction of its cross-section inside), circuit members with their multipliers, plus the plasma current density integrated over the loop. Field probes read the total Br and Bz along their direction and flux loops the total flux at their position, with the coil currents of the moment and with or without plasma. Sensors that are off keep their value, and machines without sensors can be measured.",
     [IN, CF, HI], "all loop shapes in the bounds, coil kinds, positions, turns, currents, angles and plasma current densities",
     "Tests place one loop round one coil with one turn; partial overlap, turns and multipliers need all placements.",
     ["freegs/machine.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py"],
     [("RogowskiSensor", "freegs/machine.py"), ("PoloidalFieldSensor/FluxLoopSensor", "freegs/machine.py"), ("inShape", "freegs/coil.py and subclasses")],
     note="shapely is replaced by exact symbolic geometry for points, polygons and axis-parallel boxes.")

prop("C23", "The optimiser returns the best candidate and respects its controls",
     "Differential evolution returns the candidate with the lowest score of all that were measured, never modifies the starting object through the controls, never lets a member of the population get worse, and tells the monitor the best so far each generation. A trial changes at least one control, to x1 + F (x2 - x3) of three different other members, each choice being equally likely; mutations stay within 10%. Optimising equilibria solves each candidate again with the moved coils' field, never chooses a failed solve, keeps coils within all limits given (also zero), and measures the largest current and force over all elements.",
     [IN, HI, CF], "all scores, random draws, control values, limits and generations in the bounds; any one solve failing",
     "Tests run one random seed with two controls; a wrong best, a control never chosen or a limit of zero does not show.",
     ["freegs/optimiser.py", "freegs/optimise.py"], [("optimise/mutate/pickUnique", "freegs/optimiser.py"), ("optimise, CoilRadius, CoilHeight, measures", "freegs/optimise.py")])

prop("C31", "Field lines follow the field and stop at the edge",
     "Per unit toroidal angle a field line moves by R (Br, Bz)/Btor, reversed if followed backward, and its length grows by R |B|/|Btor|. Without a wall exactly the lines within 1 cm of the edge of the domain or outside it are stopped, with a wall exactly those outside it, also for concave walls and behind corners; a stopped line stays where it is. Lines keep the order and shape of the start positions, and traceFieldLines starts them at equal distances outside the boundary on the outboard midplane and follows them both ways.",
     [IN, CF, HI], "all positions, fields of either toroidal direction, domains and walls in the bounds, scalar, 1-D and 2-D starts",
     "There are no tests; positions behind corners or inside notches of the wall, and negative Btor, are special cases.",
     ["freegs/fieldtracer.py"], [("FieldTracer", "freegs/fieldtracer.py"), ("traceFieldLines", "freegs/fieldtracer.py")],
     note="The ODE integrator is replaced by a recorder; points exactly on the wall and rays exactly parallel to a side are left open.")

prop("C33", "DivGeo files carry the equilibrium",
     "A written DivGeo file holds the numbers of points, the grid coordinates in each direction, the vacuum field at the reference radius, the boundary flux and, with R varying fastest, the flux relative to the boundary at every grid node, so that another code reading it by its documented layout gets the map back. It is the same whether the critical points are given or found, for grids of different size in each direction, and for data with the coordinates as arrays or as domain.",
     [IN, CF], "all fluxes, domains, axis and boundary values, profiles and coil currents in the bounds; nx != ny",
     "There are no tests; a transposed map, a wrong reference flux or wrong coordinates still give a readable file.",
     ["freegs/divgeo.py", "freegs/_divgeo.py", "freegs/geqdsk.py"], [("write", "freegs/divgeo.py"), ("write", "freegs/_divgeo.py")])

prop("C34", "Automatic filaments fill the coil's outline",
     "A coil given only by its outline is filled with at least one filament. All filaments are different and lie inside the outline, and for compact outlines their number is within a factor of two of the number asked for and they are spread apart over the cross-section, for either orientation and whether or not the outline is closed explicitly. The coil has the area of its outline, its position is the mean of the outline's corners (a repeated closing corner counted once), its flux is its current times turns shared equally by the filaments, and the outline given is not modified.",
     [IN, CF], "all sizes and positions of the outlines in the bounds, either orientation, closed or open, all requested numbers in the bounds",
     "There are no tests; which points are inside depends on the outline, and thin outlines can miss the grid.",
     ["freegs/filament_coil.py"], [("populate_with_fils", "freegs/filament_coil.py"), ("FilamentCoil.__init__", "freegs/filament_coil.py")])
