"""Text of the properties; tools/gen.py writes properties.jsonl, MANIFEST.json and part of DESIGN.md from it."""
P = []


def prop(id, title, statement, over, q, why, files, mech, note, how, bounds):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note, how=how, bounds=bounds))


REAL = "Numbers are reals, not floats (tolerance 1e-6 unless stated); "

prop("C01", "Looking up a poloidal plane by toroidal index",
     "Asking a 3D grid for the plane at an index returns the plane and toroidal coordinate that belong to that index: in a periodic grid any index, negative or several turns away, wraps to the right plane and its coordinate is shifted by whole periods, and in a non-periodic grid indices outside return no plane together with the lower or upper end of the domain. A fractional index gives a toroidal coordinate linearly interpolated between the two neighbouring planes, including across the periodic wrap. The helper that builds rectangular grids gives every plane the same requested size and centre with uniformly spaced planes that do not repeat the periodic end.",
     ["inputs", "configurations"], "every index (integer or fractional) within several periods, every plane spacing, every period length, periodic or not",
     "The suite samples a few integer indices on uniformly spaced grids; wraps over several periods and fractional indices are untested.",
     ["zoidberg/grid.py"], [("Grid.getPoloidalGrid", "zoidberg/grid.py"), ("rectangular_grid", "zoidberg/grid.py")],
     REAL + "plane objects are opaque.",
     "Grid.getPoloidalGrid is run with symbolic indices, symbolic (positive) plane spacings and a symbolic period; the result is compared with i mod ny / floor division on the solver's integers, and with linear interpolation for fractional indices.",
     "ny 1..4 (quick), indices within +-3 periods, spacings in [0.1,10]")

prop("C02", "Rectangular grid: positions and indices are inverse to each other",
     "In a rectangular poloidal grid the positions of the points span the requested lengths around the requested centre, with the guard cells outside the requested radial length, and the position at a fractional index is the linear (in the vertical direction periodic) continuation of the points. Converting an index to a position and back gives the same index, and positions outside the grid in the radial direction give indices outside the range. Requested derivatives of the position with respect to the indices are the true derivatives at every order.",
     ["inputs", "configurations"], "all grid sizes, lengths, centres and guard cell counts within the bounds and all real indices",
     "Tests evaluate a handful of points of one or two grids.",
     ["zoidberg/poloidal_grid.py"], [("RectangularPoloidalGrid.getCoordinate / findIndex", "zoidberg/poloidal_grid.py")],
     REAL + "sizes are enumerated up to the bound.",
     "The class is constructed with symbolic lengths and centres; getCoordinate, findIndex are run on symbolic indices (scalars and arrays) and the round trip, end points and derivatives are asserted.",
     "nx 4..7, nz 1..4, 0..2 guard cells, lengths in [0.1,10], indices to twice the grid")

prop("C03", "Curvilinear grid: positions and indices are inverse to each other",
     "In a curvilinear poloidal grid the position at an integer index is exactly the given point, positions are periodic in the poloidal index and continuous across the seam, and requested derivatives are the derivatives of that same position. The inverse lookup returns, for every position inside the grid, an index whose position is the one asked for, with the poloidal index in the range of one period. A position radially outside the grid is marked with an index in the corresponding outside region, and the results for the other positions of the same call are unaffected.",
     ["inputs"], "all real indices and all positions, alone and together in one call",
     "Tests look up a few points of one grid, away from the seam and inside the domain.",
     ["zoidberg/poloidal_grid.py"], [("StructuredPoloidalGrid.getCoordinate / findIndex", "zoidberg/poloidal_grid.py")],
     REAL + "the bicubic spline of scipy is replaced by an exact re-implementation; the inverse lookup is decided on grids whose splines are affine, where the Newton iteration converges in a bounded number of steps.",
     "The spline coefficients are computed from symbolic or concrete grid points with exact not-a-knot basis functions; getCoordinate is run on symbolic indices. findIndex runs its own Newton loop on symbolic targets; every branch (convergence masks, boundary clamps) is a solver decision.",
     "4x4 to 5x6 grids; shifts by 2 periods; derivative orders up to 2; 1..3 targets per call")

prop("C04", "Poloidal metric tensor and cell sizes",
     "The metric of a poloidal grid satisfies, at every point and with the cell sizes the grid reports, that covariant components times cell sizes equal the dot products of the position derivatives with respect to the indices, that the contravariant tensor is the exact inverse of the covariant one, and that cell sizes are positive. The metric of a 3D grid stacks those of its planes in toroidal order without mixing planes, and its toroidal spacing is the distance between neighbouring planes: periodic at both ends of a periodic grid and one-sided at the ends of a non-periodic one.",
     ["inputs", "configurations"], "all position derivatives with non-degenerate cells, all plane positions",
     "Tests check a few identity entries of uniform rectangular grids.",
     ["zoidberg/poloidal_grid.py", "zoidberg/grid.py"], [("PoloidalGrid.metric", "zoidberg/poloidal_grid.py"), ("Grid.metric", "zoidberg/grid.py")],
     REAL + "the derivatives of positions are free symbols (C03 relates them to the points).",
     "metric() runs on grids whose derivatives are symbolic; tensor identities are asserted in cross-multiplied form. Grid.metric runs on planes with symbolic metrics and on symbolic plane positions.",
     "2x2 to 4x3 cells, up to 3 planes for tensors and 5 for spacing")

prop("C05", "Metric of the field-aligned grid",
     "Combining a 3D grid with a magnetic field gives, at each point, a parallel covariant component equal to the squared major radius (one in Cartesian fields) times the squared ratio of field strength and toroidal field, its inverse as contravariant component, the field strength and pressure of the field at that point and toroidal angle, and unchanged poloidal components. The flux factor returned with it is the field strength times the root of the determinant of the poloidal covariant tensor. The result does not depend on earlier calls, and the metric the grid itself reports afterwards is unchanged.",
     ["inputs", "histories"], "all field strengths, toroidal fields of both signs, radii, pressures and poloidal metrics; repeated calls",
     "Tests evaluate one slab field and never call it twice.",
     ["zoidberg/zoidberg.py"], [("get_metric", "zoidberg/zoidberg.py")],
     REAL + "field and plane are stubs with free values per point.",
     "get_metric runs on a grid with symbolic plane metrics and a field returning a free symbol per point and plane; formulas are asserted in cross-multiplied form for each of several successive calls.",
     "2x2x1, 1x3x2 (quick), 3x3x3 with three calls (thorough)")

prop("C06", "Boundaries report exactly the points outside",
     "The box boundary reports a point as outside exactly if it lies outside the box; the polygon boundary reports a point as outside exactly if it is not enclosed by the polygon, whatever vertex the polygon starts from, in whichever direction it runs, convex or not, and wherever the point is relative to vertices and horizontal or vertical edges. Arrays of points are judged point by point with the shape preserved, and the empty boundary reports nothing outside.",
     ["inputs"], "all points at least 1e-3 away from the edges of the polygon, all boxes; fixed polygons and triangles with a free vertex",
     "No test covers the polygon; points level with a vertex are a measure-zero set that sampling does not hit.",
     ["zoidberg/boundary.py"], [("PolygonBoundaryXZ.outside", "zoidberg/boundary.py"), ("RectangularBoundaryXZ.outside", "zoidberg/boundary.py")],
     REAL + "points within 1e-3 of an edge are excluded.",
     "outside() runs on symbolic points; the oracle is an independent crossing number with half-open edges (for triangles: half planes), all comparisons being decided by the solver.",
     "triangles, quadrilaterals, non-convex polygons with up to 8 vertices, every starting vertex and both orientations")

prop("C08", "Analytic and equilibrium fields agree with their flux functions",
     "For the built-in stellarator-like and screw pinch fields the in-plane field is divergence free and tangent to the surfaces of the flux function given with the field, and the coil fields are the superposition of the fields of their four helical wires. The potential-based vacuum field is free of divergence and curl everywhere and equals the requested strength on the requested axis. A field read from an equilibrium file has poloidal components that are the derivatives of its flux divided by the major radius, a toroidal component from the poloidal current function that is constant outside the separatrix, the pressure profile of the file, and nothing of it shows up in other field objects.",
     ["inputs", "configurations"], "all positions in a box around the device, all strengths, several choices of modes, centres, radii and toroidal angles",
     "Tests compare single values of the field with the same formula; derivatives and the relation between components are not tested.",
     ["zoidberg/field.py"], [("StraightStellarator, RotatingEllipse, Screwpinch", "zoidberg/field.py"), ("DommaschkPotentials", "zoidberg/field.py"), ("GEQDSK", "zoidberg/field.py")],
     REAL + "tolerance 1e-5 (1e-4 for curl and divergence); elementary functions are axiomatised by their algebraic identities.",
     "The lambdified field functions are evaluated on dual numbers (forward derivatives) with symbolic positions; div, curl and tangency become algebraic identities over the terms, closed by the solver or by a normal form over sin/cos/sqrt/1/x. GEQDSK runs on an exact spline of a small synthetic file.",
     "fixed toroidal angles for coil fields, 5 mode sets, 5x6 equilibrium")

prop("C15", "Numbering of evolving cells and field line legs",
     "Every evolving (non radial guard) cell gets exactly one number and the numbers are contiguous; every cell whose field line, in a direction, hits the radial boundary with some of its samples also gets exactly one boundary number per direction, no number being used twice. For every cell the forward and backward legs are classified as interior, boundary or mixed according to which of its samples leave the radial domain, with weights that add up to one and the weight of the boundary part equal to the sum of the weights of the samples that leave.",
     ["inputs", "configurations"], "all mapped positions (inside, outside, exactly on the limits), sample counts and weights",
     "The tests use three hand-written maps.",
     ["zoidberg/weights.py"], [("assign_cell_space_numbers", "zoidberg/weights.py"), ("classify_leg_contributions", "zoidberg/weights.py"), ("build_leg_space_metadata / build_leg_weight_vector", "zoidberg/weights.py")],
     REAL + "map arrays are free symbols in the cells named by the bounds and fixed elsewhere.",
     "The real numbering functions run with symbolic map values; which samples hit is decided by the solver; uniqueness, contiguity and the weights are asserted on each path.",
     "grids up to 6x2x2, 1..4 samples")

prop("C16", "Parallel interpolation operators",
     "The sparse operators that map cell values to field line ends are well formed (row pointers monotone, column indices within the space, one row per leg), and the row of an interior leg interpolates: its weights add up to one and reproduce any polynomial up to first order exactly at the mapped position (away from the radial edges up to third order as far as the Catmull-Rom kernel does), periodic in the poloidal index. The stencil never takes values from radial guard cells, and legs that hit the boundary point at their own boundary value with the weight of the samples that hit, in the right direction and toroidal plane.",
     ["inputs", "configurations"], "all mapped positions, including negative and several periods in the poloidal index, and all sample splits",
     "Tests evaluate a few fixed maps; edges of the stencil and negative poloidal positions are not reached.",
     ["zoidberg/weights.py"], [("catmull_rom_weights / shift_weights_out_of_x_boundaries", "zoidberg/weights.py"), ("accumulate_interior_stencil / build_leg_destination_operator", "zoidberg/weights.py"), ("SparseRowMatrixBuilder.to_csr", "zoidberg/weights.py")],
     REAL + "the destination plane and leg are concrete per configuration.",
     "calculate_parallel_map_operators runs with a symbolic mapped position of one cell; floors are forked by the solver, the weights stay polynomials in the fraction, and reproduction identities are asserted.",
     "up to 8x2x5 (quick) and 10x2x7 (thorough) cells, 1..3 samples, 3..5 poloidal periods")

prop("C17", "Adjusting maps for the boundary keeps everything consistent",
     "With partial boundaries enabled, adjusting the maps marks a cell's centre map as hitting the boundary whenever any of its samples leaves the radial domain, leaves it unchanged otherwise, and keeps an interior leg exactly if some sample stays and a boundary leg exactly if some sample leaves. With them disabled every cell goes entirely one way: a cell of which only some samples leave follows its centre, and the samples concerned take the centre's mapped position. The operators stored with the adjusted maps are those of the adjusted samples, both directions are treated alike, other entries are kept, and the sub-sampled arrays are removed.",
     ["inputs", "configurations"], "all mapped positions of the centre and of the samples, all sample weights, both settings of partial boundaries",
     "Only a single default call is tested.",
     ["zoidberg/weights.py"], [("modify_maps", "zoidberg/weights.py")],
     REAL + "one evolving cell is symbolic; the operators are compared with those the package computes for the expected samples (which C16 decides).",
     "modify_maps runs on symbolic maps; the marks, unchanged entries and legs are compared with an independent classification, the operators with those of an independently filtered map.",
     "nx 5, up to 5x1x3, 1..4 samples")

prop("C07", "Field strength and field line direction follow from the components",
     "For any magnetic field the strength is the Euclidean norm of its three components at the same position and toroidal angle, and the direction of a field line is the ratio of each in-plane component to the toroidal one, times the local major radius if the field is cylindrical; this holds point by point however the positions are passed (flat list, tuple or array) and whether the field supplies its components separately or together. An error is raised exactly if the magnitude of the toroidal field is below the limit at one of the points. The slab fields have exactly the requested uniform and sheared components and radius, and fields whose source gives Cartesian components are rotated into radial, toroidal and vertical ones at each toroidal angle.",
     ["inputs", "configurations"], "all positions, toroidal angles, field components of either sign, radii and slab parameters",
     "Tests compare single values of one field.",
     ["zoidberg/field.py"], [("MagneticField.field_direction / Bmag", "zoidberg/field.py"), ("Slab, CurvedSlab", "zoidberg/field.py"), ("FusionSCField, W7X_vacuum_on_demand", "zoidberg/field.py")],
     REAL + "tolerance 1e-5; the source of Cartesian components is a free affine field.",
     "The methods run on fields whose components are polynomials with free coefficients or free values per point; the ratios are asserted in cross-multiplied form, and the error is compared with the solver's comparison of |By| with the limit.",
     "2..3 points (6 thorough), positions in [-2,2], angle in [-4,4]")

prop("C09", "Each traced field line ends where its own starting point leads",
     "Following field lines from a set of starting points returns, for each requested toroidal coordinate in order, the position of each line there, starting with the starting points themselves, in an array shaped like the (broadcast) starting points. No line influences another, however many are traced at once, forwards or backwards, and the requested tolerance reaches the integrator; mismatched inputs are rejected and the inputs are not modified. Poincare tracing returns for each turn and each slice the position of each line at that slice plus whole periods, with the slices in increasing order, equally spaced if only their number was given, and rejects slices outside one period.",
     ["inputs", "configurations"], "all starting points, fields in the family, plane positions, periods, slices in any order, shapes; thousands of lines",
     "Tests trace a few lines in a uniform field, in batches below the internal batch size.",
     ["zoidberg/fieldtracer.py"], [("FieldTracer.follow_field_lines", "zoidberg/fieldtracer.py"), ("trace_poincare", "zoidberg/fieldtracer.py")],
     REAL + "tolerance 1e-5 (1e-4 for Poincare points); scipy's odeint is replaced by a single midpoint step per interval, exact for the family of fields used (constant along each line, linear in y); the replay uses the real odeint.",
     "follow_field_lines and trace_poincare run with symbolic starting points, plane positions, periods and field coefficients; end points are compared with the closed form solution.",
     "up to 4 free lines, up to 3003 lines of which two are free, up to 3 turns and 3 slices")

prop("C10", "The reversible tracer takes trapezoidal steps and can be retraced",
     "Each step of the reversible tracer satisfies the implicit trapezoidal rule to its tolerance for every line, also if other lines of the same call converge earlier; sub-steps between two outputs are the same as that many single steps; the number of steps given to the call takes precedence over the one of the tracer. Tracing back from the end over the same planes returns to the starting points. The result has the shape of the starting points with the planes in front, starts at the starting points, does not modify them, and integer starting points are treated like real ones.",
     ["inputs", "configurations"], "all starting points and all coefficients of affine fields within the bounds; piecewise linear fields that need several Newton iterations",
     "One test retraces one line in a slab.",
     ["zoidberg/fieldtracer.py"], [("FieldTracerReversible.follow_field_lines", "zoidberg/fieldtracer.py")],
     REAL + "the Newton iteration of the code itself is executed; fields are affine or piecewise affine.",
     "The real iteration runs on symbolic starting points and coefficients; convergence tests are solver decisions; the trapezoidal residual and the retraced positions are asserted.",
     "1..4 lines, up to 5 sub-steps, 3 planes there and back, fixed step sizes")

prop("C11", "A caching tracer is transparent, also after an interruption",
     "The caching tracer returns for every request exactly what the tracer it wraps would return for that request, whatever was requested before, for any starting points, toroidal coordinates, shapes and tolerances; a request that was completed before, by this or an earlier caching tracer with the same cache, is not traced again. Modifying a result does not change later results and the inputs are not modified. If the process is interrupted at any point while storing a result, later requests still get correct results, and errors of the wrapped tracer are passed on and not remembered.",
     ["histories", "crash_points", "inputs"], "every pair (thorough: triple) of requests, and an interruption at every step of writing the cache",
     "There is no test of the cache; two requests that collide or a half written file do not occur in a test.",
     ["zoidberg/fieldtracer.py"], [("CachingFieldTracer", "zoidberg/fieldtracer.py")],
     REAL + "file contents are kept by an in-memory stand-in for open/rename/remove that can stop at any step; text and hashes of symbolic numbers are injective tokens.",
     "follow_field_lines runs on symbolic requests; whether two cache names coincide is decided from the symbolic values; the crash step is a choice of the solver.",
     "2 requests and a repetition (3 thorough), up to 18 (60) steps of writing")

prop("C12", "External tracing and field services are used faithfully, also if they fail",
     "Field lines traced by the web service are returned for each starting point and each requested plane in the caller's shape, however the points are split into pieces, forwards or backwards, for the requested machine configuration and step size, those of the call taking precedence. Requests that fail are repeated: the result is complete and correct unless more requests fail than retries are allowed, in which case an error is raised and never a partial result; without retries results are still waited for, with the requested time limit. The W7-X field on demand repeats a failing request and passes on interruptions; the FusionSC tracer passes on its field, direction and the tolerance of the call, else its own.",
     ["fault_sequences", "inputs", "configurations"], "every pattern of failing requests within the bound; all starting points; piece sizes and plane numbers",
     "There is no network in the tests, so none of this is tested.",
     ["zoidberg/fieldtracer.py", "zoidberg/field.py"], [("FieldTracerWeb", "zoidberg/fieldtracer.py"), ("W7X_vacuum_on_demand", "zoidberg/field.py"), ("FusionSCTracer", "zoidberg/fieldtracer.py")],
     REAL + "service, process pool and clock are stand-ins; the service returns a closed form line.",
     "The clients run against the stand-ins with symbolic starting points; which attempt fails is a solver choice per attempt.",
     "up to 6 lines, pieces of 1..4, 5 (9 thorough) attempts, 0..3 retries")

prop("C13", "The maps tell where the field line through each cell ends",
     "For every cell, every direction and every parallel slice, the maps contain the position at which the field line through the cell's centre meets the plane that many planes away, and the indices of that position in that plane's own grid, wrapping in periodic grids; where there is no plane, or the position lies outside the boundary of the field at that plane's toroidal coordinate, the indices are -1. Half-way positions lie half way towards the neighbouring planes, the grid is not modified and the requested tolerance is passed to the tracer. Sub-samples start at the Gauss-Legendre points of the cell, their weights add up to one, and each is mapped like a centre, in every slice; with one sample it equals the centre map.",
     ["inputs", "configurations"], "all starting points of the cells concerned, all line directions, all boundaries in the family, periodic or not, 1..3 slices, 1..9 samples",
     "Tests run a single uniform slab with one slice and one sample.",
     ["zoidberg/zoidberg.py"], [("make_maps", "zoidberg/zoidberg.py"), ("parallel_slice_field_name", "zoidberg/zoidberg.py")],
     REAL + "tolerance 1e-5; planes and tracer are stand-ins with closed forms (their real versions are decided by C02, C03, C09), different in every plane; end points closer than 1e-4 to the boundary are excluded.",
     "make_maps runs with symbolic cell positions, line directions and boundary position; every entry of the result is compared with the closed form; the samples through their weighted moments, so that their order does not matter.",
     "grids up to 3x3x3 (3x4x3 thorough), nslice 1..3, samples per direction 1..3 (4)")

prop("C14", "Cell volumes, parallel lengths and toroidal field of the maps",
     "The Jacobian stored with the maps is, for each cell, the trapezoidal average along its field line from half a plane spacing before to half a spacing after its plane of the perpendicular area times the ratio of the toroidal field at the cell to that on the line times the major radius on the line. The parallel lengths are those of the traced line over that interval and over the same interval shifted half a cell down and up, and the toroidal field is given at the centre and at both ends of the interval. Results do not depend on how the calculation is split into chunks, and slab fields only get the toroidal field.",
     ["inputs", "configurations"], "all field strengths of either sign at every point, metrics, cell positions, refinements and chunk numbers within the bounds",
     "No test looks at these values.",
     ["zoidberg/zoidberg.py"], [("make_maps", "zoidberg/zoidberg.py")],
     REAL + "tolerance 1e-5; the length of a line is a stand-in depending on every point of it in order (C24 decides the real one).",
     "make_maps runs with a free toroidal field at every point of every line, or with free metric and cell positions; every entry is compared with the closed form.",
     "up to 3x3x2 cells (nx up to 8), 1..3 (6 thorough) points per half cell, 1..7 chunks")

prop("C18", "The grid file contains what the simulation needs, consistently",
     "A written grid file contains the positions of the cells, every entry of the maps unchanged under its own name, the sizes of the grid, an identifier, the attributes of the field evaluated at each plane, and the metric under the old or the new names: the poloidal components and cell sizes of the planes, the field strength and pressure, a parallel covariant component that is the squared ratio of parallel length and toroidal spacing (at the cell and half way to its neighbours) if lengths are known and that of the field otherwise, and its exact inverse. For every parallel slice it contains the metric of the plane through the end points of the field lines, evaluated with the field at the toroidal coordinate of that slice and with the toroidal spacing of the planes, under a name that no other quantity or slice has. Two-dimensional metrics drop only the poloidal direction and only of the metric, and values that are not finite are refused and not written.",
     ["inputs", "configurations"], "all field strengths, toroidal fields, pressures, attributes, lengths and map values; naming and dimension options; periodic or not; number of planes and slices",
     "Tests check that a file is written, and look at a few names.",
     ["zoidberg/zoidberg.py"], [("MapWriter, write_maps", "zoidberg/zoidberg.py"), ("update_metric_names", "zoidberg/zoidberg.py"), ("parallel_slice_field_name", "zoidberg/zoidberg.py")],
     REAL + "the planes are stand-ins whose metric is a closed form of the positions (closed poloidal planes; the parallel slices of rectangular planes, which the code treats as closed, are not covered); equally spaced planes; the file is an in-memory stand-in, and a real NetCDF file that is read back on replay.",
     "MapWriter runs with a field whose values are a free symbol per position and toroidal angle, free lengths and free maps; every variable written is compared with the closed form.",
     "up to 3x4x2 (4x5x3 thorough), 1..3 slices")

prop("C23", "Grids between two lines lie on both lines and are smooth in between",
     "A grid between an inner and an outer closed line has exactly the requested number of points; its boundary points lie on the given lines at equally spaced angles (on the inner line optionally at the points closest to the outer ones, smoothed as requested), and points beyond the boundaries continue the last cell. An annular grid connects corresponding points by straight, equally divided lines. An elliptic grid satisfies the discretised elliptic equation, is not folded, does not depend on where in the plane the lines are, and its starting point is aligned between both lines independently of where their first points are.",
     ["inputs"], "all positions of the boundary points near a shape (annulus, boundaries, cells beyond), all translations of the lines (solved grids)",
     "Tests only run the generator on a few shapes without looking at the interior.",
     ["zoidberg/poloidal_grid.py"], [("grid_annulus, grid_elliptic", "zoidberg/poloidal_grid.py")],
     REAL + "tolerance 1e-5 (equation: four times the square root of the tolerance given to the solver); coefficients that differ from an integer by less than 1e-11 through rounding of constants are taken as that integer; the interior of the solved grids is checked for a few shapes only, because the iteration is not linear in the boundary points; the elliptic equation is the one of the code, where poloidal derivatives in the coefficients are multiplied by dz_relax.",
     "grid_annulus and grid_elliptic run on lines with free points (one iteration) or on real lines at a free position (until convergence); boundaries, continuation, equation and orientation of every cell are compared with the closed form.",
     "2..8 by 2..12 points, 0..2 points beyond each boundary")

prop("C24", "Index derivatives and field line lengths are accurate",
     "Differences along any axis of an array are, away from the ends or everywhere if periodic, the centred second or fourth order differences of that axis, and the fourth order one is exact for polynomials up to fourth order up to and including the ends, the second order one for linear functions; other axes do not mix and the input is not modified. The length of a traced field line is that of the curve through its points in space, for each line separately and for unevenly spaced points, never longer than the curve and converging to it with the refinement.",
     ["inputs"], "all array values, all polynomials of the order concerned, sizes and axes within the bounds; lines of any size and of six shapes",
     "There is no test of either.",
     ["zoidberg/diff.py"], [("c2, c4", "zoidberg/diff.py"), ("field_line_length", "zoidberg/diff.py")],
     REAL + "tolerance 1e-5 (lengths: the error of the polygon, 2e-4 at the default refinement); the cubic spline of scipy is replaced by an exact one.",
     "c2 and c4 run on free data and on polynomials with free coefficients; field_line_length runs on scaled lines with a closed form arc length.",
     "1..3 dimensions, up to 8 (11) points; lines of 2..7 (9) points")

prop("C19", "Finite volume coefficients give exact fluxes of linear functions",
     "The coefficients of the perpendicular Laplacian, applied to the differences of a function between neighbouring cell centres as BOUT++ does, give for every function linear in R and Z exactly its flux through each radial and each poloidal face of each cell (weighted with the major radius except in slabs), and the stored volume is the area of the cell (times the major radius except in slabs). This holds across the poloidal seam of closed planes and of rectangular planes, and for each plane independently of the other planes of the same call. Where there is no cell or face the entries are zero, planes are not modified, and rectangular planes of different vertical size are refused.",
     ["inputs", "configurations"], "all lengths and centres of rectangular planes, all positions of the free cell centres and corners, all sizes and major radii of the shapes, slab or not, number of planes",
     "Tests compare the operator with an analytic result on average over one fine grid.",
     ["zoidberg/stencil_dagp_fv.py"], [("doit", "zoidberg/stencil_dagp_fv.py"), ("write, fixup", "zoidberg/stencil_dagp_fv.py")],
     REAL + "tolerance 1e-5; cell edges of the closed planes are straight (the volume with the major radius then has the error of the twelve points per edge: 2e-3); right-handed planes.",
     "doit runs on stand-in planes with free cell centres and corners and on the real rectangular planes with free lengths and centres; the flux of R and Z through every face and every volume is compared with its closed form.",
     "planes of 4x3 to 6x8 (8x12 thorough) cells, 1..2 (3) planes")

prop("C20", "Interrupted calculation of finite volume coefficients is resumed",
     "If the calculation of the finite volume coefficients of a grid file is interrupted at any point, repeating it on the existing file completes it: the file then contains for every plane exactly the coefficients of that plane, as if there had been no interruption. Planes that were completed are not calculated again, so each interruption costs at most one plane. Other contents of the file are unchanged and the geometry (slab or not) is that of the field.",
     ["crash_points", "inputs"], "every point between two changes of the file, one or two (thorough: three) interruptions, all coefficient values",
     "No test interrupts the calculation.",
     ["zoidberg/zoidberg.py"], [("MapWriter.add_dagp", "zoidberg/zoidberg.py")],
     REAL + "each assignment to a variable of the file is atomic and survives the interruption (the file is closed by the with statement; loss of data in the buffers of the NetCDF library is not covered); the coefficients of a plane are free values (C19 decides the real ones).",
     "MapWriter.add_dagp runs against a stand-in file (a real NetCDF file on replay) which stops the program before the n-th change, n chosen by the solver for every attempt.",
     "2..4 planes, up to 28 changes of the file, 1..2 (3) interruptions")

prop("C21", "Periodic lines pass through their points, with true positions and lengths",
     "A periodic line goes through the given points at equally spaced angles, in the given order or reversed so that it runs anticlockwise; positions, polygon positions and derivatives are periodic in the angle and consistent with each other for arrays of any shape. The distance along the line increases from zero to the full length, is that of the (weighted) curve, and lines redistributed to equal spacing have equal distances between their points on the same curve. The closest point found is the closest point of the polygon to within the refinement, distances to the polygon are exact, and the circle and shaped lines follow their parametrisation.",
     ["inputs"], "all positions of the free points, all angles within several turns, all sizes, all points next to any edge",
     "Tests evaluate circles and one shaped line.",
     ["zoidberg/rzline.py"], [("RZline", "zoidberg/rzline.py"), ("circle, shaped_line", "zoidberg/rzline.py")],
     REAL + "tolerance 1e-5 (lengths of splines: the error of the trapezoidal rule); periodic splines and linear interpolation of scipy are replaced by exact ones.",
     "RZline is constructed from points of which some are free, or from a shape of any size; its methods run on free angles and positions and are compared with the closed form.",
     "4..8 points, angles within [-13,19], refinements up to 3x20 (thorough)")

prop("C22", "Lines through unordered points visit each point once, in order",
     "Building a line from points given in any order visits every point exactly once: points that surround their centre are visited in the order of their angle, points are inserted into the edge they are nearest to, and the two-exchange method returns a line that no exchange of two edges shortens noticeably and that is not longer than the one it started from. Points declared to be sorted are kept in the given order (up to the direction). The arrays of the caller are not modified and requested line options are honoured.",
     ["inputs"], "all positions of the free points, all sizes, several orders of the points",
     "Tests use one set of points of one shape.",
     ["zoidberg/rzline.py"], [("line_from_points, line_from_points_poly, line_from_points_fast, line_from_points_two_opt", "zoidberg/rzline.py")],
     REAL + "tolerance 1e-4; the angle of a point is replaced by a monotonic function of it; methods that need shapely or alphashape hulls are not covered.",
     "The functions run on points with free positions (or free size) in orders chosen by the solver; the resulting order is compared with the one known by construction, or checked for exchanges that shorten it.",
     "4..8 points, 2..4 orders")

prop("C25", "Smoothing replaces the points around edges and only those",
     "Smoothing an ordered closed line finds exactly the points at a sharper angle than the limit and replaces the points next to them, also across the first point, by a smooth curve from the first to the last of them which continues the adjacent edges; all other points, the number of points and the arrays of the caller are unchanged. A line without edges is returned as it is. If the fit fails the range is extended, up to giving up with no result.",
     ["inputs", "faults"], "all positions of one point (finding edges), all positions of all points not next to a replaced range, all translations, any attempt at which the fit converges",
     "Tests smooth a square and three polygons and look at the remaining edges only.",
     ["zoidberg/smooth.py"], [("smooth, find_outliers, generate_points_tosmooth, gen_newr", "zoidberg/smooth.py")],
     REAL + "tolerance 1e-3 for the end of the curve and its direction; the least-squares fit of scipy runs on numbers, since the points that enter it are fixed relative to each other; a range that reaches beyond the last point ends there; plot=True is not covered.",
     "The functions run on lines with one free point, or with all points free that do not enter the fit, or at a free position; the result is compared with the closed form.",
     "6..56 points, ranges of 3..7 points")

prop("C26", "VMEC equilibria are evaluated from all harmonics on all surfaces",
     "Positions and magnetic field on the flux surfaces of a VMEC file are the sums over all of its harmonics, including the asymmetric ones where present: R and Z, the field components from the contravariant components (averaged linearly from the half to the full mesh) and the derivatives of R and Z. The tables on the rectangular grid are made from all points of the same toroidal angle and span all surfaces, and the field functions evaluate them at the toroidal angle modulo 2 pi, with a purely toroidal unit field outside.",
     ["inputs"], "all coefficients of R, Z and B",
     "There is no test of the VMEC field.",
     ["zoidberg/field.py"], [("VMEC", "zoidberg/field.py")],
     REAL + "tolerance 1e-6 (tables: 1e-5 relative to 1024); phase m theta + n zeta as in the code; the file is a stand-in with the same names; griddata and RegularGridInterpolator of scipy are replaced by functions which depend on all values and positions given to them.",
     "VMEC.read_vmec_file and VMEC.__init__ run on a file with free coefficients; every position and field component is compared with the sum over the harmonics.",
     "3..5 (8) surfaces, 2..3 (5) modes, 3..5 (9) by 2..4 (7) angles")

prop("C27", "Fields of external services have the right components everywhere",
     "Fields evaluated by an external program or service are asked for at the right Cartesian position and converted to the right cylindrical components, magnitude and direction. Tabulated ones cover the requested (or the default) range, are periodic in the toroidal angle, have a unit toroidal field outside and are not requested again if stored for the same configuration; one failing request is repeated, two raise the error. Missing values of an EMC3 field are filled by a cubic spline along the radial direction and the others are kept.",
     ["inputs", "faults"], "all positions, all ranges of the tables, all values, all of the first three requests failing",
     "There is no test of these fields.",
     ["zoidberg/field.py"], [("W7X_vacuum, W7X_vacuum_on_demand, W7X_VMEC, EMC3, FusionSCField", "zoidberg/field.py")],
     REAL + "tolerance 1e-6 (tables: 1e-5 relative to 1024); the services and libraries are replaced by a polynomial field, files are kept in memory, the interpolation of scipy is replaced as in C26; toroidal angles are fixed numbers; names of stored files, which contain only two digits of the ranges, are taken as distinct.",
     "The classes run against stand-ins for osa, fusionsc, xemc3 and xarray; results are compared with the projection of the polynomial field.",
     "2..4 points per dimension of the tables, 1..4 positions")

prop("C28", "Lines of few harmonics reproduce lines that have no others",
     "A spectral line with at least as many harmonics as the given line reproduces it at every angle, in the same order. Its equally spaced points go around it exactly once, without repeating a point, in the requested number.",
     ["inputs"], "all coefficients of one coordinate",
     "There is no test of spectral lines.",
     ["zoidberg/spectralline.py"], [("SpectralLine", "zoidberg/spectralline.py")],
     REAL + "tolerance 1e-4; the angle zero is opposite of the first point, as in the code; least_squares of scipy is replaced by the exact solution of the linear problem.",
     "SpectralLine is made from a line of free harmonics and evaluated at several angles.",
     "8..12 points, 1..5 modes of which 1..3 free")
