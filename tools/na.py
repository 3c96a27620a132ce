NA = []


def na(id, title, statement, over, q, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, reason=reason))


na("C90", "Fields and traces from remote services agree with the service",
   "Vacuum fields of W7-X and field line traces fetched from the remote web services are those of the requested machine configuration, limits and step size.",
   ["inputs", "configurations"], "all configurations and positions",
   "Tests have no network.", ["zoidberg/field.py", "zoidberg/fieldtracer.py"], [("W7X_vacuum.field_values, FieldTracerWeb.getConfig", "zoidberg/field.py")],
   "what the remote service computes is outside the code; the client side (chunking, reassembly, retries) is decided by C12 and C27.")
na("C91", "Tracing on EMC3 grids follows the EMC3 mapping",
   "Field line tracing and field values on an EMC3 grid follow the bilinear mapping between the EMC3 planes, zone by zone.",
   ["inputs"], "all grids, positions and zones", "No test covers it.",
   ["zoidberg/fieldtracer.py", "zoidberg/field.py"], [("EMC3FieldTracer, EMC3", "zoidberg/fieldtracer.py")],
   "the code needs the eudist and xemc3 packages (compiled mesh search), which are not installed here; neither the code can be executed nor a counterexample replayed.")
na("C92", "Plots and VTK output show the data they are given",
   "Plotting functions and VTK export draw exactly the points, surfaces and components of the grid and field they are given.",
   ["inputs"], "all grids and fields", "No test looks at a figure.",
   ["zoidberg/plot.py", "zoidberg/zoidberg.py"], [("plot.py, write_Bfield_to_vtk, fci_to_vtk, upscale", "zoidberg/plot.py")],
   "the effect is a matplotlib figure or a file written by a package that is not installed (pyevtk); upscale imports a module that the installed scipy has removed. There is no term to assert on.")
