#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one compact entry per property)."""
import json, pathlib

S = "src/harmonica/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=[S + f for f in files],
            mechanism=[dict(name=n, where=S + w) for n, w in mech],
            observe_at=observe, hook_needed=None),
    )
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    P.append(d)


# ----------------------------------------------------------------- forward
prop("F01", "Forward fields obey superposition over any collection of sources",
     """For point masses, dipoles, prisms (density or magnetization) and tesseroids, the field of a
     collection of sources equals the sum of the fields of its members: adding, removing, reordering,
     duplicating or rescaling sources changes every field exactly by the corresponding sum, and splitting
     a prism or tesseroid into touching pieces changes nothing. Sources with zero strength or zero volume
     contribute exactly nothing, wherever they are in the collection and wherever the observation points are.""",
     ["inputs", "histories"],
     """all finite collections of sources and all sequences of edits (add, remove, swap, scale, split, append a
     null source) of them, for every field each forward model offers""",
     """tests compare one fixed pair of collections per model; they never edit a collection step by step nor mix
     null, duplicated, negative and split sources, so order- and position-dependent mistakes pass""",
     ["_forward/point.py", "_forward/dipole.py", "_forward/prisms/gravity.py", "_forward/prisms/magnetic.py",
      "_forward/tesseroid_gravity.py", "_forward/prisms/utils.py", "_forward/_tesseroid_utils.py"],
     [("accumulation of kernels over sources", "_forward/point.py"),
      ("null prism filtering", "_forward/prisms/utils.py"),
      ("null tesseroid filtering", "_forward/_tesseroid_utils.py")],
     ["return value of point_gravity / dipole_magnetic / prism_gravity / prism_magnetic / tesseroid_gravity"])

prop("F02", "Each field value depends only on its own observation point",
     """The value a forward model returns at an observation point is a function of that point and of the sources
     alone: it does not depend on the other points of the call, on their order, on the shape or memory layout
     in which they are passed, or on whether they are lists, scalars, integers or floats. The result has the
     (broadcast) shape of the coordinates, and neither coordinates nor sources are modified.""",
     ["inputs", "histories"],
     """all ways of batching, permuting, reshaping, striding and typing a set of observation points and sources
     into one or several calls of every forward model and every predictor""",
     """tests call each function with one batch in one layout; a value leaking between points or a layout-dependent
     index needs a comparison between different batchings of the same points""",
     ["_forward/point.py", "_forward/dipole.py", "_forward/prisms/gravity.py", "_forward/prisms/magnetic.py",
      "_forward/tesseroid_gravity.py", "_forward/ellipsoids/gravity.py", "_forward/ellipsoids/magnetic.py"],
     [("ravel / cast of coordinates and reshape of the result", "_forward/point.py")],
     ["return values and the caller's arrays after the call"])

prop("F03", "Parallel, serial and progress-bar runs give the same fields",
     """Every function with a parallel option returns the same values whether it runs serially, in parallel with
     any number of threads, or with a progress bar, for any numbers of sources and observation points
     (including counts not divisible by the number of threads). The progress bar advances exactly once per
     observation point and leaves no trace on the result.""",
     ["schedules", "configurations", "inputs"],
     """all interleavings of worker threads over observation points, thread counts 1..N, counts of points and
     sources, with and without progress bar""",
     """tests run parallel and serial once on one grid with two threads; a race on a shared accumulator or a
     reduction over the wrong axis can agree for that schedule""",
     ["_forward/point.py", "_forward/dipole.py", "_forward/prisms/gravity.py", "_forward/prisms/magnetic.py",
      "_forward/prisms/layer.py", "_forward/tesseroid_gravity.py", "_forward/utils.py",
      "_equivalent_sources/cartesian.py", "_equivalent_sources/spherical.py", "_equivalent_sources/utils.py"],
     [("prange loops that own one output element per iteration", "_forward/point.py"),
      ("progress proxy update per iteration", "_forward/utils.py")],
     ["return values for parallel in {True, False}, progress_proxy totals"])

prop("F04", "Point-mass fields follow Newton's closed form, signs and units",
     """In Cartesian coordinates every gravity field of point masses equals the closed-form potential, its
     gradient or its second derivatives with respect to easting, northing and upward, in m2/s2, mGal or Eotvos,
     with the downward axis positive for every z component, with symmetric aliases of a component being identical and the tensor being
     trace-free away from the sources. In spherical geocentric coordinates
     the potential and the downward acceleration follow the same law along the local radial direction for any
     longitude convention.""",
     ["inputs"],
     """all relative positions (all octants, axes, zero offsets) of sources and observation points, all field
     names and aliases, both coordinate systems, masses of either sign""",
     """tests check finite differences, symmetric sign patterns or a few points per field; a swapped index, wrong unit factor or wrong
     sign in one octant or one alias has to be looked for in every field x octant combination""",
     ["_forward/point.py", "_forward/utils.py", "constants.py"],
     [("kernel dispatch per field", "_forward/point.py"), ("unit factors", "_forward/point.py")],
     ["point_gravity return value"])

prop("F05", "Dipole magnetic fields follow the closed form, signs and units",
     """The magnetic field components of a set of dipoles equal the closed-form dipole field in nT on the easting,
     northing and upward axes, linear in each moment component. Asking for one component gives exactly the same values as
     asking for all three together.""",
     ["inputs"],
     """all relative positions, all directions of the moment, all fields (b, b_e, b_n, b_u)""",
     """tests cover a few aligned dipoles and divergence-like checks; cross terms for oblique geometry in
     every component and field selector are not enumerated""",
     ["_forward/dipole.py", "_forward/utils.py"],
     [("field dispatch and nT conversion", "_forward/dipole.py")],
     ["dipole_magnetic return value"])

prop("F06", "Prism gravity fields equal the analytic prism solution everywhere",
     """For every valid prism and every observation point outside, inside or on the surface of the prism where the
     field exists, each field equals the analytic solution for a homogeneous right rectangular prism, in
     m2/s2, mGal or Eotvos with the z axis pointing downward; potential and acceleration are finite and continuous everywhere, and
     the trace of the tensor is zero outside the prism.""",
     ["inputs"],
     """all positions of the observation point relative to the prism (27 regions, faces, edges, vertices and their
     extensions), all fields and aliases, densities of either sign""",
     """tests compare against symmetric situations or a few far points; the case analysis of logs and arctangents
     along planes, edges and vertex extensions has dozens of branches per field""",
     ["_forward/prisms/gravity.py"],
     [("field dispatch, sign and unit conversion", "_forward/prisms/gravity.py")],
     ["prism_gravity return value"])

prop("F07", "Prism magnetic fields equal the analytic prism solution",
     """For every valid prism with uniform magnetization and every observation point where the field exists,
     each magnetic component equals the analytic solution in nT on the easting, northing, upward axes: it is linear in the magnetization
     vector with a symmetric, trace-free (outside) interaction. Asking for a single component gives the same values as asking
     for all three.""",
     ["inputs"],
     """all relative positions of observation point and prism, all magnetization directions, all fields""",
     """tests use a few symmetric setups; each of the nine interaction terms for oblique geometry and each field
     selector has to be enumerated""",
     ["_forward/prisms/magnetic.py"],
     [("field dispatch and nT conversion", "_forward/prisms/magnetic.py")],
     ["prism_magnetic return value"])

prop("F08", "Singular observation points are reported, all others are silent",
     """Observation points where a second derivative or a magnetic field of a prism does not exist are answered with NaN, exactly at those points and only for the affected fields, and with a warning for the gravity tensor components; no warning is emitted, and a finite value is returned, for every other point.""",
     ["inputs"],
     """all placements of observation points on vertices, edges and faces of each prism of a collection
     and just off them, all fields""",
     """tests sample some faces and edges of a single prism; the warning decision is a case analysis over field x feature
     of the prism, for any member of a collection and any position in the batch""",
     ["_forward/prisms/gravity.py", "_forward/prisms/magnetic.py"],
     [("any_singular_point checks", "_forward/prisms/gravity.py"),
      ("any_singular_point checks", "_forward/prisms/magnetic.py")],
     ["warnings raised and NaN mask of the result"])

prop("F09", "Inconsistent forward-model inputs are rejected before computing",
     """A forward model called with an unknown field or coordinate system, with numbers of densities, masses,
     moments or magnetizations that differ from the number of sources, or with prisms whose boundaries are in
     the wrong order raises a ValueError (NotImplementedError for documented unsupported combinations) instead of returning
     numbers; valid inputs are never rejected, and disabling the checks does not change the result for valid inputs.""",
     ["inputs"],
     """all combinations of sizes of the source arrays, orders of the boundaries, field and coordinate system names,
     and position of the offending source within the collection""",
     """tests try one offending size or boundary each; which array is checked against which, and whether all sources or only some
     are checked, is a combinatorial matter""",
     ["_forward/point.py", "_forward/dipole.py", "_forward/prisms/gravity.py", "_forward/prisms/magnetic.py",
      "_forward/prisms/utils.py"],
     [("sanity checks", "_forward/prisms/utils.py")],
     ["exceptions of the forward functions"])

# ------------------------------------------------------------------ layers
prop("L01", "A prism layer always describes the prisms between surface and reference",
     """After any sequence of constructing a layer and updating its surface and reference, every prism spans the
     interval between the two at its own grid point (the smaller one as bottom), is centred on its
     grid point with the grid spacing as size, and top, bottom and boundaries agree for every cell whether accessed
     one by one or together. Properties given at creation remain attached to the same cell, and the inputs are not modified.""",
     ["histories", "inputs"],
     """all sequences of layer creation and surface/reference updates with scalar or array references above, below or
     crossing the surface, NaN surfaces, both grid orientations""",
     """tests create a layer and update it once; the state after several updates, mixtures of crossing and
     NaN cells, and non-square or unequally spaced layers are histories the tests do not visit""",
     ["_forward/prisms/layer.py"],
     [("update_top_bottom", "_forward/prisms/layer.py"), ("get_prism / boundaries / _to_prisms", "_forward/prisms/layer.py")],
     ["layer.prism_layer accessor: get_prism, boundaries, size, shape, dataset values"],
     [("top, bottom", "vertical limits of each cell", "_forward/prisms/layer.py")])

prop("L02", "The gravity of a prism layer is that of its prisms, ignoring NaN cells",
     """The gravity of a prism layer equals the gravity of the explicit list of its prisms with the chosen density
     property, for every field, with cells whose top, bottom or density is NaN contributing nothing, and it never
     modifies the layer; NaN densities in valid prisms are warned about.
     Exports to PyVista contain exactly the same prisms with their own properties attached.""",
     ["inputs", "histories"],
     """all layers with any pattern of NaN cells in top, bottom and density, any thickness threshold, any field, named density
     properties, after any sequence of updates""",
     """tests use one NaN pattern with one property; pairing of densities with prisms after NaN removal depends on the pattern""",
     ["_forward/prisms/layer.py", "visualization/_prism.py"],
     [("layer gravity and NaN masking", "_forward/prisms/layer.py"), ("to_pyvista", "_forward/prisms/layer.py")],
     ["layer.prism_layer.gravity(...), to_pyvista()"])

prop("L03", "A tesseroid layer always describes the tesseroids between its surfaces",
     """After any sequence of constructing a layer of tesseroids and updating its surface and reference, each tesseroid
     spans the interval between the two at its own grid point, centred on it with the grid spacing as size,
     and its gravity equals that of the explicit list of tesseroids, with NaN cells contributing nothing.""",
     ["histories", "inputs"],
     """all sequences of layer creation and updates with scalar or array references above, below or crossing the
     surface, NaN patterns in top, bottom and density, and all fields""",
     """tests create a layer and update it once with one NaN pattern""",
     ["_forward/tesseroid_layer.py"],
     [("update_top_bottom", "_forward/tesseroid_layer.py"), ("gravity and NaN masking", "_forward/tesseroid_layer.py")],
     ["layer.tesseroid_layer accessor"])

# -------------------------------------------------------------- tesseroids
prop("T01", "Tesseroid fields equal the field of the spherical shell pieces they cover",
     """Tesseroids that cover a spherical shell produce, at any point outside them, the analytic field of the shell to
     better than 0.1 percent for potential and downward acceleration (tesseroids up to 30 degrees wide; wider ones stay within
     2 percent), with the documented signs and units, whatever the partition of the shell. Shifting the longitudes of tesseroids or of
     observation points by full turns, or rotating everything around the polar axis, does not change the field.""",
     ["inputs"],
     """all partitions of shells, all positions of the observation point from just above the surface to far away, all longitude
     conventions, both fields""",
     """tests compare a few latitudes and heights with one shell model; wrap-around conventions and partitions
     interact with the observation point's position""",
     ["_forward/tesseroid_gravity.py", "_forward/_tesseroid_utils.py"],
     [("Gauss-Legendre quadrature with adaptive discretization", "_forward/_tesseroid_utils.py"),
      ("longitude continuity", "_forward/_tesseroid_utils.py")],
     ["tesseroid_gravity return value"])

prop("T02", "Adaptive discretization partitions a tesseroid into well-shaped pieces",
     """For every tesseroid and external observation point the pieces used for the numerical integration form an exact,
     non-overlapping partition of the tesseroid, and every piece is farther from the point than the required ratio times each of its
     dimensions and no wider than half a turn; pieces that already satisfy it are not divided further, and division happens only along the
     dimensions that need it. If that needs more pieces than the supported maximum an error is raised instead of a value being returned.""",
     ["inputs", "histories"],
     """all tesseroids (poles, elongated in any dimension) and observation points, distance ratios and
     radial-adaptive or two-dimensional modes""",
     """tests check the volume sum for a few tesseroids; the stack discipline and the criterion per final piece
     are never compared for all shapes of splits""",
     ["_forward/_tesseroid_utils.py"],
     [("stack based splitting", "_forward/_tesseroid_utils.py")],
     ["pieces returned by the discretization routine used by the repository's tests; tesseroid_gravity"],
     [("stack, small_tesseroids", "work list and accepted pieces", "_forward/_tesseroid_utils.py")])

prop("T03", "Invalid tesseroids and interior observation points are rejected",
     """Tesseroids with latitudes outside [-90, 90] or not ordered, longitudes not ordered or spanning more than a full turn
     or outside [-180, 360], or negative or unordered radii, numbers of densities differing from the number of tesseroids, and unknown fields are
     rejected with ValueError; so is any observation point strictly inside any tesseroid in any longitude convention.
     Points on or outside the surface and every valid tesseroid are accepted.""",
     ["inputs"],
     """all placements of tesseroid boundaries relative to the limits, and of points relative to the tesseroid in
     each longitude convention, for any member of the collection""",
     """tests try one offending value per rule; which rule applies is a case analysis of seven boundaries with
     wrap-around, for every position in the collection""",
     ["_forward/tesseroid_gravity.py", "_forward/_tesseroid_utils.py"],
     [("tesseroid and point checks", "_forward/_tesseroid_utils.py")],
     ["exceptions of tesseroid_gravity"])

prop("T04", "Variable-density tesseroids integrate the given density function",
     """A density function of radius yields the same field as the equivalent stack of thin tesseroids (to 0.1 percent of the field
     of its absolute value for profiles in the range of rock densities): a constant function gives the same result as that constant density, a linear one gives the analytic shell field
     to the documented accuracy, and scaling or adding functions scales or adds fields. The radial slices used are an exact
     partition of every tesseroid, and the tesseroids passed are not modified.""",
     ["inputs"],
     """all density functions of radius (constant, linear, exponential, non-monotonic, with sign changes), collections of tesseroids
     of different depths""",
     """tests use a constant, a linear and an exponential profile on one shell; collections of different tesseroids with a shared function and
     extreme slopes are not enumerated""",
     ["_forward/_tesseroid_variable_density.py", "_forward/tesseroid_gravity.py"],
     [("density based discretization", "_forward/_tesseroid_variable_density.py")],
     ["tesseroid_gravity with callable density; slices"])

# -------------------------------------------------------------- ellipsoids
prop("E01", "Ellipsoid attributes stay valid under any sequence of assignments",
     """At any time the semiaxes of an ellipsoid are positive and its angles, centre and physical properties are those of the
     last successful assignments; an assignment of an invalid value (non-positive axis, vector of wrong length or
     type) raises and leaves the ellipsoid unchanged. The derived rotation matrix and the magnetization or remanence vectors
     always correspond to the current attributes.""",
     ["histories"],
     """all sequences of constructor calls and attribute assignments with valid and invalid values of every accepted type""",
     """tests check single assignments from a fresh object; partial updates after a failure need sequences""",
     ["_forward/ellipsoids/ellipsoids.py", "_forward/ellipsoids/utils.py", "_forward/utils.py"],
     [("property setters", "_forward/ellipsoids/ellipsoids.py")],
     ["public attributes of Ellipsoid"],
     [("a, b, c, yaw, pitch, roll, density, susceptibility, remanent_mag", "attributes", "_forward/ellipsoids/ellipsoids.py")])

prop("E02", "Ellipsoid gravity follows the homogeneous ellipsoid for any axes and pose",
     """The gravity acceleration of homogeneous ellipsoids equals the analytic solution inside and outside for any lengths of
     the semiaxes in any order, any orientation and position, is continuous across the surface, and is additive over ellipsoids; renaming the axes together
     with the rotation that restores the same body changes nothing. Ellipsoids without density contribute nothing and
     are warned about.""",
     ["inputs"],
     """all orders and equalities of semiaxes (sphere, oblate, prolate, triaxial), orientations, internal, surface and
     external points, collections of ellipsoids""",
     """tests compare limits and symmetric cases; the six axis orders x equalities x in/out x rotations are a case
     analysis where each combination takes another branch""",
     ["_forward/ellipsoids/gravity.py", "_forward/ellipsoids/utils.py", "_forward/ellipsoids/ellipsoids.py"],
     [("axis ordering permutation, rotation, elliptic integrals", "_forward/ellipsoids/utils.py")],
     ["ellipsoid_gravity return value and warnings"])

prop("E03", "Ellipsoid magnetic fields follow the magnetized ellipsoid in any pose",
     """The magnetic field of ellipsoids with susceptibility (scalar or tensor) and remanence in a uniform inducing field equals the analytic
     solution, including self-demagnetization, inside and outside, for any semiaxes order and orientation, is additive over
     ellipsoids, and linear in the remanence and inducing field. Ellipsoids with no magnetic property contribute nothing and are
     warned about.""",
     ["inputs"],
     """all axis orders and equalities, orientations, points inside and outside, susceptibility kinds and
     remanence directions, collections""",
     """tests compare limits for some shapes; the combination of axis permutation, rotation, tensor susceptibility and
     in/out region is not enumerated""",
     ["_forward/ellipsoids/magnetic.py", "_forward/ellipsoids/utils.py"],
     [("demagnetization tensors and rotations", "_forward/ellipsoids/magnetic.py")],
     ["ellipsoid_magnetic return value and warnings"])

# ------------------------------------------------------- equivalent sources
prop("Q01", "Equivalent sources are placed exactly as configured",
     """Fitting places the sources as documented: beneath each data point (or block-averaged data point) at the given depth, at 4.5
     times the mean nearest-neighbour distance for the default depth, at relative depth for the spherical sources, or exactly at the
     custom points, and never modifies the data; a zero depth or an unknown name is rejected. The estimator parameters are left as given
     so a refit or clone places sources from the new data again.""",
     ["histories", "inputs", "configurations"],
     """all configurations (depth, block size, points) and sequences of fits with different data for each estimator""",
     """tests check one configuration after one fit; combinations and refits are not covered""",
     ["_equivalent_sources/cartesian.py", "_equivalent_sources/gradient_boosted.py", "_equivalent_sources/spherical.py"],
     [("_build_points / depth setting", "_equivalent_sources/cartesian.py")],
     ["points_, depth_ attributes after fit"])

prop("Q02", "Equivalent-source predictions are the fitted combination of 1/r",
     """A prediction at any point equals the sum of the source coefficients over the distance to each source, the jacobian holds exactly those
     reciprocal distances, the coefficients solve the weighted least-squares problem of the fitted data, damped in the units of the standardized columns of the jacobian, and gridding
     or scoring uses the same values; without damping the data are reproduced at the data points when sources are below each
     of them. Results are floating point whatever the type of the coordinates.""",
     ["inputs", "configurations"],
     """all data sets, weights, damping values, custom points, shapes and dtypes for Cartesian and spherical estimators""",
     """tests check that a fit approximates synthetic data within a tolerance; weights, damping and the exact coefficients are not
     compared against the defining equations""",
     ["_equivalent_sources/cartesian.py", "_equivalent_sources/spherical.py", "_equivalent_sources/utils.py"],
     [("predict / jacobian / fit", "_equivalent_sources/cartesian.py")],
     ["coefs_, predict, jacobian, grid, score"])

prop("Q03", "Estimator results depend only on parameters and the last fit",
     """The predictions of any equivalent-source estimator after any history of calls depend only on its parameters and the data
     of its last fit: predict, grid, profile, scatter, jacobian, score and memory estimation never change it, an earlier fit leaves nothing
     behind, and predicting before a fit raises an error. Caller-owned arrays are never modified.""",
     ["histories"],
     """all sequences of fit, predict, grid, score, jacobian, memory estimation, set_params and clone on each estimator""",
     """tests use a fresh estimator and one fit; leftovers of earlier calls need sequences""",
     ["_equivalent_sources/cartesian.py", "_equivalent_sources/gradient_boosted.py", "_equivalent_sources/spherical.py"],
     [("fit sets trailing-underscore attributes", "_equivalent_sources/cartesian.py")],
     ["predictions and fitted attributes"],
     [("points_, coefs_, depth_, region_", "fitted state", "_equivalent_sources/cartesian.py")])

prop("Q04", "Gradient-boosted fitting visits every window and books every residual",
     """The windows of the gradient-boosted equivalent sources cover every data point and every source, each one that holds both is fitted once, in the order given by the seed, to the residual left by its predecessors, and the recorded errors are the RMS of the residual after each one. Fits with the same seed are identical,
     and a window that covers the region gives the same sources and coefficients as the plain estimator.""",
     ["histories", "inputs", "configurations"],
     """all data layouts, window sizes, seeds, block sizes and custom points""",
     """tests check coverage for one layout and improvement of a score; the bookkeeping of residuals per window is never checked""",
     ["_equivalent_sources/gradient_boosted.py"],
     [("_gradient_boosting / _create_windows", "_equivalent_sources/gradient_boosted.py")],
     ["rmse_per_iteration_, window_size_, coefs_, predict"],
     [("residue, coefs_", "residual of the data and accumulated coefficients", "_equivalent_sources/gradient_boosted.py")])

prop("Q05", "Grids and profiles of equivalent sources hold the prediction made at each node",
     """A grid from fitted equivalent sources (Cartesian, gradient-boosted, spherical) holds at every node the prediction at that node's coordinates and height, after the projection if one is given, for 1-D or 2-D horizontal coordinates, under the requested dimension and data names. A profile holds predictions at evenly spaced
     (projected) points, with their coordinates projected back, distances and height. Dropped arguments raise a ValueError or warn that they have no effect, unfitted estimators and operations that are not offered raise errors, and neither estimator nor the caller's arrays change.""",
     ["inputs", "configurations"],
     """all node layouts, projections, names, argument combinations and estimators""",
     """tests check regular grids with default names; descending and 2-D coordinates with projections, and profiles with projections are not compared with predictions""",
     ["_equivalent_sources/cartesian.py", "_equivalent_sources/spherical.py", "_equivalent_sources/utils.py"],
     [("EquivalentSources.grid, profile, scatter", "_equivalent_sources/cartesian.py"), ("EquivalentSourcesSph.grid", "_equivalent_sources/spherical.py")],
     ["grid", "profile", "scatter", "predict"],
     [("coordinates, projection", "nodes and the points predictions are made at", "_equivalent_sources/cartesian.py")])

# ------------------------------------------------------------------- Euler
prop("U01", "Euler deconvolution recovers the source of homogeneous fields exactly",
     """For data and derivatives that satisfy Euler's homogeneity equation for one source, structural index and base level, Euler
     deconvolution returns exactly that source location and base level, for any units, shape and layout of the observation points, and
     its covariance is the least-squares one. It is equivariant under translation of coordinates, and does not modify its inputs.""",
     ["inputs"],
     """all source locations, structural indices, base levels, observation layouts and shapes""",
     """tests recover one or two synthetic sources; consistency over location x index x base level x layout is not enumerated""",
     ["_euler_methods.py"],
     [("least-squares system", "_euler_methods.py")],
     ["location_, base_level_, covariance_"])

prop("U02", "Euler inversion converges to the source and selects the right index",
     """For data satisfying Euler's equation for one source, Euler inversion returns that source, its base level and, among the structural indices
     offered, the one with the smallest misfit; predicted data and
     misfit are those of the returned solution. It stops at convergence or after the maximum number of
     iterations with a warning, and refits leave nothing behind from earlier data.""",
     ["inputs", "histories", "configurations"],
     """all source locations, sets and orders of candidate structural indices, weights, iteration limits, and sequences of fits""",
     """tests use one or two synthetic models with the default settings""",
     ["_euler_methods.py"],
     [("iteration and structural index selection", "_euler_methods.py")],
     ["location_, base_level_, structural_index_, predicted_, warnings"])

# --------------------------------------------------------- transformations
prop("X01", "Derivative, continuation and Gaussian filters have their defining gains",
     """On any grid each transformation acts on every Fourier mode of the data as its defining filter: horizontal derivatives multiply by (ik)^n along
     their own direction, upward derivative by (-|k|)^n, upward continuation by exp(-h|k|), Gaussian filters by exp(-(lambda |k|/2 pi)^2/2) and its complement. The default horizontal derivatives are central finite differences, one-sided at the two ends. Hence orders and heights add up, low-pass plus high-pass restores the grid, the transformations are linear and commute,
     and no transformation depends on the order or names of dimensions.""",
     ["inputs", "configurations"],
     """all modes, grid shapes and spacings, orders, heights and wavelengths, both derivative methods""",
     """tests check a few fields by tolerance against analytic prisms; gain per mode x direction x order x parity is not enumerated""",
     ["_transformations.py", "filters/_filters.py", "filters/_utils.py", "filters/_fft.py"],
     [("filter kernels and application", "filters/_filters.py")],
     ["returned DataArray of each transformation"])

prop("X02", "Reduction to the pole rotates magnetization and field to vertical",
     """On every Fourier mode reduction to the pole multiplies the data by |k|^2 over the product of the directional factors of field and
     magnetization, a magnetization angle that is not given being that of the field; data with vertical field and magnetization are unchanged, angles that are
     equivalent directions give equal results, and swapping both pairs of angles changes nothing. The mean level is mapped without producing NaN.""",
     ["inputs"],
     """all modes and grids, all field and magnetization inclinations and declinations""",
     """tests compare a prism model at one or two pairs of angles within a loose tolerance""",
     ["_transformations.py", "filters/_filters.py"],
     [("reduction to pole kernel", "filters/_filters.py")],
     ["reduction_to_pole return value"])

prop("X03", "Total gradient amplitude and tilt combine the three derivatives",
     """The total gradient amplitude is the Euclidean norm of the three first derivatives computed by the library, and the tilt angle the angle in
     radians between the vertical derivative and the horizontal gradient magnitude, in [-pi/2, pi/2]; scaling the grid by a positive number scales
     the first and leaves the second unchanged.""",
     ["inputs"],
     """all grids and modes, including zero horizontal gradient, negative vertical derivative, any spacing""",
     """tests compare against synthetic derivatives on a single grid""",
     ["_transformations.py"],
     [("composition of derivatives", "_transformations.py")],
     ["total_gradient_amplitude, tilt_angle"])

prop("X04", "Transformations keep the grid: coordinates, shape, inputs and padding",
     """Every transformation returns a grid with the dimensions, coordinates and shape of its input for any combination of sizes, dimension names, descending or offset
     coordinates and padding, does not modify the grid or any argument, and gives the same result when repeated; padding never leaks into the
     result. Grids that are not two-dimensional, contain NaN or unevenly spaced coordinates are rejected with ValueError.""",
     ["inputs", "histories", "configurations"],
     """all grid shapes (even, odd, non-square), dimension names, extra coordinates, padding options and call sequences that reuse arguments""",
     """tests use square or single-shape grids with default padding and fresh arguments""",
     ["_transformations.py", "filters/_utils.py", "filters/_fft.py"],
     [("pad, fft, filter, ifft, unpad", "filters/_utils.py")],
     ["returned DataArray, argument objects, exceptions"])

prop("H01", "Answers depend on what the arguments hold, through any session of calls",
     """In any session of calls to the library's functions, mixed with the user editing arguments in place, replacing them by equal copies and writing on
     results received before, each answer is the one the same call gives in a fresh process on arguments that hold the same: no call remembers earlier
     arguments, results or objects, none changes an argument or a global setting (warning filters, floating-point error handling, random state,
     working directory), calls that are refused leave nothing behind, and results handed out before never change later unless their owner writes on them.""",
     ["inputs", "histories"],
     """all sessions of calls, edits in place, replacements by equal objects and writes on results, over the forward models, layers, ellipsoids,
     transformations, readers, normal field, corrections and rotations""",
     """tests call each function once on fresh arguments; a memory keyed by identity, a shared buffer or a leftover setting only shows in the answer to a later call""",
     ["_forward/point.py", "_forward/dipole.py", "_forward/prisms/gravity.py", "_forward/prisms/layer.py", "_forward/tesseroid_gravity.py", "_forward/tesseroid_layer.py",
      "_forward/ellipsoids/ellipsoids.py", "_transformations.py", "_io/icgem_gdf.py", "_io/oasis_montaj_grd.py",
      "_spherical_harmonics/igrf.py", "_spherical_harmonics/legendre.py", "_isostasy.py", "_gravity_corrections.py", "_utils.py"],
     [("public functions and methods", "_forward/point.py")],
     ["return values, arguments and process-wide settings after each call"])

prop("D01", "Descriptions tell what an object or result holds when they are made",
     """The texts of an ellipsoid name its type, every attribute that is set (axes, center, angles, density, susceptibility, remanent magnetization) with its current value and unit, and none that is unset; the repr of one with scalar properties evaluates to an equal ellipsoid. IGRF grids tell the date, ellipsoid, units, ranges and long names of what they
     hold; isostatic Moho grids their name and the densities of crust, mantle and every layer; layers of prisms and tesseroids their units. A description stays as it was when others are made later, and describing changes neither the object nor the arguments.""",
     ["histories", "inputs"],
     """all histories of assignments and results, all combinations of set and unset facts""",
     """the tests compare a few texts of ellipsoids built once, and few of the attributes of results""",
     ["_forward/ellipsoids/ellipsoids.py", "_spherical_harmonics/igrf.py", "_isostasy.py", "_forward/prisms/layer.py", "_forward/tesseroid_layer.py"],
     [("Ellipsoid.__str__, __repr__", "_forward/ellipsoids/ellipsoids.py"), ("IGRF14.grid", "_spherical_harmonics/igrf.py"), ("isostatic_moho_airy", "_isostasy.py")],
     ["str, repr", "name and attrs of grids, layers and their coordinates"])

prop("H02", "Calls in several threads each give what they give alone",
     """Calls running at the same time in several threads of one process - on their own arguments, on the same arguments, or reading the same fitted estimator, model,
     layer or ellipsoids - each give exactly what they give alone, wherever one is interrupted by the others, as long as no thread modifies an object another
     one uses: no intermediate result of a call is kept where another call could find or overwrite it.""",
     ["schedules", "inputs"],
     """all interleavings, at the lines of the library's Python code, of two or three calls of the same or of different functions""",
     """the tests run everything in one thread""",
     ["_forward/point.py", "_forward/dipole.py", "_forward/prisms/gravity.py", "_forward/tesseroid_gravity.py", "_forward/ellipsoids/magnetic.py",
      "_equivalent_sources/cartesian.py", "_equivalent_sources/gradient_boosted.py", "_euler_methods.py", "_transformations.py",
      "_io/icgem_gdf.py", "_spherical_harmonics/igrf.py", "filters/_utils.py"],
     [("public functions and methods", "_forward/point.py")],
     ["return values of calls made in several threads"])

# ---------------------------------------------------------------------- IO
prop("I01", "Reading an ICGEM grid file gives the file's data or an error",
     """Loading a gravity-field grid in ICGEM format returns every value of the file at its own latitude and longitude, heights and header attributes
     included, with coordinates spanning the declared area; a file whose header is incomplete or inconsistent with its
     data (missing keys, wrong number of columns or points, area not matching) raises an error instead of returning data.""",
     ["inputs", "fault_sequences"],
     """all files: header lines present/absent/repeated in any order, any grid size, data columns, corruptions and truncations""",
     """tests read a handful of valid files and one corruption per rule""",
     ["_io/icgem_gdf.py"],
     [("header parser and consistency checks", "_io/icgem_gdf.py")],
     ["load_icgem_gdf return value or exception"])

prop("I02", "Reading an Oasis Montaj grid gives every cell at its place or an error",
     """Loading a binary grid returns the stored values divided by the data factor plus base, dummies as NaN, each at the position given by
     origin, spacing, ordering and rotation, for each supported element type and storage (compressed or not, row or column ordered); unsupported types, orderings or truncated files
     raise an error instead of returning wrong data.""",
     ["inputs", "fault_sequences"],
     """all header combinations (element size, sign flag, ordering, shape, spacing, rotation, base, factor, compression) and truncation points""",
     """tests read a few sample files; most header combinations never occur""",
     ["_io/oasis_montaj_grd.py"],
     [("header decoding and array layout", "_io/oasis_montaj_grd.py")],
     ["load_oasis_montaj_grid return value or exception"])

# -------------------------------------------------------------------- IGRF
prop("G01", "IGRF coefficients vary linearly in time between epochs",
     """For any date in the valid range the IGRF coefficients used are the linear interpolation between the surrounding epochs by elapsed time (and secular
     variation after the last one), so the field is continuous and piecewise linear in time and equal to the published model at epochs;
     dates outside the range are rejected, and the many ways of writing the same date give the same field.""",
     ["inputs", "histories"],
     """all dates between 1900 and 2030, leap years, epoch boundaries, first and last instants, string and datetime spellings""",
     """tests of this class need the network here; they sample a few dates""",
     ["_spherical_harmonics/igrf.py"],
     [("interpolation of coefficients", "_spherical_harmonics/igrf.py")],
     ["IGRF14(date).predict"])

prop("G02", "IGRF fields are the gradient of the truncated harmonic series",
     """The predicted east, north and up components are the negative gradient of the truncated spherical harmonic potential with Schmidt
     semi-normalized functions, evaluated at the geodetic point and rotated to the geodetic frame, are linear in the coefficients and additive over degrees up to the maximum degree, and
     a grid contains the predictions at its nodes. The result keeps the shape of the coordinates.""",
     ["inputs", "configurations"],
     """all coefficients (each degree and order), positions including poles and the date line, maximum degrees, shapes""",
     """tests compare with a few published values; every degree and order at every position is not enumerated""",
     ["_spherical_harmonics/igrf.py", "_spherical_harmonics/legendre.py"],
     [("harmonic synthesis", "_spherical_harmonics/igrf.py"), ("Legendre recursion", "_spherical_harmonics/legendre.py")],
     ["predict, grid"])

prop("G03", "Associated Legendre functions satisfy their defining identities",
     """For every degree, order and argument the associated Legendre functions and their derivatives satisfy the three-term recursion, the parity
     relation and the differential relation of their definition, and the Schmidt-normalized ones the addition theorem, up to the highest supported degree;
     the derivative with respect to colatitude is consistent with the functions.""",
     ["inputs"],
     """all degrees and orders up to the maximum degree and all arguments in [-1, 1] including the ends""",
     """tests compare low degrees with closed forms and identities at some angles""",
     ["_spherical_harmonics/legendre.py"],
     [("recursions", "_spherical_harmonics/legendre.py")],
     ["arrays filled by the Legendre routines imported by the repository's tests"])

# ----------------------------------------------------------------- others
prop("M01", "Isostatic Moho balances any set of layer loads",
     """The Airy isostatic Moho depth is the reference depth plus the root that balances the loads of basement and every layer: the sum of
     column masses above the compensation depth equals that of the reference column, layer by layer, for positive and negative basement and
     any number and order of layers; inputs are not modified and grids keep coordinates.""",
     ["inputs"],
     """all basement heights of either sign, sets and orders of layers with arrays, grids or scalars, densities""",
     """tests evaluate fixed basements with one or two layers""",
     ["_isostasy.py"],
     [("airy root computation", "_isostasy.py")],
     ["isostatic_moho_airy return value"])

prop("M02", "Bouguer correction is the slab attraction of rock or water",
     """The Bouguer correction is linear in topography: 2 pi G times crust density times height above zero, and 2 pi G times (water minus crust density) times depth
     below zero, in mGal, element by element and continuous at zero; type, shape, coordinates, NaN and input of the caller are preserved.""",
     ["inputs"],
     """all topographies mixing land, sea and zero, container types, densities""",
     """tests check one positive and one negative value and one grid""",
     ["_gravity_corrections.py"],
     [("slab formula", "_gravity_corrections.py")],
     ["bouguer_correction return value"])

prop("M03", "Magnetic angles and vectors convert back and forth without loss",
     """Converting intensity, inclination and declination to components and back returns the same direction and intensity for every direction, inclination positive
     downward and declination positive clockwise from north, radians or degrees, scalars or arrays of any shape; the total-field anomaly
     is the projection of the anomalous field on the direction of the main field.""",
     ["inputs"],
     """all directions (eight octants, axes, vertical), intensities, units, shapes and broadcasts""",
     """tests check a table of axis-aligned vectors and one broadcast""",
     ["_utils.py"],
     [("angle conversions", "_utils.py")],
     ["magnetic_vec_to_angles, magnetic_angles_to_vec, total_field_anomaly"])

prop("V01", "PyVista export draws exactly the given prisms with their properties",
     """Converting prisms to an unstructured mesh yields one hexahedral cell per prism, in order, whose eight vertices are exactly the corners of that prism
     and whose volume is positive, with every property value attached to its own cell; inconsistent sizes are rejected.""",
     ["inputs"],
     """all collections of prisms and properties of any number and shape""",
     """tests check a couple of collections by bounds""",
     ["visualization/_prism.py"],
     [("prism vertices and cells", "visualization/_prism.py")],
     ["prism_to_pyvista return value"])
prop("V02", "Ellipsoid surfaces and meshes lie on the body in its current pose",
     """The surface points of an ellipsoid (get_surface, for any lon_size and lat_size) and its pyvista mesh (to_pyvista) lie on the ellipsoid with the semiaxes,
     rotation and center the object has at that moment: the surface is three (lat_size, lon_size) grids of parallels from the lower to the upper end of the
     third semiaxis and of meridians that start and end on the side of the first semiaxis, with equal angular steps; the mesh is closed and reaches every end
     of the body. Drawing changes nothing in the object, and surfaces handed out before stay as they were.""",
     ["inputs", "histories"],
     """all semiaxes, rotations and centers, all numbers of longitudes and latitudes, any sequence of assignments and drawings""",
     """tests draw a few ellipsoids with one default grid size each right after construction and mostly check bounds""",
     ["_forward/ellipsoids/ellipsoids.py", "_forward/utils.py"],
     [("get_surface", "_forward/ellipsoids/ellipsoids.py"), ("to_pyvista", "_forward/ellipsoids/ellipsoids.py")],
     ["Ellipsoid.get_surface and Ellipsoid.to_pyvista after any history of assignments"])


if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P), "properties")
