#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "geokit/src/"
P = []
def prop(i, title, statement, over, text, why, files, mech, tech, note, hook=None, observe=None):
    P.append(dict(id=i, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, hook=hook, observe=observe))

IN, HI, CO = "inputs", "histories", "configurations"
TR = "Assumes the reference formulation in mc/src/refm.rs; says nothing about values between the enumerated ones."

prop("C01", "Longitudes, azimuths, normalised angles stay in range and keep their direction",
 "Every longitude lies in [-180, 180] degrees, every azimuth and every normalised angle in (-180, 180], whatever finite angle they were built from or moved, scaled or negated by, through any chain of operations. The value always designates the same direction as the exact result (equal modulo 360 degrees to within the rounding of the operands), values already in range are kept unchanged, and the difference of two longitudes, azimuths or wrapped angles is the signed angle between them, of at most a half turn.",
 [IN, HI], "All finite angles (magnitudes 1e-20 to 1.8e308, all units), all pairs of operands, all chains of arithmetic operations.",
 "The tests look at about ten angles; range and identity must hold for every double, the neighbours of odd multiples of 180 degrees and long chains included.",
 [G+"quantities/angle.rs", G+"cs/geodetic.rs", G+"cs/azimuth.rs", G+"math/fp.rs"], [("wrapping through the remainder by a full turn", G+"math/fp.rs"), ("longitude arithmetic", G+"cs/geodetic.rs"), ("azimuth arithmetic", G+"cs/azimuth.rs")],
 "exhaustive enumeration of input domains and BFS over all operation chains (stateless exploration of the real code)", "Every angle of the enumerated domain through every constructor and operator, and every reachable value of operation chains to depth 4 (quick) or 5 (thorough); thorough adds every f32 value between 2^-30 and 2^7 rad. " + TR)
prop("C02", "Latitudes saturate at the poles",
 "Every latitude lies in [-90, 90] degrees whatever finite angle it was built from or whatever was added to, subtracted from or multiplied with it, through any chain of operations. A result inside that range is the exact one to rounding; a result outside becomes the nearest pole, never a folded, wrapped or sign-changed value.",
 [IN, HI], "All finite angles in all units, all operators and operand pairs, all chains of operations.",
 "The tests sample a handful of latitudes per operator; saturation must hold for every operand and after every history.",
 [G+"cs/geodetic.rs"], [("clamping in the latitude constructor and operators", G+"cs/geodetic.rs")],
 "exhaustive enumeration of input domains and BFS over all operation chains", "Same engine as C01. " + TR)
prop("C03", "Quantities and units convert and combine exactly",
 "A quantity expressed in any unit (radians, degrees, gradians, arc seconds, metres, international and US survey feet, or a unit given as a ratio) and read back in any other unit is the exact conversion to within a few units in the last place. Sums, differences, scalings, ratios, comparisons, trigonometric functions, hypotenuse and arc length operations on angles and lengths, and parts-per-million scale factors, agree with the same operation on the plain numbers in radians and metres.",
 [IN, CO], "All finite quantities, all pairs of units, every operator and its assignment form.",
 "The tests check unit equivalences at one value each; a wrong operator or conversion direction shows only on other units or operands.",
 [G+"units/angle.rs", G+"units/length.rs", G+"quantities/angle.rs", G+"quantities/length.rs", G+"quantities/scale.rs"], [("unit ratios", G+"units/length.rs"), ("operators", G+"quantities/length.rs"), ("operators", G+"quantities/angle.rs")],
 "exhaustive enumeration of operand pairs, units and operators", "All pairs over dense operand sets. " + TR)
prop("C04", "Degrees, minutes, seconds round trip",
 "An angle built from degrees, minutes and seconds is sign(d)(|d| + m/60 + s/3600) degrees, a negative zero degree counting as negative. Decomposing any angle gives whole degrees that carry the sign, whole minutes in 0..59 and seconds in [0, 60) that recompose to the angle within 1e-8 arc minute.",
 [IN], "Every whole arc second of the circle, its floating point neighbours, fractional seconds, and angles at log-spaced distances from whole minutes and degrees.",
 "The tests check five triples; carries of seconds into minutes and minutes into degrees happen only at particular doubles.",
 [G+"quantities/angle.rs", G+"cs/geodetic.rs", G+"cs/azimuth.rs"], [("sexagesimal decomposition", G+"quantities/angle.rs"), ("sexagesimal constructors", G+"cs/geodetic.rs")],
 "exhaustive enumeration of all arc seconds of the circle and their neighbours", "1,296,000 arc seconds and neighbours, plus grids. " + TR)
prop("C05", "Circle intervals behave as closed arcs",
 "For any two bounds, the length of an interval of the circle is the counter-clockwise turn from its lower to its upper bound, between 0 and 360 degrees, and only the interval from -180 to 180 is full and only the one from 180 to -180 is empty. Equal bounds, -180 and 180 counting as the same direction, give a single direction of length zero; -180 and 180 are interchangeable as a bound of any other interval, bounds given a whole number of turns away have the same length, and different arcs are different values.",
 [IN], "All pairs of bounds of a grid of the circle that includes both representations of the antimeridian and floating point neighbours.",
 "The tests check a few intervals; special representations of the empty, full and antimeridian intervals interact with every other pair of bounds.",
 [G+"cs/s1.rs"], [("special representations of empty and full", G+"cs/s1.rs")],
 "exhaustive enumeration of all bound pairs against an arc model", "All pairs of a grid with its floating point neighbours. " + TR)
prop("C06", "Axes convert coordinates to and from their normal form without loss",
 "For every axes layout (order, direction, dimension) and every unit, converting coordinates to the normalised form places each coordinate in the component, sign and unit the layout defines (absent heights are zero), and converting back restores the coordinates, a whole turn in longitude and saturated latitudes excepted. Tolerances on the axes convert to the tolerance of the matching components, without change of sign or order, the number of axes is the number of coordinates used (further entries of a longer buffer are neither read nor written), and the default axes are those of the normalised form (radians, metres).",
 [IN, CO], "All geodetic, geocentric and projected axes layouts x all units x coordinate grids including the antimeridian and poles.",
 "The tests check one point per layout in one unit; a swapped or mis-scaled axis shows only for other units or values.",
 [G+"cs/geodetic.rs", G+"cs/cartesian/geocentric.rs", G+"cs/cartesian/projected.rs"], [("normalize and denormalize", G+"cs/geodetic.rs"), ("normalize and denormalize", G+"cs/cartesian/projected.rs")],
 "exhaustive enumeration of layouts x units x coordinates, and back", "Every layout and unit combination. " + TR)
prop("C07", "Ellipsoids are internally consistent and the catalogues are right",
 "Ellipsoids built from two axes or from an axis and an inverse flattening have mutually consistent axes, flattening, eccentricities, radii of curvature and auxiliary latitudes at every latitude, a sphere included, and invalid shapes (non positive axes, a semi-minor axis above the semi-major one, an inverse flattening not above 1) are rejected. Every named ellipsoid, prime meridian and datum has its published defining values.",
 [IN, CO], "A grid of semi-major axes x axis ratios down to flattening 1/2 x latitudes; all 46 named ellipsoids, 14 prime meridians and 4 datums.",
 "The tests check three ellipsoids; no test reads most catalogue entries or the curvature radii away from one latitude.",
 [G+"geodesy/ellipsoid.rs", G+"geodesy/prime_meridian.rs", G+"geodesy/geodetic_datum.rs"], [("derived shape parameters", G+"geodesy/ellipsoid.rs"), ("catalogue", G+"geodesy/ellipsoid.rs")],
 "exhaustive enumeration of shapes, latitudes and all catalogue entries against an independent model", "The catalogue values were transcribed independently from the published definitions. " + TR)
prop("C08", "Geodetic to geocentric conversion is the ellipsoidal one",
 "For every datum, longitude, latitude and height the geocentric position is at the given height along the outward ellipsoid normal at that geodetic latitude, in the meridian plane at the given longitude counted from the prime meridian of the datum, to within 1e-14 of the distance from the centre. This holds at the poles, on the antimeridian, for heights below the surface and for spheres.",
 [IN, CO], "All named shapes and extreme flattenings x prime meridians x longitude, latitude and height grids with poles, antimeridian and their neighbours.",
 "The tests compare random points on one ellipsoid with a Greenwich datum against a table.",
 [G+"geodesy/geodetic_datum.rs"], [("closed form conversion", G+"geodesy/geodetic_datum.rs")],
 "exhaustive enumeration of datums x position grid against an independent formulation", TR)
prop("C09", "Geocentric to geodetic conversion inverts the forward one",
 "For every datum and every position from 0.8 radii below the surface (or 0.3 radii from the centre) up to 60 radii, the geodetic coordinates returned are in range and map back to the same position within a micrometre-scale bound, with the longitude counted from the prime meridian of the datum. The conversion terminates and returns numbers for every such input, including on the axis of rotation, the equatorial plane and the antimeridian.",
 [IN, CO], "The same datums x grids of geodetic positions, and grids of raw geocentric coordinates including the coordinate planes and axes.",
 "The tests use a table of points near one ellipsoid; convergence and accuracy depend on latitude, height and flattening.",
 [G+"geodesy/geodetic_datum.rs", G+"math/utils.rs"], [("iterative or closed form inverse", G+"geodesy/geodetic_datum.rs")],
 "exhaustive enumeration of positions, with round trip through the model", TR)
prop("C10", "Mercator projection (one or two standard parallels)",
 "For every ellipsoid, central meridian, scale factor or standard parallel and false origin, the projection gives the ellipsoidal Mercator easting and northing of every point off the poles, keeps the height, and rejects the poles. The inverse answers every finite grid position with a longitude and latitude in range, and inverts the forward projection to the order e^10 of its series.",
 [IN, CO], "Ellipsoids x parameters x dense longitude/latitude grids with poles and antimeridian; grid coordinates up to 1e307.",
 "The tests compare a table of points for one set of parameters.",
 [G+"projections/cyl/mercator.rs", G+"projections/mod.rs"], [("isometric latitude and its inverse series", G+"projections/cyl/mercator.rs")],
 "exhaustive enumeration of projection parameters x positions against an independent formulation", TR)
prop("C11", "Web Mercator projection",
 "For every ellipsoid, central meridian and false origin, the projection treats geodetic coordinates as if they were on a sphere of the semi-major axis, keeps the height and rejects the poles. The inverse answers every finite grid position with a longitude and latitude in range and inverts the forward projection to rounding.",
 [IN, CO], "52 ellipsoids x parameters x dense grids; grid coordinates up to 1e307.",
 "The tests compare one published point.",
 [G+"projections/cyl/web_mercator.rs"], [("spherical formulas", G+"projections/cyl/web_mercator.rs")],
 "exhaustive enumeration of projection parameters x positions against an independent formulation", TR)
prop("C12", "Transverse Mercator projection",
 "For every ellipsoid, central meridian, latitude of origin, scale factor and false origin, within 40 degrees of the central meridian (or of its antimeridian) the projection agrees with the exact transverse Mercator of the ellipsoid, and its inverse with the exact inverse, to the fourth order in the third flattening; heights are kept. Every finite position or grid coordinate gets a result in range or an out-of-bounds error, never a hang, a panic or a not-a-number; only points within about 12 degrees of the two singular points on the equator may be rejected by the projection.",
 [IN, CO], "Ellipsoids x parameter combinations x longitude differences and latitudes including poles, equator, central meridian; grid coordinates up to 1e307.",
 "The tests compare two published points; series coefficients, quadrants and the far side are not reached.",
 [G+"projections/cyl/transverse_mercator.rs"], [("fourth order series", G+"projections/cyl/transverse_mercator.rs")],
 "exhaustive enumeration of projection parameters x positions against the exact (complex isometric) projection", "Oracle: numerical integration of the exact conformal map, not a series. " + TR)
prop("C13", "UTM zones",
 "For each of the 60 zones in both hemispheres and every ellipsoid, UTM is the transverse Mercator projection with central meridian 6 zone - 183 degrees, scale 0.9996, false easting 500 km and false northing 0 (north) or 10000 km (south), forward and inverse. Points on either side of the antimeridian project continuously in zones 1 and 60.",
 [IN, CO], "60 zones x 2 hemispheres x 7 ellipsoids x positions up to 6 degrees from the central meridian, latitudes -89 to 89.",
 "The tests look at one zone.",
 [G+"projections/mod.rs", G+"projections/cyl/transverse_mercator.rs"], [("zone parameters", G+"projections/mod.rs")],
 "exhaustive enumeration of all zones x positions against the exact projection", TR)
prop("C14", "CRS to CRS transformations compose the right steps and invert",
 "For any source and destination system (geocentric, geographic in any layout and unit, projected) on any datums related by any datum shifts, the forward transformation gives the destination coordinates of the same physical point: source datum shifted to the reference, then to the destination; the backward transformation is the reverse path. Forward then backward restores the coordinates, results depend only on the arguments and not on earlier calls or on what the destination held before, and positions a projection rejects are reported as errors.",
 [IN, CO, HI], "All pairs of representative systems x datum shifts x positions; all histories of up to several calls on one transformation.",
 "The tests and examples transform single points between one pair of systems.",
 [G+"transformations/xyz.rs", G+"transformations/mod.rs", G+"crs/geographic.rs", G+"crs/geocentric.rs", G+"crs/projected.rs"], [("four-step pipeline", G+"transformations/xyz.rs")],
 "exhaustive enumeration of system pairs x shifts x positions and of call histories, against a composed reference model", TR)
prop("C15", "Datum shifts",
 "A geocentric translation adds its vector and its inverse subtracts it. A seven-parameter shift maps x to T + (1 + s)(x + r ^ x) under the position vector convention and with the opposite rotation under the coordinate frame convention, independently of the units of its parameters, and its inverse (the same shift with all parameters negated) undoes it up to products of two of its small parameters (rotations, scale, translation relative to the radius).",
 [IN, CO], "All combinations of rotations, translations and scales (zero, small, typical, large, both signs) x both conventions x points in all octants.",
 "The tests use a single shift with a rotation about one axis and one convention.",
 [G+"transformations/xyz.rs", G+"quantities/scale.rs"], [("rotation matrix", G+"transformations/xyz.rs")],
 "exhaustive enumeration of shift parameters x points against a vector formulation", "Uses the guarded hook to build the crate private shifts. " + TR, hook="constructors of the crate private datum shifts, under --cfg geokit_verif")
prop("C16", "Direct geodesic problem",
 "From any start point (poles and equator included), azimuth and distance (zero to two and a half turns), every solver returns the point and forward azimuth of the ellipsoidal geodesic within the truncation error of its method (order f^4 of the radius for Vincenty, f^5 for Rapp, f^7 for Karney), and echoes its inputs. The result turns with the longitude of the start point, is always in range and does not depend on earlier calls.",
 [IN, CO], "3 solvers x ellipsoids (spheres and strong flattening included) x start latitudes x azimuths (cardinal directions and neighbours) x distances.",
 "The tests use published point lists (some failing on this tree); poles, equatorial and long lines are not reached.",
 [G+"geodesy/geodesics/vincenty.rs", G+"geodesy/geodesics/rapp.rs", G+"geodesy/geodesics/karney.rs"], [("series for arc length and longitude", G+"geodesy/geodesics/karney.rs"), ("iterations", G+"geodesy/geodesics/vincenty.rs")],
 "exhaustive enumeration of solvers x ellipsoids x start, azimuth, distance grids against numerical integration of the geodesic", "Oracle: numerical quadrature of the geodesic on the auxiliary sphere. " + TR)
prop("C17", "Inverse geodesic problem",
 "For any two points, the Vincenty and Rapp solvers return the azimuths and length of the shortest geodesic: following it from the first point reaches the second with the returned final azimuth, within the truncation error of the method, and the length is the same in both directions. Coincident points, at any place, have length zero. Only for points closer to being antipodal than about ten times the flattening (in radians) may a solver return an error instead, and never a wrong answer, a hang, a panic or a not-a-number; answers do not depend on earlier calls.",
 [IN, CO], "2 solvers x ellipsoids x all pairs of latitudes x longitude differences, short lines down to 1e-9 degrees, coincident and near-antipodal pairs.",
 "The tests use published point lists; meridional, equatorial, polar, antimeridian, coincident and near-antipodal pairs are not reached.",
 [G+"geodesy/geodesics/vincenty.rs", G+"geodesy/geodesics/rapp.rs"], [("iterations", G+"geodesy/geodesics/vincenty.rs"), ("iterations", G+"geodesy/geodesics/rapp.rs")],
 "exhaustive enumeration of point pairs; each answer is replayed through a reference direct solver", "Karney's inverse is documented as unimplemented and is not called. " + TR)
prop("C18", "Distances between positions of a CRS",
 "In a two-dimensional geographic system the distance of two positions (up to 160 degrees apart) is the geodesic length on the ellipsoid of its datum; in three-dimensional geographic and geocentric systems it is the straight line in space; in projected systems it is the Euclidean distance of the grid coordinates, each converted from its own unit. Positions further apart give an error or a length between the straight line and half the circumference. It is symmetric, zero for equal positions, does not depend on axes layout or units, and a wrong number of coordinates is refused.",
 [IN, CO], "All CRS kinds, layouts and units x datums x position pairs.",
 "The tests measure one pair per CRS kind in one unit.",
 [G+"crs/geographic.rs", G+"crs/geocentric.rs", G+"crs/projected.rs"], [("dimension dependent distance", G+"crs/geographic.rs")],
 "exhaustive enumeration of CRS definitions x position pairs against the reference geometry", TR)
prop("C19", "Approximate equality honours per-axis tolerances",
 "Two positions of a system are approximately equal exactly when every component differs by at most the tolerance of its own axis, the limit included, whatever the layout, units and dimension: coordinates of a system are compared as the numbers they are, longitude and azimuth values as directions, across the antimeridian. Comparison is symmetric, and the tiny and small presets are 1e-12 and 1e-9 radian and 0.1 and 1 millimetre.",
 [IN, CO], "All CRS kinds and layouts x offsets below, at and above tolerance on every combination of components x distinct tolerances.",
 "The tests compare a few positions with one tolerance for all axes.",
 [G+"crs/mod.rs", G+"crs/geographic.rs", G+"crs/projected.rs", G+"crs/geocentric.rs", G+"cs/geodetic.rs", G+"cs/cartesian/mod.rs", G+"cs/cartesian/projected.rs", G+"geodesy/geodesics/mod.rs"], [("component-wise comparison", G+"cs/geodetic.rs")],
 "exhaustive enumeration of component offset combinations around the tolerances", TR)
prop("C20", "Line strings built step by step",
 "Through any sequence of builder operations, a line string holds exactly the accepted positions in order, and equals another of the same system exactly when their positions are the same; positions with a wrong number of coordinates are refused, and closing adds the first position at the end. Its start and end points, boundary, dimension and length (the sum of the distances of consecutive positions in its system) agree with those positions, and its parameterisation by distance returns the start at 0, the end at the length and the point at that travelled distance along the polyline in between, and refuses a distance beyond the length.",
 [HI, IN, CO], "All builder histories up to a depth over a small alphabet of positions (equal, wrong-dimension, invalid) x CRS kinds.",
 "The tests build three line strings; degenerate sides, closings and refusals occur only in other histories.",
 [G+"geometry/coordinate/curve/line_string.rs", G+"geometry/coordinate/curve/mod.rs"], [("builder", G+"geometry/coordinate/curve/line_string.rs"), ("arc length parameterisation", G+"geometry/coordinate/curve/line_string.rs")],
 "exhaustive exploration of all builder operation sequences against a list model", TR)
prop("C21", "Curves assembled from segments, and points",
 "Through any sequence of appended segments, a curve accepts exactly the segments of its dimension that start where it ends, and its start, end, boundary (none when it is closed), length and distance parameterisation are those of the concatenated segments. A point has two or three coordinates, stores them in order, and equals another exactly when all coordinates agree.",
 [HI, IN, CO], "All append histories up to a depth over line segments, connected or not, of right or wrong dimension, x CRS kinds; points of 0 to 5 coordinates.",
 "The tests assemble two curves.",
 [G+"geometry/primitive/curve.rs", G+"geometry/primitive/point.rs"], [("segment continuity check", G+"geometry/primitive/curve.rs")],
 "exhaustive exploration of all append sequences against a list model", TR)
prop("C22", "Equality of ellipsoids, meridians, datums and systems",
 "Ellipsoids and prime meridians compare equal exactly when their figures or longitudes are equal, whatever their names; datums when identifier, ellipsoid and prime meridian are; reference systems when identifier, datum, axes (layout and units) and every projection parameter are. Equality is reflexive and symmetric on all pairs of definitions.",
 [IN, CO], "All pairs over definitions that differ in exactly one part, and all pairs of catalogue entries.",
 "The tests compare a few pairs.",
 [G+"geodesy/ellipsoid.rs", G+"geodesy/prime_meridian.rs", G+"geodesy/geodetic_datum.rs", G+"crs/geographic.rs", G+"crs/projected.rs", G+"crs/geocentric.rs"], [("equality", G+"geodesy/ellipsoid.rs")],
 "exhaustive enumeration of all pairs of definitions differing in one part", TR)
prop("C23", "Numerical kernels",
 "Complex arithmetic, polynomial evaluation (real and complex, plain and fused) and sine series summation agree with their definitions to rounding for every operand, the error-free sum returns the rounded sum and its exact error, and the symmetric remainder is within half a period and an exact number of periods away. Division by zero is reported, the argument of a complex number is in (-180, 180] degrees, and the fixed point iteration stops at the first step where every component moved by less than its own tolerance.",
 [IN], "All pairs of complex numbers over a component set, all coefficient vectors over a value set, all mantissa/exponent pairs of a set.",
 "The tests evaluate about ten operands.",
 [G+"math/complex.rs", G+"math/polynomial.rs", G+"math/fp.rs", G+"math/utils.rs"], [("Horner evaluation", G+"math/polynomial.rs"), ("Clenshaw summation", G+"math/fp.rs")],
 "exhaustive enumeration of operands and coefficient vectors against the definitions (128-bit integers for the exact sum)", TR)
prop("C24", "Text output reads back as the value",
 "The text of an angle, length, longitude, latitude or azimuth, plain or in scientific notation, is a number with its unit (or degrees, minutes, seconds) that reads back as the value, exactly for plain numbers and within 1e-8 arc minute for sexagesimal text, sign included, with minutes and seconds below 60. The text of coordinates, ellipsoids, prime meridians, datums, intervals and geodesics shows every part under its own label, in order.",
 [IN], "Dense sets of values for every type, all combinations of distinct component values for records.",
 "The tests format about ten values; swapped fields and lost signs show only when the parts differ.",
 [G+"quantities/angle.rs", G+"quantities/length.rs", G+"cs/geodetic.rs", G+"cs/azimuth.rs", G+"cs/s1.rs", G+"geodesy/ellipsoid.rs", G+"geodesy/geodesics/mod.rs"], [("display implementations", G+"quantities/angle.rs")],
 "exhaustive enumeration of values; every text is parsed back", TR)
prop("C25", "Chains of transformations across systems keep the point",
 "Following any path of several transformations through different reference systems and datums, forward or backward, the coordinates reached in a system are those of the original physical point in that system, whatever the path. The accumulated error stays within the accuracy of the individual steps.",
 [HI, CO, IN], "All paths of several hops through a set of systems (geocentric, geographic layouts, Mercator, Web Mercator, transverse Mercator, UTM) and positions.",
 "No test chains transformations.",
 [G+"transformations/xyz.rs", G+"crs/geographic.rs", G+"crs/projected.rs", G+"geodesy/geodetic_datum.rs"], [("pipeline through geocentric coordinates", G+"transformations/xyz.rs")],
 "exhaustive exploration of all transformation paths up to a depth against the reference position", TR)
prop("C26", "The point sampler",
 "For any count, ellipsoid and units, the command line sampler writes exactly count lines; every geocentric sample lies on the ellipsoid, every geodetic sample is the longitude and geodetic latitude of the same sample, in the requested units, and heights lie in [-1500 m, 30 km] in the requested length unit. Over an even source of randomness the samples cover all octants and equal-area zones evenly.",
 [IN, CO], "Every cell of a grid of the random source x ellipsoids x units x counts x output types.",
 "No test runs the tool, and its random source makes any single run a sample.",
 [G+"bin/sample_s2.rs"], [("scaling of the unit sphere", G+"bin/sample_s2.rs")],
 "exhaustive enumeration of the random source under a guarded hook, running the real tool", "The guarded hook replaces the random generator by an enumeration of a grid. " + TR, hook="enumerated random source of the sampler, under --cfg geokit_verif")

HOOKS = ["18d12b3", "56c4390", "e28512b"]
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=p["hook"]))
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="./run.sh setup",
         hooks=dict(guard="cfg geokit_verif", enable='RUSTFLAGS="--cfg geokit_verif" (mc_hooks crate and sample_s2 only; the other checks build the library as it is)', source_commits=HOOKS),
         checks=[dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough", technique="explicit-state / stateless model checking of the real code: " + p["tech"], level="model_checking", level_note=p["note"]) for p in P],
         not_applicable=[])
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
