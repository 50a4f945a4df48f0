"""Writes /verif/properties.jsonl. One entry per property; kept as code so that it is easy to review and edit."""
import json, os

S = "starwinds_magnetogram/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     state=[dict(name=n, meaning=m, where=S + w) for n, m, w in (state or [])],
                     mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))


prop("C01", "A coefficient set behaves as a map from (degree, order) to values",
     "Whatever sequence of additions, overwrites and look-ups is made, a coefficient set holds exactly the last value stored for each (degree, order), answers the default value for every pair never stored, and lists its contents once each in increasing (degree, order) order. Adding a pair that is already present, an order larger in magnitude than the degree, or a value of the wrong length is refused and leaves the set exactly as it was. The reported size, highest degree and lowest order always agree with what has been stored.",
     ["histories", "inputs"], "every sequence of set/append/get/has/iterate operations, every degree/order, every value and number of values per coefficient",
     "Tests make a handful of appends on fixed sets; no test interleaves refused operations, overwrites and queries or compares with a model.",
     ["coefficients.py"], [("duplicate check, order and shape assertions", "coefficients.py:append,set"), ("degree_max/order_min bookkeeping", "coefficients.py:set")],
     ["Coefficients.append/set/get/has/contents/size/degree_max/order_min"],
     [("coefficients", "the stored values by (degree, order)", "coefficients.py:Coefficients.__init__")])

prop("C02", "Coefficient sets never share storage with their sources or results",
     "Copying, adding, subtracting, scaling, multiplying, dividing, raising to a power, truncating, stacking, splitting, blanking or building from arrays gives a coefficient set that is independent: changing the result in place never changes an operand, another result or the caller's arrays, and changing those never changes the result. None of these operations changes its operands.",
     ["histories", "inputs"], "every operation of the container, every later in-place change of any participant, in any order",
     "Tests look only at the values right after one operation; none mutates one participant afterwards and looks at the others.",
     ["coefficients.py"], [("copies made on store", "coefficients.py:set"), ("copy of the defaults", "coefficients.py:default_coefficients")],
     ["all participants of an operation before and after in-place changes"])

prop("C03", "Arithmetic on coefficient sets acts on each coefficient separately",
     "Sum, difference, product (by a number or coefficient by coefficient), division by a number, power, scaling by a function of degree and order, and truncation to a highest degree give, for every (degree, order), exactly the corresponding operation on the values of that coefficient, where a coefficient missing from an operand counts as its default (zero). The result has a coefficient exactly where an operand had one (for truncation: where the degree does not exceed the limit). Sets of integers, of real and of complex numbers combine without loss of fractions or imaginary parts (scaling by a function aside), and the sum or product of sets with different numbers of values per coefficient is refused.",
     ["inputs", "programs"], "all pairs of sparse or dense coefficient sets with any number of values per coefficient, all complex/real/integer scalars, and compositions of operations",
     "Tests use one or two hand-written coefficients per operation; the key-union logic for sparse operands, and chains of operations, are not sampled.",
     ["coefficients.py"], [("key union with defaults", "coefficients.py:add,multiply"), ("element-wise operations", "coefficients.py:scale,truncated,__pow__,__truediv__")],
     ["results of +, -, *, /, **, scale, truncated"])

prop("C04", "Stacking and splitting coefficient sets are exact inverses",
     "Stacking coefficient sets side by side gives a set that, at every (degree, order) present in any of them, lists the values of each in order (its default where one has none); splitting a set gives the requested sections in order. Splitting a stack gives back sets equal to the originals, and stacking the sections of a split gives back the original set.",
     ["inputs"], "any number of sets with any number of values each and any (differing) patterns of present coefficients; any valid sections",
     "Tests stack and split two small sets with equal patterns.",
     ["coefficients.py"], [("horizontal stacking and splitting per key", "coefficients.py:hstack,hsplit")],
     ["results of hstack, hsplit"])

prop("C05", "Conversion between coefficient sets and arrays loses nothing",
     "Listing a coefficient set as arrays of degrees, orders and values gives each requested (degree, order) exactly once, in increasing order, within the requested degree and order limits, with its stored value or (if unset entries are requested) the default. Building a set from arrays stores every element at its degree and order, whatever their order in the arrays, and refuses arrays of differing lengths or with repeated pairs; listing and rebuilding gives back an equal set.",
     ["inputs"], "all sparse or dense sets, all combinations of limits and of the include-unset option, any permutation of array elements",
     "The limits and the include-unset option are only exercised with default values on complete sets.",
     ["coefficients.py"], [("range clipping by degree", "coefficients.py:as_arrays"), ("element-wise append", "coefficients.py:from_arrays")],
     ["results of as_arrays, from_arrays"])

prop("C06", "Comparison of coefficient sets looks at every coefficient",
     "Two coefficient sets compare as close exactly when at every (degree, order) present in either of them all values agree within the given relative and absolute tolerances, a missing coefficient counting as its default; sets with different numbers of values per coefficient are never close, and empty sets are close to each other. The per-coefficient comparison reports each such pair exactly once with one truth value per value, and pairs missing from both (equal) sets compare as close.",
     ["inputs"], "all pairs of sets differing in zero, one or more values anywhere (including only in coefficients missing on one side), all tolerances",
     "Tests compare sets differing in one hand-picked coefficient.",
     ["coefficients.py"], [("key union and elementwise comparison", "coefficients.py:allclose,isclose")],
     ["results of allclose, isclose"])

prop("C07", "Writing and reading a magnetogram file preserves the coefficients",
     "Reading back a file written from a coefficient set gives, for every degree up to the requested highest degree and every order from the requested lowest order (zero unless stated), each stored value to the seven significant digits of the format, and zero for coefficients that were not set; coefficients above the requested degree are absent and no others appear. The number and order of the values per coefficient is kept, the result does not depend on whether the SWMF header is written, and writing what was read gives the same coefficient lines again.",
     ["inputs", "configurations"], "all sparse/dense sets with one to several values per coefficient, values of any sign and of any magnitude from 1e-300 to 1e300, every truncation or padding degree, with and without header",
     "Tests read bundled files and never write and re-read; truncation, padding, extreme magnitudes and sparse sets are not covered.",
     ["reader_writer.py", "coefficients.py"], [("fixed format lines", "reader_writer.py:write_magnetogram_file"), ("line parsing and set detection", "reader_writer.py:read_magnetogram_file")],
     ["bytes of the written file", "the set returned by the reader"])

prop("C08", "The reader accepts any layout of the documented magnetogram format",
     "Reading returns exactly the coefficients on the lines that have two integers followed by two numbers, whatever header, comment, blank or short lines surround them, whatever blanks or tabs separate the tokens, whatever follows the fourth token, and whatever line ending is used. A new set of values starts where a (degree, order) pair repeats, so that a file with several blocks gives several values per coefficient, in the order of the blocks; reading does not change the file.",
     ["inputs"], "all files made of coefficient lines in any order with arbitrary surrounding and interleaved non-coefficient lines, number formats, whitespace and line endings, one or more blocks",
     "Tests read one or two well-formed bundled files.",
     ["reader_writer.py"], [("token parsing with rejection of other lines", "reader_writer.py:read_magnetogram_file"), ("set detection by repeated key", "reader_writer.py:read_magnetogram_file")],
     ["the set returned by the reader", "bytes of the file before and after"])

prop("C09", "Files for the SWMF are complete and their header matches the data",
     "A file written with the SWMF header consists of five header lines and then one line for every degree from 0 to the requested highest degree and every order from 0 to the degree, each exactly once and in increasing order. The header has the five-line layout that the SWMF reads (name; 0 0.0 -2 3 2; number of coefficient lines that follow and 1; highest degree, Carrington rotation, longitude; names of the columns); without the header option the data lines are identical and the header of two lines states the highest degree.",
     ["inputs", "configurations"], "all single-valued coefficient sets (sparse, truncated, padded), every highest degree and file name",
     "No test looks at the contents of a written file.",
     ["reader_writer.py"], [("header construction", "reader_writer.py:create_swmf_header"), ("triangular listing", "reader_writer.py:write_magnetogram_file")],
     ["lines of the written file"])

prop("C10", "ZDI to PFSS conversion preserves the radial surface field",
     "For any ZDI magnetogram, the radial field of its PFSS conversion at the stellar surface equals the radial field of the ZDI magnetogram at the same polar angle and opposite azimuth, at every point and whatever the source surface radius. The conversion multiplies each coefficient by a factor depending only on its degree and order, and so keeps exactly the coefficients that were present.",
     ["inputs"], "all sets of radial coefficients with non-negative orders, all surface points, all source surface radii",
     "One bundled magnetogram is compared on one grid with loose tolerance.",
     ["converter.py", "pfss_magnetogram.py", "zdi_magnetogram.py"], [("per degree/order conversion factor", "converter.py:forward_conversion_factor,convert_zdi_to_pfss")],
     ["radial fields of both representations"])

prop("C11", "PFSS to ZDI conversion gives the potential field and inverts ZDI to PFSS",
     "Converting PFSS coefficients to ZDI gives a magnetogram without toroidal field whose surface field (all three components) is that of the potential field extrapolation with the source surface at three stellar radii, mirrored in azimuth. Converting its radial coefficients back to PFSS gives the original coefficients, and converting ZDI radial coefficients to PFSS and back gives the original radial coefficients.",
     ["inputs"], "all sets of PFSS coefficients with non-negative orders, all surface points off the rotation axis",
     "Tests compare single coefficients up to degree 5 or one bundled magnetogram, with plotting rather than tight assertions.",
     ["converter.py", "pfss_magnetogram.py", "zdi_magnetogram.py"], [("inverse factor, potential tangential coefficients, zero toroidal", "converter.py:convert_pfss_to_zdi")],
     ["coefficients and fields of both representations"])

prop("C12", "The conversion command writes the converted magnetogram",
     "For every input file and combination of options, the conversion command writes exactly the coefficients obtained by converting (ZDI to PFSS by default using the first set of values, PFSS to ZDI, or no conversion) the coefficients in the input, padded with zeros or truncated to the requested degree, with or without the SWMF header as requested, to the named output or by default to a file in the working directory whose name is that of the input with the target format appended. A file with several sets is refused where a single set of values is required.",
     ["inputs", "configurations"], "all readable input files, all combinations of the command-line options",
     "Tests run the command on two bundled files and only check that it succeeds.",
     ["bin/convert_magnetogram.py", "reader_writer.py", "converter.py"], [("option dispatch", "bin/convert_magnetogram.py:main"), ("output name", "bin/convert_magnetogram.py:_make_output_filename")],
     ["exit status, files in the working directory after the command"])

prop("C13", "The conversion command never destroys existing data",
     "The conversion command never changes its input file, by whatever name (relative, absolute, link) the output refers to it; it refuses instead. Without an explicit output name it never overwrites an existing file, and a conversion that fails (unreadable or malformed input, wrong number of sets, refused name) leaves every existing file as it was and creates none.",
     ["inputs", "configurations", "fault_sequences"], "all spellings of input and output paths, all existing files, all failing inputs, and sequences of invocations in the same directory",
     "Tests never run the command with colliding names or failing inputs.",
     ["bin/convert_magnetogram.py", "reader_writer.py"], [("name guard", "bin/convert_magnetogram.py:_make_output_filename"), ("reading and converting before opening the output", "bin/convert_magnetogram.py")],
     ["contents of the directory before and after, exit status"])

prop("C14", "ZDI field components equal the spherical-harmonic definition",
     "At every surface point, the radial, polar and azimuthal components of the poloidal and toroidal field of a ZDI magnetogram equal the sums over coefficients given by the published definition (Lehmann et al 2018, equation 5, with polar angle from the north pole and azimuth in the direction of rotation), for every set of coefficients, including sparse sets, high degrees, negative orders and any listing order. The field is linear in the coefficients.",
     ["inputs"], "all coefficient sets (degree up to at least 30, any order), all points off the rotation axis",
     "Tests compare a few low-degree coefficients with scipy or between two code paths that share conventions; derivatives are only compared to 1e-2.",
     ["zdi_magnetogram.py", "associated_legendre.py"], [("radial, azimuthal and polar sums", "zdi_magnetogram.py"), ("Legendre derivative", "associated_legendre.py:calculate_lpmn")],
     ["component getters of the magnetogram"])

prop("C15", "Total, strength, cartesian and tabulated ZDI fields agree with the components",
     "The total of each component is the sum of its poloidal and toroidal parts, the toroidal radial part is zero, the field strength is the Euclidean norm of the three totals, and the cartesian field (full, poloidal and toroidal) is the same vector expressed along x, y and z. The table of component functions gives these same fields under the names it states.",
     ["inputs"], "all coefficient sets, all points and array shapes",
     "Only the full cartesian field is used in tests and it is not compared with the components; the poloidal and toroidal cartesian fields are not called.",
     ["zdi_magnetogram.py", "coordinate_transforms.py"], [("sums and norm", "zdi_magnetogram.py:get_radial_field,get_polar_field,get_azimuthal_field,get_field_strength"), ("basis change", "zdi_magnetogram.py:get_cartesian_field")],
     ["getters of the magnetogram"])

prop("C16", "Field evaluation is pointwise, whatever the shape of the point arrays",
     "The field returned for a point depends only on the magnetogram and that point: evaluating many points together, one at a time, in any order, in arrays of any shape, dimension, memory layout or number type, and at azimuths differing by full turns gives the same field for each, in an array of the shape of the points. This holds for ZDI fields and for PFSS fields in spherical and cartesian coordinates.",
     ["inputs", "histories"], "all arrays of points (0 to 4 dimensions, C/Fortran/strided layout, integer or floating), all partitions of a set of points into calls",
     "Tests evaluate on complete two-dimensional grids in one layout.",
     ["zdi_magnetogram.py", "pfss_magnetogram.py", "associated_legendre.py", "coordinate_transforms.py"], [("elementwise evaluation", "zdi_magnetogram.py; pfss_magnetogram.py:evaluate_spherical,evaluate_cartesian")],
     ["returned arrays"])

prop("C17", "Fields are finite and single-valued on the rotation axis",
     "On the rotation axis every field component is finite, and the field vector obtained there does not depend on the azimuth used to approach it and equals the limit of the field at nearby points off the axis. This holds at both poles, for ZDI fields and for PFSS fields at every radius, in spherical and cartesian coordinates.",
     ["inputs"], "all coefficient sets, both poles, every azimuth label, every radius",
     "Tests evaluate on facet centres and on slices chosen so that no point is on the axis.",
     ["associated_legendre.py", "zdi_magnetogram.py", "pfss_magnetogram.py"], [("limits on the axis", "associated_legendre.py; pfss_magnetogram.py:evaluate_spherical")],
     ["field vectors at polar angles 0 and pi and close to them"])

prop("C18", "Magnetogram energies are exact surface averages of the squared field",
     "The energies listed for the radial, remaining poloidal and toroidal coefficients are real and non-negative, and their sums equal the integrals over the unit sphere of the squared radial field, of the squared tangential poloidal field and of the squared toroidal field. This holds for every set of coefficients with non-negative orders, of any magnitude, and energies scale with the square of the coefficients.",
     ["inputs"], "all coefficient sets with non-negative orders and of any magnitude",
     "Tests only print energies of one magnetogram.",
     ["zdi_magnetogram.py"], [("per-coefficient energies", "zdi_magnetogram.py:_energy_helper,energy")],
     ["energies returned, field integrated by exact quadrature"])

prop("C19", "Energy fractions and the energy matrix agree with the energies",
     "Every reported energy fraction (radial, poloidal, toroidal, by degree, dipole/quadrupole/octopole, axisymmetric total, radial, poloidal, toroidal and dipole) is the ratio of the sums of energies of the coefficients it names, whichever coefficients the magnetogram has, and the reported total is the sum of all energies. The energy matrix holds the radial, poloidal (including radial) and toroidal energy of each coefficient at its degree and order and zero elsewhere.",
     ["inputs"], "all coefficient sets, including those lacking the dipole or any other degree, unordered listings, and degrees above 15",
     "Tests use one complete magnetogram and do not compare fractions with energies.",
     ["zdi_magnetogram.py"], [("masked sums", "zdi_magnetogram.py:energy"), ("indexed assignment and roll", "zdi_magnetogram.py:energy_matrix")],
     ["dictionary filled by energy, matrices returned by energy_matrix"])

prop("C20", "Restricted, poloidal, toroidal and copied magnetograms are exact projections",
     "Restricting a magnetogram to degree and order ranges keeps exactly the coefficients in the (inclusive) ranges with their values; the poloidal and toroidal magnetograms have exactly the poloidal and toroidal field of the original and zero for the other; fields of complementary restrictions add up to the full field. A copy has the same field, and none of these ever changes, or is changed through, the original.",
     ["inputs", "histories"], "all coefficient sets, all ranges (single values and pairs), any later in-place change",
     "Tests use the dipole restriction only through plots.",
     ["zdi_magnetogram.py"], [("index selection", "zdi_magnetogram.py:as_restricted"), ("zeroed copies", "zdi_magnetogram.py:as_poloidal,as_toroidal,copy")],
     ["coefficients and fields of original and projection"])

prop("C21", "Folding negative orders keeps the radial field",
     "Folding the negative orders of a single-valued coefficient set onto the positive ones gives a set with only non-negative orders whose radial field equals that of the original at every point. A set without negative orders keeps its coefficients.",
     ["inputs"], "all single-valued sets with positive and negative orders, dense or sparse, any phases",
     "One random set is compared on one grid.",
     ["converter.py"], [("collection of cosine terms", "converter.py:map_to_positive_orders,collect_cosines")],
     ["radial fields before and after; coefficients after"])

prop("C22", "Rotating a magnetogram rotates its field rigidly",
     "For every coefficient set and every rotation, the field of the rotated magnetogram at the rotated point is the rotated field of the original at the point: the radial field for single-valued sets, and the whole vector field (radial, polar and azimuthal, poloidal and toroidal) when the sets of all three kinds of coefficients are rotated.",
     ["inputs"], "all coefficient sets (any orders, degree up to the 32 supported), all Euler angles including 0, 90, 180 degrees and beyond a turn, and all rotations given as quaternions",
     "Tests rotate one magnetogram by a few angles and only compare the radial field.",
     ["rotate.py", "converter.py"], [("Wigner D sum per degree", "rotate.py:rotate_magnetogram")],
     ["fields before and after the rotation"])

prop("C23", "Rotations compose, invert and conserve energy degree by degree",
     "Rotating by the identity leaves every coefficient unchanged, rotating by one rotation and then another equals rotating once by their composition, and rotating back restores the original. A rotation never mixes degrees, preserves the sum of squared magnitudes in every degree and of every value separately, and is linear in the coefficients; rotation about the polar axis only changes phases.",
     ["inputs", "programs"], "all coefficient sets and all sequences of rotations",
     "No test composes rotations or checks conservation.",
     ["rotate.py"], [("Wigner D sum per degree", "rotate.py:rotate_magnetogram,rotate_magnetogram_euler_zyz_deg")],
     ["coefficients before and after"])

prop("C24", "PFSS fields equal the potential field source surface solution",
     "At every point between the stellar surface and the source surface, the three field components equal those of the potential field whose surface radial field is given by the coefficients (Stanford convention) and which is radial at the source surface. Inside the star the field is zero; beyond the source surface it is radial and falls off as the inverse square of the distance, continuously from the source surface. This holds for every stellar radius and every larger source surface radius.",
     ["inputs", "configurations"], "all sets of coefficients with non-negative orders, all points off the rotation axis (including radii exactly on both boundaries), all stellar and source surface radii",
     "Tests compare with one reference file or only plot.",
     ["pfss_magnetogram.py", "associated_legendre.py"], [("radial functions", "pfss_magnetogram.py:r_l"), ("angular functions", "pfss_magnetogram.py:calculate_all_theta,phi_lm"), ("inner and outer regions", "pfss_magnetogram.py:evaluate_spherical")],
     ["components returned"])

prop("C25", "PFSS fields are divergence-free and current-free and conserve flux",
     "Between the stellar surface and the source surface the field has zero divergence and zero curl, beyond the source surface zero divergence. Its net flux through any closed sphere around the star equals that of its monopole coefficient (zero without one) and its unsigned flux is the same through every sphere outside the source surface.",
     ["inputs", "configurations"], "all coefficient sets and radii",
     "No test differentiates or integrates the field.",
     ["pfss_magnetogram.py"], [("potential solution", "pfss_magnetogram.py:evaluate_spherical"), ("inverse-square continuation", "pfss_magnetogram.py:evaluate_spherical")],
     ["finite differences and quadrature of returned fields"])

prop("C26", "Cartesian and spherical PFSS evaluation describe the same vector",
     "Evaluating at cartesian points returns the spherical components at the same points and the same vector expressed along x, y and z, in arrays of the shape given; both have the same length. Points inside the star, at its centre, beyond the source surface and on the coordinate axes and planes are included, as is every stellar and source surface radius.",
     ["inputs", "configurations"], "all cartesian points in arrays of any shape, all coefficient sets and radii",
     "Tests call the function and plot.",
     ["pfss_magnetogram.py", "coordinate_transforms.py"], [("coordinate and basis change", "pfss_magnetogram.py:evaluate_cartesian")],
     ["six arrays returned"])

prop("C27", "Coordinate and vector transformations are exact inverses",
     "Transforming points from rectangular to spherical coordinates and back, or from spherical to rectangular and back (azimuth up to full turns), gives the same points, with polar angles from 0 to pi, azimuths from -pi to pi, and the origin at radius zero and polar angle zero. The transformation matrices between spherical and rectangular vector components are orthogonal, right-handed, transposes of each other, and map the unit radial, polar and azimuthal vectors at each point to the directions in which the point moves when the respective coordinate grows.",
     ["inputs"], "all points (including on the axes, at the origin, of any magnitude, integer and floating) and all angles",
     "The transformations are only used indirectly in tests.",
     ["coordinate_transforms.py"], [("coordinate formulas", "coordinate_transforms.py"), ("matrices", "coordinate_transforms.py:spherical_to_rectangular_transformation_matrix,rectangular_to_spherical_transformation_matrix")],
     ["returned coordinates and matrices"])

prop("C28", "Surface grids tile the sphere with exact areas, centres and normals",
     "For any corner angles, each facet's area is that of the spherical patch between its corner angles, the areas of a full grid add up to the sphere, and the centre of each facet is midway between its corners in both angles. Unit normals and cartesian centres and corners are the points on the unit sphere at those angles; grids given by numbers of corners are uniform over the whole sphere.",
     ["inputs", "configurations"], "all numbers of corners and all increasing corner angles (uniform or not, full or partial sphere)",
     "Tests use a few uniform grids.",
     ["geometry.py"], [("cap area difference, corner averages", "geometry.py:ZdiGeometry")],
     ["corners, centers, areas, unit_normals, centers_cartesian, corners_cartesian, shape"])

prop("C29", "The longitudinal field is the visible-disc average of the line-of-sight field",
     "For every observer direction, a facet's projected visible fraction is the cosine of the angle between its normal and the observer direction, or zero for facets facing away, whatever the length of the direction vector. The longitudinal field at each observer azimuth is the average over facets of the field component towards the observer weighted by projected visible area; it is linear in the magnetogram, and does not depend on the other azimuths requested nor on how the azimuths are given.",
     ["inputs", "configurations"], "all magnetograms, grids, observer inclinations and lists of azimuths (integer or floating, list or array, default)",
     "Tests look at one magnetogram and a few directions, mostly through plots.",
     ["longitudinal_field.py", "geometry.py"], [("projected area", "geometry.py:projected_visible_area_fraction"), ("weighted average", "longitudinal_field.py:get_longitudinal_field_curve")],
     ["curve and fractions returned; plotted curve"])

prop("C30", "Coefficients recovered from a gridded surface field reproduce the field",
     "Computing ZDI coefficients from the field components of a magnetogram on a full surface grid gives back its radial, poloidal and toroidal coefficients with an error that goes to zero with the square of the grid spacing, for every coefficient up to the requested degree that the field determines. The result is linear in the field, contains every degree up to the requested one and every non-negative order once, and attributes each field component only to its own kind of coefficient.",
     ["inputs", "configurations"], "all band-limited fields, all sufficiently fine grids, all requested degrees, with the default and with given facet areas",
     "Tests compare selected coefficients on one grid with tolerances of a few per cent.",
     ["converter.py"], [("projection sums", "converter.py:get_zdi_coeffs"), ("degree/order listing", "converter.py:positive_lm,convert_latlon_to_zdi_coeffs")],
     ["coefficients and magnetogram returned for two grid resolutions"])

prop("C31", "Image analysis and synthesis by spherical harmonics invert each other",
     "Building an image from spherical-harmonic coefficients evaluates their sum at the facet centres exactly; analysing an image gives the surface integral of the image against each conjugate harmonic for every degree below the limit, so that band-limited images are recovered with an error that vanishes with grid spacing. A real image gives conjugate-symmetric coefficients, both operations are linear, and an image given without a grid is taken to cover the whole sphere.",
     ["inputs", "configurations"], "all images, all uniform and non-uniform grids, all degree limits, all coefficient sets with positive and negative orders",
     "Tests transform one image on two grids and plot it.",
     ["image_converter.py", "geometry.py"], [("quadrature", "image_converter.py:from_image,_deltas"), ("synthesis", "image_converter.py:to_image")],
     ["coefficients and images returned"])

prop("C32", "Caching of spherical harmonics never changes results",
     "On grids, the cached and uncached evaluation of a spherical harmonic agree for every degree, order and grid, after any sequence of evaluations on other grids, degrees and orders. Changing a returned array in place never affects later results.",
     ["histories", "inputs"], "all sequences of evaluations over interleaved grids, degrees and orders, more than fit in the cache, and in-place changes of results",
     "No test evaluates harmonics on more than two grids or modifies results.",
     ["image_converter.py"], [("memoisation keyed by angles, degree and order", "image_converter.py:spherical_harmonic")],
     ["arrays returned with and without cache"])

prop("C33", "Wind speeds solve the Parker equation on the transonic branch",
     "At every distance where the solution can be represented (from 0.01 sonic radii outwards), and up to the precision of the solver next to the sonic point, the dimensionless wind speed is real and satisfies the Parker equation, is below one inside and above one outside the sonic point, equals one there, and increases with distance; requesting all solutions gives the subsonic and the supersonic one. Each value depends only on its own distance, whether given alone or in an array.",
     ["inputs"], "all dimensionless distances from deep inside to far outside the sonic point, including values at and next to it, alone or in arrays in any order",
     "Tests plot curves on one grid of distances.",
     ["parker_solution.py"], [("Lambert W branches", "parker_solution.py:find_parker_analytic")],
     ["speeds returned; residual of the equation"])

prop("C34", "The Parker wind conserves mass and matches the stellar surface",
     "For every temperature, base density, stellar radius and mass, the wind speed is the dimensionless solution scaled by the sound speed and sonic radius, the density at the stellar surface is the base density, and density times speed times the area of the sphere is the same at every distance from the surface outward and equals the reported total mass flux. Distances below the surface are treated as the surface, and evaluating never changes the distances given.",
     ["inputs", "configurations", "histories"], "all physical parameters for which the sonic point lies outside or inside the star, all arrays of distances (integer, floating, scalar), repeated evaluation with the same array",
     "Tests evaluate one or a few parameter sets and compare fluxes on arrays used once.",
     ["parker_solution.py"], [("scaling and continuity", "parker_solution.py:ParkerSolution"), ("mass flux", "parker_solution.py:total_mass_flux")],
     ["speeds, densities, fluxes; the caller's arrays"])

prop("C35", "Numerical descriptions are the statistics of the evaluated field",
     "For every magnetogram and full-sphere grid, the reported maximum, mean, root-mean-square and standard deviation of the magnitude of each component (poloidal, toroidal and total radial, polar and azimuthal, and field strength) are those of the field evaluated at the facet centres, weighted by facet area. All such values are reported, in the dictionary given or a new one.",
     ["inputs", "configurations"], "all magnetograms and all full-sphere grids",
     "One test prints the values of one magnetogram.",
     ["geometry.py", "zdi_magnetogram.py"], [("area-weighted sums", "geometry.py:numerical_description")],
     ["dictionary returned"])

prop("C36", "Field maps show the field they are labelled with",
     "In every surface map of a magnetogram (single field, three components, poloidal or toroidal part, ZDI or PFSS), the coloured cells carry the values of the named field at the facet centres on the facet corners in degrees (around the facet centres for PFSS maps), contour lines (among them the one where a signed field changes sign) run where the field takes their values, the extremum markers and their labels give the position and value of the true maximum and minimum, the stated mean is the area-weighted mean magnitude on full-sphere grids, and signed fields use a colour scale symmetric about zero that covers the data (the same one in all panels of a figure with one colour bar). The magnetogram and grid are not changed by plotting.",
     ["inputs", "configurations"], "all magnetograms, grids and map functions",
     "Tests save plots without looking at the artists in them.",
     ["plots.py", "plot_zdi.py", "plot_pfss.py"], [("mesh, markers and colour limits", "plots.py:plot_components,plot_magnetic_field,add_extrema"), ("field selection", "plot_zdi.py:plot_zdi_components,plot_zdi_field; plot_pfss.py:plot_components")],
     ["matplotlib artists created"])

prop("C37", "The magnetogram plotting command plots what was asked for",
     "For every readable input file, plot type and magnetogram type, the plotting command writes the requested image file showing the field (map, radial, polar, azimuthal, strength) or energies (by degree, matrix, summary) of that magnetogram, with titles and labels naming the quantity shown; PFSS input is converted to ZDI first. (Fractions of the energy are only defined where the field is not zero everywhere.) Unknown plot or magnetogram types are refused without writing a file, and the input file is never changed (unless it is itself named as the image to write).",
     ["inputs", "configurations"], "all files, plot types, magnetogram types and output formats",
     "Tests run some combinations and only check that the command succeeds.",
     ["bin/plot_magnetogram.py", "plot_zdi.py"], [("dispatch of plot types", "bin/plot_magnetogram.py:main")],
     ["artists in the saved figure, output file, exit status"])

prop("C38", "Energy plots show the energies of the magnetogram",
     "The energy-by-degree plot shows, for every degree from one, the total, poloidal and toroidal energy and their running sums, as fractions of the total energy if scaled; the energy matrix image shows the energy of each degree and order of the requested type on a scale that covers the non-zero energies; the energy summary shows wedges whose angles are the reported fractions of the full circle. They do so for every magnetogram with non-zero energy, whatever its magnitude and whichever coefficients it has.",
     ["inputs", "configurations"], "all magnetograms (tiny to huge energies, purely poloidal or toroidal, missing degrees), all energy types and options",
     "Tests plot one magnetogram and do not look at the plotted data.",
     ["plot_zdi.py", "zdi_magnetogram.py"], [("plotted series", "plot_zdi.py:plot_energy_by_degree,_plot_energy,plot_energy_summary")],
     ["matplotlib artists created"])

prop("C39", "PFSS slices and stream traces show the field in the stated plane",
     "A slice plot of a PFSS field in the plane normal to x, y or z shows the radial field at the points of that plane, circles at the stellar and source surface radii, and axis labels naming the two coordinates of the plane; stream-trace maps show the named background quantity on the grid, with stream lines along the surface field. The plane through the star consists of exactly the points whose normal coordinate is zero and whose other coordinates are those given.",
     ["inputs", "configurations"], "all coefficient sets, planes, extents, stellar and source surface radii",
     "Tests plot one slice normal to x; the other planes raise an error.",
     ["plot_pfss.py", "plot_zdi.py", "plots.py", "pfss_magnetogram.py"], [("plane points", "pfss_magnetogram.py:normal_plane"), ("slice plot", "plot_pfss.py:plot_slice")],
     ["matplotlib artists created, points returned"])

prop("C40", "LSD plots show the requested profiles",
     "For every table of LSD data and every selection and order of the parameters I, V and N, the profile plot of a table of at least two rows has one panel per parameter in the given order showing that parameter's values and error bars against velocity, labelled with its name; a stack of data sets has one panel per set, in order. The LSD plotting command writes the image for any such file, skipping the stated number of header rows, with one or several parameters.",
     ["inputs", "configurations"], "all tables, parameter selections (one, several, repeated), numbers of data sets, header lengths and limits",
     "All LSD tests are skipped for missing data files.",
     ["plot_lsd.py", "bin/plot_lsd.py"], [("column selection", "plot_lsd.py:plot_lsd_profile,plot_lsd_stack"), ("command", "bin/plot_lsd.py:main")],
     ["matplotlib artists created, output file, exit status"])

prop("C41", "Spectral orders partition the samples",
     "Splitting a list of wavelengths at jumps larger than a threshold gives consecutive index ranges that contain every sample exactly once, in order, with no jump above the threshold inside a range and one at every boundary. Plotting a spectrum draws every sample of every data column exactly once.",
     ["inputs"], "all lists of wavelengths (one or more samples, with any jumps, rising or falling) and all thresholds",
     "The only test using it is skipped for missing data files.",
     ["plot_lsd.py"], [("jump detection", "plot_lsd.py:wl_intervals,plot_spectrum")],
     ["intervals returned, artists created"])

prop("C42", "Colour-bar tick marks sit at the values of their labels",
     "On a symmetric-logarithmic colour bar, horizontal or vertical, every major tick is at the data value its label states (signed powers of ten at the requested step, and zero), the minor ticks are at integer multiples of powers of ten, and all ticks lie within the range of the scale. Converting a label with one exponent in braces from Tesla to Gauss adds four (or the given shift) to the exponent and changes nothing else, and labels without an exponent are unchanged.",
     ["inputs", "configurations"], "all scale limits, linear thresholds and steps; all label strings",
     "No test uses these functions.",
     ["colorbar_manual_tickmarks.py"], [("tick generation and placement", "colorbar_manual_tickmarks.py:auto_symlog_tickmarks,fully_manual_tickmarks,generate_major,generate_minor"), ("label edit", "colorbar_manual_tickmarks.py:tesla_to_gauss")],
     ["tick positions and label texts, strings returned"])

prop("C43", "Fibonacci points are spread evenly over the unit sphere",
     "For any number of points, the Fibonacci sphere gives exactly that many distinct points of unit length, one in each of as many equal-area bands. Without randomisation the result is always the same and nowhere are points closer together than a fixed fraction of the mean spacing; randomisation only changes the azimuths.",
     ["inputs"], "every number of points, with and without randomisation",
     "Tests use the points without checking them.",
     ["fibonacci_sphere.py"], [("golden angle spiral", "fibonacci_sphere.py:fibonacci_sphere")],
     ["points returned"])

prop("C44", "Noise magnetograms have the requested degrees, scaling and randomness",
     "A noise magnetogram has exactly the coefficients of every degree in the requested range and every non-negative order, each built from two fresh draws (real and imaginary part) of the given random source, divided by twice the degree plus one and by the degree to the given power. No other randomness enters.",
     ["inputs", "configurations"], "all degree ranges, exponents and random sources",
     "No test calls the generator.",
     ["coefficients.py"], [("generation loop", "coefficients.py:noise")],
     ["draws requested from the random source, coefficients returned"])

prop("C45", "Computations never change their inputs and always repeat",
     "No evaluation, conversion, rotation, energy, geometry or wind function changes any object passed to it, and calling it again with the same inputs gives identical results (up to floating-point rounding), whatever other calls (with other inputs, also failing ones) happened in between, in the same thread or in concurrent threads. A result depends only on the present content of the inputs: not on which objects hold it, nor on what they held or what was computed before.",
     ["histories", "schedules", "inputs"], "all interleavings of calls to the computing functions on shared inputs, sequential and multi-threaded",
     "Tests call each function on fresh inputs, once, in one thread.",
     ["zdi_magnetogram.py", "pfss_magnetogram.py", "converter.py", "rotate.py", "image_converter.py", "parker_solution.py", "geometry.py", "longitudinal_field.py"], [("pure functions on numpy arrays", "zdi_magnetogram.py; pfss_magnetogram.py; converter.py; rotate.py; image_converter.py")],
     ["byte snapshots of inputs before and after, results of repeated calls"],
     [("spherical harmonic cache", "the only state kept between calls", "image_converter.py:_cached_spherical_harmonic")])

prop("C46", "Common options of the commands only change what is logged",
     "Running any of the three commands with the quiet or verbose option, in any position, writes the same files with the same contents as without and sets the level of the package's own logging (warnings and errors for quiet, everything for verbose, information otherwise; the last one given counts) and of no other logger. Asking for help or the version only prints it, and unknown options or missing or surplus arguments are refused; neither creates nor changes any file.",
     ["inputs", "configurations"], "all commands, working command lines and positions of the common options",
     "Tests check the exit status of a few command lines and never compare what is written.",
     ["bin/generic_arguments.py", "bin/convert_magnetogram.py", "bin/plot_magnetogram.py", "bin/plot_lsd.py"],
     [("common options", "bin/generic_arguments.py:add,handle,defaults")],
     ["files written by the commands, levels of the loggers, what is printed"])

prop("C47", "Legendre, radial and azimuthal functions equal their definitions",
     "For every list of degrees and orders of either sign (degree up to forty) and every angle, the associated Legendre functions (with Condon-Shortley phase), their derivatives with respect to the polar angle and their quotients by the sine have their defined values, and the norms make the functions orthonormal with either way of computing them. The radial function of the potential field satisfies its boundary conditions at both surfaces and its derivative, the Schmidt-normalised polar functions and the azimuthal function and its derivative have their defined values; two waves of opposite direction are collected into one wave with the same sum everywhere.",
     ["inputs"], "all lists of degrees and orders, angles, radii, coefficients and phases",
     "Tests compare two implementations in the package with each other for a few degrees.",
     ["associated_legendre.py", "zdi_magnetogram.py", "pfss_magnetogram.py", "converter.py"],
     [("Legendre functions", "associated_legendre.py:calculate_lpmn,lpmv_over_sin"), ("norms", "zdi_magnetogram.py:get_c_lm"),
      ("potential field functions", "pfss_magnetogram.py:r_l,theta_lm,calculate_all_theta,phi_lm"), ("waves", "converter.py:collect_cosines,collect_sines")],
     ["return values of the functions"])

prop("C48", "Files, conversions, fields, images and statistics agree with each other",
     "Taking any magnetogram from a file through the command to PFSS and back, and evaluating it at every stage, gives the same radial field to the precision of the file format, and the potential field for the other components; the real part of the image made from radial coefficients is the radial field, and analysing that field gives the coefficients of its positive and negative orders to second order in the grid spacing. Turning a star about its axis by whole facets turns its field maps and longitudinal field curve and keeps its statistics, and no rotation changes the energy in any degree of the folded magnetogram.",
     ["inputs", "histories"], "all magnetograms, points, grids and rotations, through chains of operations of different modules",
     "Tests exercise the modules separately on fixed magnetograms.",
     ["reader_writer.py", "bin/convert_magnetogram.py", "converter.py", "zdi_magnetogram.py", "pfss_magnetogram.py", "image_converter.py", "rotate.py", "geometry.py", "longitudinal_field.py"],
     [("conversions", "converter.py:convert_zdi_to_pfss,convert_pfss_to_zdi,map_to_positive_orders"), ("images", "image_converter.py:to_image,from_image"),
      ("rotation", "rotate.py:rotate_magnetogram"), ("statistics", "geometry.py:numerical_description")],
     ["files, fields, images, curves, statistics and energies"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
