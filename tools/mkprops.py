import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
core="petrofit/petrosian/core.py"; utils="petrofit/utils.py"; phot="petrofit/photometry.py"; seg="petrofit/segmentation.py"; mod="petrofit/modeling/models.py"; fit="petrofit/modeling/fitting.py"; cor="petrofit/petrosian/correction.py"

p("C01","Petrosian profile follows its definition for every curve of growth",
 "For equally long positive non-decreasing aperture areas A and fluxes L (at least three points, integer or real), the Petrosian profile has one value per aperture: NaN first, then the surface brightness between an aperture and its predecessor divided by the mean surface brightness inside the aperture, (ΔL/ΔA)/(L/A). Apertures that repeat an earlier area get the value of the first aperture with that area. Unequal lengths, fewer than three points and decreasing areas are rejected, by a Petrosian object for its radii and errors too, and the caller's arrays are never modified.",
 ["inputs"],"all lengths, all real or integer area/flux sequences including plateaus",
 "test_calculate_petrosian compares one smooth simulated curve; plateaus, integer inputs, lengths and sign patterns are infinite families.",
 [core],[("calculate_petrosian",core)],["return value of calculate_petrosian","Petrosian.petrosian_list"])
p("C02","Petrosian profile errors are the quadrature propagation of area and flux errors",
 "When area or flux errors are given (a missing one counts as zero), each Petrosian value P after the first gets the error |P|·sqrt((σI/I)²+(σM/M)²), where I=ΔL/ΔA and M=L/A and their relative errors add in quadrature from the errors of the apertures involved; the first error is NaN and repeated areas share the error of their first aperture. With no errors given there is no error array. This holds wherever the fluxes and flux differences are non-zero, for integer and real inputs alike.",
 ["inputs"],"all lengths, areas, fluxes, errors with non-zero flux and flux differences",
 "tests only compare a stored example with flux errors; area errors, mixed None, plateaus and integer arrays are never exercised.",
 [core],[("calculate_petrosian error block",core)],["second return value of calculate_petrosian"])
p("C03","Petrosian radius is where the profile first falls to eta",
 "With the profile's first sample replaced by value 1 at radius 0 and resampled on the interpolation grid, the Petrosian radius is the grid radius closest to eta among samples up to and including the first sample at or below eta; it is NaN exactly when no sample reaches eta. Given profile errors, its uncertainty is half the difference of the radii found in the same way on profile+error and profile-error (first error 0), and NaN otherwise. The caller's arrays are never modified.",
 ["inputs"],"all radius lists, profiles, errors, eta, interpolation kinds (None included) and sample counts",
 "tests compare a few Sersic profiles to stored numbers; non-monotonic, oscillating or never-crossing profiles, and other kinds, are not sampled.",
 [core,utils],[("calculate_petrosian_r",core),("closest_value_index",utils),("get_interpolated_values",utils)],["Petrosian.r_petrosian","Petrosian.r_petrosian_err"])
p("C04","Flux-fraction radii enclose the requested fraction of the Petrosian flux",
 "The radius of a flux fraction f (one half when none is given) is the sample of the (interpolated) curve of growth closest to f·L(epsilon·r_petrosian)/epsilon_fraction among samples up to the first that reaches it; it is NaN when that never happens or when epsilon·r_petrosian is undefined or outside the measured radii. Never does an out-of-range radius or its uncertainty raise an error instead of giving NaN. Given flux errors, the uncertainty is half the spread of the radii on the curves shifted by the errors (same interpolation settings), and is NaN without flux errors.",
 ["inputs"],"all curves of growth, fractions, Petrosian radii, epsilons, interpolation kinds and error arrays",
 "tests check a handful of simulated galaxies whose epsilon radius is in range; range edges, flat curves and error branches with extreme radii are not sampled.",
 [core,utils],[("fraction_to_r",core)],["Petrosian.r_half_light","Petrosian.r_total_flux","Petrosian.fraction_flux_to_r"])
p("C05","Concentration index is 5·log10 of the ratio of two flux-fraction radii",
 "The concentration index of fractions (f1, f2) returns the two flux-fraction radii, each computed with the same data and settings, and 5·log10(r(f2)/r(f1)). If either radius is undefined all three results are NaN. The named indices use the fractions 0.2/0.8 and 0.5/0.9.",
 ["inputs","configurations"],"all curves, fractions and settings",
 "tests check C2080 on a few profiles; asymmetric argument passing or one-sided NaN never shows there.",
 [core],[("calculate_concentration_index",core),("Petrosian.concentration_index, c2080, c5090",core)],["return values"])
p("C06","Petrosian objects depend only on their data and current settings",
 "After any sequence of setting changes, reads and copies, every derived quantity of a Petrosian object equals that of a freshly built object with the same data and the current eta, epsilon, epsilon fraction, total flux fraction and interpolation settings. The object owns copies of its input arrays: later changes to the caller's arrays have no effect and no method changes the data. Changing a copy's settings does not affect the original.",
 ["histories","configurations"],"all data, all sequences of setter calls, reads and copies",
 "tests build objects once and read them; histories of changes are unbounded.",
 [core],[("Petrosian constructor, setters, derived properties",core)],["all public properties"],[("_eta/_epsilon/_epsilon_fraction/_total_flux_fraction","current settings",core)])
p("C07","Total and half flux are the curve of growth at the total and half-light radius",
 "The total flux and the half flux are the interpolated curve of growth at the total-flux radius and half-light radius, NaN when that radius is undefined, for every supported interpolation kind including none. Their uncertainties are NaN without flux errors and otherwise at least the flux error of the aperture nearest that radius; reading them never fails. The epsilon radius is epsilon times the Petrosian radius and is reported in range exactly when it lies within the measured radii.",
 ["inputs","configurations"],"all data and settings of a Petrosian object",
 "half flux errors and kind=None are never read by the tests; in-range logic at the edges is not sampled.",
 [core],[("Petrosian.total_flux/total_flux_err/half_flux/half_flux_err/r_epsilon/r_epsilon_in_range",core)],["properties"])
p("C08","Radial photometry measures each ellipse independently and in order",
 "For every radius, in the order given, radial photometry returns the sum of the unmasked pixels in the ellipse with that semi-major axis, the given elongation, angle and centre, the area of that ellipse over the unmasked pixels of the image, and the propagated error, each to six decimals; errors are NaN when no error map is given. Only pixels whose mask is true contribute. A NaN flux raises, and image, error, mask and radii are never modified.",
 ["inputs"],"all images, masks, error maps, positions, radii lists, elongations, angles and methods",
 "tests measure a uniform image for a few radii without mask or error.",
 [phot],[("radial_photometry",phot),("radial_elliptical_aperture / radial_elliptical_annulus",phot)],["return values"])
p("C09","Source photometry measures only the source, in a faithful cutout",
 "Photometry of a catalogued source equals radial photometry around its peak pixel with its elongation and orientation on an even-sized cutout of the image (three times the largest radius unless given) in which the pixels of every other source, and the background if asked, are masked. With background subtraction, the plane fitted to the cutout's source-free pixels — sigma-clipped, or within mean±sigma for 'bound' — is subtracted first. The image, error map and segmentation passed in are unchanged.",
 ["inputs","configurations"],"all images, segmentations, sources (also near edges), radii, cutout sizes and options",
 "the one test measures one clean simulated source without neighbours, errors or subtraction variants.",
 [seg],[("source_photometry",seg)],["return values"])
p("C10","Source masks select exactly the requested labels",
 "The mask of a source, a label or a list of them is true exactly on pixels carrying one of the requested labels, and on background pixels unless background masking is requested; other argument types are rejected. A masked image equals the image where the mask is true and the fill value (NaN by default) elsewhere. The arguments, including the list of sources, are never modified.",
 ["inputs","histories"],"all segmentation maps, label lists, images, fill values; repeated calls with the same list",
 "tests mask one source of a two-source image.",
 [seg],[("segm_mask",seg),("masked_segm_image",seg)],["return values","arguments after the call"])
p("C11","Catalogue helpers report the right source, order and segmentation",
 "A catalogue is built from the deblended segmentation exactly when deblending is requested and from the plain one otherwise, with the threshold, pixel count, levels and contrast passed through unchanged. Ordering returns the permutation of catalogue rows sorted by the key, largest first by default. Position, elongation, ellipticity and orientation (in radians) are the same whether read from a catalogue entry or the corresponding table row.",
 ["inputs","configurations"],"all images, thresholds, options, keys and table contents",
 "tests run one configuration on one image.",
 [seg],[("make_catalog / make_segments / deblend_segments",seg),("order_cat",seg),("get_source_*",seg)],["return values"])
p("C12","The sampling grid splits every pixel into equal sub-pixels",
 "A sampling grid of a given size, origin and integer factor has size·factor samples per side; sample k along an axis lies at origin + (k + 1/2)/factor − 1/2, so every pixel is split into factor×factor equally spaced sub-pixels centred on the pixel. The x and y coordinate arrays vary along columns and rows respectively. Non-integer factors are rejected.",
 ["inputs"],"all sizes, origins, factors",
 "test_make_grid samples a few sizes and factors.",
 [mod],[("make_grid",mod)],["return value"])
p("C13","PSF-convolved images average sub-pixels, convolve with the PSF, then bin",
 "Evaluated on a pixel grid, the wrapped model gives each pixel the mean of the sub-model over its oversample×oversample sub-pixels, after convolution with the PSF (rotated by its position angle) at PSF resolution when a PSF is set and binning by the mean to data resolution. This holds for any integer oversample factor, PSF oversample factor dividing it, rectangular pixel ranges and image origins. With oversampling 1 and no PSF it equals the sub-model at the pixel centres.",
 ["inputs","configurations"],"all sub-models, PSFs, factors, pixel grids, origins and parameter values",
 "tests compare one Sersic with a few factors on square images at the origin.",
 [mod],[("PSFConvolvedModel2D.evaluate",mod)],["model(x, y)"])
p("C14","Oversampling windows refine exactly the pixels they cover",
 "With a window (x, y, size, factor), pixels inside the size×size window around the rounded centre take the mean over factor×factor sub-pixels and all other pixels the value they have without the window, whatever the image origin and shape. A window that extends past the image affects only the pixels inside the image. A centre given by parameter names follows the current values of those parameters.",
 ["inputs","configurations"],"all windows, centres (numeric or parameter names), image origins and shapes, PSF factors",
 "tests use one window in the middle of one square image with origin 0.",
 [mod],[("PSFConvolvedModel2D.evaluate window branch",mod)],["model(x, y)"])
p("C15","Sampling configuration stays valid under any sequence of changes",
 "Whatever sequence of oversample and PSF-factor assignments is made, the stored oversample is None, a positive integer, or a (x, y, size, factor) tuple with integer size and positive integer factor; the PSF factor is None or a positive integer with a PSF set; and the sampling factor is a multiple of the PSF factor. An invalid assignment raises and leaves the previous configuration in place.",
 ["histories","configurations"],"all sequences of assignments of oversample and PSF factor values of any type",
 "tests try a few invalid values on fresh objects, not sequences.",
 [mod],[("oversample / psf_oversample setters",mod)],["properties after each assignment"],[("_oversample","sampling rule",mod),("_psf_oversample","PSF factor",mod)])
p("C16","Evaluating a model image never depends on earlier evaluations",
 "A PSF-convolved model returns the same image for the same coordinates, parameters and configuration whether or not grid caching is on and whatever it evaluated before, including other sizes, shapes, origins and factors. Clearing or disabling the cache changes no result. The coordinates, PSF and cached grids are not modified by evaluation.",
 ["histories","inputs"],"all histories of evaluations, cache switches and configuration changes",
 "tests evaluate once or twice with equal grids.",
 [mod],[("PSFConvolvedModel2D.evaluate grid cache",mod),("clear_cached_grid / cache_grid",mod)],["model(x, y)"],[("_cached_grid*","cached sampling grid and its key",mod)])
p("C17","Wrapped and wrapping model stay in step on parameters, fixed flags and bounds",
 "A wrapped model exposes every parameter of its sub-model, in order and with its value, followed by the PSF angle (default 0), and starts with the sub-model's fixed flags and bounds unless others are given. The sub-model read back carries the wrapper's current values, fixed flags and bounds for all its parameters and nothing for the PSF angle. Reading it, or changing what was read, changes neither the wrapper nor the original sub-model, and wrapping a wrapped model or a model that is not two-dimensional is rejected.",
 ["inputs","histories"],"all sub-models (simple and compound), parameter values, fixed flags and bounds",
 "tests check a Sersic and one compound model after construction.",
 [mod],[("PSFConvolvedModel2D.__init__ / _load_parameters / model",mod)],["param_names, parameters, fixed, bounds, model"])
p("C18","Analytic Sersic relations are mutually consistent",
 "For all positive amplitude, effective radius, index and ellipticity below 1: the enclosed flux is zero at radius 0, half the total at the effective radius and equals the area integral of the profile; the radius enclosing a flux inverts the flux enclosed in a radius; and the Petrosian profile equals the local intensity over the mean enclosed intensity. Conversion between central and effective intensity is mutually inverse and agrees with the Sersic profile at radius 0.",
 ["inputs"],"all positive parameters and radii",
 "no test checks the identities, only rendered examples at a few parameter values.",
 [mod],[("sersic_enclosed, sersic_enclosed_inv, petrosian_profile, Ie_to_I0, I0_to_Ie",mod)],["return values"])
p("C19","Two-dimensional profiles follow their published definitions",
 "The generalised Sersic profile equals amplitude·exp(−b_n((z/r_eff)^(1/n)−1)) with z the generalised elliptical radius of exponent c_0+2, reducing to the Sersic profile at c_0=0; the core-Sersic (Graham 2003) and Nuker profiles equal their published formulas in the (elliptical or circular) distance from the centre, the Nuker profile having its amplitude at the break radius. All are symmetric under reflection through the centre, and rotation angle and ellipticity act on the elliptical distance as documented.",
 ["inputs"],"all parameters and coordinates",
 "no test evaluates these profiles against their formulas.",
 [mod],[("GenSersic2D.evaluate, Nuker2D, CoreSersic2D",mod)],["model(x, y)"])
p("C20","Fits use exactly the valid pixels at their own coordinates",
 "Fitting an image passes to the fitter every pixel that is neither NaN nor masked, with its x (column) and y (row) index, its value and its own weight, and nothing else; weights of another shape are rejected, and the fitter that was used is returned with the fitted model. Background fitting passes the image with outliers beyond sigma (clipped at the given sigma, none if sigma is None) excluded. Image, weights and input model are unchanged, and the iteration and tolerance settings reach the fitters that accept them.",
 ["inputs","configurations"],"all images with NaNs or masks, weights, fitters and settings",
 "tests fit clean images and compare parameters.",
 [fit],[("fit_model, fit_background",fit)],["arguments received by the fitter"])
p("C21","Rendered images sample the model at the requested pixel coordinates",
 "Rendering a model with size (nx, ny) gives an image of ny rows and nx columns whose pixel (j, i) is the model at (x0+i, y0+j), where the origin is (0, 0) without a centre and otherwise centre minus floor(size/2). Mode and factor are passed on unchanged. Sizes that are not whole numbers or pairs of whole numbers and malformed centres are rejected.",
 ["inputs"],"all models, integer sizes, centres, modes and factors",
 "tests render square images at the default origin.",
 [fit],[("model_to_image, model_center_to_image_origin, _validate_image_size",fit)],["return value"])
p("C22","Correction lookup returns the nearest grid row and enforces the range",
 "For any grid and any measured Petrosian radius, half-light radius and concentration, the correction row is the row with the smallest distance in those three quantities, each divided by its standard deviation over the grid. With range enforcement on, a measurement that is undefined or outside the grid's range in any of the three is rejected; with it off, the nearest row is returned. Grids that are not tables are rejected and the grid is never modified.",
 ["inputs","configurations"],"all grids and measurements",
 "tests use one grid with matching profiles.",
 [cor],[("PetrosianCorrection.__init__, _dr, _validate_input, _closest_row",cor)],["estimate_n, estimate_epsilon"])
p("C23","Corrected epsilon is the ratio of grid radii for the object's settings",
 "The corrected epsilon of a Petrosian object is, in its nearest grid row, the corrected radius for its epsilon fraction (0.5, 0.8 or 0.99) divided by the Petrosian radius for its eta (0.2, 0.3, 0.4 or 0.5); other values are rejected. The row is looked up with the object's Petrosian radius at eta 0.2, half-light radius and C2080. Correcting returns a copy that differs from the original only in epsilon, and leaves the original unchanged.",
 ["inputs","configurations"],"all grids, profiles, etas and epsilon fractions",
 "tests use the default settings only.",
 [cor],[("PetrosianCorrection.estimate_epsilon, correct, estimate_n, _get_xyz_from_p",cor)],["return values"])
p("C24","A correction grid has one row per parameter pair with consistent columns",
 "Grid generation produces exactly one row for every combination of Sersic index and effective radius, indices outermost, each computed with the requested PSF and sampling (indices 0.5 to 4.5 in steps of 0.5 and radii 10 to 100 in steps of 5 when not given). In every row the analytic radii and total flux are those of the Sersic model, each ratio and concentration column agrees with the columns it is formed from, and the corrected epsilon times the Petrosian radius is the radius where the measured curve of growth reaches 99% of the analytic flux (a pair whose curve never does raises an error). A named file receives exactly the returned table, in the named format, replacing an existing file only when asked; a failure to write does not lose the table.",
 ["inputs","configurations"],"all parameter lists, PSFs and sampling settings",
 "the grid test renders a couple of galaxies and checks that the file is written.",
 [cor],[("generate_petrosian_sersic_correction, _generate_petrosian_correction",cor)],["returned table"])
p("C25","Geometry and unit conversions are exact inverses",
 "Ellipticity and elongation conversions are mutually inverse with elongation = a/b; the radii from an elliptical area give back that area and elongation and reduce to the circular case. Pixel and angular sizes convert by the image's pixel scale, each way, and are mutually inverse; unequal pixel scales are rejected.",
 ["inputs"],"all ellipticities in [0, 1), elongations ≥ 1, areas ≥ 0, pixel scales and sizes",
 "tests check one or two values.",
 [utils],[("ellip_to_elong, elong_to_ellip, elliptical_area_to_r, circle_area_to_r, angular_to_pixel, pixel_to_angular",utils)],["return values"])
p("C26","Radius lists, resampling and threshold search follow their definitions",
 "A radius list has n increasing values ending at the maximum radius, equally spaced from max/n or logarithmically spaced from 1. Resampling returns evenly spaced abscissae over the full input range (at least as many as the input) with interpolated values that pass through the data, or the data itself with no interpolation. Threshold search returns the first index closest to the value among samples up to the first one at or beyond it, and none when no sample qualifies.",
 ["inputs"],"all sizes, arrays and values",
 "tests use fixed short lists.",
 [utils],[("make_radius_list, get_interpolated_values, closest_value_index",utils)],["return values"])
p("C27","Cutout subtraction removes the target exactly where it overlaps the image",
 "Subtracting a cutout centred on pixel (x, y) returns a new image in which every pixel covered by the cutout is reduced by the corresponding cutout pixel and all other pixels are unchanged. Parts of the cutout outside the image are ignored, for odd and even cutout sizes. The input image and cutout are not modified.",
 ["inputs"],"all image and cutout shapes and positions, including overhanging ones",
 "no test calls it.",
 [utils],[("cutout_subtract",utils)],["return value","arguments after the call"])
p("C28","AB magnitudes follow the HST zero point for any flux type",
 "The AB magnitude of a positive flux is −2.5·log10(flux) plus the zero point −2.5·log10(PHOTFLAM)+PHOTZPT−5·log10(PHOTPLAM)+18.692 from the header, for scalars and arrays of any numeric type. Non-positive fluxes give NaN. The caller's array is not modified.",
 ["inputs"],"all fluxes (scalars, arrays, integer or real, any sign) and headers",
 "the test converts one list of positive fluxes.",
 [utils],[("hst_flux_to_abmag",utils)],["return value"])
p("C29","Fit plots and widths report the fitted model faithfully",
 "The model and residual images returned with a fit plot are the model rendered at the image's size and centre and the image minus it, for rectangular images and image containers. The plot's three panels, titled Data, Model and Residual, show the image and these two with the given colour limits, a missing limit being the same in all three. The measured widths are the fitted Gaussian's standard deviations in x and y times 2·sqrt(2·ln 2), with or without plotting and printing. The fitted centre and the widths are what is printed, and the plot marks the centre plus and minus half the widths and half the fitted maximum. The image is not modified.",
 ["inputs","configurations"],"all images, models, sizes, centres and plot options",
 "no test checks the residual or calls the width measurement.",
 [fit],[("plot_fit, measure_fwhm, fit_gaussian2d",fit)],["return values"])
p("C30","Natural sort orders embedded numbers by value",
 "Sorting returns a permutation of its input in which strings compare case-insensitively with runs of digits compared as integers, and equal items keep their order. Plain numbers are accepted and sorted by value. The input list is unchanged.",
 ["inputs"],"all lists of strings or numbers",
 "the test sorts one list.",
 [utils],[("natural_sort",utils)],["return value"])
p("C31","Fitting recovers the parameters that generated an image",
 "Fitting a model to an image rendered from the same model family returns the generating parameters within the noise.",
 ["inputs"],"all models, parameters, noise levels and starting points",
 "tests fit single examples; convergence of a non-linear optimiser is a property of the library's numerics and the starting point.",
 [fit],[("fit_model",fit)],["fitted parameters"])
p("C32","Detection and deblending find every source above the threshold",
 "Every group of at least the requested number of connected pixels above the threshold becomes exactly one labelled source, and overlapping sources are separated by deblending.",
 ["inputs"],"all images and thresholds",
 "tests segment one image; the algorithm lives in the photutils library.",
 [seg],[("make_segments, deblend_segments",seg)],["segmentation map"])
p("C33","Measured Petrosian radii of rendered Sersic galaxies match the analytic ones",
 "For a well sampled rendered Sersic galaxy the measured Petrosian, half-light and total-flux radii agree with the analytic profile to within the pixel sampling error.",
 ["inputs"],"all Sersic parameters, radii lists and samplings",
 "tests check a few profiles with tolerances; the error depends on cubic-spline and aperture quadrature error in floating point.",
 [core,phot,mod],[("whole measurement chain",core)],["Petrosian properties"])
p("C34","Polynomial approximations stay close to the exact Sersic relations",
 "For Sersic profiles of index 0.5 to 10 the approximate conversions agree with the exact relations: the corrected C2080 from the uncorrected one within 2%, the Sersic index from the corrected C2080 within 3%, and the corrected epsilon within 1% from the index and within 2.5% from the Petrosian concentration P0502. Arrays convert element by element and are not modified.",
 ["inputs"],"all indices from 0.5 to 10, numbers and arrays",
 "no test evaluates an approximation.",
 [mod],[("PetroApprox",mod)],["return values"])
p("C35","Parallel grid generation gives the same table as serial generation",
 "Generating a correction grid on several processes gives the same columns and the same rows in the same order as on one process, whatever the number of processes, the lists of indices and radii, the PSF and the sampling. What a process computed before does not change a row. The lists and the PSF are not modified.",
 ["schedules","configurations"],"all process counts, schedules, lists, PSFs and samplings",
 "tests use one process.",
 [cor],[("generate_petrosian_sersic_correction multiprocess branch",cor)],["returned table"])
p("C36","Petrosian plots draw the object's own measurements and change nothing",
 "The Petrosian plot shows the object's profile against its radii with the object's errors when it has them, and marks its eta and, when defined, its Petrosian radius. The curve-of-growth plot shows fluxes against radii with their errors and marks the half-light and total radius and flux, each pair only when both are defined. Both label the radius axis, with the radius unit when there is one. The overlay outlines an ellipse at the given centre, elongation and orientation for each of the half-light, total, 20% and 80% radii that is defined and positive. Plots draw on the given axes only, or on the current ones when none are given, return the axes they drew on, never fail because a value is undefined, and leave the object's settings, values and data unchanged.",
 ["inputs","configurations"],"all objects, with radii and errors defined or not, all settings and plot options",
 "tests call the plots once without looking at what is drawn.",
 [core],[("Petrosian.plot, plot_cog, imshow",core)],["axes after the call","the object after the call"])
p("C37","Correction grid queries return exactly the matching rows and values",
 "Filtering a correction grid by a column and value returns exactly the rows with that value, in the grid's order, with every column. The unique values of a column are all its values, once each, in increasing order. The grid keys are the grid's columns. A grid that is written and read again in the same format has the same columns and rows. No query changes the grid.",
 ["inputs"],"all grids, columns and values",
 "tests read one file and use none of the queries.",
 [cor],[("PetrosianCorrection.filter_grid, unique_grid_values, grid_keys, read, write",cor)],["return values","grid after the call"])
p("C38","Angular Petrosian radii are the pixel radii times the pixel scale",
 "The half-light and total-flux radius in arcseconds are plain numbers equal to the radius in pixels times the image's pixel scale in arcseconds, whatever unit the coordinate system is written in, and are undefined exactly when the radius is undefined. Coordinate systems whose pixel scales differ between the axes are rejected.",
 ["inputs"],"all profiles, settings and coordinate systems",
 "tests check one coordinate system.",
 [core],[("Petrosian.r_half_light_arcsec, r_total_flux_arcsec",core)],["return values"])
p("C39","Elliptical apertures and annuli have the requested axes",
 "The elliptical aperture of a radius is centred on the given position with semi-major axis equal to the radius, semi-minor axis equal to the radius divided by the elongation, and the given orientation. The annulus of a radius and thickness has inner and outer ellipses of semi-major axes radius and radius plus thickness, both with that elongation, centre and orientation. Radii and thicknesses that are not positive are rejected.",
 ["inputs"],"all positions, radii, thicknesses, elongations and orientations",
 "tests use circular apertures through the photometry function.",
 [phot],[("radial_elliptical_aperture, radial_elliptical_annulus",phot)],["return values"])
p("C40","Default Sersic bounds are independent of earlier calls and overrides win",
 "Each call for the default bounds of a Sersic model returns its own dictionary with the documented bounds (with the c_0 bound for the generalised model), in which the caller's overrides replace or extend the defaults. Changing a returned dictionary, or an override after the call, affects no other result, and the override passed in is not modified.",
 ["inputs","histories"],"all overrides and all sequences of calls and changes to earlier results",
 "tests read the defaults once.",
 [mod],[("get_default_sersic_bounds, get_default_gen_sersic_bounds",mod)],["return values of repeated calls"])
p("C41","Image displays show the data they are given and change nothing",
 "The segment residual shows the image with every labelled pixel at zero; the segment display shows the labels, over the image when one is given; the target display shows the image in the window of the given size centred on the target (the image's larger side without a size) and marks the target; the aperture display shows the image when there is one and outlines every aperture. Colour limits are applied as given, everything is drawn on the current axes, and images, label maps and apertures are not modified.",
 ["inputs"],"all images, label maps, targets, windows, limits and apertures",
 "tests do not look at what is displayed.",
 [seg],[("plot_segment_residual, plot_segments",seg),("plot_target",utils),("plot_apertures",phot)],["current axes after the call","arguments after the call"])
p("C42","The amplitude at a radius is that of the isophote with the given geometry",
 "The amplitude at a radius is the intensity of the isophote fitted to the image at that semi-major axis starting from the given centre, ellipticity and orientation, the same for arrays, images with units and cutouts. When no isophote can be fitted it is NaN and nothing is raised. The image is not modified.",
 ["inputs"],"all images, image containers, radii and geometries",
 "tests use one galaxy and one radius.",
 [seg],[("get_amplitude_at_r",seg)],["return value"])
p("C43","Catalogue matching returns the nearest neighbour of every source",
 "Matching two catalogues returns, for every source of the first, the index of the source of the second nearest on the sky and their separation, with coordinates read in the given unit (degrees by default), across the whole sky. The coordinates passed in are not modified.",
 ["inputs"],"all coordinates, catalogue lengths and units",
 "the test matches one pair of lists.",
 [utils],[("match_catalogs",utils)],["return values"])
p("C44","The correction plot shows the grid, the measurement and its nearest row",
 "For an object whose Petrosian radius at eta 0.2, half-light radius and C2080 are defined, the correction plot shows every grid row in the three planes of those quantities, coloured by the chosen column, marks the object's measurement in each plane and connects it to the nearest grid row, the one the correction uses. It draws on the three axes given (any other number is rejected) or on three new ones, and returns their figure and the axes. The object and the grid are unchanged.",
 ["inputs","configurations"],"all grids, objects and plot options",
 "no test calls it.",
 [cor],[("PetrosianCorrection.plot_correction, _plot_grid",cor)],["figure and axes returned"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
