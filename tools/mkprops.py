"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
CORE = "petrofit/petrosian/core.py"; CORR = "petrofit/petrosian/correction.py"
MOD = "petrofit/modeling/models.py"; FIT = "petrofit/modeling/fitting.py"
PHOT = "petrofit/photometry.py"; SEG = "petrofit/segmentation.py"; UT = "petrofit/utils.py"

prop("C01", "The Petrosian profile is edge over mean brightness, with propagated errors",
 "For any curve of growth with non-decreasing areas, the Petrosian value of an aperture is the mean surface brightness of the annulus between the next smaller aperture and it, divided by the mean surface brightness inside it; the smallest aperture has no value (nan), repeated areas share the value of the first aperture of that area, and the result does not depend on the number type or container of the inputs. "
 "When area and/or flux errors are given the error of each value is the standard first-order propagation of the two apertures' errors (a missing one counts as zero, zero errors give zero, equal fluxes stay finite); when none are given no errors are returned. "
 "Curves shorter than three points, of unequal lengths or with decreasing areas are rejected.",
 ["inputs"], "every area/flux list (int, float32, lists, repeated areas, flat or falling flux, tiny and huge units), every combination of area and flux errors",
 "The tests compare one analytic Sersic curve with equally spaced float areas; the guarantee ranges over all curves, and only a reference recomputation on each observed call can judge them.",
 [CORE], [("calculate_petrosian", CORE), ("Petrosian.petrosian_list / petrosian_err", CORE)],
 ["every call of calculate_petrosian, also those made inside Petrosian and the correction-grid generator"])

prop("C02", "The Petrosian radius is the first radius where the profile falls to eta",
 "The Petrosian radius is where the interpolated Petrosian profile, anchored at the value 1 at radius 0, first falls to eta (to within one interpolation step, or the closest sample up to that first crossing), for every eta, interpolation kind and sample number, with later re-crossings ignored; with no interpolation it is one of the given radii, and it is nan exactly when the sampled profile never reaches eta. "
 "Its error is half the distance between the crossings of the profile raised and lowered by its 1-sigma errors, nan if the profile has no errors or either crossing does not exist. "
 "Neither the caller's radii nor the profile are modified by the anchoring.",
 ["inputs"], "every profile (monotone, noisy, re-crossing, never crossing), eta in (0,1), interpolation kind and sampling number, with and without errors",
 "The tests read the radius for one noiseless profile and eta=0.2; first-crossing selection and nan behaviour only show on non-monotone or short profiles.",
 [CORE, UT], [("calculate_petrosian_r", CORE), ("get_interpolated_values / closest_value_index", UT), ("Petrosian.r_petrosian(_err)", CORE)])

prop("C03", "Fraction radii, total flux and concentration follow the curve of growth",
 "With F the interpolated curve of growth and R the Petrosian radius times epsilon, the radius of a fraction f is where F first reaches F(R)*f/epsilon_fraction (to within one interpolation step); half-light, total-flux, r_50, r_20/r_80 style radii, the fluxes at the half-light and total-flux radii and the concentrations 5*log10(r2/r1) all follow from it, using the object's own eta, epsilon, epsilon_fraction, total_flux_fraction and interpolation settings. "
 "Whenever R is nan or outside the sampled radii, or the flux is never reached, every one of these is nan (concentrations nan as a whole); none of them raises for a valid curve of growth. "
 "Radius errors are half the spread between the radii found on the curves lowered and raised by 1 sigma, flux errors combine the flux error at that radius with the flux change over the radius error, and both are nan when no flux errors exist.",
 ["inputs", "configurations"], "every curve of growth, including truncated, noisy, falling ones, times every eta/epsilon/epsilon_fraction/total_flux_fraction/interpolation setting",
 "The tests use one well-sampled Sersic curve with defaults and compare loosely with theory; nan edges, non-default fractions and error paths are never executed.",
 [CORE], [("fraction_to_r", CORE), ("calculate_concentration_index", CORE), ("Petrosian radii/flux/concentration accessors", CORE)])

prop("C04", "A Petrosian object always answers for its current settings and its own data",
 "After any sequence of setting eta, epsilon, epsilon_fraction, total_flux_fraction, interp_kind or interp_num interleaved with reads, plots, copies (copy, deepcopy, pickle) and corrections, every quantity equals that of a freshly built object with the same data and settings. "
 "A copy and its original never influence each other through setting attributes, and changing the arrays passed to the constructor afterwards does not change the object. "
 "Aliases (r_50 and r_half_light, c2080/c5090 and concentration_index, fraction_flux_to_r, arcsec versions) always agree, and reading is repeatable.",
 ["histories"], "all interleavings of attribute sets, reads, copies, plots and caller-side mutation on one or several objects",
 "Tests set each attribute at most once on a fresh object; stale caches or shared state need a read-set-read history.",
 [CORE, CORR], [("Petrosian property setters and on-demand properties", CORE), ("PetrosianCorrection.correct (copies the object)", CORR)])

prop("C05", "Measurements are equivariant under flux and radius scaling and pixel symmetry",
 "Multiplying an image (and its error map) by a positive constant multiplies every photometric flux, flux error, total and half flux (and their errors) by it and leaves areas, Petrosian profiles, all radii and concentrations unchanged, for constants from 1e-20 to 1e20. "
 "Scaling all radii by s (areas by s^2) scales every radius and radius error by s and leaves fluxes and concentrations unchanged. "
 "Shifting the image by whole pixels, transposing or mirroring it (with position and angle transformed alike) leaves photometry unchanged.",
 ["inputs"], "all images, error maps, masks, elliptical apertures, constants and symmetry operations",
 "Tests run in one unit at one position; equivariance relates pairs of executions.",
 [PHOT, CORE], [("radial_photometry", PHOT), ("Petrosian", CORE), ("source_photometry", SEG)])

prop("C06", "Measured Petrosian quantities of Sersic galaxies agree with theory",
 "For noiseless well-sampled Sersic galaxies, round or elliptical at any orientation, with profiles made from the analytic curve of growth or measured on a simulated image, the Petrosian radius agrees with the analytic Petrosian profile's root for the chosen eta, and with epsilon set so that epsilon times the Petrosian radius is the true 99% radius, the half-light radius, total-flux radius, total flux and concentration agree with the model's r_eff, r_99, 99% of the luminosity and analytic concentration, within sampling accuracy. "
 "Radii are semi-major radii, so with matching elliptical apertures they do not depend on ellipticity or orientation.",
 ["inputs", "configurations"], "Sersic n 0.5-5, r_eff, amplitude, ellipticity, orientation, centre and eta",
 "The tests check a single n=1 galaxy with loose tolerance; agreement over the family requires closed-form ground truth on many galaxies.",
 [CORE, PHOT, FIT, MOD], [("Petrosian + radial_photometry + model_to_image", CORE), ("sersic_enclosed_inv, petrosian_profile", MOD)])

prop("C07", "The analytic Sersic and Petrosian functions are one consistent theory",
 "sersic_enclosed is the integral of the 2D Sersic surface brightness inside the ellipse of semi-major radius r, sersic_enclosed_inv is its inverse, half of the total at infinity is inside r_eff, and the enclosed flux grows from 0 monotonically. "
 "petrosian_profile is the local brightness over the mean brightness of the same profile: tending to 1 at the centre, falling monotonically, dependent only on r/r_eff and n. "
 "Ie_to_I0 and I0_to_Ie are mutual inverses and give the brightness at r=0, and the model-class versions equal the functions, for scalars and arrays.",
 ["inputs"], "all amplitudes, r_eff, n, ellipticities, radii 0..infinity and flux fractions, as scalars or arrays",
 "Tests evaluate few parameter points; identities between functions hold for all parameters.",
 [MOD], [("sersic_enclosed, sersic_enclosed_inv, petrosian_profile, Ie_to_I0, I0_to_Ie, *_model", MOD)])

prop("C08", "Aperture photometry sums exactly the unmasked light inside each aperture",
 "For each radius, in the given order, radial_photometry returns the sum of pixel values weighted by their overlap with the ellipse of semi-major radius r, elongation and angle at the given position, the equally weighted number of unmasked in-image pixels as area, and the quadrature sum of the error map (nan without one); the overlap is exact by default and whole-pixel when method is 'center'. "
 "True in the mask means used: masked or out-of-image pixels add to neither flux, area nor error whatever they contain, and a nan in used pixels is never silently summed. "
 "Flux is additive in the image, and disjoint masks add up.",
 ["inputs"], "all images, integer or float, any position including off-centre and near edges, radii order, ellipses, masks, error maps and methods",
 "Tests check circular apertures on one symmetric image and loose totals; overlap weights, mask polarity and orientation need an independent geometric oracle.",
 [PHOT], [("radial_photometry", PHOT), ("radial_elliptical_aperture", PHOT)])

prop("C09", "Aperture geometry and size conversions are exact and mutually inverse",
 "Apertures and annuli have semi-major axis r (r+dr outside), semi-minor axis r/elong (same elongation outside), the given centre and angle. "
 "Ellipticity and elongation convert by e=1-b/a and 1/(1-e) and invert each other; circle and ellipse area-to-radius conversions invert pi*r^2 and pi*a*b with a/b the elongation; angular and pixel sizes convert by the WCS pixel scale, invert each other and honour the unit given.",
 ["inputs"], "all sizes, elongations, angles, pixel scales, units, scalars and arrays",
 "Tests check single values; round trips over all inputs are not settled by them.",
 [PHOT, UT], [("radial_elliptical_aperture / _annulus", PHOT), ("ellip_to_elong, elong_to_ellip, elliptical_area_to_r, circle_area_to_r, angular_to_pixel, pixel_to_angular", UT)])

prop("C10", "Segmentation masks select exactly the requested sources",
 "segm_mask is True exactly on the pixels of the requested source(s), plus the background unless mask_background is set, whether a source is given as integer, numpy integer, catalog source or list of these, and whatever the labels' values. "
 "masked_segm_image returns a copy with exactly the complementary pixels replaced by the fill value (nan by default) and every other pixel unchanged, for arrays and CCDData. "
 "Image, segmentation and the caller's list are never modified, so repeated and interleaved calls give the same answers.",
 ["inputs", "histories"], "all label maps, label sets, source descriptions, fill values and call sequences re-using the same list",
 "Tests mask one source of one catalog once; label gaps, lists, mixed inputs and re-used arguments are not covered.",
 [SEG], [("segm_mask", SEG), ("masked_segm_image", SEG)])

prop("C11", "Detection, deblending and catalogs describe the same pixels",
 "make_segments labels exactly the connected groups of at least npixels pixels above the threshold (scalar or per-pixel) and returns nothing when there are none; deblend_segments only splits those groups: the set of labelled pixels stays the same and no new label spans two groups. "
 "make_catalog has one entry per label of the map it used, with area, flux, maximum position and bounding box of exactly those pixels, carries the sky position of each centroid when a wcs is given, does the same with plot on or off, for arrays and CCDData; order_cat is a permutation sorted by the chosen key. "
 "get_source_position/elong/ellip/theta return the maximum pixel (x, y), elongation, ellipticity and orientation in radians identically from a source and from its table row.",
 ["inputs", "configurations"], "all source fields, thresholds, npixels, deblend settings and input types",
 "Tests look at label counts for one image; pixel-exactness over random fields is not asserted.",
 [SEG], [("make_segments, deblend_segments, make_catalog", SEG), ("order_cat, get_source_*", SEG)])

prop("C12", "Source photometry measures only its source, centred on it, minus its background",
 "source_photometry equals aperture photometry, centred on the source's brightest pixel with the source's elongation and orientation, of the image in which all other labelled sources (and the background too when mask_background is set) are left out: the values in pixels of other sources never matter, and left-out or out-of-image pixels count in neither flux nor area. "
 "With bg_sub a plane fitted to sigma-clipped (or, for 'bound', within +/-sigma of the mean) unlabelled pixels is subtracted, so adding any plane to an image changes nothing, and a source that is bright next to the background does not leak into the plane; without bg_sub nothing is subtracted. "
 "The result does not depend on the cutout size once it contains the apertures (bg_sub off), on odd/even size, or on plotting, and the inputs are unchanged.",
 ["inputs", "configurations"], "all source fields, sources near edges, error maps, cutout sizes, backgrounds and option combinations",
 "Tests check one isolated source with a loose total; neighbours, edges, planes and options interact.",
 [SEG], [("source_photometry", SEG), ("masked_segm_image", SEG), ("fit_background", FIT), ("radial_photometry", PHOT)])

prop("C13", "Rendering a model samples it at the right pixel centres",
 "model_to_image of size (x_size, y_size) returns an array of shape (y_size, x_size) whose pixel [j, i] is the model at x = origin_x + i, y = origin_y + j, where the origin is (0, 0) or center - size//2; pixel centres lie at whole coordinates. "
 "The oversample mode gives the mean over the factor^2 sub-pixels of each pixel, and sizes that are not whole numbers, or centres that are no pair, are rejected. "
 "make_grid returns the centres of the sub-pixels of a square image: factor^2 points per pixel whose mean is the pixel centre, shifted by the origin.",
 ["inputs", "configurations"], "all models, rectangular, odd and even sizes, centres, factors and modes",
 "Tests render square images of one model; axis order, parity and origin errors hide there.",
 [FIT, MOD], [("model_to_image, model_center_to_image_origin", FIT), ("make_grid", MOD)])

prop("C14", "PSF-convolved images equal sampling, oversampling, convolution and binning",
 "A PSFConvolvedModel2D image equals its sub-model sampled at pixel centres (factor-mean of sub-pixels when oversampled by an integer, only inside the window when oversampled by a window, wherever the window lies and whatever the image origin), convolved with the PSF, and averaged back to pixels when the PSF is oversampled. "
 "Without PSF and oversampling it is the sub-model itself; a centred delta PSF changes nothing; the result is linear in amplitude and in the PSF, conserves the flux of sources far from the border, and rotating by psf_pa multiples of 90 degrees equals rotating the PSF array. "
 "The value at a pixel does not depend on the order or subset in which pixels are requested, provided the grid's extent is the same.",
 ["inputs", "configurations"], "all sub-models (also compound), PSFs (asymmetric, even/odd), oversample rules, PSF oversampling, image shapes and origins",
 "Tests compare a few GALFIT images to a percent and square grids at the origin; window placement, asymmetry, origins and combinations are not covered.",
 [MOD], [("PSFConvolvedModel2D.evaluate", MOD), ("make_grid", MOD)])

prop("C15", "Image-model settings are validated and history or caching never changes an image",
 "Oversample and psf_oversample settings that are malformed or incompatible (non-integer or non-positive factors, wrong tuple length, oversample not a multiple of psf_oversample, psf_oversample without PSF, wrapping a wrapped or non-2D model) are rejected in whichever order they are set and leave the previous setting in force; every accepted setting can be evaluated, and an unnormalised PSF is accepted with a warning. "
 "After any sequence of changing PSF, oversampling, parameters, image size or origin, cache on/off/clear and evaluations, the image equals that of a freshly built model with the same settings.",
 ["histories", "configurations"], "all sequences of setting changes, cache operations and evaluations on one model and its copies",
 "Tests evaluate new models; a stale cached grid or accepted bad combination needs a multi-step sequence.",
 [MOD], [("PSFConvolvedModel2D.oversample / psf_oversample / cache_grid setters, grid cache", MOD)])

prop("C16", "A wrapped model mirrors its sub-model's parameters and constraints",
 "PSFConvolvedModel2D exposes every sub-model parameter (also of compound models) in order with its value, plus psf_pa=0, and the sub-model's fixed, bounds and tied constraints. "
 "Its model attribute returns a sub-model carrying the wrapper's current parameter values, fixed flags and bounds, so wrapping that again renders the same image. "
 "Changing parameters or constraints of a wrapper, its extracted model, a copy, or a sibling wrapper never changes the original model or any of the others.",
 ["histories", "configurations"], "all sub-models, constraint settings and sequences of edits on wrappers, copies, siblings and extracted models",
 "Tests check names and one value; independence and constraint carrying need edits after the fact.",
 [MOD], [("PSFConvolvedModel2D.__init__, _load_parameters, model", MOD)])

prop("C17", "Fitting recovers the truth from exactly the valid pixels within constraints",
 "fit_model on a noiseless image of a model recovers its parameters from a nearby start as well as the fitter can (plain, PSF-convolved or compound; rectangular images; any supported fitter suited to the model), with x along columns and y along rows. "
 "nan or masked pixels, and pixels of weight zero, have no influence; weights act as 1/sigma; fixed parameters keep their value exactly, bounded ones end within their bounds (for fitters that support bounds) and tied ones satisfy their tie. "
 "The input model, image and weights are unchanged, maxiter, acc, epsilon and estimate_jacobian bound the fitter's effort as they would without petrofit, and the returned fitter is the instance that ran, carrying its fit_info and, when asked for, parameter uncertainties.",
 ["inputs", "configurations"], "all models, true parameters, image shapes, nan patterns, weights, constraints and fitters",
 "Tests fit one or two images; pixel selection, weights and constraints are not judged.",
 [FIT], [("fit_model", FIT)])

prop("C18", "Background fits ignore outlying pixels and reproduce planes exactly",
 "fit_background returns the fit of the background model to the pixels that survive clipping at sigma standard deviations (all valid pixels when sigma is None), identically for every fitter able to fit the model: an exact plane is reproduced for any slopes and image shape, and bright compact sources or nan pixels that are clipped do not change it. "
 "It equals an independent least-squares plane through the surviving pixels, and neither image nor default model is modified, so results do not depend on earlier calls.",
 ["inputs", "histories"], "all planes, source contamination, sigma values, fitters and image shapes",
 "Tests exercise one flat background; which pixels enter the fit is not observed.",
 [FIT], [("fit_background", FIT), ("fit_model", FIT)])

prop("C19", "A correction grid has one true row per (n, r_eff), however it is produced",
 "generate_petrosian_sersic_correction returns exactly one row for every pair of n and r_eff, n outermost, in the given order, the same for serial and multi-process runs. "
 "In each row the theory columns equal analytic Sersic values, p02..p05 and the u_ columns equal what Petrosian measures on that galaxy with default settings (epsilon 2), the c_ columns what it measures with the corrected epsilon, and ratio columns equal the ratios they name; corrected radii recover the true half-light and 99% radii of well-sampled galaxies to sampling accuracy when there is no PSF. "
 "If a file name is given the saved table equals the returned one, an existing file is only replaced when overwrite is set, and a failure to write still returns the table.",
 ["inputs", "configurations", "fault_sequences"], "all n/r_eff lists (order, duplicates, ints), PSF and oversampling settings, process counts, output formats and write failures",
 "The test generates a tiny grid and compares lengths; row content, order and file faults are unchecked.",
 [CORR], [("generate_petrosian_sersic_correction, _generate_petrosian_correction", CORR)])

prop("C20", "Corrections come from the grid row nearest to the measurement, or are refused",
 "For a measured profile PetrosianCorrection picks the grid row minimising the distance in Petrosian radius (eta 0.2), half-light radius and C2080, each standardised by its spread over the grid: estimate_n is that row's n and estimate_epsilon is that row's corrected radius for the profile's epsilon_fraction (0.5, 0.8, 0.99) over its Petrosian radius for the profile's eta (0.2-0.5); other values are rejected. "
 "With range enforcement (default) measurements outside the grid are refused and without it the nearest row is used, but a profile that could not be measured is never given a correction. "
 "correct returns a new object differing only in epsilon, leaves the original and the grid unchanged, a grid profile is assigned its own row, and writing and reading a grid gives the same corrections.",
 ["inputs", "histories"], "all grids, profiles, eta and epsilon_fraction values, in and out of range, and call sequences",
 "Tests correct one galaxy with one grid; row choice, refusals and option combinations are not covered.",
 [CORR], [("PetrosianCorrection", CORR)])

prop("C21", "The Petrosian approximations track ideal Sersic profiles",
 "Over the Sersic indices they are made for, the closed-form approximations chain consistently: from ideal profiles, the uncorrected C2080 maps to the corrected C2080, the corrected C2080 to n, and n and the Petrosian concentration P0502 to the epsilon that reaches the 99% radius, each within a few percent of the values computed analytically.",
 ["inputs"], "Sersic n 0.5 to about 4.5, scalars and arrays",
 "Not tested at all in the stable suite; polynomial coefficients cannot be judged by inspection.",
 [MOD], [("PetroApprox", MOD)])

prop("C22", "Magnitudes and catalog matching follow their definitions",
 "hst_flux_to_abmag is -2.5*log10(flux) plus the AB zero point -2.5*log10(PHOTFLAM) + PHOTZPT - 5*log10(PHOTPLAM) + 18.692 for scalars, lists and arrays of any number type, gives nan exactly for non-positive fluxes, keeps shape and order and leaves its input unchanged. "
 "match_catalogs returns for each first-catalog position the index and separation of its nearest neighbour on the sky in the second, across the RA wrap and near poles, in the unit given.",
 ["inputs"], "all flux containers and values, header keywords, catalogs and units",
 "Tests check one flux array; containers and sky geometry vary.",
 [UT], [("hst_flux_to_abmag", UT), ("match_catalogs", UT)])

prop("C23", "Analysis calls leave their inputs alone and repeat exactly",
 "No analysis function (photometry, masking, segmentation, fitting, Petrosian, correction, conversion, plotting) changes an array, list, image, segmentation map, catalog, model or table passed to it. "
 "The same call on equal inputs gives equal results, whatever other petrofit calls were made in between and whichever arguments were shared with them, and for read-only arrays as for writable ones; no call leaves process-wide state (numpy random generator reset, numpy error or print settings, warning filters, matplotlib settings, locale, working directory, environment) changed.",
 ["histories", "inputs"], "all sequences of public calls sharing arguments",
 "Unit tests build fresh inputs per call; mutation and hidden state only matter across a history.",
 [CORE, CORR, MOD, FIT, PHOT, SEG, UT], [("all public functions", "petrofit/__init__.py")])

prop("C24", "Plots depict the measured quantities and never change results",
 "Petrosian.plot, plot_cog and imshow draw the object's own profile, curve of growth, errors, radii and eta at their values (skipping those that are nan) on the axes given, and leave the object unchanged. "
 "plot_fit returns model and residual images with model + residual equal to the data, sampled at the data's pixels, and draws all three. "
 "plot_target marks the given position and limits the view to the given size; plot_segment_residual shows the image with labelled pixels zeroed; plot_apertures draws every aperture; plotting options of photometry do not change the numbers; plot_correction joins the measurement to the grid row the correction takes, and to none when the profile could not be measured.",
 ["inputs", "configurations"], "all profiles (with, without, with partial errors; out-of-range radii), option combinations and images",
 "Plot tests only check that no exception is raised for one object.",
 [CORE, FIT, UT, SEG, PHOT], [("Petrosian.plot, plot_cog, imshow", CORE), ("plot_fit", FIT), ("plot_target", UT), ("plot_segment_residual", SEG), ("plot_apertures", PHOT)])

prop("C25", "Auxiliary profile models have the brightness their parameters name",
 "GenSersic2D with c_0=0 equals Sersic2D for all parameters, has its r_eff isophote at amplitude along both axes for every c_0, is boxier for larger c_0 and symmetric about its centre. "
 "Nuker2D has amplitude at its break radius, is circularly symmetric, and has logarithmic slopes -gamma inside and -betta outside; CoreSersic2D has core slope -gamma inside, approaches a Sersic profile of its r_eff and n outside, and is elliptical with the given ellipticity and angle (nothing is claimed at the exact, cuspy centre of the last two). "
 "The default Sersic bounds contain valid values, are fresh dictionaries per call, and apply overrides.",
 ["inputs"], "all parameter values, positions and override sequences",
 "Tests cover none of their values.",
 [MOD], [("GenSersic2D, Nuker2D, CoreSersic2D", MOD), ("get_default_sersic_bounds, get_default_gen_sersic_bounds", MOD)])

prop("C26", "Sampling helpers: radii lists, interpolation, first crossing, natural sort",
 "make_radius_list gives n strictly increasing radii ending at max_pix, equally spaced or (log) equally spaced in log radius from 1. "
 "get_interpolated_values returns at least num equally spaced samples from min(x) to max(x) of the requested interpolant, passing through the data, or the data itself for kind None; closest_value_index returns the index of the value closest to the target among those up to the first one at or past it (falling or growing), and None if none is. "
 "natural_sort returns a sorted permutation of strings in which digit runs compare as numbers and letters ignore case.",
 ["inputs"], "all lengths, kinds, values and strings",
 "Tests check single examples.",
 [UT], [("make_radius_list, get_interpolated_values, closest_value_index, natural_sort", UT)])

prop("C27", "Isophote amplitudes and Gaussian widths are measured where they are",
 "get_amplitude_at_r of a noiseless elliptical galaxy gives the model's brightness on the isophote of semi-major radius r for any centre, ellipticity and orientation, from arrays, CCDData or cutouts, and nan (with a warning, never an exception) when it cannot be fitted or the radius is nan. "
 "fit_gaussian2d and measure_fwhm recover amplitude, centre and the full widths 2.3548*sigma along the axes nearest x and y of a Gaussian in a square or rectangular cutout, nan and masked pixels being left out, with or without plotting and printing, which show just these numbers.",
 ["inputs"], "all centres, shapes, orientations, radii, cutout shapes and options",
 "Tests call them on one image and check type or finite value.",
 [SEG, FIT], [("get_amplitude_at_r", SEG), ("fit_gaussian2d, measure_fwhm", FIT)])

prop("C28", "Subtracting a cutout changes only its footprint in a copy",
 "cutout_subtract returns a copy of the image in which the target is subtracted from the pixels it covers when centred at (x, y) (its pixel [dy//2, dx//2] falls on row y, column x), for odd and even target sizes and targets partly or wholly outside the image, and leaves the image and target unchanged.",
 ["inputs"], "all image and target shapes and positions",
 "Not tested by the suite.",
 [UT], [("cutout_subtract", UT)])

prop("C29", "How numbers are stored does not change an answer",
 "The same values give the same result (to the rounding of the type) however they are stored: double or single precision, integers of any size and sign, big-endian as read from FITS files, C- or Fortran-ordered, strided, reversed, memory-mapped or read-only arrays for images, error maps, masks, weights, PSFs, targets, segmentation maps and profiles; and lists, tuples or arrays of Python or numpy numbers wherever a sequence of radii, areas, fluxes or errors is taken. "
 "In particular integer images can be masked, measured, fitted, rendered over and subtracted from like the same values as floats, and nothing is truncated to integers on the way.",
 ["inputs", "configurations"], "every public analysis function, every storage of its numeric inputs",
 "Tests use native double arrays; other storages appear as soon as images come from FITS files.",
 [SEG, PHOT, UT, FIT, MOD, CORE], [("masked_segm_image / source_photometry", SEG), ("radial_photometry", PHOT), ("cutout_subtract", UT), ("fit_model", FIT), ("Petrosian", CORE)])

prop("C30", "Concurrent calls from several threads answer like single calls",
 "Calls made at the same time from several threads, each with its own objects and sharing at most arrays, lists and dictionaries as inputs, give exactly the results they give alone: no hidden buffers, caches or temporarily changed module, class or default-argument state is shared between calls.",
 ["schedules", "histories"], "all interleavings of public non-plotting calls in several threads",
 "Tests run in one thread; shared state between calls only shows under interleavings inside a call.",
 [CORE, CORR, MOD, FIT, PHOT, SEG, UT], [("all public functions except plotting", "petrofit/__init__.py"), ("PSFConvolvedModel2D.evaluate", MOD)])

prop("C31", "An option left out means its documented default",
 "Leaving options out of a call of any public function, class or method gives exactly what the same call gives with the documented defaults spelled out, whatever the other options are: "
 "cubic interpolation onto 5000 points, eta 0.2, epsilon 2, epsilon_fraction and total_flux_fraction 0.99, no background masked or subtracted, no errors, nlevels 30 and contrast 0.001 in deblending, "
 "sigma 3 with clipping, a plane for backgrounds, a TRF least-squares fit of at most 5000 evaluations, mode 'center' and factor 1 in rendering, and so on; and options given by position are taken in the documented order, so by position or by name makes no difference.",
 ["inputs", "configurations"], "all public callables, all subsets of their options, random inputs",
 "Tests call with one or two option sets and do not compare a default with its documented value; a changed default, a default that depends on another option, or two options taken in the wrong order changes every user's numbers silently.",
 [CORE, CORR, MOD, FIT, PHOT, SEG, UT], [("signatures and docstrings of the public functions", "petrofit/__init__.py"), ("source_photometry / make_catalog", SEG), ("Petrosian / fraction_to_r", CORE), ("fit_model / fit_background / model_to_image", FIT)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        if sch: jsonschema.validate(p, sch)
    print(len(P), "properties")
