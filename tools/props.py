"""Source of properties.jsonl (run tools/gen.py to regenerate properties.jsonl and MANIFEST.json)."""
R = "lenstronomy/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[R + f for f in files],
                               state=state or [],
                               mechanism=[dict(name=n, where=R + w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


p("C01", "Potential, deflection and Hessian of every lens profile agree",
  "For every built-in lens mass profile, wherever it is smooth, the reported deflection is the gradient of the reported lensing potential and the reported Hessian is the Jacobian of the reported deflection (with equal mixed derivatives), for every allowed parameter set and every position. Profiles that document one of the three as unavailable raise instead of returning a number.",
  ["inputs", "configurations"],
  "all supported lens model names x all parameter values in the documented ranges (including limits such as zero ellipticity, isothermal slope, off-centre and rotated lenses) x all positions off the singular points",
  "unit tests compare a few hand-picked points with stored numbers, one profile at a time; a wrong sign, branch or rotation that only shows at another angle, slope or radius is not sampled",
  ["LensModel/Profiles", "LensModel/profile_list_base.py", "LensModel/single_plane.py", "LensModel/lens_model.py"],
  [("closed-form function/derivatives/hessian triples per profile", "LensModel/Profiles"),
   ("sum over profiles", "LensModel/single_plane.py")],
  ["LensModel.potential / alpha / hessian"])

p("C02", "Mass, density, convergence and deflection of a lens profile agree",
  "For every spherically symmetric lens profile that reports a three-dimensional density, a projected density and enclosed masses, the projected density is the line-of-sight integral of the density, the enclosed masses are the integrals of those densities, and the convergence and the deflection seen through the lens model correspond to the same mass. The same holds for the variants of these functions that are expressed in lens-model parameters.",
  ["inputs"],
  "all radial profiles with density/mass functions x all parameter values x all radii from deep inside the core to far outside the truncation",
  "the existing consistency test evaluates one parameter set per profile at loose tolerance, and does not cover every profile, branch (inside/at/outside scale radius) or lens-unit variant",
  ["LensModel/Profiles", "LensModel/profile_integrals.py", "Analysis/lens_profile.py"],
  [("density/density_2d/mass_2d/mass_3d closed forms", "LensModel/Profiles"),
   ("numerical projection integrals", "LensModel/profile_integrals.py")],
  ["profile density_lens, mass_3d_lens, mass_2d_lens, density_2d, LensModel.kappa/alpha"])

p("C03", "Lens parameters mean what they say; equivalent lens models agree",
  "Two lens descriptions that denote the same physical lens give the same potential differences, deflections and Hessians: special or limiting cases of a more general profile, alternative parameterisations, alternative implementations, composite profiles versus the sum of their parts. Normalisation parameters keep their documented meaning (the Einstein radius encloses mean convergence one, the scale-radius deflection is the deflection at the scale radius, and so on) for every slope, ellipticity and core size.",
  ["inputs", "configurations"],
  "all documented equivalences and normalisations between lens profiles x all parameter values x all positions",
  "tests check a few equivalences at one or two points; most profile pairs and parameter regions are never compared",
  ["LensModel/Profiles", "LensModel/profile_list_base.py", "Util/param_util.py"],
  [("parameter conversion in profiles", "LensModel/Profiles"), ("ellipticity/shear conversions", "Util/param_util.py")],
  ["LensModel.alpha/hessian/potential/kappa"])

p("C04", "A lens model is the sum of its components, pointwise",
  "The potential, deflection, Hessian, convergence and shear of a single-plane lens model are the sums over its components; selecting a subset (by index or by a list of indices) gives exactly that partial sum, and the order of the components is irrelevant. Each value depends only on its own position: evaluating a scalar, a 1-d array or any part of it gives the same numbers, and derived quantities (source position, magnification, Fermat potential, flexion, finite-difference Hessian) are those of the summed deflection field.",
  ["inputs", "configurations"],
  "all component lists (repeated profiles, profiles with per-instance settings, empty selections), all index selections, all array shapes and orderings of positions",
  "tests use short fixed lists and one array shape; interactions between profile instances that share state, or vectorised branches that mix positions, are not enumerated",
  ["LensModel/lens_model.py", "LensModel/single_plane.py", "LensModel/profile_list_base.py", "LensModel/Profiles"],
  [("component summation and selection", "LensModel/single_plane.py"), ("instance sharing rules", "LensModel/profile_list_base.py"),
   ("derived quantities", "LensModel/lens_model.py")],
  ["LensModel public methods"])

p("C05", "Moving or rotating a lens or light model moves its observables with it",
  "Translating the centre of every component translates all lensing and surface-brightness observables, and rotating all position angles (ellipticity, shear, multipole and arc directions) together with the coordinates rotates them: potential, convergence, magnification, time delay and surface brightness are unchanged and deflections turn as vectors, up to the documented reference point of potentials and external shear fields. Changing the sign or handedness convention anywhere would break this.",
  ["inputs", "configurations"],
  "all lens and light profiles with a centre or an orientation x all shifts and rotation angles x all positions",
  "tests rarely evaluate off-centre and rotated models at generic positions, so errors that cancel at the origin or on an axis survive",
  ["LensModel/Profiles", "LightModel/Profiles", "Util/param_util.py", "Util/util.py"],
  [("centre shift and rotation into the major-axis frame", "LensModel/Profiles"), ("ellipticity conversion", "Util/param_util.py")],
  ["LensModel, LightModel public methods"])

p("C06", "Multi-plane ray tracing follows the recursive multi-plane lens equation",
  "For any set of deflectors at any redshifts, given in any order and in any mix of planes, source positions, intermediate ray positions, Hessians and magnifications equal those of the textbook recursive multi-plane lens equation with the cosmology's distances; deflectors behind the source have no effect, tracing in several legs equals tracing in one, and all deflectors at one redshift reproduce single-plane lensing. This also holds when deflectors are defined by observed rather than physical positions, when a reference source redshift differs from the source redshift, and when part of the ray path is precomputed or decoupled.",
  ["inputs", "configurations"],
  "all deflector/redshift lists (unsorted, repeated, in front of and behind the source), cosmologies, distance settings, position conventions, stop redshifts",
  "tests use a handful of sorted configurations; index bookkeeping between sorted and unsorted planes only fails for particular orders",
  ["LensModel/MultiPlane/multi_plane_base.py", "LensModel/MultiPlane/multi_plane.py", "LensModel/MultiPlane/decoupled_multi_plane.py", "LensModel/lens_model.py", "Cosmo/background.py"],
  [("sorted redshift plane recursion", "LensModel/MultiPlane/multi_plane_base.py"), ("physical/observed conversions", "LensModel/MultiPlane/multi_plane.py")],
  ["LensModel(multi_plane=True).ray_shooting/hessian/magnification, MultiPlane.ray_shooting_partial etc."],
  [dict(name="sorted redshift index and transverse distance lists", meaning="order of planes and distances between them", where=R + "LensModel/MultiPlane/multi_plane_base.py")])

p("C07", "Arrival times obey the Fermat principle and the cosmological delay law",
  "Arrival-time differences equal the time-delay distance over the speed of light times the Fermat-potential differences in one plane, equal the sum of geometric and potential delays over planes in multi-plane lensing, and are stationary exactly at the image positions. They depend on the cosmology and redshifts only through the documented distances.",
  ["inputs", "configurations"],
  "all lens models (single and multi-plane), redshifts, cosmologies and positions",
  "tests compare one or two configurations with stored numbers; unit, sign and per-plane weighting errors that cancel there are not excluded",
  ["LensModel/lens_model.py", "LensModel/MultiPlane/multi_plane_base.py", "LensModel/MultiPlane/multi_plane.py", "Cosmo/lens_cosmo.py", "Analysis/td_cosmography.py", "Cosmo/kde_likelihood.py"],
  [("arrival_time / geo+shapiro delay", "LensModel/MultiPlane/multi_plane_base.py"), ("time delay units", "Cosmo/lens_cosmo.py")],
  ["LensModel.arrival_time, fermat_potential, LensCosmo.time_delay_units, TDCosmography"])

p("C08", "Reconfiguring a lens model equals building it anew",
  "After any sequence of switching to and from fixed-parameter mode, changing the source redshift, changing the cosmology or evaluating at other positions and parameters, a lens model returns what a freshly constructed model with the final settings returns. While fixed-parameter mode is on, results equal those of the parameters it was fixed with, and leaving it restores full dependence on the parameters.",
  ["histories", "configurations"],
  "all sequences of reconfiguration and evaluation calls on single-plane, multi-plane, line-of-sight and decoupled lens models",
  "tests make one switch at a time; stale caches only show for particular sequences",
  ["LensModel/lens_model.py", "LensModel/single_plane.py", "LensModel/MultiPlane/multi_plane.py", "LensModel/MultiPlane/multi_plane_base.py", "LensModel/LineOfSight/single_plane_los.py", "LensModel/Profiles"],
  [("set_static/set_dynamic", "LensModel/profile_list_base.py"), ("change_source_redshift/update_cosmology", "LensModel/lens_model.py")],
  ["LensModel public methods after histories"],
  [dict(name="static flags and cached profile state", meaning="parameters frozen into profile instances", where=R + "LensModel/Profiles/base_profile.py")])

p("C09", "The lens-equation solver returns true images and all of them",
  "Every image position returned by the lens-equation solver maps back to the requested source position within the requested precision, no image is listed twice, images come in the documented order, and whenever the search window and resolution resolve the lens all images that exist (above the requested magnification limit) are returned, irrespective of the solver variant. Searching leaves the lens model as it was.",
  ["inputs", "configurations"],
  "all lens models (single/multi-plane, with and without shear/convergence), source positions inside, outside and between caustics, search windows/centres and solver variants",
  "tests check selected quads; missing or duplicated images for sources near caustics, off-centre windows or empty results are not covered",
  ["LensModel/Solver/lens_equation_solver.py", "LensModel/Solver/epl_shear_solver.py"],
  [("grid search plus Newton iteration", "LensModel/Solver/lens_equation_solver.py"), ("semi-analytic EPL+shear solver", "LensModel/Solver/epl_shear_solver.py")],
  ["LensEquationSolver.image_position_from_source, findBrightImage, sort_arrival_times"])

p("C10", "Position-constraint solvers satisfy the lens equation they are asked to satisfy",
  "When lens parameters are solved from two or four image positions, the solved lens maps all the given positions to one source point, only the documented parameters of the constrained component change, and the solution does not depend on the values the solved parameters had in the caller's data other than as a starting guess. This holds equally when the solver is used inside the parameter mapping of a fit.",
  ["inputs", "configurations"],
  "all solver types, constrained lens profiles, additional perturbers, single- and multi-plane configurations and reachable image configurations",
  "tests solve a few fixed configurations",
  ["LensModel/Solver/solver.py", "LensModel/Solver/solver2point.py", "LensModel/Solver/solver4point.py", "Sampling/parameters.py"],
  [("root finding on source-plane differences", "LensModel/Solver/solver4point.py"), ("parameter packing", "LensModel/Solver/solver2point.py")],
  ["Solver.constraint_lensmodel, Param.args2kwargs, check_solver"])

p("C11", "Cosmological distances and lensing unit conversions are mutually consistent",
  "All distances, critical densities, time-delay distances and unit conversions agree with the underlying cosmology's own distances for every pair of redshifts, conversions and their inverses undo each other (mass-concentration to lensing angles and back, velocity dispersion to Einstein radius and back, angle to physical and back, delays to Fermat potential and back), and an interpolated cosmology reproduces the exact one within its accuracy. Results for one redshift do not depend on which redshifts were asked before.",
  ["inputs", "histories", "configurations"],
  "all cosmologies (flat, curved, non-LCDM), redshift pairs, masses, concentrations and query orders",
  "tests compare a few redshift values with numbers; caching and curvature branches are not exercised across orders",
  ["Cosmo/background.py", "Cosmo/lens_cosmo.py", "Cosmo/cosmo_interp.py", "Cosmo/nfw_param.py", "Cosmo/gnfw_param.py"],
  [("distance and Sigma_crit computation", "Cosmo/lens_cosmo.py"), ("distance interpolation", "Cosmo/cosmo_interp.py")],
  ["Background, LensCosmo, CosmoInterp, NFWParam public methods"])

p("C12", "Light profiles: linear in amplitude, additive, and integrate to their total flux",
  "The surface brightness of a light model is the sum over its components and each component is proportional to its amplitude(s); the decomposition used by linear inversion reproduces it exactly and in the same order as the amplitudes are read back. Where a total flux, a half-light radius or a three-dimensional light density is reported, it agrees with the integral, the half-flux radius or the deprojection of the reported surface brightness.",
  ["inputs", "configurations"],
  "all light profiles x all parameters x all positions, component selections and array shapes",
  "tests check single values per profile; the linear basis bookkeeping is only tested for a few lists",
  ["LightModel/light_model_base.py", "LightModel/linear_basis.py", "LightModel/light_model.py", "LightModel/Profiles"],
  [("component summation", "LightModel/light_model_base.py"), ("linear basis split/update", "LightModel/linear_basis.py")],
  ["LightModel.surface_brightness, functions_split, total_flux, light_3d, update_linear"])

p("C13", "Pixel and sky coordinates convert back and forth without loss",
  "Pixel-to-sky and sky-to-pixel conversions are mutually inverse for any linear coordinate frame (scaled, rotated, sheared, flipped, shifted), the coordinate grid lists the sky position of every pixel in image order, and pixel scale, area, centre and extent describe that same grid. Shifting, rotating or sub-sampling the frame acts as documented and repeated updates refer to the original frame.",
  ["inputs", "histories", "configurations"],
  "all invertible frames, image shapes, pixel positions and update sequences",
  "tests use axis-aligned frames and few pixels",
  ["Data/coord_transforms.py", "Data/pixel_grid.py", "Data/imaging_data.py", "Util/util.py", "Util/image_util.py"],
  [("linear maps and their inverses", "Data/coord_transforms.py"), ("grid construction", "Util/util.py")],
  ["PixelGrid/Coordinates/ImageData methods, util grid functions"])

p("C14", "PSF convolution is a linear, flux-conserving convolution in every mode",
  "Convolving an image with a PSF is linear, conserves flux for flux away from the edges, is centred, and gives the plain discrete convolution with the PSF kernel in every pixel-kernel mode (direct, FFT, cached FFT, masked/compiled, adaptive, supersampled with a kernel split), for every kernel shape, image content, evaluation mask and call history. Kernels derived from a PSF (supersampled, degraded, cut, normalised) keep the PSF's flux, centre and shape.",
  ["inputs", "configurations", "histories"],
  "all kernels (odd sizes, asymmetric, supersampled), supersampling factors, modes, masks and images",
  "tests compare smooth symmetric Gaussians where transposed or shifted kernels look right",
  ["ImSim/Numerics/convolution.py", "ImSim/Numerics/numba_convolution.py", "ImSim/Numerics/adaptive_numerics.py", "ImSim/Numerics/numerics.py", "ImSim/Numerics/grid.py", "ImSim/Numerics/partial_image.py", "Data/psf.py", "Util/kernel_util.py"],
  [("convolution classes", "ImSim/Numerics/convolution.py"), ("kernel manipulation", "Util/kernel_util.py")],
  ["Numerics.re_size_convolve, PSF kernels, convolution classes"])

p("C15", "A simulated image is the sum of its independently computed parts",
  "The model image is, pixel by pixel, the PSF-convolved surface brightness of lensed source plus lens light plus point sources, each of which can be switched off and adds up, with the source seen through the lens equation, the pixel values carrying the pixel-area and sub-pixel average, per-band/per-component settings, extinction, flux scaling and beam attenuation applied where documented. Evaluating on a different but equivalent pixel set, sub-sampling or band split does not change the values.",
  ["inputs", "configurations"],
  "all combinations of lens, source, lens-light, point-source, extinction, PSF and numerics settings, source planes and switches",
  "tests check one or two composite images against stored sums",
  ["ImSim/image_model.py", "ImSim/image2source_mapping.py", "ImSim/multiplane_organizer.py", "ImSim/differential_extinction.py", "ImSim/Numerics/point_source_rendering.py", "ImSim/Numerics/numerics.py", "PointSource/point_source.py"],
  [("image composition", "ImSim/image_model.py"), ("source-plane mapping", "ImSim/image2source_mapping.py")],
  ["ImageModel.image and component methods"])

p("C16", "Linear amplitude inversion is the optimal weighted least-squares solution",
  "The amplitudes returned by the linear inversion minimise the weighted squared residual of the data over all linear amplitudes given the unmasked pixels and their noise, the model image equals the response matrix times the amplitudes and equals re-rendering the image with the amplitudes written back into the parameters, and the returned covariance is the inverse Fisher matrix. Values of masked pixels and the amplitudes the parameters held before have no influence.",
  ["inputs", "configurations"],
  "all linear component lists (light, point sources with free or coupled amplitudes), noise maps, masks, bands",
  "tests check recovery of input amplitudes in a noise-free example",
  ["ImSim/image_linear_solve.py", "ImSim/de_lens.py", "LightModel/linear_basis.py", "PointSource/point_source.py", "ImSim/MultiBand/joint_linear.py"],
  [("normal equations", "ImSim/de_lens.py"), ("response matrix ordering and amplitude read-back", "ImSim/image_linear_solve.py")],
  ["ImageLinearFit.image_linear_solve, linear_response_matrix, update_linear_kwargs"])

p("C17", "The imaging likelihood is the masked, noise-weighted residual sum over all bands",
  "The imaging log-likelihood equals minus half the noise-weighted squared residuals over unmasked pixels, with the noise model documented (background plus Poisson of the model, noise map, plus PSF-variance terms), plus the documented marginalisation term; over several bands it is the sum of the bands that are switched on, in every multi-band mode. Pixels outside the mask, bands switched off and the order of the bands have no influence, and counts of data points and linear parameters match.",
  ["inputs", "configurations"],
  "all data, noise, mask and band configurations",
  "tests check single-band values and a few multi-band sums",
  ["Data/imaging_data.py", "Data/image_noise.py", "ImSim/MultiBand", "ImSim/image_linear_solve.py", "Sampling/Likelihoods/image_likelihood.py", "Util/class_creator.py"],
  [("likelihood from residuals", "Data/imaging_data.py"), ("band bookkeeping", "ImSim/MultiBand/single_band_multi_model.py")],
  ["ImageModel likelihoods, MultiLinear/JointLinear/SingleBandMultiModel.likelihood_data_given_model"])

p("C18", "The sampled parameter vector and the named parameters are a faithful bijection",
  "Converting a vector of sampled parameters into named parameters and back returns the same vector; fixed values stay fixed, tied and joint parameters obey their declared ties, and the names, limits, count and order reported describe exactly the entries of the vector. Every entry of the vector influences exactly the named parameters it stands for (and those tied to it), for every combination of models, fixed values, ties and special parameters.",
  ["inputs", "configurations"],
  "all model lists, fixed dictionaries, joint settings, solver settings, linear-solver switches and vectors within the limits",
  "tests round-trip a few configurations",
  ["Sampling/parameters.py", "Sampling/param_group.py", "Sampling/special_param.py", "LensModel/lens_param.py", "LightModel/light_param.py", "PointSource/point_source_param.py", "ImSim/tracer_model.py"],
  [("args2kwargs/kwargs2args", "Sampling/parameters.py"), ("per-group packing", "Sampling/param_group.py")],
  ["Param.args2kwargs, kwargs2args, param_limits, num_param"])

p("C19", "The total likelihood is the deterministic sum of its parts",
  "The log-likelihood of a parameter vector is the sum of the enabled terms (imaging, positions, time delays, flux ratios, priors, user additions), each equal to its documented statistic; it is the same for the same vector whatever was evaluated before, out-of-bounds vectors get the documented penalty without evaluating the model, and no term silently turns into not-a-number. Switching a term off removes exactly that term.",
  ["inputs", "histories", "configurations"],
  "all likelihood settings, parameter vectors inside and outside the limits, and evaluation histories",
  "tests assert stored totals for a few settings; dependence on earlier evaluations is not tested",
  ["Sampling/likelihood.py", "Sampling/Likelihoods", "Sampling/parameters.py", "PointSource/point_source_cached.py"],
  [("sum of terms", "Sampling/likelihood.py"), ("individual statistics", "Sampling/Likelihoods")],
  ["Likelihood.logL and the term classes"],
  [dict(name="cached point-source solution, rebuilt class instances", meaning="state carried from one evaluation to the next", where=R + "Sampling/likelihood.py")])

p("C20", "Optimisers and samplers report truthful, in-bounds results",
  "Whatever the number of workers, a swarm or simplex search reports a best position whose reported likelihood is the likelihood of that position and is the best of everything evaluated (including the starting point); recorded histories never get worse and match their positions; Markov chains and nested samplers return samples with the stated shape, inside the limits, each with the likelihood of that very sample. The same random seed gives the same result for any worker count.",
  ["inputs", "schedules", "configurations"],
  "all likelihood surfaces, limits, starting points, seeds, particle/walker counts and worker counts",
  "tests check that the optimisers converge on one problem within a loose tolerance",
  ["Sampling/sampler.py", "Sampling/Samplers", "Sampling/Pool", "Workflow/fitting_sequence.py"],
  [("swarm bookkeeping", "Sampling/Samplers/pso.py"), ("worker pools", "Sampling/Pool/pool.py"), ("sampler interfaces", "Sampling/sampler.py")],
  ["Sampler.pso/simplex/mcmc_emcee/mcmc_zeus, ParticleSwarmOptimizer, samplers"])

p("C21", "Point-source positions and amplitudes agree with the lens model",
  "Positions of a point source given in the source plane are the solutions of the lens equation, positions given in the image plane are returned as given, and the implied source position is the ray-traced one; amplitudes are the intrinsic amplitude times the absolute magnification (or as given), read back linear amplitudes reproduce the rendered ones, and repeated queries, caching, and evaluation of one component among several give the same answers. Parameters passed in are never altered.",
  ["inputs", "histories", "configurations"],
  "all point-source types, amplitude modes, several point sources at different redshifts, cache on/off and query orders",
  "tests query each type once with caching off or on",
  ["PointSource/point_source.py", "PointSource/point_source_cached.py", "PointSource/Types"],
  [("type-specific positions/amplitudes", "PointSource/Types/source_position.py"), ("cache", "PointSource/point_source_cached.py")],
  ["PointSource public methods"])

p("C22", "Stellar kinematics predictions are consistent and conserve light",
  "The predicted aperture velocity dispersion agrees between the closed-form and the numerical solutions of the Jeans equation where both apply, scales with distances and mass as physics demands, and the luminosity-weighted average over a partition of an aperture equals the value of the whole aperture. Apertures and PSF models select, bin and smear positions as documented (every position in exactly one bin of a partition, smearing conserving flux), for every anisotropy model.",
  ["inputs", "configurations"],
  "all anisotropy models, mass and light profiles, apertures, PSFs, cosmologies and seeds",
  "tests compare a few numbers at per-cent level with Monte-Carlo noise",
  ["GalKin", "Analysis/kinematics_api.py", "Analysis/td_cosmography.py"],
  [("Jeans solutions", "GalKin/numeric_kinematics.py"), ("closed form solution", "GalKin/analytic_kinematics.py"), ("apertures", "GalKin/aperture_types.py")],
  ["Galkin.dispersion, NumericKinematics/AnalyticKinematics, Aperture.aperture_select, PSF"])

p("C23", "Observation simulation: photometry and noise follow the instrument settings",
  "Magnitudes convert to amplitudes and back with the stated zero point so that the simulated flux of each component is the flux of its magnitude, simulated noise has the stated background plus shot-noise variance for the stated gain, read noise, sky brightness, exposure time and number of exposures, and equivalent unit choices (counts or electrons) describe the same observation. Amplitude and magnitude conversions never alter the caller's parameters.",
  ["inputs", "configurations"],
  "all instrument/band settings, magnitudes, light and point-source models and unit choices",
  "tests check single numbers",
  ["SimulationAPI/observation_api.py", "SimulationAPI/data_api.py", "SimulationAPI/model_api.py", "SimulationAPI/sim_api.py", "Util/data_util.py"],
  [("magnitude/cps conversion", "Util/data_util.py"), ("background noise", "Util/data_util.py"), ("magnitude2amplitude", "SimulationAPI/sim_api.py")],
  ["SimAPI, SingleBand, Observation methods"])

p("C24", "Coordinate, ellipticity, shear and array conversions are inverse bijections",
  "Every pair of conversion utilities that the library offers in both directions (axis ratio/angle and ellipticity components, shear polar and cartesian, cartesian and polar coordinates, image and 1-d array, flux and magnitude, sampled and bounded values, rotation and its reverse) is inverse to each other on its whole domain and keeps shapes and order. Grid, binning, padding, cutting and resampling helpers preserve the sums, averages, positions and sizes they document.",
  ["inputs"],
  "the whole domain of each conversion, including angle wrap-arounds, zero ellipticity and extreme axis ratios",
  "tests check a few values",
  ["Util"],
  [("conversion functions", "Util/param_util.py"), ("array/image utilities", "Util/util.py"), ("image manipulation", "Util/image_util.py")],
  ["lenstronomy.Util functions"])

p("C25", "Evaluating a model never alters its inputs and is repeatable",
  "No computation changes the parameter dictionaries, arrays or configuration the caller passes in (except where documented as writing solved amplitudes back), and calling the same query again on the same object with equal inputs gives the same result, no matter what other queries were made in between.",
  ["inputs", "histories"],
  "all public queries of lens, light, point-source, image, parameter, likelihood, cosmology and kinematics objects, in any order",
  "tests do not compare inputs before and after calls",
  ["LensModel", "LightModel", "PointSource", "ImSim", "Sampling", "Data", "GalKin", "Cosmo", "Util", "SimulationAPI"],
  [("copies at API boundaries", "Sampling/parameters.py"), ("cached attributes", "PointSource/point_source_cached.py")],
  ["every public query, wrapped by a monitor"])

p("C26", "Compiled kernels behave exactly like the plain Python code and stay in bounds",
  "Every just-in-time compiled routine returns the same result as the identical uncompiled code, for all argument types and shapes it accepts, and never reads or writes outside its arrays. Turning compilation off or on is invisible to the user except for speed.",
  ["inputs", "configurations"],
  "all compiled routines x argument types (scalars, arrays, shapes, dtypes) x parameter branches x compilation settings",
  "the test-suite runs in one compilation mode, without bounds checking",
  ["Util/numba_util.py", "LensModel/Profiles/epl_numba.py", "LensModel/Profiles/interpol.py", "LensModel/Profiles/shapelet_pot_polar.py", "ImSim/Numerics/numba_convolution.py", "LensModel/Profiles/nie.py", "LensModel/Solver/epl_shear_solver.py", "LensModel/Util/epl_util.py"],
  [("jit wrapper", "Util/numba_util.py"), ("compiled kernels", "LensModel/Profiles/epl_numba.py")],
  ["models that reach compiled kernels, run with JIT on, off and with bounds checks"])

p("C27", "A fitting workflow keeps its state consistent from step to step",
  "After any sequence of fitting steps, the best fit reported is the parameter set the last step produced, updating settings (fixing, freeing, changing limits, changing initial values, switching bands) changes exactly what was asked and nothing else, fixed parameters never move, and the state restored by resetting or by the best-fit query equals what was set before. The reported best likelihood is the likelihood of the reported best fit.",
  ["histories", "configurations"],
  "all sequences of fitting and settings-update steps",
  "tests run one fixed sequence with few assertions",
  ["Workflow/fitting_sequence.py", "Workflow/update_manager.py", "Workflow/alignment_matching.py", "Workflow/flux_calibration.py", "Workflow/psf_fitting.py", "Workflow/multi_band_manager.py"],
  [("parameter and settings state", "Workflow/update_manager.py"), ("step dispatch", "Workflow/fitting_sequence.py")],
  ["FittingSequence.fit_sequence, best_fit, UpdateManager"],
  [dict(name="current/initial parameter and fixed dictionaries", meaning="state handed from step to step", where=R + "Workflow/update_manager.py")])

p("C28", "Derived lens and light diagnostics describe the model they are given",
  "Critical curves lie where the magnification diverges and caustics are their images, the effective Einstein radius encloses mean convergence one, reported half-light radii, slopes, mass-sheet corrections, moments, multi-Gaussian fits and radial profiles are those of the given lens or light model about the given centre, and finite-size image magnifications approach the point magnification. Component selections restrict the diagnostic to those components.",
  ["inputs", "configurations"],
  "all lens and light models, centres, selections and grid settings within the documented accuracy",
  "tests check a circular or single elliptical example centred at zero",
  ["LensModel/lens_model_extensions.py", "Analysis/lens_profile.py", "Analysis/light_profile.py", "Util/analysis_util.py", "Analysis/light2mass.py", "Analysis/td_cosmography.py"],
  [("critical curve tracing", "LensModel/lens_model_extensions.py"), ("profile analysis", "Analysis/lens_profile.py")],
  ["LensModelExtensions, LensProfileAnalysis, LightProfileAnalysis methods"])

p("C29", "Line-of-sight corrected lensing equals its matrix composition",
  "A lens with line-of-sight convergence, shear and rotation terms deflects rays as the documented composition of linear foreground, background and source distortion matrices with the main deflector, its Hessian is the derivative of that deflection, the reduced parameterisation gives the same lens as the full one it abbreviates, and vanishing line-of-sight terms give the plain lens.",
  ["inputs", "configurations"],
  "all line-of-sight parameters, main deflectors and positions, full and minimal forms, with and without flexion",
  "tests cover few parameter values",
  ["LensModel/LineOfSight"],
  [("LOS distortion composition", "LensModel/LineOfSight/single_plane_los.py")],
  ["LensModel with LOS components"])

p("C30", "Numerically tabulated lensing and light reproduce what they were built from",
  "Interpolated or decomposed representations built from a model (gridded potentials, deflections and surface brightness, radial interpolation, convergence-to-deflection integrals, shapelet and multi-Gaussian decompositions, wavelet transforms, lens-synthesis fits) reproduce the original at the tabulated positions, converge to it in between, are oriented and scaled like it, and are zero or as documented outside. Decomposition followed by reconstruction is the identity on the span of the basis.",
  ["inputs", "configurations"],
  "all tabulated fields (asymmetric, off-centre, rotated, non-square), scalings and evaluation positions",
  "tests use symmetric fields on square grids",
  ["LensModel/Profiles/interpol.py", "LightModel/Profiles/interpolation.py", "LensModel/convergence_integrals.py", "LightModel/Profiles/shapelets.py", "LightModel/Profiles/starlets.py", "LensModel/Profiles/radial_interpolated.py", "Util/multi_gauss_expansion.py", "LensModel/Profiles/gauss_decomposition.py"],
  [("grid interpolation", "LensModel/Profiles/interpol.py"), ("integral transforms", "LensModel/convergence_integrals.py")],
  ["LensModel INTERPOL, LightModel INTERPOL/SHAPELETS/SLIT_STARLETS, convergence_integrals"])
