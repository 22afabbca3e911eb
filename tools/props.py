#!/opt/venv/bin/python
"""Single source of properties.jsonl and MANIFEST.json (both are committed; this only regenerates them)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note="", level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files.split(),
                  mech=[m.split("@") for m in mech], note=note, level=level))


prop("C01", "Deflection fields are gradients of their lensing potentials",
     "For every lens profile that offers a lensing potential, the deflection it returns at a position is the gradient of that potential with respect to the position, for all admissible parameter values, profile centres and regions of the profile (inside and outside cores, scale and truncation radii, round and elliptical).",
     "inputs", "all positions away from singular points, all parameters in the profile's domain, every special-case branch",
     "Tests compare a few hard-coded points, mostly with centre at the origin and fixed ellipticity; a wrong branch, a missing centre shift or a wrong prefactor in potential or deflection only shows at other inputs.",
     "lenstronomy/LensModel/Profiles", ["function/derivatives of each profile@LensModel/Profiles/*.py"],
     "73 profiles; function and derivatives are executed symbolically and d(function)/dx - derivatives is decided as an identity on each path; profiles listed as sampled in the evidence are only executed numerically")

prop("C02", "Profile Hessians are the Jacobians of their deflection fields",
     "For every lens profile, the four second-derivative components it returns are the partial derivatives of its deflection (exactly for analytic profiles, to differencing accuracy otherwise), and for potential-derived profiles the two mixed components agree.",
     "inputs", "all positions away from singular points, all parameters in the profile's domain, every special-case branch",
     "Tests pin a few numbers per profile; the relation must hold for every centre, orientation, scale and radius.",
     "lenstronomy/LensModel/Profiles", ["hessian of each profile@LensModel/Profiles/*.py"],
     "84 profiles; analytic Hessians are proved against the symbolic derivative of the executed deflection code; finite-difference Hessians are proved to be difference quotients of an arbitrary deflection field")

prop("C03", "Masses, densities and deflections of spherical profiles agree",
     "For every spherically symmetric mass profile, the enclosed 3d mass is the integral of its 3d density over spheres, the enclosed projected mass is the integral of its surface density over circles, and the radial deflection at R is the projected mass within R divided by pi R; density normalisations and deflection normalisations convert back and forth without change.",
     "inputs", "all radii and all admissible parameters, every special-case branch",
     "Tests check a few radii and often compare against the same formula; the integral relations must hold for every radius, slope and scale radius, and are used by the dynamics and mass-unit code.",
     "lenstronomy/LensModel/Profiles", ["density/mass_3d/density_2d/mass_2d/rho2alpha/alpha2rho@LensModel/Profiles/*.py"])

prop("C04", "A single-plane lens model is the sum of its components",
     "Potential, deflection and Hessian of a lens model equal the sum of the same quantity over its component profiles with each component's own parameters (or over the selected subset of components), and the derived quantities - ray-shooting, convergence, shear, magnification, Fermat potential, arrival time differences - are the standard functions of those sums.",
     "inputs configurations", "any list of components (repeated or not), any parameters and positions, any subset selection",
     "Tests use one or two components and default selections; an index slip between components and parameters shows only for particular lists.",
     "lenstronomy/LensModel/lens_model.py lenstronomy/LensModel/single_plane.py lenstronomy/LensModel/profile_list_base.py",
     ["SinglePlane.potential/alpha/hessian@LensModel/single_plane.py", "LensModel.kappa/gamma/magnification/fermat_potential@LensModel/lens_model.py"])

prop("C05", "Multi-plane ray tracing obeys the lens-plane recursion",
     "A ray traced through lens planes at different redshifts is deflected at each plane in order of redshift, with transverse positions propagated by the angular-diameter distances between consecutive planes and deflections rescaled to each plane; partial ray-shooting composes, a single plane reproduces the single-plane model, and the order in which components are listed does not matter.",
     "inputs configurations", "any number and order of components and redshifts, any start and end redshift, any position",
     "Tests use two or three fixed redshift configurations.",
     "lenstronomy/LensModel/MultiPlane lenstronomy/LensModel/lens_model.py", ["MultiPlaneBase.ray_shooting_partial_comoving@LensModel/MultiPlane/multi_plane_base.py", "MultiPlane@LensModel/MultiPlane/multi_plane.py"])

prop("C06", "Parameter vectors and model parameters convert back and forth losslessly",
     "Converting model keyword arguments to the flat parameter vector and back returns every non-fixed value unchanged and every fixed value at its fixed setting; the vector has exactly as many entries as names and bounds, each entry belongs to the parameter of the same name, and no parameter is dropped, duplicated or swapped.",
     "inputs configurations", "any combination of lens, source, lens-light, point-source and cosmological components with any subset of fixed parameters, any values",
     "Tests instantiate a few model combinations; an off-by-one in the vector layout appears only with particular combinations of fixed and free parameters.",
     "lenstronomy/Sampling/parameters.py lenstronomy/LensModel/lens_param.py lenstronomy/LightModel/light_param.py lenstronomy/PointSource/point_source_param.py lenstronomy/Sampling/special_param.py lenstronomy/Sampling/param_group.py",
     ["Param.args2kwargs/kwargs2args@Sampling/parameters.py", "LensParam/LightParam/PointSourceParam/SpecialParam get_params/set_params@Sampling/*"])

prop("C07", "Shared-parameter constraints are imposed exactly",
     "When parameters of different components are declared joint (lens with lens, light with light, lens with light, point source with either, and so on), every evaluated model carries equal values for the linked parameters taken from the declared reference, all other parameters are untouched, and linked parameters are not counted as free.",
     "inputs configurations", "any declared set of joint parameters and any parameter vector",
     "Tests exercise one declaration at a time with few components.",
     "lenstronomy/Sampling/parameters.py", ["Param._update_joint_param and joint constructor options@Sampling/parameters.py"])

prop("C08", "Light models are linear sums of their components and basis functions",
     "The surface brightness of a light model is the sum over its components (or the selected subset) with each component's own parameters; it equals the basis functions it splits into weighted by the linear amplitudes, the number of basis functions equals the number of linear amplitudes announced, and writing solved amplitudes back assigns each to the component it was solved for.",
     "inputs configurations", "any list of light components, any parameters, positions and subset selections",
     "Tests use a few fixed lists; amplitude index accounting errors appear only for particular combinations of multi-amplitude profiles.",
     "lenstronomy/LightModel", ["LightModelBase.surface_brightness@LightModel/light_model_base.py", "LinearBasis.functions_split/num_param_linear/update_linear@LightModel/linear_basis.py"])

prop("C09", "Shape, shear and coordinate parameterisations convert consistently",
     "Conversions between equivalent parameterisations - axis ratio and angle with ellipticity moduli, shear polar with Cartesian components, Cartesian with polar coordinates, rotations, shear with flexion and stretch quantities - are mutual inverses on their domain, and the elliptical coordinate transforms preserve what they claim to preserve.",
     "inputs", "all values in the domain of the parameterisation",
     "Tests convert a handful of values.",
     "lenstronomy/Util/param_util.py lenstronomy/Util/util.py lenstronomy/LensModel/Util", ["phi_q2_ellipticity/ellipticity2phi_q, shear_polar2cartesian/shear_cartesian2polar@Util/param_util.py", "rotate, map_coord2pix@Util/util.py"])

prop("C10", "Pixel and sky coordinates map to each other consistently",
     "Pixel-to-sky and sky-to-pixel transforms of an image grid are mutual inverses for every linear transform, the pixel grid coordinates equal the transform applied to the pixel indices, and the derived grid quantities (pixel width, pixel area, sub-sampled grids and cut-outs) describe the same transform.",
     "inputs", "all invertible linear transforms, offsets, grid sizes and super-sampling factors",
     "Tests use identity-like transforms with one pixel scale.",
     "lenstronomy/Data/coord_transforms.py lenstronomy/Data/pixel_grid.py lenstronomy/Util/util.py lenstronomy/ImSim/Numerics/grid.py", ["Coordinates.map_pix2coord/map_coord2pix@Data/coord_transforms.py", "PixelGrid@Data/pixel_grid.py", "RegularGrid@ImSim/Numerics/grid.py"])

prop("C11", "The imaging likelihood is the masked Gaussian log-likelihood",
     "The image log-likelihood is minus half the sum over unmasked pixels of squared residuals divided by the noise variance (plus, when requested, the marginalisation term of the linear amplitudes and the positive-flux penalty), where the variance combines background, Poisson and additional model error terms as configured; masked pixels and their values have no influence.",
     "inputs configurations", "all data, model, exposure, mask and error arrays",
     "Tests check a few images; the formula must hold for each pixel and each configuration.",
     "lenstronomy/Data/imaging_data.py lenstronomy/Data/image_noise.py lenstronomy/ImSim/image_model.py", ["ImageData.log_likelihood@Data/imaging_data.py", "covariance_matrix@Data/image_noise.py"])

prop("C12", "Linear amplitudes solve the weighted least-squares problem",
     "The solved linear amplitudes minimise the variance-weighted squared residual between data and linear response (they satisfy the weighted normal equations), the reported covariance is the inverse of the weighted normal matrix, and the reconstructed image is the response applied to the amplitudes.",
     "inputs", "all responses of full rank, data and variances",
     "Tests recover the amplitudes of one simulated image.",
     "lenstronomy/ImSim/de_lens.py lenstronomy/ImSim/image_linear_solve.py", ["get_param_WLS@ImSim/de_lens.py", "ImageLinearFit@ImSim/image_linear_solve.py"])

prop("C13", "Model images are the sum of their parts",
     "The simulated image is the sum of the lensed source, lens light and point source contributions, each of which can be switched off independently; it is linear in all surface-brightness amplitudes, the linear response applied to the amplitudes reproduces it, and the order of bands, frames and components is respected.",
     "inputs configurations", "any combination of light components, masks, numerics settings and switches",
     "Tests simulate a few fixed configurations.",
     "lenstronomy/ImSim", ["ImageModel.image/source_surface_brightness/lens_surface_brightness/point_source@ImSim/image_model.py", "ImageLinearFit.linear_response_matrix@ImSim/image_linear_solve.py"])

prop("C14", "PSF handling and resampling conserve flux and alignment",
     "Kernel normalisation, pixel-size changes, cutting, and averaging preserve total flux and the central pixel, image re-binning conserves the mean or sum it claims to conserve, and convolution with a kernel is linear, equals the direct discrete convolution, and leaves an image unchanged for a single-pixel kernel.",
     "inputs", "all kernels and images of admissible (odd / divisible) sizes",
     "Tests use symmetric Gaussian kernels, which hide transposition, shifts and normalisation errors.",
     "lenstronomy/Util/kernel_util.py lenstronomy/Util/image_util.py lenstronomy/ImSim/Numerics lenstronomy/Data/psf.py", ["kernel_norm/cut_psf/degrade_kernel/averaging@Util/kernel_util.py", "PixelKernelConvolution@ImSim/Numerics/convolution.py"])

prop("C15", "Cosmological and lensing unit conversions are consistent",
     "Conversions between physical and angular or convergence units (arcsec with Mpc, mass with deflection, velocity dispersion with Einstein radius, time delay with Fermat potential, NFW mass-concentration with lensing parameters) are mutual inverses and follow from the same distances and critical surface density; distance ratios and time-delay distances are built from consistently ordered redshifts.",
     "inputs", "all positive distances, redshift orderings and parameters",
     "Tests compare rounded reference numbers for one cosmology.",
     "lenstronomy/Cosmo lenstronomy/Util/constants.py", ["LensCosmo@Cosmo/lens_cosmo.py", "Background@Cosmo/background.py", "NFWParam@Cosmo/nfw_param.py"])

prop("C16", "Samplers respect bounds and report what they evaluated",
     "Transformations between the unit cube and parameter space map bounds to bounds monotonically and invert each other, priors are added exactly once per declared prior, parameter vectors outside bounds are rejected with the penalty value, and the optimiser returns a best point whose reported likelihood is the likelihood of that point and which never gets worse over its history.",
     "inputs histories", "all bounds, parameter vectors, priors and random swarms",
     "Tests run a few iterations on one likelihood.",
     "lenstronomy/Sampling lenstronomy/Util/sampling_util.py", ["ParticleSwarmOptimizer@Sampling/Samplers/pso.py", "unit2uniform/uniform2unit@Util/sampling_util.py", "PriorLikelihood@Sampling/Likelihoods/prior_likelihood.py", "LikelihoodModule@Sampling/likelihood.py"])

prop("C17", "Workflow updates change exactly what they name",
     "In a fitting sequence, updating options, limits, fixed or released parameters and start values changes exactly the named parameters of the named components and nothing else, the current best-fit state is what the last step produced, and the state returned to the user round-trips through the parameter vector.",
     "histories", "any sequence of update operations on any model",
     "Tests apply one update at a time.",
     "lenstronomy/Workflow/update_manager.py lenstronomy/Workflow/fitting_sequence.py", ["UpdateManager@Workflow/update_manager.py", "FittingSequence@Workflow/fitting_sequence.py"])

prop("C18", "Flux, magnitude and noise unit conversions are consistent",
     "Magnitudes and amplitudes convert by the zero point as mutual inverses, adding components in magnitudes adds their fluxes, and observation noise estimates scale with exposure time, read noise, sky level and gain as Poisson and Gaussian statistics require.",
     "inputs", "all magnitudes, zero points, exposure settings and amplitudes",
     "Tests compare single numbers.",
     "lenstronomy/Util/data_util.py lenstronomy/SimulationAPI", ["magnitude2cps/cps2magnitude/bkg_noise@Util/data_util.py", "SingleBand@SimulationAPI/observation_api.py", "ModelAPI.magnitude2amplitude@SimulationAPI/sim_api.py"])

prop("C19", "Point sources and lens-equation solutions map back to the source",
     "Reported image positions of a point source ray-shoot back to the source position within the stated precision, intrinsic and image amplitudes are related by the magnification, point-source bookkeeping keeps each source with its own positions and amplitudes, and the constraint solvers return lens parameters under which the given image positions share one source position.",
     "inputs configurations", "any lens model, source position, image configuration and list of point-source types",
     "Tests solve a few systems.",
     "lenstronomy/PointSource lenstronomy/LensModel/Solver", ["PointSource@PointSource/point_source.py", "PSBase types@PointSource/Types", "LensEquationSolver@LensModel/Solver/lens_equation_solver.py", "Solver2Point/Solver4Point@LensModel/Solver"])

prop("C20", "Kinematic apertures, anisotropies and Jeans kernels are consistent",
     "Aperture selection assigns each position to exactly the bins whose geometry contains it, the anisotropy profiles and their projection kernels satisfy their defining relations (including limiting cases agreeing between parameterisations), and light and mass profiles used by the dynamics are those of the lens and light models.",
     "inputs", "all positions, aperture geometries, radii and anisotropy parameters",
     "Tests check a few positions and radii.",
     "lenstronomy/GalKin", ["aperture types@GalKin/aperture_types.py", "anisotropy models@GalKin/anisotropy.py"])

prop("C21", "Auxiliary likelihoods are the Gaussian statistics they document",
     "The time-delay, flux-ratio, astrometric, kinematic and tracer likelihoods equal the multivariate Gaussian log-likelihood of the differences they document (relative to the stated reference image, with the stated covariance), and the total log-likelihood is the sum of the enabled terms.",
     "inputs configurations", "all measured values, covariances, models and enabled-term combinations",
     "Tests check perfect-match or single-offset cases.",
     "lenstronomy/Sampling", ["TimeDelayLikelihood/FluxRatioLikelihood/PositionLikelihood@Sampling/Likelihoods", "LikelihoodModule.logL@Sampling/likelihood.py"])

prop("C22", "Evaluations are pure and independent of call history",
     "Evaluating a lens, light, point-source or image model or a likelihood never modifies the parameters or arrays passed in, and returns the same result regardless of which other evaluations happened before on the same object, including switching a lens model to and from its precomputed static mode. The one documented exception is the solution of the linear amplitudes, which writes the solved amplitudes into the parameters passed in; arrays that the caller changes in place between two evaluations are outside the claim.",
     "histories inputs", "any sequence of evaluations on one object with any parameters",
     "Tests evaluate each object once or twice in a fixed order.",
     "lenstronomy/LensModel lenstronomy/LightModel lenstronomy/PointSource lenstronomy/ImSim lenstronomy/Sampling", ["set_static/set_dynamic@LensModel/profile_list_base.py", "position caching@PointSource/point_source.py"])

prop("C23", "Light profiles are the documented functions of the elliptical radius",
     "Each light profile equals its documented analytic function of the radius about its centre; elliptical versions take the circular function at the elliptical radius defined by (e1, e2) with the documented averaging; three-dimensional light distributions project to the surface brightness; total fluxes are its integral; interpolated, starlet and shapelet representations reproduce the pixel values or coefficients they are built from.",
     "inputs", "all positions and all admissible parameters (amplitudes, sizes, slopes, ellipticities, centres)",
     "Tests pin a few numbers.",
     "lenstronomy/LightModel/Profiles", ["profile.function/light_3d/total_flux@LightModel/Profiles/*.py", "SersicUtil@LensModel/Profiles/sersic_utils.py"])

prop("C24", "Evaluating an array of positions equals evaluating each position",
     "Every lens and light profile evaluated on an array of positions returns, element by element and in the same order, what it returns for each position alone (a quantity that does not depend on the position, such as the Hessian of a mass sheet, may be returned once for all of them).",
     "inputs", "all positions (including those falling into different branches of one call), all parameters",
     "Tests compare arrays and scalars at few points within a single branch.",
     "lenstronomy/LensModel/Profiles lenstronomy/LightModel/Profiles", ["mask-indexed evaluation@LensModel/Profiles/*.py, LightModel/Profiles/*.py"])

prop("C25", "Derived lens and light quantities follow from their models",
     "Quantities derived from a lens or light model - stretches and their directions, curved-arc descriptions, critical curves and caustics, finite-source magnifications, Einstein radii, masses within apertures, density slopes, overdensity masses, half-light radii, moments, radial averages, masks, and the lensing potential of a convergence map - are those of the model they are computed from: they refer to the selected components and the stated centre, and obey their defining relation to within the stated grid resolution.",
     "inputs configurations", "any lens or light model, any centre, aperture, subset of components",
     "Tests use lenses centred on the origin, square images and one component, where a quantity taken about the wrong centre or from the wrong components is the same.",
     "lenstronomy/LensModel/lens_model_extensions.py lenstronomy/LensModel/convergence_integrals.py lenstronomy/LensModel/profile_integrals.py lenstronomy/Analysis/lens_profile.py lenstronomy/Analysis/light_profile.py lenstronomy/Util/analysis_util.py lenstronomy/Util/mask_util.py lenstronomy/Util/prob_density.py",
     ["LensModelExtensions@LensModel/lens_model_extensions.py", "LensProfileAnalysis@Analysis/lens_profile.py", "LightProfileAnalysis@Analysis/light_profile.py"],
     "definitions with an arbitrary (uninterpreted) lens are proved; grid-based quantities (critical curves, radii, convolved potentials) are bounded checks on sampled models")

prop("C26", "PSF reconstruction keeps a valid kernel and does not worsen the fit",
     "The iterative reconstruction of the point spread function returns the kernel of the best likelihood met (the given one if no iteration improves the fit), together with its error map or the given one as requested; each iteration combines normalised, non-negative estimates from the residuals of each point source in units of its flux - only from unmasked pixels which are not blocked by neighbouring sources - with the previous kernel, so that flux is kept, the true kernel of noise-free data is a fixed point, and the arguments are not modified.",
     "inputs histories", "any residuals, masks, positions, amplitudes, kernels and any history of likelihoods over the iterations",
     "Tests run a few iterations on one simulated system with an unmasked image and check that the kernel moves towards the truth.",
     "lenstronomy/Workflow/psf_fitting.py lenstronomy/Util/kernel_util.py", ["PsfFitting.update_iterative/update_psf/combine_psf/psf_estimate_individual@Workflow/psf_fitting.py"],
     "selection of the best iteration, combination of kernels, masks and single-star estimates are proved for arbitrary values on small grids; sub-pixel shifts, error maps and full reconstructions are bounded checks on sampled data")


def main():
    claimed = [p for p in P if os.path.exists(os.path.join(V, "contracts", p["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                    quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                    anchors=dict(files=p["files"], mechanism=[dict(name=m[0], where=m[1]) for m in p["mech"]]))) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    checks = []
    for p in claimed:
        checks.append(dict(property=p["id"], quick_cmd="/opt/venv/bin/python run.py check %s --tier quick" % p["id"],
                           thorough_cmd="/opt/venv/bin/python run.py check %s --tier thorough" % p["id"],
                           technique="contract-based deductive verification: contracts on the real functions, symbolic execution of the source in /repo on every run, obligations discharged by identity testing over GF(p) and z3; counterexamples replayed on the plain code",
                           level=p["level"], level_note=p["note"]))
    na = [dict(property=p["id"], reason="no check built yet") for p in P if p not in claimed]
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, mpmath'", checks=checks, not_applicable=na),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
