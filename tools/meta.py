"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after adding a check)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pybsm/"
OF, RF, MF, SF = S + "otf/functional.py", S + "radiance/functional.py", S + "metrics/functional.py", S + "simulation/functional.py"
G, N, UT, SC, SE, RI = S + "geospatial.py", S + "noise.py", S + "utils.py", S + "simulation/scenario.py", S + "simulation/sensor.py", S + "simulation/ref_image.py"


def p(id, title, st, over, text, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


PROPS = []
I, H, C = "inputs", "histories", "configurations"

p("C01", "Every OTF is 1 at DC, bounded, and keeps its symmetries",
  "Every component optical transfer function is 1 at zero frequency for every valid parameter set and has magnitude at most 1 at every frequency up to the diffraction cutoff (detector, motion, diffusion and clocking forms at every frequency; the filter form is bounded by its kernel's absolute sum). Passive components are even in each frequency, and swapping the two frequency axes together with the two axes' parameters swaps the result. The result has the shape of the frequency grid and is finite.",
  [I], "all frequencies and all parameter values in the documented ranges, for every component OTF", "tests compare a handful of stored points per OTF; invariants must hold between and beyond them, including on the axes and the origin",
  [OF], [("component OTFs", OF)])
p("C02", "Clear and annular aperture OTF equals the pupil autocorrelation",
  "For every wavelength, diameter, obscuration and frequency, the aperture OTF equals the normalised overlap of the (annular) pupil with its shifted copy. It is finite and continuous across the region boundaries and zero beyond cutoff. A call never depends on earlier calls and leaves its frequency arrays alone.",
  [I, H], "all wavelengths, diameters, obscurations 0 to 0.99 and frequencies; repeated calls", "the closed form is split over four frequency regions; tests sample a few points and one obscuration, not the region edges",
  [OF], [("circular_aperture_OTF", OF + ":circular_aperture_OTF")])
p("C03", "Detector, motion, diffusion, clocking, wavefront OTFs equal their closed forms",
  "Detector, aggregated detector, time-delay-integration, drift, jitter, Gaussian, carrier diffusion, charge-transfer, wavefront, and defocus-blur OTFs equal their published closed forms at every frequency and parameter value. Each parameter acts on its own axis only. Calls are repeatable and leave inputs alone.",
  [I, H], "all frequencies on and off the axes, all parameter values in range, repeated calls with different parameters", "tests check stored values at one parameter set and mostly at frequencies where x and y coincide",
  [OF], [("detector_OTF", OF + ":detector_OTF"), ("detector_OTF_with_aggregation", OF + ":detector_OTF_with_aggregation"), ("tdi_OTF", OF + ":tdi_OTF"),
         ("cte_OTF", OF + ":cte_OTF"), ("diffusion_OTF", OF + ":diffusion_OTF"), ("wavefront_OTF", OF + ":wavefront_OTF"), ("defocus_OTF", OF + ":defocus_OTF"),
         ("gaussian/jitter/drift", OF + ":gaussian_OTF")])
p("C04", "Defocused circular aperture OTF follows Hopkins' series",
  "For every focal length, diameter, wavelength, frequency and defocus, the defocused aperture OTF equals Hopkins' Bessel series (truncated as published). At zero defocus it is the unobscured in-focus aperture OTF. It is zero beyond cutoff and 1 at the origin.",
  [I], "all frequencies, apertures, wavelengths and defocus within 1 mm", "a stored value at one defocus cannot tell a wrong sign or argument that vanishes there",
  [OF], [("circular_aperture_OTF_with_defocus", OF + ":circular_aperture_OTF_with_defocus")])
p("C05", "Atmospheric turbulence OTFs follow Fried and Hufnagel-Valley",
  "The Hufnagel-Valley profile, the coherence diameter, the long- and short-exposure turbulence OTF and its wind-speed mix equal their closed forms for every input. The polychromatic turbulence OTF is the weight-averaged monochromatic OTF with the coherence diameter scaled by wavelength to the 6/5, for any number and order of wavelengths and weights. A path without turbulence blurs nothing.",
  [I, C], "all altitudes, ranges, winds, apertures, wavelength sets and weights, horizontal and slant paths", "tests use one path and two wavelengths; scaling and mixing laws must hold for every path, weight vector and exposure",
  [OF, G], [("polychromatic_turbulence_OTF", OF + ":polychromatic_turbulence_OTF"), ("turbulence_OTF", OF + ":turbulence_OTF"), ("wind_speed_turbulence_OTF", OF + ":wind_speed_turbulence_OTF"),
            ("coherence_diameter", OF + ":coherence_diameter"), ("hufnagel_valley_turbulence_profile", OF + ":hufnagel_valley_turbulence_profile")])
p("C06", "Filter OTF is the kernel's discrete-time Fourier transform",
  "For every digital filter kernel and sample spacing, the filter OTF approximates the kernel's discrete-time Fourier transform within the resolution of its interpolation grid, periodically repeated beyond Nyquist. It is linear in the kernel. Row and column offsets of the kernel act on the matching frequency axes.",
  [I], "all kernel values for the listed kernel shapes, frequencies inside and beyond Nyquist", "tests use one fixed 3x3 kernel; orientation, wrap-around and linearity need every kernel",
  [OF], [("filter_OTF", OF + ":filter_OTF")])
p("C07", "Wavelength weighting is a normalised average",
  "Weighting an OTF over wavelengths returns the sum of the monochromatic OTFs times their weights divided by the sum of the weights, for any number and order of wavelengths. It is unchanged when all weights are scaled, and equals the monochromatic OTF when all weight sits on one wavelength. It evaluates the callback at the given wavelengths only and leaves the arrays alone.",
  [I, C], "all wavelength sets and weight vectors with positive sum, all callback values", "tests use two fixed wavelengths",
  [OF], [("weighted_by_wavelength", OF + ":weighted_by_wavelength")])
p("C08", "System OTF is the product of correctly parameterised components",
  "The system OTF of a sensor in a scenario equals the product of the component OTFs it reports: aperture, turbulence, detector, jitter, drift, wavefront and filter. Each component uses the sensor and scenario parameters of its own axis, the incidence geometry and the altitude it is meant for. Sensor, scenario and inputs are left alone.",
  [I, C], "all sensor and scenario parameter values, kernels present or absent, one or several wavelengths", "tests compare one sensor whose x and y parameters coincide, so swapped or dropped parameters go unseen",
  [OF], [("common_OTFs", OF + ":common_OTFs")])
p("C09", "PSF of an OTF conserves energy and is centred",
  "The point spread function made from an OTF is the real part of its inverse transform with zero frequency in the middle, resampled linearly to the requested spacing, cut to a central block holding at least 95% of its energy, and normalised to unit sum. A flat OTF gives a centred impulse. Even and odd, small and complex OTFs all work, and multiples of an OTF give the same PSF.",
  [I, C], "all OTF values of the listed sizes, input and output spacings", "tests use a single large OTF",
  [OF], [("otf_to_psf", OF + ":otf_to_psf")])
p("C10", "Applying an OTF to an image blurs and resamples it faithfully",
  "Applying an OTF to an image convolves the image with the PSF sampled at the reference image's own angular spacing, mirrored at the borders, and resamples it to the sensor's field of view by linear interpolation; the PSF is resampled alike. A constant image stays constant, the operation is linear in the image, an OTF of pure phase shifts the image the way its phase says, and the size of the result is the image's size times the ratio of the spacings, rounded, in each direction. Inputs are left alone.",
  [I, C], "all pixel values of the listed image sizes, spacings and ranges", "tests compare against one stored picture with tolerance",
  [OF], [("apply_otf_to_image", OF + ":apply_otf_to_image"), ("resample_2D", OF + ":resample_2D")])
p("C11", "Slicing an OTF reads it along the requested direction",
  "A one-dimensional slice of a two-dimensional OTF starts at zero frequency and reads the OTF along the requested angle at the grid spacing, with u along columns and v upwards along rows. Angles 0 and 90 degrees give the exact half row and half column. Rotating the OTF and the angle together changes nothing.",
  [I], "all OTF values on the listed grids and all angles listed", "tests use symmetric OTFs, for which orientation mistakes are invisible",
  [OF], [("slice_otf", OF + ":slice_otf")])
p("C12", "Slant-path geometry is consistent on the spherical Earth",
  "Slant range, nadir angle and altitude along the path are the chord, angle and altitudes of one and the same triangle with the Earth's centre, for every target height, sensor height and ground range. The altitude profile starts at the target, ends at the sensor and its path starts at zero and ends at the slant range. Ground sample distance is range times the field of view, also for vertical and very short lines of sight.",
  [I], "all heights and ranges of the triangle, including vertical and near-degenerate lines of sight", "tests use a few round configurations; near-vertical geometry loses precision",
  [G], [("altitude_along_slant_path", G + ":altitude_along_slant_path"), ("nadir_angle", G + ":nadir_angle"), ("curved_earth_slant_range", G + ":curved_earth_slant_range"), ("ground_sample_distance", G + ":ground_sample_distance")])
p("C13", "Thermal self-emission follows Planck and the optical geometry",
  "Blackbody radiance equals Planck's law for every wavelength and temperature. Cold shield, cold stop and optics self-emission are that radiance times emissivity, transmission and the exact solid-angle factor each sees. Cold surfaces emit nothing and results are finite.",
  [I], "all wavelengths 0.3-20 um, temperatures 20-2000 K, apertures and focal lengths", "tests sample a few values; the solid angle terms need all f-numbers",
  [RF], [("blackbody_radiance", RF + ":blackbody_radiance"), ("cold_shield_self_emission", RF + ":cold_shield_self_emission"), ("cold_stop_self_emission", RF + ":cold_stop_self_emission"), ("optics_self_emission", RF + ":optics_self_emission")])
p("C14", "Photoelectron rate is the band integral of the optics' throughput",
  "The focal-plane irradiance is aperture radiance times transmission times the f-number factor plus other irradiance, the spectral rate is that times photons per joule, quantum efficiency and detector area, and the total rate is its trapezoid integral plus dark current. This holds for every number and spacing of wavelengths. Inputs are left alone.",
  [I, C], "all spectra on the listed numbers of wavelengths, uneven spacing, all optics", "tests use one spectrum",
  [RF], [("signal_rate", RF + ":signal_rate"), ("photon_detection_rate", RF + ":photon_detection_rate"), ("at_focal_plane_irradiance", RF + ":at_focal_plane_irradiance"), ("focal_plane_integrated_irradiance", RF + ":focal_plane_integrated_irradiance")])
p("C15", "At-aperture radiance combines reflection, emission and path terms",
  "The radiance of a target with any reflectance and temperature is the path scatter and path emission plus reflected ground radiance scaled from the reference reflectance plus transmitted self-emission of one minus the reflectance, at each wavelength. The metric's scene radiances use the documented reflectances for reflective bands and the documented 2 K contrast for emissive bands. The atmosphere table is left alone.",
  [I], "all atmosphere tables on the listed wavelengths, reflectances and temperatures", "tests use a stored table and one reflectance",
  [RF], [("total_radiance", RF + ":total_radiance"), ("giqe_radiance", RF + ":giqe_radiance")])
p("C16", "Signal-to-noise bookkeeping of a photon detector is exact",
  "Every reported term (transmission, quantum efficiency, rates, electrons, exposure, well fraction, contrast, each noise, total noise and ratio) follows from the sensor's parameters and the scene radiances. The fullest well never exceeds the allowed fill: exposure is shortened, never lengthened, and by the same factor for target and background. Equal radiances give zero signal, and sensor and inputs are left alone.",
  [I, C], "all sensor parameters and radiances, saturated or not, scene wavelengths inside and beyond the sensor's tables", "tests check one unsaturated sensor; saturation, dark-limited and target-darker cases need all inputs",
  [RF, N], [("photon_detector_SNR", RF + ":photon_detector_SNR"), ("check_well_fill", RF + ":check_well_fill")])
p("C17", "Reflectance to photoelectrons is linear, monotone and uses its arguments",
  "The photoelectron count of a target reflectance is the well-limited band integral of that reflectance's radiance at the requested temperature through the sensor's optics, plus dark current. The lookup curve covers 0 to 1 in 100 even steps, is linear, increases with reflectance when reflected light dominates and never exceeds the well: a saturated curve is scaled down as a whole. The requested integration time and target temperature are used, and only wavelengths inside the optics table; sensor and atmosphere are left alone.",
  [I, C], "all exposures, temperatures, atmosphere values and sensor parameters", "tests use one atmosphere at the default temperature",
  [RF], [("reflectance_to_photoelectrons", RF + ":reflectance_to_photoelectrons")])
p("C18", "Spectral resampling is linear interpolation with zeros outside",
  "Resampling a spectrum onto new wavelengths interpolates linearly between its samples, reproduces the samples and is zero outside them, for every order of the requested wavelengths. Constant spectra stay constant inside the range. Inputs are left alone.",
  [I, C], "all spectra and requested wavelengths for the listed sizes", "tests check one grid",
  [RF], [("resample_by_wavelength", RF + ":resample_by_wavelength")])
p("C19", "Database lookup returns exactly the stored atmosphere",
  "For every altitude, ground range and haze in the database, the loaded table has the record stored for exactly that key: wavelength, transmission, path emission, and radiances with their documented units and columns. Invalid keys fail rather than return another record. Nothing is remembered between calls.",
  [I, H], "all database keys and all record contents", "tests have no atmosphere files beyond stubs and try one key",
  [UT], [("load_database_atmosphere_no_interp", UT + ":load_database_atmosphere_no_interp")])
p("C20", "Interpolated atmospheres are exact on nodes and bracketed between",
  "An interpolated atmosphere equals the stored record at database nodes, lies between the two bracketing records otherwise, and is linear in ground range and altitude between neighbouring nodes. Every in-range altitude and ground range works, including the extremes. Wavelengths are passed through unchanged.",
  [I], "all altitudes and ranges inside the database, all record contents", "tests check one interpolated point against a stored file",
  [UT], [("load_database_atmosphere", UT + ":load_database_atmosphere")])
p("C21", "A scenario never serves a stale atmosphere",
  "After any sequence of changes to haze, altitude or ground range and of reads, on scenarios with or without interpolation, the scenario's atmosphere is the one for its current parameters, looked up in the mode chosen at construction. Reading twice without a change gives the same table. Two scenarios never share state.",
  [H], "all interleavings of setters and reads up to the stated length, with arbitrary parameter values", "tests set and read once; staleness needs sequences",
  [SC], [("Scenario.atm/set_atmosphere", SC)])
p("C22", "GIQE 3, 4 and 5 equal their published equations",
  "The three image quality equations equal their published forms for every edge response, ground sample distance, overshoot, noise gain, signal-to-noise ratio and elevation angle, with the coefficients switching exactly at edge response 0.9 for version 4. Quality never improves with coarser sampling, and never worsens with a higher signal-to-noise ratio in versions 3 and 4. The results are finite for valid inputs.",
  [I], "all equation inputs, both coefficient branches", "tests check a few points, none at the switch",
  [MF], [("giqe3", MF + ":giqe3"), ("giqe4", MF + ":giqe4"), ("giqe5", MF + ":giqe5")])
p("C23", "Edge metrics follow from the MTF slice",
  "Edge response, relative edge response, edge overshoot and the geometric mean edge terms equal their defining integrals over the sampled MTF slice for every MTF, spacing and pixel size. Ground resolved distance is the ground distance where the MTF first falls to the noise threshold. Perfect MTF gives the ideal edge.",
  [I], "all MTF values on the listed slice lengths, spacings, pixel sizes, signal-to-noise ratios", "tests use one stored slice",
  [MF], [("edge_response", MF + ":edge_response"), ("relative_edge_response", MF + ":relative_edge_response"), ("edge_height_overshoot", MF + ":edge_height_overshoot"),
         ("giqe_edge_terms", MF + ":giqe_edge_terms"), ("giqe5_RER", MF + ":giqe5_RER"), ("ground_resolved_distance", MF + ":ground_resolved_distance")])
p("C24", "The GIQE 3/4 pipeline hands every quantity to where it belongs",
  "Evaluating image quality for a sensor and scenario uses that scenario's atmosphere, slant range and elevation, that sensor's pixel fields of view and kernel, and the OTF and signal-to-noise ratio computed from them. Each reported metric equals the composition of the documented parts. Sensor and scenario keep their values, except the documented target and background bookkeeping.",
  [I, C], "all part results (stubbed arbitrary) and sensor/scenario parameters, reflective and emissive bands", "tests compare the final numbers for one sensor, for which swaps can cancel",
  [MF], [("niirs", MF + ":niirs")])
p("C25", "The GIQE 5 pipeline does the same, and isolates the caller's sensor",
  "The version 5 pipeline composes the documented parts from the given sensor and scenario: atmosphere, range, signal-to-noise ratio, unsharpened OTF, edge responses of each axis, elevation. The caller's sensor, kernel included, and scenario are unchanged afterwards, except the documented target and background bookkeeping. Evaluating twice, or alternating with versions 3 and 4, gives the same metrics.",
  [I, H], "all part results and parameters; repeated evaluation", "tests evaluate once and never look at the sensor afterwards",
  [MF], [("niirs5", MF + ":niirs5")])
p("C26", "Noise gain and quantisation noise equal their definitions",
  "Noise gain is the root of the summed squared kernel for every unit-sum kernel, and kernels that do not sum to one are rejected up to rounding. Quantisation noise is the electron range over root twelve times the number of steps. Both are positive and finite.",
  [I], "all kernels of the listed sizes, ranges and bit depths", "tests use three kernels",
  [N], [("noise_gain", N + ":noise_gain"), ("quantization_noise", N + ":quantization_noise")])
p("C27", "Image calibration maps pixel values to reflectance linearly",
  "Pixel values map piecewise linearly onto reflectance so that the calibration values, in any order, get their reflectances exactly, extended beyond them and clipped to 0..1. The mapping is the same for every pixel, number type and image shape. Without calibration the image's 0.2 and 99.8 percentiles mean 5% and 95% reflectance, calibration values without their reflectances are refused, and the image is left alone.",
  [I, C], "all pixel values, calibration points and image shapes listed", "tests use one image",
  [SF, RI], [("img_to_reflectance", SF + ":img_to_reflectance"), ("RefImage.__init__", RI)])
p("C28", "The simulated image chain uses each stage's own inputs",
  "The true image is the reference image calibrated to reflectance and read off the sensor's photoelectron curve for the scenario's atmosphere; the blurred image is the true image blurred by the system OTF, evaluated at the wavelengths with positive weight on a grid reaching the shortest one's cutoff, at the scenario's range and the sensor's mean pixel field of view; the noisy image adds photon noise and then Gaussian noise of read and quantisation noise in quadrature. Each stage gets the given sensor, scenario, integration time and reference sampling, also when they change between runs. Inputs are left alone.",
  [I, C, H], "all part results (stubbed arbitrary), pixel values and parameters", "tests compare shapes and a stored picture",
  [SF], [("simulate_image", SF + ":simulate_image"), ("instantaneous_FOV", SF + ":instantaneous_FOV"), ("wiener_filter", SF + ":wiener_filter")])
p("C29", "Contrast stretch maps percentiles to the full 8-bit range",
  "The stretched picture maps the lower percentile to 0 and the upper percentile to 255 linearly, clips the rest and never wraps. The order of pixel values is kept and flat pictures give a defined result. The input is left alone.",
  [I], "all pixel values of the listed shapes and dtypes, all percentile settings listed", "tests use one image; wrap-around and flat images need specific pixels",
  [SF], [("stretch_contrast_convert_8bit", SF + ":stretch_contrast_convert_8bit")])
p("C30", "Sensors and scenarios store what they are given and derive defaults",
  "A sensor or scenario built from any parameters stores them unchanged, by name or by position. A sensor derives missing detector pitch and width from the given ones (square pixels, same fill factor in both directions) and starts with unit spectral tables on its own wavelengths. Explicit parameters always win over defaults, zero included, and two sensors or scenarios never share mutable state.",
  [I, C], "all parameter values, each optional parameter given or omitted", "tests build a few sensors",
  [SE, SC], [("Sensor.__init__", SE), ("Scenario.__init__", SC)])
p("C31", "Reference image capture parameters reproduce its sampling",
  "The capture sensor and scenario estimated for a reference image reproduce its ground sample distance at the given altitude in a nadir view without turbulence, motion or obscuration, with an aperture four times the diffraction limit of the visible band. The image, its calibration and its name are kept, and estimates never share state.",
  [I, H], "all sample distances and altitudes; several estimates", "tests use one image at two altitudes",
  [RI], [("RefImage.estimate_capture_parameters", RI)])
p("C32", "Functions are pure: no hidden state, no argument mutation",
  "Calling any public computation again with the same arguments after arbitrary other calls returns the same values. No computation modifies its array arguments or objects passed to it. Integer-valued inputs give the same values as floating-point ones.",
  [I, H], "all argument values in short call histories", "tests call each function once with fresh floating-point arguments",
  [OF, RF, MF], [("every public function of otf, radiance, noise, geospatial, metrics and simulation", OF)])
p("C33", "Plots show the reported curves, bars and extents",
  "The MTF plot shows, under its own name, the magnitude of each component OTF's slice in the requested direction against image-plane frequency in cycles/mm, with the Nyquist frequency marked. The noise plot shows each reported noise term under its own name, with counts and well fill in the title. A reference image is shown unchanged over its extent in metres, centred on the origin.",
  [I], "all metrics values of the listed grid sizes", "no test draws the MTF or noise plots",
  [MF, RI], [("plot_common_MTFs, plot_noise_terms", MF), ("RefImage.show", RI)])

TECH = "symbolic execution of the imported Python source with z3 (nlsat) deciding each assertion over all values in the stated bounds; sat answers replayed on the unpatched code"
NOTE = ("Bounded: array sizes and layouts per case are fixed (listed in evidence.coverage.cases), values are symbolic over stated ranges, arithmetic is over the reals up to a relative "
        "tolerance (1e-9 unless the case says otherwise); numpy/scipy/cv2 calls are replaced by models validated by replaying every explored path on the real code; transcendental functions "
        "are axiomatised. Anything left undecided is printed as INCONCLUSIVE and listed in the evidence.")


def main():
    have = [x for x in PROPS if os.path.exists(os.path.join(V, "checks", x["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for x in have:
            assert len(x["title"]) <= 80, x["title"]
            fh.write(json.dumps(x) + "\n")
    m = dict(version=1, setup_cmd="./check --selftest",
             checks=[dict(property=x["id"], quick_cmd="./check %s" % x["id"], thorough_cmd="VERIF_TIER=thorough ./check %s --tier thorough" % x["id"],
                          technique=TECH, level="model_checking", level_note=NOTE) for x in have],
             not_applicable=[], notes="No hooks are needed: the checks import /repo/src directly (PYBSM_REPO overrides the path).")
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
    print(len(have), "properties")


main()
