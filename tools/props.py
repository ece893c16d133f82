N1 = ("Bounded: every path of the encoded functions for the listed structural sizes and every real input value in the listed boxes; "
      "floating-point rounding, sizes beyond the bounds and the third-party libraries behind the stubs are trusted. ")

prop("C06", "Complex shear modulus models are consistent and dissipative",
     "For every damping ratio (values above 0.49 count as 0.49), unit weight and velocity, the complex shear modulus of a layer has imaginary part 2·G·D and a real part given by the selected model: G (seed), G·(1−D²) (kramer), or such that its magnitude equals G (dormieux); an unknown model is refused. "
     "The complex velocity squared times density equals the complex modulus, with positive real and non-negative imaginary part; profile arrays list the layers' values in order.",
     ["inputs", "configurations"], "all unit weights, velocities, damping values and curve values; the three models",
     "The tests evaluate a handful of numbers for the default model; the other two models and the clipping of large damping are not exercised.",
     ["site.py"], [("comp_shear_mod", "site.py:Layer"), ("comp_shear_vel", "site.py:Layer")], ["layer.comp_shear_mod", "layer.comp_shear_vel", "profile arrays"],
     N1 + "Profiles of up to 3 layers.")

prop("C07", "Strain-compatible layer properties follow the soil curves",
     "After a strain is assigned to a layer, its shear modulus is the small-strain modulus times the modulus-reduction curve at that strain and its damping is the layer's minimum damping plus the curve's damping minus the soil's small-strain damping; soils without curves keep their small-strain modulus and minimum damping. "
     "This depends only on the last strain, never changes the soil's curves or another layer sharing the soil, and resetting the layer or assigning its initial velocity or minimum damping restores the small-strain state.",
     ["inputs", "histories"], "all curve values, strains and layer properties; two successive strains, then reset or setter calls",
     "Tests set one strain on one layer; sequences of assignments, shared soil types and layer-specific minimum damping are not combined.",
     ["site.py"], [("strain setter", "site.py:Layer.strain"), ("_compute_damping", "site.py:Layer._compute_damping"), ("reset", "site.py:Layer.reset")],
     ["layer.shear_mod", "layer.damping", "layer.strain", "layer.adjusted_damping_curve"],
     N1 + "Curves of 3 points; one or two layers; two strain assignments.")

prop("C11", "Layer depths and overburden stay consistent under profile edits",
     "However a profile is built or edited (constructed, appended to, layers inserted, thicknesses changed), each layer's top depth is the sum of the thicknesses above it, its mid and base depths follow from its thickness, and its vertical stress at the top is the sum of unit weight times thickness of the layers above it. "
     "This also holds when layers are equal to one another.",
     ["inputs", "histories"], "all thicknesses, unit weights and velocities; every sequence of up to two (thorough: three) edits",
     "Tests check fixed profiles of distinct layers after at most one edit.",
     ["site.py"], [("update_layers", "site.py:Profile.update_layers"), ("append/insert", "site.py:Profile"), ("thickness setter", "site.py:Layer.thickness")],
     ["layer.depth", "layer.depth_mid", "layer.depth_base", "layer.stress_vert"],
     N1 + "2-4 layers (thorough: up to 8), up to 2 (thorough 3) edits.")

prop("C12", "Depth lookup and locations are exact",
     "Looking up any non-negative depth gives the layer that contains it and the distance below that layer's top, the half-space taking everything at or below its top, so that layer depth plus distance reconstructs the depth. "
     "A location requested by depth or by layer index (negative indices count from the base) refers to exactly that layer, its position and the requested wave field, also when layers are equal; requests with neither or both are refused.",
     ["inputs"], "all depths, thicknesses and indices; equal and distinct layers",
     "Tests look up a few depths of one profile with distinct layers.",
     ["site.py"], [("lookup_depth", "site.py:Profile.lookup_depth"), ("location", "site.py:Profile.location")],
     ["profile.lookup_depth()", "profile.location()"], N1 + "2-4 layers (thorough: up to 6).")

prop("C13", "Total, pore, effective and mean stress at any depth",
     "At any depth of any profile the total vertical stress is the integral of unit weight, the pore pressure is hydrostatic below the water table and zero above it, the effective stress is their difference, and the mean stress is (1+2·K0)/3 times the vertical stress. "
     "The stand-alone mean-effective-stress helper agrees with its depths, densities and water table, and total stress never decreases with depth.",
     ["inputs"], "all depths, unit weights, thicknesses, water tables and K0",
     "Tests use one profile, one water table and a few depths.",
     ["site.py", "tools.py"], [("stress_vert", "site.py:Layer.stress_vert"), ("pore_pressure", "site.py:Profile.pore_pressure"), ("calc_mean_eff_stress", "tools.py")],
     ["location.stress_vert()", "layer.stress_mean()", "profile.pore_pressure()"], N1 + "2-4 layers (thorough: 5).")

prop("C14", "Time-averaged velocities are travel-time exact",
     "The time-averaged velocity to any positive depth is that depth divided by the exact vertical travel time through the layers, the half-space extending to the depth where needed, and Vs30 is the same for 30 m. "
     "Slowness and travel time of each layer are the inverse velocity and thickness over velocity.",
     ["inputs"], "all thicknesses, velocities and depths, above and below the half-space",
     "Tests use one deep profile; profiles shallower than the averaging depth and depths on layer boundaries are not reached.",
     ["site.py"], [("time_average_vel", "site.py:Profile"), ("vs30", "site.py:Profile")], ["profile.time_average_vel()", "profile.vs30()"],
     N1 + "1-3 layers (thorough: 6) on a half-space.")

prop("C15", "Automatic discretisation conserves the profile",
     "Discretising a profile divides each selected layer (all, or only nonlinear ones) into the smallest number of equal sublayers that are no thicker than the wavelength fraction at the maximum frequency allows, keeps all other layers and the half-space, and gives every sublayer its parent's soil, initial velocity and minimum damping. "
     "Depths and overburden of the result equal those of the source, whose own state is unchanged, also when the source carries strain-compatible properties.",
     ["inputs"], "all thicknesses, velocities, frequencies and wavelength fractions giving up to the bounded number of sublayers",
     "Tests discretise one profile with default arguments.",
     ["site.py"], [("auto_discretize", "site.py:Profile.auto_discretize")], ["profile.auto_discretize()"],
     N1 + "2-3 layers of up to 3 sublayers (thorough: 4 layers, up to 8).")

prop("C16", "Copied and derived profiles are independent of their source",
     "Copying a profile or deriving one from it (discretisation, thickness, velocity, soil-type or half-space variation) leaves every observable of the source unchanged, and later edits or strain updates of the one never show in the other. "
     "A copy has the thicknesses, soils, initial velocities and minimum damping of its source and starts from small-strain properties.",
     ["inputs", "histories"], "all layer properties and strains; copy or derive, then edit either side",
     "Tests compare a few values right after copying an unstrained profile.",
     ["site.py", "variation.py"], [("copy", "site.py:Layer.copy"), ("auto_discretize", "site.py:Profile"), ("iter_varied_profiles", "variation.py")],
     ["layers and profile of source and copy"], N1 + "1-3 layers (thorough: 6) on a half-space.")

prop("C17", "Nonlinear curves interpolate log-linearly within limits",
     "A modulus-reduction or damping curve evaluated at any strain is the value on the straight line in log-strain between its neighbouring points, the end values outside its range, and is always clipped to the curve's limits (defaults 0.001-1 and 0-0.49). "
     "Arrays of strains and multi-column curves are evaluated element by element, and assigning new strains or values takes effect immediately.",
     ["inputs", "histories"], "all strains, curve values and (3-4 point) strain grids",
     "Tests evaluate a few strains of fixed curves.",
     ["site.py"], [("__call__", "site.py:NonlinearCurve"), ("_update", "site.py:NonlinearCurve")], ["curve(strain)"],
     N1 + "Curves of 3-5 points (thorough: 12); linear interpolation of scipy replaced by its contract.")

prop("C23", "Damping adjustment meets the target site attenuation",
     "The site attenuation of a profile is the sum of 2·damping·thickness/velocity over its layers, and adjusting the damping to a target makes the attenuation of the adjusted profile plus the scattering contribution equal that target, whichever layers are excluded. "
     "Excluded layers, thicknesses and velocities are untouched, the damping of adjusted layers is inversely proportional to velocity, the source is changed only when asked to, and unreachable targets are refused. "
     "The scattering contribution is estimated from the amplification of the undamped profile as documented.",
     ["inputs", "configurations"], "all thicknesses, velocities, damping values and reachable targets; every kind of exclusion, in place or not",
     "The tests adjust one profile without checking exclusions in the middle of a profile.",
     ["tools.py", "site.py"], [("adjust_damping_values", "tools.py"), ("incr_site_atten", "site.py:Layer")],
     ["profile.site_attenuation()", "layer.damping_min"],
     N1 + "2-4 layers (thorough: 6); within the adjustment the estimate of the scattering contribution is an arbitrary non-negative number, and the estimator is encoded separately on an arbitrary transfer function.")

W = "One frequency at a time (independence of frequencies is decided as well), "
prop("C01", "Interface continuity and free surface of the wave field",
     "For every layered profile, frequency and damping, the within motion and the shear stress are continuous across every layer interface, the ground surface carries no shear stress, and inside every layer the motion solves the wave equation with the layer's complex velocity. "
     "One damped layer on a damped elastic or rigid base therefore gives the closed-form amplification, and a homogeneous profile only delays and attenuates the incoming wave.",
     ["inputs"], "all thicknesses, velocities, unit weights, damping values and frequencies in wide boxes",
     "Tests compare a few computed spectra with stored results; agreement at other profiles does not follow.",
     ["propagation.py"], [("_calc_waves", "propagation.py:LinearElasticCalculator"), ("wave_at_location", "propagation.py"), ("calc_stress_tf", "propagation.py")],
     ["calc.wave_at_location()", "calc.calc_stress_tf()", "calc.calc_accel_tf()"], N1 + W + "2-4 layers (thorough: 6).")

prop("C02", "Transfer functions form a consistent algebra",
     "Acceleration transfer functions between any two locations are the ratio of the wave fields there: from a location to itself they are one, they compose and they invert. "
     "At every point the outcrop motion is twice the incoming one, at the surface outcrop and within motion agree, at zero frequency outcrop and within motions are equal everywhere, and no frequency's value depends on the other frequencies.",
     ["inputs", "configurations"], "all profiles, frequencies and location pairs (layer, depth, wave field)",
     "Tests use a few fixed pairs of locations.",
     ["propagation.py", "site.py"], [("calc_accel_tf", "propagation.py"), ("wave_at_location", "propagation.py")], ["calc.calc_accel_tf()", "calc.wave_at_location()"],
     N1 + "1-3 frequencies, 2-3 layers (thorough: 4).")

prop("C03", "Strain and stress transfer functions follow from the wave field",
     "The strain transfer function at any depth is g/(−ω²) times the depth derivative of the within motion divided by the motion at the input location, whatever layer, depth and wave field the input has. "
     "The stress transfer function is the strain times the complex modulus (damped) or shear modulus (undamped), and all of them are zero at zero frequency.",
     ["inputs", "configurations"], "all profiles, frequencies, output depths and input locations",
     "Tests check one configuration of input and output.",
     ["propagation.py"], [("calc_strain_tf", "propagation.py"), ("calc_stress_tf", "propagation.py")], ["calc.calc_strain_tf()", "calc.calc_stress_tf()"],
     N1 + W + "2-3 layers (thorough: 4).")

prop("C04", "Results do not depend on how layers are subdivided",
     "Splitting any layer, the half-space included, at any depth into two layers of the same material changes no acceleration or strain transfer function at any other point, at any frequency including zero.",
     ["inputs"], "all profiles, frequencies and split depths", "Tests never compare two discretisations.",
     ["propagation.py", "site.py"], [("_calc_waves", "propagation.py:LinearElasticCalculator")], ["calc.calc_accel_tf()", "calc.calc_strain_tf()"],
     N1 + W + "2-3 layers (thorough: 4), one split.")

prop("C05", "Results are the same with and without numba",
     "The package can be imported and used without numba, and the wave fields, transfer functions and depth averages computed with the numba kernels equal those of the pure-Python kernels for every profile, frequency (zero included) and pair of locations.",
     ["inputs", "configurations"], "all profiles, frequencies and locations; numba present or absent",
     "The test environment has numba, so the other kernels are never run, and no test compares the two.",
     ["propagation.py"], [("_calc_waves_numba", "propagation.py"), ("_calc_waves_python", "propagation.py"), ("my_trapz", "propagation.py")],
     ["calc.wave_at_location()", "calc.calc_accel_tf()", "calc.calc_strain_tf()"], N1 + "Three frequencies, 2-3 layers (thorough: 4); the numba kernels are executed as Python source, compilation by numba is trusted.")

prop("C08", "Equivalent-linear iteration ends strain-compatible",
     "The equivalent-linear calculation ends when the relative change (in percent, either direction) of modulus and damping of every layer falls below the tolerance, at the latest after the maximum number of iterations, and refuses with an error when strains had to be limited in two successive iterations. "
     "On return every nonlinear layer has the modulus and damping of its curves at its strain, which is the strain ratio times its peak strain but never above the strain limit, and a linear half-space keeps its small-strain properties.",
     ["inputs", "histories"], "all curve values, peak strains as an arbitrary function of the transfer function, tolerances, ratios; every sequence of iteration outcomes up to the bound",
     "Tests run a few motions that converge ordinarily; the limited, refused and stiffening iterations are not reached.",
     ["propagation.py", "site.py"], [("__call__", "propagation.py:EquivalentLinearCalculator"), ("relative_error", "site.py:IterativeValue")],
     ["layer.strain", "layer.shear_mod", "layer.damping", "layer.strain_max", "RuntimeError"],
     N1 + "One layer with up to 3 iterations (thorough: 4), two layers with 2 (thorough: 3); curves and the peak response are arbitrary functions of strain and transfer function.")

prop("C09", "Calculations are independent of history",
     "Running a linear-elastic, equivalent-linear or frequency-dependent calculator gives the same transfer functions, strains and layer properties whether calculator, profile and layers are fresh or were used before with another motion or left in a strained state. "
     "Motion, profile and input location reported by the calculator are those of the last call. A calculation asked to keep the layers (reset_layers=False) works on the properties they have.",
     ["histories", "inputs"], "all profiles, two motions, prior strains and calculations", "Tests run each calculator once per object.",
     ["propagation.py", "site.py"], [("__call__", "propagation.py:AbstractCalculator"), ("_estimate_strains", "propagation.py"), ("reset", "site.py:Layer.reset")],
     ["transfer functions", "layer properties after the call"], N1 + "One or two layers, up to 2 iterations (thorough: 3), one earlier calculation; curves, peaks and smoothers are arbitrary functions; of the frequency-dependent calculator the Konno-Ohmachi method only.")

prop("C10", "Frequency-dependent strains never exceed the effective strain",
     "In the frequency-dependent calculation every method's strain spectrum is non-negative and nowhere above the effective strain (strain ratio times peak strain); it has the shape of the strain amplitudes (zr15), of the smoothed ones made non-increasing with frequency (Konno-Ohmachi), or of the model fitted to the amplitudes above the average frequency (ka02). "
     "Strains are never above the strain limit, each frequency's modulus and damping are those of the layer's curves at its strain, and the iteration ends when they change by less than the tolerance at every frequency (or is refused when limited twice in a row).",
     ["inputs", "configurations"], "all strain spectra, Fourier amplitudes, ratios; the three methods",
     "Tests run stored motions and compare with stored output.",
     ["propagation.py"], [("_calc_strain", "propagation.py:FrequencyDependentEqlCalculator")], ["layer.strain", "layer.shear_mod"],
     N1 + "Three frequencies, one layer, one iteration for the strain spectrum (smoother, least-squares fit and peak response arbitrary); two frequencies and up to 2 iterations for convergence, with spectra of fixed shape, peaks and curves arbitrary.")

prop("C18", "Empirical nonlinear soil models follow their equations",
     "The Darendeli, Menq, Rollins, two-parameter, Alemu and Kishida models give, for every admissible index property, stress and strain, the published modulus reduction and damping as a function of strain, including the published minimum damping where none is given and Masing damping where the model uses it. "
     "Modulus reduction lies between 0 and 1, never increases with strain and (for the hyperbolic models) is one half at the reference strain; damping is never below the minimum damping where it is published as such.",
     ["inputs", "configurations"], "all index properties and stresses in the models' ranges and all strains; given and computed minimum damping",
     "Tests compare a few parameter sets with tabulated curves; the plausibility of curves at other parameters does not follow.",
     ["site.py"], [("ModifiedHyperbolicSoilType", "site.py"), ("DarendeliSoilType", "site.py"), ("MenqSoilType", "site.py"), ("KishidaSoilType", "site.py"), ("TwoParamModifiedHyperbolicSoilType", "site.py")],
     ["soil_type.mod_reduc.values", "soil_type.damping.values"], N1 + "2-3 strains (thorough: 5); Kishida 2 (thorough: 3).")

prop("C19", "Fourier spectrum and time series round-trip",
     "The Fourier spectrum of an acceleration record (any number of samples, spectrum length automatic, even, odd or longer) is its discrete Fourier transform at frequencies from zero to Nyquist, and transforming back gives the record padded with zeros. "
     "Applying a transfer function acts linearly on the series: one gives the record itself, a constant scales it, sums superpose, and a linear phase delays it.",
     ["inputs", "configurations"], "all sample values; record lengths and spectrum lengths within the bound; arbitrary transfer functions",
     "Tests use records of even spectrum length and compare with stored values.",
     ["motion.py"], [("_calc_fourier_spectrum", "motion.py:TimeSeriesMotion"), ("calc_time_series", "motion.py:TimeSeriesMotion"), ("freqs", "motion.py:TimeSeriesMotion.freqs")],
     ["motion.freqs", "motion.fourier_amps", "motion.calc_time_series()"], N1 + "Records of up to 4 samples, spectra up to 8 (thorough: 8 samples, 16); numpy's FFT replaced by the defining sum.")

prop("C20", "Ground-motion intensity measures are exact",
     "Peak acceleration, Arias intensity and cumulative absolute velocity are those of the (zero-padded) acceleration series, and peak velocity that of the series integrated in the frequency domain; with a transfer function they are those of the transferred series. "
     "Scaling a record by c scales peaks and CAV by |c| and Arias intensity by c squared.",
     ["inputs"], "all sample values and transfer functions for records of up to the bounded length",
     "Tests compare the measures of a few stored records.",
     ["motion.py"], [("calc_pga", "motion.py:TimeSeriesMotion"), ("calc_arias_intensity", "motion.py:TimeSeriesMotion"), ("calc_cav", "motion.py:TimeSeriesMotion"), ("calc_pgv", "motion.py:TimeSeriesMotion")],
     ["motion.pga", "motion.pgv", "motion.arias_intensity", "motion.cav"], N1 + "Records of up to 4 samples (thorough: 8); numpy's FFT replaced by the defining sum.")

prop("C21", "Oscillator response is that of a damped single-degree-of-freedom system",
     "The response spectrum at every oscillator frequency and damping is the largest absolute acceleration of the series filtered by f0²/(f0²−f²+2iD·f0·f), so an oscillator tuned to a harmonic amplifies it 1/(2D) times; a transfer function is applied to the motion first. "
     "The default damping is five percent.",
     ["inputs"], "all sample values, oscillator frequencies, damping ratios and transfer functions", "Tests compare spectra of a few records with stored output.",
     ["motion.py"], [("calc_osc_accels", "motion.py:TimeSeriesMotion"), ("_calc_sdof_tf", "motion.py:TimeSeriesMotion")], ["motion.calc_osc_accels()"],
     N1 + "Records of up to 4 samples (thorough: 8), two oscillators; numpy's FFT replaced by the defining sum.")

prop("C24", "Thickness variation re-layers the profile faithfully",
     "A profile varied by the Toro thickness model has interfaces at the inverse of the cumulative rate of the exponential increments drawn, the last one truncated, so thicknesses are positive and add up to the depth of the half-space. "
     "Each new layer takes soil, initial velocity and minimum damping of the source layer at its mid-depth, the half-space and water table are kept, and the source is unchanged.",
     ["inputs"], "all thicknesses, velocities, model coefficients and exponential increments giving up to the bounded number of layers",
     "Tests vary one profile with one random state and check the total.",
     ["variation.py"], [("iter_thickness", "variation.py:ToroThicknessVariation"), ("__call__", "variation.py:ToroThicknessVariation")], ["ToroThicknessVariation()(profile)"],
     N1 + "2-3 source layers, up to 3 generated (thorough: 4 and 4); rate exponent c2 of −1/2 and 0 only (the default −0.89 only as a constant).")

prop("C25", "Velocity variation follows the correlated lognormal model",
     "Varied velocities are the exponentials of the correlated draw limited to the median times or over exp of two scaled standard deviations; the half-space stays at its velocity unless bedrock is varied, and thicknesses, soils, damping and water table are kept. "
     "The covariance is symmetric with the scaled variance of each layer on the diagonal, correlates only adjacent layers by the published depth- and thickness-dependent correlation between 0 and 1, and fully correlates the half-space with the layer above; site classes and generic parameters follow Vs30.",
     ["inputs", "configurations"], "all profiles, model parameters, standard deviations (also by depth and soil name) and draws",
     "Tests check generic parameters and statistics of a few random realisations.",
     ["variation.py"], [("__call__", "variation.py:VelocityVariation"), ("_calc_corr", "variation.py:ToroVelocityVariation"), ("_calc_ln_std", "variation.py")], ["VelocityVariation(profile)", "np.random.multivariate_normal arguments"],
     N1 + "2-3 layers (thorough: 4); the draw itself is arbitrary, its distribution is numpy's.")

prop("C26", "Soil-type variation is consistent across layers and limits",
     "Varied curves are the model's (Darendeli, SPID) for the correlated pair, clipped to the limits and at the same strains, and a zero pair returns the median curves. "
     "Layers sharing a soil type share its realisation and different soil types have their own, thicknesses, velocities and damping are kept, the half-space varies only when asked, and the source is unchanged. "
     "Random pairs lie within the truncation, and with fixed percentiles realisation i uses percentile i modulo their number.",
     ["inputs", "configurations", "histories"], "all curve values, limits, pairs, standard deviations and sharing patterns",
     "Tests vary single soil types with fixed seeds.",
     ["variation.py", "site.py"], [("__call__", "variation.py:SoilTypeVariation"), ("vary_profile", "variation.py:SoilTypeVariation"), ("correlated", "variation.py:TruncatedNorm"), ("iter_soil_types", "site.py:Profile")],
     ["SoilTypeVariation()(soil_type)", "vary_profile()", "iter_varied_profiles()"], N1 + "Curves of 2-3 points, 2-4 layers, up to 4 rejected pairs; the distributions themselves are numpy's and scipy's.")

prop("C27", "Half-space depth variation moves only the half-space",
     "A profile whose half-space depth is varied ends exactly at the drawn depth: layers above it are kept, the last one is shortened, or extended by equal layers of its material no thinner than and less than twice as thick as the original. "
     "The half-space, the water table and the source profile are unchanged.",
     ["inputs"], "all profiles and drawn depths within and below the profile", "Tests check a few drawn depths of one profile.",
     ["variation.py"], [("__call__", "variation.py:HalfSpaceDepthVariation")], ["HalfSpaceDepthVariation()(profile)"], N1 + "2-4 layers, up to 3 added layers (thorough: 5 and 6).")

prop("C35", "Wang & Stokoe models use the most detailed applicable equations",
     "For every subset of index properties the small-strain modulus, modulus reduction, minimum damping and damping are those of the most detailed published equations whose properties, added in the documented order, are all given, for each of the three soil groups, whether a small-strain modulus or minimum damping is given or not. "
     "Mean stress is required, unknown groups are refused, and modulus reduction and damping are monotone in strain within the model's range.",
     ["inputs", "configurations"], "all index properties and strains; every subset of given properties", "Tests compare a few complete property sets.",
     ["site.py"], [("WangSoilType", "site.py")], ["soil_type.mod_reduc.values", "soil_type.damping.values", "calc_shear_mod()"], N1 + "Two strains.")

prop("C22", "Quarter-wavelength amplification is the averaged impedance ratio",
     "The quarter-wavelength amplification at every frequency is the root of the ratio of half-space impedance to that of the time-averaged slowness and depth-averaged density down to the quarter-wavelength depth (Boore and Abrahamson exponent when chosen), averages over an arbitrary depth being exact and the half-space infinite; the site term adds exp(-pi·kappa·f). A uniform profile does not amplify. "
     "Whatever the optimiser returns, fitting stores a profile with exactly those velocities, thicknesses and attenuation, keeps soils, damping, water table and (when told) the source velocity, and reports that profile's amplification; the original profile is unchanged.",
     ["inputs", "configurations"], "all profiles, frequencies, attenuation and optimiser results within the bounds",
     "Tests compare one profile and one fit with stored values.",
     ["propagation.py"], [("QuarterWaveLenCalculator", "propagation.py"), ("my_trapz", "propagation.py"), ("fit", "propagation.py:QuarterWaveLenCalculator")],
     ["calc.crustal_amp", "calc.site_term", "calc.profile", "calc.site_atten"],
     N1 + "2-3 layers (thorough: 6 for averages, 4 for amplification), one frequency, up to 2 depth iterations (thorough: 3), the average over depth being an arbitrary number between the smallest and largest layer value in the multi-layer checks; scipy's optimiser is replaced by an arbitrary result.")

prop("C30", "Output collections keep every realisation aligned and complete",
     "Every realisation appended to an output is stored once, in order and under its name, on its own reference grid padded with NaN where realisations have different lengths, and iterating results returns exactly what was stored. "
     "Statistics at a reference are the median and logarithmic standard deviation across the realisations; those of profiles at an arbitrary depth are over the values of the layers containing it (below the profile, the last layer's). Tables have one column per realisation, under its name. Reset forgets every result.",
     ["inputs", "histories"], "all stored values; every history of appends within the bound, with names, equal and different lengths, and resets",
     "Tests accumulate a single realisation or plot output.",
     ["output.py"], [("Output", "output.py"), ("OutputCollection", "output.py"), ("ProfileBasedOutput", "output.py")],
     ["output.values", "output.refs", "output.names", "output.iter_results()", "output.calc_stats()"], N1 + "Up to 3 realisations of up to 3 points; statistics for two or more realisations.")

prop("C31", "Every output reports the quantity it names",
     "Each output extracts exactly the quantity it names from a calculation: layer properties down to the base of each layer, maxima of strain, cyclic stress ratio 0.65·tau/sigma'v and acceleration, time series of strain, stress and acceleration at their location, Arias intensity accumulating from zero, Fourier spectra, transfer functions, response spectra and ratios between the given locations, smoothed ones by the given bandwidth. "
     "Outputs needing a time series refuse other motions.",
     ["inputs", "configurations"], "all profiles, wave amplitudes and record values within the bound; all output classes encoded",
     "Tests compare a few stored outputs of one example.",
     ["output.py"], [("ProfileBasedOutput", "output.py"), ("LocationBasedOutput", "output.py"), ("MaxAccelProfile", "output.py"), ("CyclicStressRatioProfile", "output.py"), ("AriasIntensityTSOutput", "output.py")],
     ["output.values", "output.refs"], N1 + "2-3 layers, records of up to 4 samples, transfer functions to the location arbitrary; Konno-Ohmachi smoothing itself is pykooh's.")

prop("C28", "A logic tree enumerates exactly its valid branches",
     "Iterating a logic tree yields every combination of alternatives of positive weight in which each alternative finds all it requires and does not find all it excludes (one of a list, or a number to within the tolerance), in the order of the nodes and once per combination of values, and nothing else. "
     "A branch's weight is the product of its alternatives' weights, so without conditions branch weights add up to one when those of every node do; nodes are found by name, alternatives by value, and trees read from dictionaries or files keep every field.",
     ["inputs", "configurations"], "all weights and numeric values of conditions; every assignment of condition kinds to alternatives within the bound",
     "Tests iterate two fixed trees.",
     ["logic_tree.py"], [("LogicTree", "logic_tree.py"), ("Node", "logic_tree.py"), ("Branch", "logic_tree.py"), ("is_valid", "logic_tree.py:Alternative")],
     ["list(tree)", "branch.weight", "branch.as_dict()", "node.by_value()"],
     N1 + "2-4 nodes of 2-3 alternatives, conditions on the alternatives of one node naming one or two others; numbers within a factor two of the comparison tolerance (relative 1e-5) are not considered.")

prop("C32", "Motion and profile files are read exactly",
     "Every number in an AT2 or SMC record, nrattle control file or fixed-width or separated text becomes exactly the corresponding value, in order and none lost, however many stand on a line, with the requested scale, and the time step and description are those of the header; unreadable fields become NaN and uncorrected SMC records are refused. "
     "A nrattle profile has the file's thicknesses and velocities in metres, unit weight g times density, damping 1/(2Q) for Q given either way, and the half-space last.",
     ["inputs", "configurations"], "all numbers in the files; all layouts within the bound (values per line, comments, last line, attenuation as Q or 1/Q or zero)",
     "Tests read one or two sample files of one layout.",
     ["motion.py", "tools.py"], [("load_at2_file", "motion.py:TimeSeriesMotion"), ("load_smc_file", "motion.py:TimeSeriesMotion"), ("read_nrattle_ctl", "tools.py"), ("parse_fixed_width", "tools.py")],
     ["motion.accels", "motion.time_step", "profile layers"], N1 + "Records of up to 9 values (thorough: 17), 3 layers (thorough: 6); file layouts are enumerated as path choices, numbers are symbolic.")

prop("C33", "Profiles loaded from tables and the National Crustal Model keep the site",
     "A profile made from a table has its rows in order and its table reports them back; one read from a National Crustal Model file (plain or compressed) has the file's depths, velocities and water table, unit weights of 9.81 times density and mean effective stresses of its own layering. "
     "Simplifying merges only consecutive layers within the tolerance of the first of their group and keeps the depths of the remaining interfaces, travel time and weight above each of them.",
     ["inputs", "configurations"], "all depths, velocities, densities, water tables and tolerances; which layers merge",
     "Tests read one stored response and check counts.",
     ["generic.py", "site.py"], [("load_ncm_profile", "generic.py"), ("_simplify_profile", "generic.py"), ("from_dataframe", "site.py:Profile.from_dataframe"), ("to_dataframe", "site.py:Profile.to_dataframe")],
     ["profile layers", "profile.to_dataframe()"], N1 + "3-4 layers (thorough: 7).")

prop("C34", "Generic and equivalent velocities follow their equations",
     "The simplified Rayleigh velocity of a profile is that of Urzua et al. for every profile: it scales with the velocities, does not change when all thicknesses are scaled or unit weights change, and is 4/pi times the velocity of a uniform profile. "
     "Kamai et al. (2016) profiles follow equation 3 for every depth, single or array, and Vs30 in either documented region, increase with depth, and other regions are refused.",
     ["inputs"], "all thicknesses, velocities, unit weights, depths and Vs30 values",
     "Tests check a handful of numbers in lowercase regions.",
     ["site.py", "generic.py"], [("simplified_rayliegh_vel", "site.py:Profile"), ("kea16_profile", "generic.py")],
     ["profile.simplified_rayliegh_vel()", "kea16_profile()"], N1 + "1-3 layers (thorough: 6) on a half-space.")

prop("C36", "Random-vibration-theory motions work like any other motion",
     "A motion given by a Fourier amplitude spectrum and duration has its frequencies in increasing order with their amplitudes, whichever order they were given in; its peak acceleration, velocity and response to a transfer function or oscillator are the peak calculator's for the spectrum times the magnitude of that response (over the angular frequency for velocity, in cm/s). "
     "It can be used in every calculator, with the same strain compatibility as a time series; parameters of source and compatible motions reach the model under their own names.",
     ["inputs", "configurations"], "all spectra, durations, transfer functions and peak calculators within the bounds; either order of frequencies; all calculators",
     "Tests use one such motion in a linear calculation, and never its peak velocity or an equivalent-linear calculation.",
     ["motion.py", "propagation.py"], [("RvtMotion", "motion.py:RvtMotion"), ("calc_pgv", "motion.py:Motion.calc_pgv"), ("_estimate_strains", "propagation.py:EquivalentLinearCalculator")],
     ["motion.freqs", "motion.pga", "motion.pgv", "motion.calc_peak()", "motion.calc_osc_accels()", "layer.strain"],
     N1 + "2-3 frequencies (thorough: 6); the peak calculator is an arbitrary function of its spectrum (peak factors are pyrvt's), the code of pyrvt between the two is executed as installed.")
