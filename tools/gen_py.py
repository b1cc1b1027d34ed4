RET = ["values returned by the Python package"]
prop("C22", "The Python functions give what the core library gives, for any input",
     """add_cti() and remove_cti() of the Python package give the image that the core library gives for the same model, to rounding, for images of any numeric type, memory layout or nested list,
     any list of trap objects in any order, either or both directions, and every option of the readout, CCD, express, offset, windows and pruning; removal is the documented iteration of addition, clamping negative pixels in its first iteration if they are not allowed.
     The given image and objects are never changed nor shared with the result, objects that are not traps are rejected, and a given header is updated to say what was done.""",
     ["inputs", "configurations"],
     "every image, type, layout, model and option",
     "the tests compare a few fixed images in float64 with stored numbers, and pass most options their default",
     ["python/arcticpy/cti.py", "python/arcticpy/wrapper.pyx", "python/arcticpy/src/interface.cpp", "python/arcticpy/roe.py", "python/arcticpy/ccd.py", "python/arcticpy/traps.py"],
     [("arguments passed on", "python/arcticpy/cti.py add_cti, _extract_trap_parameters; wrapper.pyx cy_add_cti; src/interface.cpp add_cti"), ("iteration", "python/arcticpy/cti.py remove_cti")],
     "differential property-based testing of the Python package against the core library",
     "Core called without the package's interface, from the same sources; the core itself is decided by C01 to C19.", RET)
prop("C23", "The preset model of HST ACS follows its published dates, densities and times",
     """For every date since the launch, CTI_model_for_HST_ACS() returns three instant-capture species in the ratios 0.17 : 0.45 : 0.38 whose total density follows the published linear growth before and after the repair of 2009 and whose release times are those before or after the change of temperature in 2006, with the published CCD and a readout ready for add_cti() and remove_cti().
     Earlier dates are rejected, and the density is positive and does not fall with time within an era. Images trailed with the model are what the core library gives, and correcting them reduces the error.""",
     ["inputs"],
     "every date, and images at any distance from the readout",
     "the tests use one date",
     ["python/arcticpy/cti.py"],
     [("preset", "python/arcticpy/cti.py CTI_model_for_HST_ACS")],
     "property-based testing against a model of the publication",
     "The constants are those documented in the code.", RET)
prop("C24", "Pixel bounce rings as a damped oscillator after each change, and is removed",
     """The bias that pixel bounce adds to each pixel is the sum over all earlier changes of signal in its row of the response of a damped harmonic oscillator, for every image of any type and layout, and any list of oscillators in any order; rows are independent, the first pixel of each row, and everything outside a window, is unchanged.
     The row-by-row version agrees with the vectorised one, add_cti() applies it after the CTI, removal is the documented iteration and recovers the image where the ringing is weak; negative damping or frequency is rejected and no input is changed.""",
     ["inputs", "configurations", "histories"],
     "every image, list of oscillators, window and number of iterations, with and without CTI",
     "there are no tests of pixel bounce",
     ["python/arcticpy/pixel_bounce.py", "python/arcticpy/cti.py"],
     [("difference equation", "python/arcticpy/pixel_bounce.py perturb_bias"), ("with CTI", "python/arcticpy/cti.py add_cti")],
     "property-based testing against the closed form of a damped oscillator; metamorphic relations",
     "Closed form unless ill-conditioned (then its recurrence).", RET)
prop("C25", "Read noise is separated exactly, smoothly and never more than asked",
     """ReadNoise splits an image into a smooth image and read noise that add up to the image exactly, by repeating a step that agrees with its definition from each pixel's own, its neighbours' and the gradients' clipped and weighted differences, until the noise has the given rms or the iterations end, whatever the image's size, layout or the number of threads.
     A fraction of the separation scales the noise, turning the image over turns the result, an image with more noise than that gives noise of that rms, and remove_cti() with remove_read_noise corrects the smooth image alone and adds the noise back. The image is never changed.""",
     ["inputs", "configurations", "schedules"],
     "every image, level of noise, option and number of threads",
     "there are no tests of the read noise",
     ["src/read_noise.cpp", "python/arcticpy/read_noise.py", "python/arcticpy/wrapper.pyx", "python/arcticpy/cti.py"],
     [("step", "src/read_noise.cpp determine_read_noise_model"), ("iteration", "python/arcticpy/read_noise.py generate_SR_frames_from_image"), ("correction", "python/arcticpy/cti.py remove_cti")],
     "property-based testing against a reference model; metamorphic relations",
     "For a read noise of more than zero and images with some signal.", RET)
prop("C26", "Covariance matrices hold the covariance of pixels at every offset",
     """CovarianceMatrix().from_image() gives for every odd matrix size, border and image the covariance between the pixels of the image within its border and those displaced by each element's offset, without wrapping around the image or changing it, so that constants do not matter and it grows as the square of the image.
     Its middle, autocorrelation, row, column, box and ring sums, the absolute ones, figures of merit, the four corners of an image and new matrices agree with their definitions.""",
     ["inputs"],
     "every image, size of matrix and border",
     "there are no tests of covariance matrices",
     ["python/arcticpy/read_noise.py"],
     [("covariance", "python/arcticpy/read_noise.py CovarianceMatrix.from_image"), ("corners", "python/arcticpy/read_noise.py covariance_matrix_in_corners_of_image")],
     "property-based testing against the definition",
     "Odd sizes of matrix; the summing of figure_of_merit only where its documentation and its divisor agree.", RET)
prop("C27", "The V&V test finds the trap density and bias of trails in overscans",
     """For every image whose overscan trails follow the model with some multiple of the trap density and some bias, the verification and validation test returns that density and bias exactly, in parallel or serial, together or alone, for any initial bias, given or found columns and pixels, fixed, fitted or iterated bias; columns with stars near the overscan, and the other direction's prescan and overscan, are left out.
     Results are kept in order and never change the image; an image trailed by arctic gives its density, and a corrected one much less. Without an overscan or a model there is no result, and with no traps, no trail or no columns an error.""",
     ["inputs", "configurations", "histories"],
     "every image of sky, stars and overscans, and every option, with no prescan in the tested direction and at least as many rows before the overscan as are used for the background",
     "the tests have one image",
     ["python/arcticpy/vv_test.py", "python/arcticpy/cti.py", "python/arcticpy/ccd.py"],
     [("fit", "python/arcticpy/vv_test.py VVTestBench._test1d"), ("within add_cti and remove_cti", "python/arcticpy/cti.py")],
     "property-based testing with images of known density (round trip); metamorphic relations",
     "Three known findings in vv_test.py, which commits may not change, limit its domain.", RET)
prop("C28", "The Python package's model objects hold, convert and draw what they are given",
     """CCDs, phases, readouts, traps and images of the Python package hold exactly the parameters they are given and their documented defaults; a phase's volume is the core library's for every number of electrons; a charge-injection readout made from a normal one keeps all of its options with the distance added.
     A Poisson density is that of a whole number of traps with the right mean and variance, keeps the other parameters and is repeatable by its seed; the spurious ellipticity follows its published formula in proportion to density; images keep their covariance and test through arithmetic, and print as they are in any layout.""",
     ["inputs", "configurations"],
     "every parameter, number of electrons, seed and image",
     "the tests check a few attributes of a few objects",
     ["python/arcticpy/ccd.py", "python/arcticpy/roe.py", "python/arcticpy/traps.py", "python/arcticpy/cti.py", "python/arcticpy/wrapper.pyx"],
     [("volume", "python/arcticpy/ccd.py CCDPhase.volume"), ("conversion", "python/arcticpy/roe.py from_normal_roe"), ("Poisson", "python/arcticpy/traps.py poisson_density_from")],
     "property-based testing against the core library and definitions",
     "Statistical bounds at eight or more standard deviations.", RET)
prop("C29", "The command-line program obeys its options and its demonstration is right",
     """For every command line, arctic obeys -h, -v, -d and -b in their short, long, abbreviated and joined forms, ends with an error status and message for unknown options or missing values and with success otherwise, says which parameters it does not use, and prints no commentary at verbosity 0.
     The demonstration writes and prints the image that the core library gives when it adds then removes CTI, and touches no other file; the benchmark downloads its image only when it is not there, and fails if it cannot.""",
     ["inputs", "fault_sequences"],
     "every command line, presence of files and failure of the download",
     "there are no tests of the program",
     ["src/main.cpp", "src/util.cpp"],
     [("options", "src/main.cpp parse_parameters"), ("demonstration", "src/main.cpp run_demo"), ("benchmark", "src/main.cpp run_benchmark")],
     "model-based property-based testing of the program in a scratch directory",
     "A stand-in replaces the download.", ["exit status, output and files of the program"])
