#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=(), state=(), claimed=True, reason=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None),
                  _tech=tech, _note=" ".join(note.split()), _claimed=claimed, _reason=reason))

ADD = ["add_cti() and remove_cti() return values"]
WMK = [("watermark volumes and fills", "the occupancy levels of the traps of one type in one phase of one pixel", "include/trap_managers.hpp")]

prop("C01", "Images are trailed as an independent model of instant-capture traps trails them",
     """For every valid image, readout, CCD and set of instant-capture trap species (including surface traps exposed only over part of the volume),
     adding CTI gives the image obtained by moving each pixel step by step through the traps that it meets: each transfer first releases the
     exponentially decaying fraction of each species over the dwell time, then instantly fills the traps within the volume that the charge cloud
     reaches, sharing out the electrons proportionally where there are too few.
     This holds in parallel, in serial and in both, for every express, offset, window, prescan, overscan, integer or fractional pass and first-transfer option.""",
     ["inputs", "configurations", "histories"],
     "every image (any size, positive and negative pixels) x every single-phase readout and CCD x every set of instant-capture species; each pixel's charge passes through the whole history of trap states left by the pixels before it",
     "the tests compare a few dozen fixed images, mostly one bright pixel with one or two species, with stored numbers; the interplay of occupancy levels, partial capture and express passes is a history over all earlier pixels that no fixed list samples",
     ["src/cti.cpp", "src/trap_managers.cpp", "src/roe.cpp", "src/ccd.cpp", "src/traps.cpp"],
     [("clocking loop", "src/cti.cpp clock_charge_in_one_direction"), ("release and capture with watermarks", "src/trap_managers.cpp TrapManagerInstantCapture")],
     "property-based testing against an executable reference model",
     """Every generated case is compared at 1e-8 relative with a reference written from the definition of the physics, with per-volume-segment occupancies instead of
     watermarks. Trusts the reference, which was cross-checked with the repository's stored results; tiny electron counts below a stated threshold are tolerance.""",
     ADD, WMK)
prop("C02", "Slow-capture traps trail images as an independent model does",
     """For every valid image, readout and set of slow-capture trap species, alone or together with instant-capture species, adding CTI gives the image obtained by
     letting each species in each part of the pixel volume evolve over each dwell time by its capture and release rates where the charge cloud covers it and by release alone where it does not,
     with the capture limited by the electrons there are.
     A capture timescale of zero is instant capture, and faint clouds that cannot fill the traps conserve the electrons that they release.""",
     ["inputs", "configurations", "histories"],
     "every image, single-phase readout, CCD and mixture of slow- and instant-capture species, in parallel, serial or both",
     "the tests use a handful of images and timescales; the slow-capture code has separate branches for growing, shrinking and too-faint clouds and for every occupancy level, reached only by particular histories",
     ["src/trap_managers.cpp", "src/cti.cpp", "src/traps.cpp"],
     [("slow capture and release", "src/trap_managers.cpp TrapManagerSlowCapture::n_electrons_released_and_captured")],
     "property-based testing against an executable reference model",
     "As C01, with mixtures of slow- and instant-capture species.", ADD, WMK)
prop("C03", "Traps with a continuum of release times trail images as the model does",
     """For every valid image, readout and set of continuum species (log-normal distributions of release timescales, with instant or slow capture, alone or with the other kinds),
     adding CTI gives the image obtained by evolving each species' occupancy by its decay and capture laws, integrated over the whole distribution, to within the accuracy of interpolation tables.
     A vanishing width gives the image of the corresponding single-timescale species.""",
     ["inputs", "configurations", "histories"],
     "every image, single-phase readout, CCD and mixture that contains continuum species, for single and repeated transfers",
     "the tests check broad similarity for a few widths and images; inverse tables are used at every step of a history, so that errors at one occupancy show only for particular sequences",
     ["src/trap_managers.cpp", "src/traps.cpp", "src/cti.cpp"],
     [("continuum release and capture", "src/trap_managers.cpp TrapManagerInstantCaptureContinuum, TrapManagerSlowCaptureContinuum"), ("tables", "src/traps.cpp")],
     "property-based testing against an executable reference model",
     """The clocking is compared at 1e-8 with a reference that uses the same tables, and at a looser tolerance with one that integrates the distribution itself. One recorded finding
     (timescales far longer than the readout with partly filled slow-capture traps) is excluded by its effective times lying outside the tables.""",
     ADD, WMK)
prop("C04", "Electrons are conserved: traps never create or destroy charge",
     """However any kind of trap is driven by a sequence of charge clouds, the electrons that it returns to the clouds equal the decrease in the electrons that it holds, it never holds more than its density or less than none, it never takes more than the cloud contains,
     and its stored occupancy always describes a sequence of levels within the pixel volume; storing and restoring or resetting its state restores exactly the electrons held then.
     Over a whole image, with traps empty at first, the total charge never increases, and what is missing is no more than the traps can hold.""",
     ["histories", "inputs", "configurations"],
     "every sequence of clouds, resets, stores, restores and prunings driven through the traps of each kind and mixtures of kinds, and every image",
     "the tests check the occupancy after one or two calls from hand-written states; conservation is about every reachable state",
     ["src/trap_managers.cpp", "src/cti.cpp"],
     [("watermark updates", "src/trap_managers.cpp update_watermarks_capture*, n_electrons_released_and_captured"), ("store and restore", "src/trap_managers.cpp store_trap_states")],
     "stateful property-based testing of trap histories, conservation invariants",
     "Invariants after every operation of generated histories, with mirrored bookkeeping of what should be held. Continuum tables allow small tolerances.",
     ["trap managers' returned electrons, watermarks and totals"] + ADD, WMK)
prop("C05", "Charge trails only away from the readout, line by line, inside the window",
     """Each line of pixels along the clocking direction is affected only by itself when traps are emptied between lines, and within a line each pixel only by itself and the pixels read out before it.
     Pixels outside the selected window of rows and columns are returned exactly as they were given, and those in it as if all had been clocked wherever trap states do not depend on the pixels skipped.""",
     ["inputs", "configurations"],
     "every image, window, readout (with release away from the readout where there are several phases), trap mixture and change of the pixels that must not matter",
     "a relation between runs on different images; the tests never compare two runs that differ in pixels that should not matter, except one window example",
     ["src/cti.cpp"],
     [("columns and windows", "src/cti.cpp clock_charge_in_one_direction"), ("empty traps between columns", "src/cti.cpp")],
     "metamorphic property-based testing (changed, removed and reordered pixels and lines)",
     "Metamorphic: no model needed. All trap types.", ADD)
prop("C06", "Express passes move every pixel through all of its transfers, in the right order",
     """For every number of rows, offset, express, integer option, readout type, prescan and overscan, the express passes together move each row exactly the number of transfers that lie between it and the readout, no pass moves a row a negative or non-integer number when integers are asked for, and the passes that
     follow on from earlier transfers start from the trap states stored there.
     Express of zero or at least the number of transfers models each transfer separately, one pass treats them all at once, and images with few electrons trapped agree whatever the express.""",
     ["inputs", "configurations"],
     "all sizes, offsets, express values, integer options, readout types, prescans and overscans, and images for which express is a good approximation",
     "the tests list the matrices for a few sizes and offsets; the row sums and the store points must be right for all of them",
     ["src/roe.cpp", "src/cti.cpp"],
     [("express matrix", "src/roe.cpp set_express_matrix_from_rows_and_express"), ("store matrix", "src/roe.cpp set_store_trap_states_matrix")],
     "property-based testing against a definition of the passes, metamorphic image checks",
     "Matrices are compared with an independent construction and with invariants; images across express values.",
     ["express and store matrices"] + ADD)
prop("C07", "An image gives the same result however its place on the detector is described",
     """An offset of the image from the readout is the same as that many empty rows in front of it, and as that much prescan for rows with no overscan; rows in the overscan see no more traps than there are before the overscan starts,
     which matters not if the overscan starts beyond the image.
     Selecting the whole image as a window is the same as no window, and a window of rows is the same as the pixels of the whole image there, as long as the traps' state does not depend on the rows left out.""",
     ["inputs", "configurations"],
     "every image, offset, prescan, overscan, window and trap mixture for which two descriptions are equivalent",
     "relations between two descriptions; the tests use one or two offsets and windows each",
     ["src/cti.cpp", "src/roe.cpp"],
     [("offset, prescan and overscan in the express matrix", "src/roe.cpp set_express_matrix_from_rows_and_express"), ("windows", "src/cti.cpp clock_charge_in_one_direction")],
     "metamorphic property-based testing (equivalent descriptions)",
     "Metamorphic: the two descriptions must agree at 1e-9 relative.", ADD)
prop("C08", "Serial clocking is parallel clocking of the transposed image, done second",
     """Serial CTI with given parameters gives the transpose of what parallel CTI with the same parameters gives for the transposed image.
     Giving both gives the result of first clocking in parallel and then the result of that in serial, each with its own readout, CCD, traps, express, offset, window and pruning, whether or not the image is square.""",
     ["inputs", "configurations"],
     "every non-square image and pair of different parameter sets for the two directions",
     "the tests use the same traps and readout in both directions, nearly always on square images, so parameters that are mixed up do not show",
     ["src/cti.cpp", "src/util.cpp"],
     [("transpose around the serial clocking", "src/cti.cpp add_cti"), ("parameters of each direction", "src/cti.cpp add_cti")],
     "metamorphic property-based testing (transposition, composition) and reference model",
     "Differential between directions, and both directions against the reference model.", ADD)
prop("C09", "Removing CTI recovers the image, and is exactly the documented iteration",
     """Removing CTI with n iterations gives the result of n times adding CTI to the current estimate and adding the difference between the given image and that to the estimate, starting with the given image (setting negative pixels to zero when they are not allowed).
     For images to which weak CTI was added with the same parameters, the remaining error shrinks with the iterations by at least the fraction of charge trapped, so that the original image is recovered to any accuracy.""",
     ["inputs", "histories", "configurations"],
     "every image, number of iterations, both directions and their parameters; for recovery, traps that take a small fraction of the charge",
     "the tests remove CTI from one image with a few iterations and check that it gets better; the fixed point and rate hold for every image",
     ["src/cti.cpp"],
     [("iterations", "src/cti.cpp remove_cti")],
     "differential property-based testing of the iteration; round trip with an error bound",
     "Against iterated addition by the code and by the reference; round trip bound for weak CTI.", ADD)
prop("C10", "Results do not depend on threads, repetition, verbosity or earlier calls",
     """The same image and parameters give the same result with any number of threads, at any verbosity, when repeated, and whatever was clocked before with the same parameter objects, in either direction.
     Neither the input image nor the parameter objects are changed by the calls.""",
     ["schedules", "histories", "inputs"],
     "every number of threads up to 8 and their schedules, every sequence of additions and removals through shared parameter objects, with images of different sizes",
     "the tests run each case once, with fresh objects; shared state, races and leftovers from earlier calls show only across runs",
     ["src/cti.cpp", "src/roe.cpp", "src/trap_managers.cpp", "src/util.cpp"],
     [("parallel loop over columns with a manager each", "src/cti.cpp clock_charge_in_one_direction"), ("recomputed express and store matrices", "src/roe.cpp")],
     "differential property-based testing over threads and call histories",
     "Equality with a run in one thread with fresh objects. Schedules are the operating system's, each number of threads several times.", ADD)
prop("C11", "Multi-phase and bidirectional clock sequences move charge as the model does",
     """For readouts with several phases per pixel, one step per phase, each step captures electrons from, and releases them to, the pixels under the electrodes held high at that step and the neighbouring ones, with each phase's own share of the traps, volume law and dwell time,
     and the image agrees with an independent model of the same clocking; release to the nearest high electrodes splits ties evenly unless forced away from the readout.
     Images of a single row, and rows at the edges of the image, exchange charge only with pixels that exist or with the empty ones around them.""",
     ["inputs", "configurations"],
     "every image, 1 to 6 phases with their own shares of the traps and wells, dwell time, forced or unforced release, prescan, overscan, offset and express",
     "the tests list the clock sequences for a few numbers of phases and one image each",
     ["src/roe.cpp", "src/cti.cpp", "src/trap_managers.cpp"],
     [("clock sequence", "src/roe.cpp set_clock_sequence"), ("loop over steps and phases", "src/cti.cpp clock_charge_in_one_direction")],
     "property-based testing against an executable reference model",
     "Clock sequences against their definition and images against the reference model. Each phase has its own dwell time, the same for all steps (as the code documents).", ADD + ["ROE clock sequences"])
prop("C12", "Charge injection and trap pumping are clocked as the model clocks them",
     """With charge injection every row passes through the same number of pixels from the injection to the readout with traps that are empty at first; with trap pumping the charge of one row is clocked back and forth the given number of times through the traps of its own and neighbouring pixels.
     For every image, number of pixels or pumps, express, integer option and number of phases, the image agrees with an independent model of that clocking.""",
     ["inputs", "configurations"],
     "every image, number of transfers or pumps, express, integer option, number of phases and trap mixture, in parallel and serial",
     "the tests have one or two fixed examples of each",
     ["src/roe.cpp", "src/cti.cpp"],
     [("charge injection", "src/roe.cpp ROEChargeInjection"), ("trap pumping", "src/roe.cpp ROETrapPumping")],
     "property-based testing against an executable reference model",
     "As C01, with the passes' total transfers checked for every row.", ADD + ["express matrices"])
prop("C13", "Results do not depend on the units or on how trap species are listed",
     """Scaling all times (dwell, release and capture timescales) by a common factor leaves the image as it is, and scaling all charges (image, densities, full wells, notches) by a common factor scales the image by it.
     Listing the species in another order, splitting a species into two with the same total density, adding species of zero density, or adding a direction with no traps gives the same image.""",
     ["inputs", "configurations"],
     "every image, mixture of trap kinds, readout and scale factor or rearrangement",
     "relations between runs that the tests do not make",
     ["src/cti.cpp", "src/trap_managers.cpp", "src/traps.cpp", "src/ccd.cpp"],
     [("order and grouping of species", "src/trap_managers.cpp TrapManagerManager"), ("rates from timescales", "src/trap_managers.cpp set_fill_probabilities")],
     "metamorphic property-based testing (scalings and rearrangements)",
     "Metamorphic at 1e-8 relative (tables and pruning excepted).", ADD)
prop("C14", "Trap decay, capture and exposure functions and tables are right at every time",
     """The filled fraction of every kind of trap falls with time from one to none by its law (exponential, or the integral of exponentials over the whole log-normal distribution of timescales), its inverse returns the time, and the interpolation tables agree with the functions to the accuracy of their spacing over the whole of their range and monotonically.
     The fraction of surface traps exposed over any interval of volume is the integral of their exposure, adds up over adjoining intervals, and slow capture over a dwell time follows the coupled rates.""",
     ["inputs", "configurations"],
     "every timescale, width, elapsed time, filled fraction, dwell time, number of transfers and interval of volume",
     "the tests check a few values; inverses, monotonicity and additivity are for all of them",
     ["src/traps.cpp", "src/trap_managers.cpp"],
     [("decay laws and inverses", "src/traps.cpp"), ("tables", "src/traps.cpp prep_*_tables"), ("exposure", "src/traps.cpp fraction_traps_exposed_per_fractional_volume")],
     "property-based testing against direct integration; round trips; monotonicity and additivity",
     "Independent quadrature of the definitions; tolerances from the tables' spacing.", ["trap objects' functions"])
prop("C15", "The charge cloud's volume follows the well-filling law of its phase",
     """The fraction of a pixel's volume that n electrons occupy is zero up to the notch (or the first-electron fill, where given, for any electrons), the power of the filled fraction of the well above it, and one from the full well on; it never decreases with n.
     With several phases each uses its own law, and images whose pixels stay within the notch are not trailed while those over the full well fill all traps.""",
     ["inputs", "configurations"],
     "every well depth, notch, power, first-electron fill and number of electrons, including none and negative",
     "the tests check a few values of one law",
     ["src/ccd.cpp", "src/trap_managers.cpp"],
     [("volume law", "src/ccd.cpp CCDPhase::cloud_fractional_volume_from_electrons")],
     "property-based testing against the closed form, limits and monotonicity",
     "Closed form at 1e-12 and monotonicity; limits for whole images.", ["CCDPhase functions"] + ADD)
prop("C16", "Valid inputs never cause memory errors, undefined behaviour, leaks or NaNs",
     """For every valid image, readout, CCD, trap mixture and option, however extreme its parameters, adding, removing or clocking returns an image of the same shape with finite pixels,
     without reading or writing outside any array, without undefined behaviour and without keeping any memory allocated.""",
     ["inputs", "configurations"],
     "every valid input of every kind of readout and trap, including extreme timescales, densities, wells, pruning, offsets and express",
     "the tests run without sanitizers on a few dozen inputs; an access outside of an array usually has no visible effect",
     ["src/cti.cpp", "src/roe.cpp", "src/trap_managers.cpp", "src/traps.cpp", "src/util.cpp"],
     [("sizes of matrices, watermark arrays and images", "src/cti.cpp, src/roe.cpp, src/trap_managers.cpp")],
     "sanitizer-instrumented property-based testing; coverage-guided fuzzing (libFuzzer) in thorough",
     "Address and undefined-behaviour sanitizers as the oracle, with the allocated heap compared before and after. GSL itself is not instrumented.", ADD, WMK)
prop("C17", "Pruning trap states changes images negligibly and never the electrons held",
     """Pruning the stored occupancy levels at any frequency removes only levels that hold fewer than the given electrons, keeps the total number of trapped electrons, and leaves the levels ordered and within the volume.
     Images with pruning agree with those without to within the electrons that pruning may move.""",
     ["inputs", "histories", "configurations"],
     "every state reachable by a history of clouds, for every kind of trap, pruning threshold and frequency, and every image",
     "the tests prune a few hand-written states",
     ["src/trap_managers.cpp", "src/cti.cpp"],
     [("pruning", "src/trap_managers.cpp prune_watermarks"), ("frequency", "src/cti.cpp clock_charge_in_one_direction")],
     "stateful property-based testing with conservation invariants; differential images",
     "Invariants on generated states; images with and without pruning.", ["watermarks"] + ADD, WMK)
prop("C18", "Traps kept between columns carry exactly the earlier columns' state onwards",
     """When traps are not emptied between columns, each column starts with the trap states that the column before it left, in order of the columns, and the image agrees with an independent model that clocks them so.
     Earlier columns never depend on later ones, with any number of threads.""",
     ["inputs", "histories", "schedules"],
     "every image of several columns, readout, express and instant- or slow-capture mixture, parallel or serial",
     "the tests have one two-column example",
     ["src/cti.cpp", "src/trap_managers.cpp"],
     [("states kept between columns", "src/cti.cpp clock_charge_in_one_direction")],
     "property-based testing against an executable reference model; metamorphic on later columns",
     "As C01 with carry-over; also run with several threads.", ADD, WMK)
prop("C19", "Negative pixels are treated as empty, and appear only where allowed",
     """Pixels with negative values capture no electrons but receive those released into them, as empty ones do (also in wells where a first-electron fill gives every cloud a volume), and whether or not negative pixels are allowed the image agrees with an independent model.
     When negative pixels are not allowed, no transfer leaves a pixel negative, whatever the input, and removing CTI never returns a negative pixel.
     Where no pixel would become negative the option makes no difference.""",
     ["inputs", "configurations"],
     "every image with and without negative pixels, express passes that remove more than there is, addition and removal",
     "the tests have no more than one image with negative pixels",
     ["src/cti.cpp"],
     [("negative pixels", "src/cti.cpp clock_charge_in_one_direction, remove_cti")],
     "property-based testing against an executable reference model",
     "As C01 for negative pixels with both options.", ADD)
prop("C20", "Images survive a save and load, and array helpers do what they say",
     """An image saved to a text file and loaded again has the same shape and values to the six decimal places written, and any file of the documented format loads to the values in it.
     Transposing twice, flattening, ranges, clamping, elapsed times between two clock readings and printed arrays agree with their definitions for every size and value.""",
     ["inputs"],
     "every image, array, number and pair of clock readings",
     "the tests have one image and a few numbers",
     ["src/util.cpp"],
     [("text files", "src/util.cpp save_image_to_txt, load_image_from_txt"), ("arrays", "src/util.cpp transpose, flatten, arange")],
     "round-trip property-based testing and definitions",
     "Round trips at the six decimals kept; definitions otherwise.", ["files and returned arrays"])
prop("C21", "Invalid configurations and files are rejected with an error, valid ones accepted",
     """A CCD whose phases and trap fractions differ in number, a readout whose phases differ in number from its CCD's, trap pumping of anything but one row or with an odd number of steps, and image files that are missing, cut short, without a size or not numbers end the call with an error message and a non-zero status, never with an image.
     The same inputs made valid are never rejected.""",
     ["inputs", "configurations", "fault_sequences"],
     "every combination of numbers of phases, fractions, steps and rows, and every damaged file",
     "errors end the process, so the tests cannot contain them",
     ["src/ccd.cpp", "src/cti.cpp", "src/roe.cpp", "src/util.cpp"],
     [("checks of the inputs", "src/ccd.cpp CCD, src/cti.cpp, src/roe.cpp ROETrapPumping, src/util.cpp load_image_from_txt")],
     "property-based testing with each case in its own process",
     "Exit status and error message of a child process for every invalid case.", ["exit status and standard error"])
exec(open(os.path.join(V, "tools", "gen_py.py")).read()) if os.path.exists(os.path.join(V, "tools", "gen_py.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = dict(version=1, setup_cmd="./build.sh plain >/dev/null",
         checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                      technique=p["_tech"], level="exploration", level_note=p["_note"]) for p in P if p["_claimed"]],
         not_applicable=[dict(property=p["id"], reason=p["_reason"]) for p in P if not p["_claimed"]],
         notes="See DESIGN.md. Every check builds the code from /repo's working tree and takes its seed from VERIF_SEED.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
