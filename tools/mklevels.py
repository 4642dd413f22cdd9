"""Write tools/levels.json: level and note of each claimed property."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: proof obligations generated from the current source (vc/), discharged by z3, cvc5 and normal forms; countermodels replayed on the real code"
COMMON = " Real arithmetic, trusted library contracts (listed per run in the evidence). The runtime contracts that run beside it are bounded and not counted."
N = {
 "C01": "Proved for curves of any length from 3, NaN and repeated areas included.",
 "C02": "Proved at an arbitrary radius for curves of any length, with area errors, flux errors, both or none.",
 "C03": "Proved for profiles and curves of any length and any eta; resampling (C26) by its contract, itself discharged in the same run; the interpolant is an uninterpreted function through its knots.",
 "C04": "Proved for curves of any length, every interpolation kind and error combination, all fractions and epsilons.",
 "C05": "Proved over the contract of fraction_to_r (discharged by C04).",
 "C06": "Proved by induction over histories: constructor, then one arbitrary setting change, read or copy from an arbitrary state; numerical callees are functions of their arguments.",
 "C07": "Proved for curves of any length over the contracts of C03, C04.",
 "C08": "Proved for radius lists and images of any length and shape; aperture sums and areas are photutils' contract.",
 "C09": "Proved for images, cutouts and masks of any size over the contracts of C08 and C20; the peak pixel is a whole number.",
 "C10": "Proved for segmentation images of any size and lists of any length of labels or of catalogue entries; lists that mix both are bounded (three items).",
 "C11": "Proved over photutils' contracts; arguments passed through are compared on the recorded calls; catalogues of any length.",
 "C12": "Proved for any grid size, origin and factor.",
 "C13": "Proved at an arbitrary pixel for any image shape, origin, factor and PSF size; convolution, rotation and the sub-model are uninterpreted functions; the sub-model has two parameters.",
 "C14": "Proved at an arbitrary pixel for any image shape and window; sub-model with two parameters; obligations that time out at full generality are re-run at small sizes and listed as bounded.",
 "C15": "Proved from an arbitrary valid state for each setter.",
 "C16": "Proved for two evaluations with arbitrary grids and settings, any earlier state of the cache; non-empty grids.",
 "C18": "Identities proved symbolically; the integral by derivative and initial value (fundamental theorem of calculus assumed).",
 "C19": "Formulas proved for all parameters and points in the documented range.",
 "C20": "Proved for images, masks and weights of any size; the fitter is uninterpreted, what it receives is decided.",
 "C21": "Proved for any size, centre and model with two parameters.",
 "C22": "Proved for tables of any length with positive standard deviations.",
 "C23": "Proved for every closed pair of the table and for arbitrary other inputs; numbers of the table are those on disk.",
 "C24": "Pairs: proved for lists of any length >= 1 (lists of the lengths in C24.rows, with 0, bounded). Columns: proved for an arbitrary pair over the contracts of C03, C04, C05, C08, C13, C18.",
 "C25": "Proved for numbers and quantities of every form the code accepts.",
 "C26": "Proved for arrays of any length.",
 "C27": "Proved for any image, cutout size and centre.",
 "C28": "Proved for all fluxes and header values.",
 "C29": "Proved over the contracts of C20, C21; what the panels and marks are given is decided, matplotlib draws them; the printed text by running the code.",
 "C30": "Proved for lists of any length of strings with any number of digit runs, and of numbers of one type; ints mixed with floats bounded (four items). sorted() and re.split by contract.",
 "C34": "Proved for every index from 0.5 to 10 over an enclosure of the exact relation in 500 to 1200 cells (monotone in the index: assumed; cell ends by scipy), and for arrays of any size.",
 "C35": "Proved for lists of any length and any number of processes, given that the parallel map returns f(item) in order (astropy, assumed), and that a row leaves no state in the package.",
 "C36": "Proved for curves of any length, every error combination and interpolation kind, over the contracts of C01-C05; what the drawing functions are given is decided, matplotlib draws it.",
 "C37": "Proved for tables of any length; undefined values among the unique ones and the file formats by running the code.",
 "C38": "Proved over the contracts of C04 and C25 for any pixel scales.",
 "C39": "Proved for every form of position and number.",
 "C40": "Proved for every override over eight names (every subset, any values) and for any history: a call leaves no state and shares no dictionary.",
 "C41": "Proved for images and label maps of any size; the outlined apertures are a list of at most three (bounded).",
 "C42": "Proved for any image and geometry; the fit is photutils' contract, and may fail at every step.",
 "C43": "Proved for catalogues of any length over SkyCoord's contract.",
 "C44": "Proved for tables of any length with positive standard deviations, over the contracts of C03-C05.",
}
out = {k: {"level": "proof", "technique": T, "note": v + COMMON} for k, v in N.items()}
out["C17"] = {"level": "exploration", "technique": T,
              "note": "Bounded in one respect: the wrapped model has 1, 2, 3 or 7 parameters. Values, flags, bounds, PSF and sampling are unbounded and every obligation is discharged by the prover; the level counts only the runtime contract evaluations." }
json.dump(out, open(os.path.join(V, "tools", "levels.json"), "w"), indent=1, sort_keys=True)
