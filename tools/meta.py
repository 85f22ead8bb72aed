#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (committed outputs; run by hand after editing)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/dspbb/"


def P(id, title, st, over, q, why, files, mech, **kw):
    return dict(id=id, title=title, statement=st, quantifier={"over": over, "text": q}, why_tests_cant=why,
                anchors={"files": [I + f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech], **kw})


PROPS = [
P("C01", "Elementwise arithmetic computes every element and nothing else",
  "Adding, subtracting, multiplying or dividing two signals or views of equal length, or a signal and a scalar in either order, gives a result of that length whose element i is exactly the built-in operation on elements i, for the two-operand, three-argument (output first) and compound-assignment forms. The operands stay unchanged unless the output is one of them, in which case the in-place result is the same as the out-of-place one. Nothing outside the output range is written, and operands of unequal length are rejected (by an exception when assertions are compiled out).",
  ["inputs"], "all lengths (every remainder modulo the vector width), offsets/alignments, real and complex element types, aliasing of output with an operand",
  "tests use one fixed length per operation; remainder loops, alignment and in-place use for every length are a universally quantified claim",
  ["Primitives/SignalArithmetic.hpp", "Kernels/Numeric.hpp", "Kernels/Functors.hpp", "Kernels/Math.hpp"],
  [("vectorised transform loop with scalar remainder", "Kernels/Numeric.hpp"), ("operator dispatch", "Primitives/SignalArithmetic.hpp")]),
P("C02", "Elementwise math functions map every element",
  "Each elementwise function (abs, arg, real, imag, conj, sqrt, cbrt, exp family, log family, trigonometric, hyperbolic, erf, gamma, pow, complex parts and the like) applied to a signal or view gives a result of the same length in which element i depends only on element i and agrees with the standard scalar function to rounding error, whatever i and the length. The output-argument form, including in place, gives the same values as the returning form and writes nothing outside the output.",
  ["inputs"], "all lengths and positions, real and complex elements",
  "tests check one length and a few values; a lane or tail element handled differently is not sampled",
  ["Math/Functions.hpp", "Kernels/Math.hpp", "Kernels/Numeric.hpp"],
  [("function wrappers over the vectorised transform", "Math/Functions.hpp"), ("lane-wise math functors", "Kernels/Math.hpp")]),
P("C03", "Sums, means, norms and extrema cover every element exactly once",
  "Sum, SumSquare, Mean, MeanSquare, RootMeanSquare, Norm, Min and Max of a real signal, and Sum and Mean of a complex signal, equal their mathematical definition over all elements (to rounding error), for every length including one. Every element contributes exactly once and nothing outside the signal is read.",
  ["inputs"], "all lengths and element values",
  "tests use one or two fixed lengths, so a tail or lane element counted twice or skipped for other lengths is not seen",
  ["Math/Statistics.hpp", "Kernels/Numeric.hpp", "Kernels/Functors.hpp"],
  [("vectorised reduction with compensated accumulation", "Kernels/Numeric.hpp"), ("statistics definitions", "Math/Statistics.hpp")]),
P("C04", "Moments, deviations and correlations follow their definitions",
  "CentralMoment and StandardizedMoment of order k>=2, Variance, StandardDeviation, Skewness, Kurtosis, their Corrected variants, Covariance, CorrectedCovariance and Correlation of a real signal equal the textbook formulas over all elements (to rounding error), with or without a precomputed mean supplied. Corrected variance, standard deviation, covariance and skewness apply the usual sample-size corrections (n/(n-1) and n^2/((n-1)(n-2))); corrected kurtosis is the library's own estimator, which tends to the kurtosis for large n.",
  ["inputs"], "all lengths for which the formula is defined, all orders, all element values",
  "tests check one fixed signal per function and low orders",
  ["Math/Statistics.hpp", "Kernels/Numeric.hpp", "Kernels/Functors.hpp"],
  [("moment reductions", "Math/Statistics.hpp")]),
P("C05", "The dot product pairs every element once",
  "The dot product of two signals of equal length is the sum over all i of a[i] times the conjugate of b[i] (to rounding error) for every length including zero; for real signals it is symmetric in its operands.",
  ["inputs"], "all lengths and element values",
  "tests use one fixed length; the vector body and remainder split is different for every length",
  ["Math/DotProduct.hpp", "Kernels/Numeric.hpp"], [("inner product kernel", "Kernels/Numeric.hpp")]),
P("C06", "Convolution computes the defining sum for every range",
  "The convolution of two signals at index n is the sum over k of u[k]*v[n-k], for the full and central modes and for any offset/length range inside the full result, for every combination of operand lengths (an empty operand gives an empty result). Output is overwritten, or added to when asked; operands are unchanged and nothing outside the output is written. ConvolutionLength gives the length of each mode's result, and operand order does not matter.",
  ["inputs"], "all operand lengths, output ranges, real and complex element types, both accumulate settings",
  "tests sample a few lengths; the kernels switch algorithm and lane handling on lengths and offsets",
  ["Math/Convolution.hpp", "Kernels/Convolution.hpp"],
  [("slide and reduce convolution kernels", "Kernels/Convolution.hpp"), ("range checks and mode offsets", "Math/Convolution.hpp")]),
P("C07", "Overlap-add equals direct convolution for every chunk size",
  "Overlap-add convolution gives the same result (to rounding error) as direct convolution for every chunk size that is accepted, every offset/length range inside the full result and either operand order, for real and complex operands, in the full, central and range forms. It overwrites or accumulates into the output as asked and leaves everything else unchanged.",
  ["inputs"], "all lengths, ranges and chunk sizes",
  "tests use one long and one short signal with a couple of chunk sizes; chunk boundaries interact with the range in every combination",
  ["Math/OverlapAdd.hpp"], [("chunked accumulation of partial convolutions", "Math/OverlapAdd.hpp")]),
P("C08", "Streaming FIR filtering does not depend on how the stream is cut",
  "Filtering a stream block by block with a carried state gives the same output as filtering it in one call, whatever the block sizes (shorter or longer than the impulse response), and equals the causal convolution with the impulse response started from the given state. After each call the state holds the most recent taps-1 input samples. The convolution and the overlap-add variants agree, and the non-streaming full and central forms equal the corresponding convolutions.",
  ["inputs", "histories"], "all impulse responses, block partitions of a stream and states",
  "tests cut a stream at one or two fixed places",
  ["Filtering/FIR/Filter.hpp"], [("state shift and head/tail convolution", "Filtering/FIR/Filter.hpp")]),
P("C09", "Recursive filters realise their difference equation, cut-invariantly",
  "Direct form I, direct form II and cascaded realisations filter a signal according to the difference equation of the transfer function they were given (normalised by the leading denominator coefficient), starting from rest, and all three agree to rounding error. Filtering block by block with the same state object gives the same output as one call, and resetting a state restores the at-rest behaviour. In-place filtering gives the same result.",
  ["inputs", "histories"], "all coefficient sets, orders, input streams and partitions",
  "tests run a few fixed filters and compare a handful of samples",
  ["Filtering/IIR/Filter.hpp", "Filtering/IIR/Realizations.hpp"],
  [("recursion step and state shift", "Filtering/IIR/Realizations.hpp"), ("per-sample loop", "Filtering/IIR/Filter.hpp")]),
P("C10", "Rational numbers obey exact fraction arithmetic",
  "As long as no intermediate overflows, arithmetic on rationals with rationals and integers is exact, always gives lowest terms with a positive denominator, and comparisons order them as the fractions they denote. floor, ceil and frac are the mathematical ones for either sign, conversion to floating point is the quotient, and construction from a positive denominator gives lowest terms.",
  ["inputs"], "all numerators and denominators without overflow, either sign",
  "tests use a few positive fractions",
  ["Math/Rational.hpp"], [("normalisation by gcd and sign", "Math/Rational.hpp"), ("operators", "Math/Rational.hpp")]),
P("C11", "Interval operations are the set operations on half-open ranges",
  "Size, equality, disjointness, emptiness, intersection, encompassing union, offsetting and containment tests of intervals agree with half-open ranges [first,last) of numbers. Intersection of overlapping intervals is exactly their common part (disjoint ones give an empty interval) and the encompassing union is the smallest interval containing both.",
  ["inputs"], "all ordered end points, integer and floating point",
  "tests check a few literal intervals",
  ["Utility/Interval.hpp"], [("interval algebra", "Utility/Interval.hpp")]),
P("C12", "Decimation, expansion and polyphase split keep the right samples",
  "Decimation by r keeps exactly the samples at multiples of r; expansion by r puts sample i at position i*r and zeros elsewhere; for every length and rate, in both the returning and the output-argument forms. Polyphase decomposition distributes tap k of a non-empty filter, scaled by the number of phases, to phase k mod n in its reversed order and covers every tap exactly once, with phase lengths that add up to the filter length; normalising divides every tap by the sum of its phase, and copies and moves of a polyphase filter keep its phases.",
  ["inputs"], "all lengths and rates",
  "tests use a few lengths; lengths not divisible by the rate fall into the edge cases",
  ["Filtering/Resample.hpp", "Filtering/Polyphase.hpp"],
  [("strided copies", "Filtering/Resample.hpp"), ("phase sizes and offsets", "Filtering/Polyphase.hpp")]),
P("C13", "Interpolation and resampling evaluate the anti-imaging filter exactly",
  "Interpolating by n through a polyphase filter gives, for every output range that is accepted, the samples of the zero-stuffed signal convolved with the filter (times n). Resampling by a rational rate gives each output sample as the linear blend of the two nearest interpolated samples at its exact position, start points included, whatever the range; every requested output sample is written. The length functions and start/end points report consistent sizes, positions and suspension points, so that consecutive blocks continue seamlessly.",
  ["inputs", "histories"], "all signal and filter lengths, phase counts, rates, output ranges",
  "tests use one or two rates and compare against approximations",
  ["Filtering/Resample.hpp", "Filtering/Polyphase.hpp", "Math/Rational.hpp"],
  [("phase and sample index arithmetic", "Filtering/Resample.hpp")]),
P("C14", "Polynomials evaluate, multiply, expand and factor consistently",
  "Evaluating an expanded polynomial gives the sum of coefficients times powers (lowest order first), products of polynomials have the coefficients of the product, and expanding a factored polynomial gives coefficients whose polynomial has exactly the same values and the leading coefficient one. Roots, conjugate pairs and root counts of a factored polynomial are preserved by construction from a list, copy, move, assignment, resizing and regrouping (roots that stay keep their value and order, new ones get the given value); lists with unpaired complex roots and impossible regroupings are refused with an exception.",
  ["inputs"], "all degrees, coefficients, real roots and conjugate pairs",
  "tests use fixed low-degree examples",
  ["Math/Polynomials.hpp"], [("evaluation and expansion", "Math/Polynomials.hpp"), ("root storage", "Math/Polynomials.hpp")]),
P("C15", "Conversions between system representations keep the transfer function",
  "Converting a zero-pole-gain system to a transfer function or to cascaded second-order sections gives a system with the same value at every complex point where it is defined, and copies, moves and assignments of systems preserve them. The order reported for each representation is the number of poles or zeros, whichever is larger, and each section's coefficients are real.",
  ["inputs"], "all sets of zeros, poles and gains",
  "tests evaluate a couple of systems at a few points",
  ["LTISystems/Systems.hpp", "Math/Polynomials.hpp"], [("conversion constructors", "LTISystems/Systems.hpp")]),
P("C16", "Discretisation and band transforms substitute the right variable",
  "The bilinear transform of a continuous system has, at every z, the value the continuous system has at s = 2*fs*(z-1)/(z+1) (with optional prewarping). The low-pass to high-pass, band-pass and band-stop transforms of discrete systems place the prototype's response at the requested cut-off frequencies: the result at the band edges and band centre has the prototype's value at its cut-off and its pass or stop point, for every prototype order.",
  ["inputs"], "all systems, sample rates and cut-off frequencies",
  "tests check a few filters on a coarse frequency grid",
  ["LTISystems/DiscretizationTransforms.hpp", "Filtering/IIR/BandTransforms.hpp", "Math/RootTransforms.hpp"],
  [("root mapping and gain correction", "Math/RootTransforms.hpp")]),
P("C17", "FIR design formulas give symmetric, normalised, correctly shifted filters",
  "For every odd number of taps n the window-method designs have, up to rounding, exactly the defined taps. Low-pass: window times sinc((j - n/2) cutoff), divided by their sum, so the taps add up to one and are symmetric when the window is. High-pass: unit impulse at the middle tap minus the low-pass of the same cut-off. Band-pass: low-pass of half the band width with every tap multiplied by twice the cosine of the band's centre frequency. Band-stop: impulse minus band-pass. Arbitrary: window times the inverse DFT of the response. Hilbert: the half-band low-pass with taps at offset d from the middle multiplied by 2 (d = 1 mod 4), -2 (d = 3 mod 4) or 0, even lengths keeping every second tap of a half-band of 2n - 1 taps. The tap transforms act as stated on every tap, also in place: mirroring negates odd taps, complementing negates every tap and adds one to the middle tap, shifting multiplies each tap by twice the cosine of its offset times the centre frequency. Designs given a window functor and the equal window signal agree.",
  ["inputs", "configurations"], "all odd lengths, cut-offs and windows",
  "tests check responses of a few filters with tolerances",
  ["Filtering/FIR/Windowed.hpp", "Filtering/FIR/BandTransforms.hpp", "Filtering/FIR.hpp"],
  [("tap transforms", "Filtering/FIR/BandTransforms.hpp"), ("windowed sinc", "Filtering/FIR/Windowed.hpp")]),
P("C18", "Windows and ranges have the defined samples for every length",
  "Every window function gives, for every length above one, samples equal to its defining formula at every index; the windows are symmetric. LinSpace gives equally spaced points from the first bound, including the last bound exactly when asked to; LogSpace is the exponential of such points. The returning and output-argument forms agree.",
  ["inputs"], "all lengths, parameters and indices",
  "tests check peak positions or a few lengths only",
  ["Filtering/Windowing.hpp", "Generators/Spaces.hpp"], [("window formulas", "Filtering/Windowing.hpp")]),
P("C19", "Generated waveforms equal their formula at every sample",
  "Sine, square, sawtooth (triangle by its tilt), PWM and chirp generators give at sample i the waveform's defining value at time i/rate plus phase for every length, frequency, phase (either sign) and parameter. Periodic waveforms repeat with the period of the frequency and stay inside [-1,1].",
  ["inputs"], "all lengths, sample rates, frequencies and phases",
  "tests check a handful of samples for one phase",
  ["Generators/Waveforms.hpp"], [("phase computation", "Generators/Waveforms.hpp")]),
P("C20", "FFT layout functions permute and address bins correctly",
  "FftShift moves the zero frequency bin to the middle and IfftShift is its exact inverse, for every length, even and odd, in place or not; both are permutations. The bin/frequency conversion functions are consistent with the transform layout, and the half and full spectrum transforms have the documented sizes and agree with each other.",
  ["inputs"], "all lengths and bins",
  "tests cover one even and one odd length",
  ["Math/FFT.hpp"], [("rotation", "Math/FFT.hpp"), ("frequency conversions", "Math/FFT.hpp")]),
P("C21", "Signals behave as value containers",
  "Constructing, copying, moving, resizing, inserting, appending, prepending, erasing, extracting and clearing signals has the effect of the same operation on a plain sequence of values, for every size and position, and leaves the other elements in order. Copies are independent, element access and iteration agree with the sequence, and conversion constructors convert every element.",
  ["inputs", "histories"], "all sequences of container operations",
  "tests run one short script per operation",
  ["Primitives/Signal.hpp"], [("element storage", "Primitives/Signal.hpp")]),
P("C22", "Views address exactly the elements of the range they were made of",
  "A view made of a signal, a pair of iterators, a pointer and size, or another view refers to exactly those elements, reading and writing through it; sub-views, size, emptiness, element access, forward and reverse iteration agree with the corresponding slice of the parent. A sub-view outside its parent is rejected by an assertion where assertions are enabled.",
  ["inputs"], "all parents, offsets and lengths",
  "tests take a few fixed slices",
  ["Primitives/SignalView.hpp"], [("range arithmetic", "Primitives/SignalView.hpp")]),
P("C23", "Filter descriptions reject invalid parameters and carry valid ones",
  "Setting a parameter on a filter description changes that parameter to the given value and no other, so every description carries the values set on it whatever the order of setting. Cut-off frequencies and band edges outside [0, 1] (NaN included) or out of order are rejected with an exception, valid ones (including the boundaries 0, 1 and equal edges) are not. The least-squares designs hand their kernel the weight of the band every frequency lies in, a response that rises or falls smoothly between the given edges, and the given grid size; the Hilbert design does so with the half-band description of its transition width, weight and grid.",
  ["inputs", "configurations"], "all parameter values and setter orders",
  "tests design a few valid filters",
  ["Filtering/FIR/Descs.hpp", "Filtering/IIR/Descs.hpp", "Filtering/FIR.hpp", "Filtering/IIR.hpp"], [("setters", "Filtering/FIR/Descs.hpp"), ("parameter checks", "Filtering/FIR.hpp")]),
P("C24", "Bisection brackets a root",
  "For a continuous function with values of opposite sign (or a zero) at two points, bisection terminates and returns a point inside the interval that is within the tolerance (or, without one, within the precision of the number type) of a sign change or zero of the function, for either order of the end points and however small the values are; the function is only evaluated inside the interval.",
  ["inputs"], "all functions and brackets",
  "tests solve a couple of equations",
  ["Math/Solvers.hpp"], [("bracketing loop", "Math/Solvers.hpp")]),
P("C25", "Filter measurement classifies and measures any spectrum",
  "A magnitude response is divided into alternating pass and stop bands with hysteresis: beginning at a sample, the band ends at the first sample beyond 0.5 by the margin 0.0005 on the other side (at the end if there is none), and the border lies half way between that sample and the first one beyond the margin on the band's own side; the borders rise, the first is 0. Classification agrees with this pattern for every response and size: pass-stop is low-pass, stop-pass high-pass, stop-pass-stop band-pass and pass-stop-pass band-stop, anything else (the empty response included) is none of them, and the functions for one kind throw exactly for the other patterns. Every reported field is the one of its own band: its ripple is the largest deviation from 1 (pass) or 0 (stop) among the centres of five-sample windows that are the window's maximum or minimum, 0 if there is none; its edges lie inside the band, divided by the number of samples: at an inner border the outer one of the fitted transition edge and of the first such maximum (pass band) or minimum (stop band) from that border (one past its centre at an upper border), at the ends of the spectrum the end itself. The frequency response of a system is the magnitude and the argument of its value at exp(i w) for w uniform over 0 to pi with both ends, on the hinted number of points or 20 (order + 1) of them; that of an impulse response is the magnitude and the argument (0 where the response is 0) of the half spectrum of the impulse zero-padded to the larger of its length and 2 * hint - 1 (hint 10 times the length by default). Nothing outside the inputs is read.",
  ["inputs"], "all responses, sizes, systems and hints (real arithmetic)",
  "tests measure a few designed filters on fixed grids",
  ["Filtering/MeasureFilter.hpp"], [("band extraction, parametrisation and classification", "Filtering/MeasureFilter.hpp"), ("FrequencyResponse", "Filtering/MeasureFilter.hpp")]),
]

# claimed properties: id -> level note
REAL = " Trusted: clang/opt front end, own VC generator, z3, floating point read as exact reals, sizes below 2^36."
CLAIM = {
"C01": "Every operator and Add/Subtract/Multiply/Divide overload of real, complex and mixed element types proved bit-exact for all lengths, with aliasing and frame." + REAL,
"C02": "Every elementwise function proved lane by lane for all lengths (double, complex<double>; float in thorough); xsimd's vector functions are trusted to equal the scalar ones, which the bounded part compares." + REAL,
"C03": "All reductions proved for all lengths (double, complex<double> Sum and Mean; float in thorough)." + REAL,
"C04": "All statistics proved for all lengths and orders over contracts of Mean, CentralMoment and Covariance (double; float in thorough)." + REAL,
"C05": "Proved for all lengths (double, complex<double> and both mixes of real and complex; float in thorough)." + REAL,
"C06": "Kernels and public functions proved for all lengths, offsets and both accumulate settings (double; float kernels in thorough)." + REAL,
"C07": "The block loop (all four operand kinds, both orders, every range and chunk size, clearing and accumulating), the full, central and returning forms and the automatic chunk size proved for all lengths; the transform itself by contract (pocketfft trusted)." + REAL,
"C08": "Streaming (convolution and overlap-add, output and returning forms) and non-streaming full/central filtering, the state shift, and one call equals two proved for all lengths over the convolution kernels' and OverlapAdd's contracts (double); other element types and longer partitions bounded." + REAL,
"C09": "Direct forms I and II and the cascade proved to run their difference equations for every order, block length and history, in place and in every call form, with construction, reordering, reset and continuation over blocks (double)." + REAL,
"C10": "Every operator, comparison, floor/ceil/frac and conversion proved over mathematical integers with gcd under contract (int32/int64)." + REAL,
"C11": "Every interval function proved for all ordered end points (int, int64, float, double)." + REAL,
"C12": "Decimate, Expand, PolyphaseDecompose, PolyphaseNormalize and the phase views proved for all lengths, rates and phase counts (double; complex Decimate)." + REAL,
"C14": "Evaluation (real and complex), multiplication in place by first- and second-order factors, expansion, construction from a list, copy, move, assignment, resize and regroup proved for all degrees (double); that the recurrences are sums of powers and products of factors by induction lemmas." + REAL,
"C15": "Values, orders, copies, moves and assignments of all three representations, the expanded transfer function, pairing of real roots (every root in one polynomial), polynomials of pairs, assembly of the sections (every polynomial in one section, padding, gain) and the product of the sections proved for all numbers of roots (double), against contracts for the polynomials (C14) and std::sort, partition_point and vector insertion (assumed)." + REAL,
"C16": "Bilinear transform: the roots are moved with k = 2 fs (or the prewarped constant) and the missing ones are at -1, the gain is the system's value at k, and TransformRoots moves every real root, pair and pad as said, for all numbers of roots. Band transforms: gain (products over all roots, exponent poles - zeros), arguments and pads of the root maps of both orders, root map of order 1; the coefficients of all four band maps are finite for every band inside (0, 1), and take the edges to the cut-off and DC, Nyquist and the band centre to the pass and stop points (trigonometric identities decided exactly). Identities of the linear factors prove that these parts give the substitution. The choice of real or paired images in the root map of order 2 is bounded only." + REAL,
"C17": "Tap transforms (also in place), the Hilbert kernels, the low-pass kernel with a window signal or a window functor and the four window designs proved for all odd lengths, cut-offs and windows (double)." + REAL,
 "C23": "Every setter of every description (windowed, least-squares, Butterworth, Chebyshev, elliptic) proved field by field, both parameter checks and their use proved exact for all real parameters, responses and weights of all least-squares designs proved at every frequency (double)." + REAL,
 "C13": "Interpolate and Resample (both forms), DotProductSample, the length, delay and cut-off functions and both suspension points proved for all input and filter lengths, phase counts, rational rates, start points and output ranges (double)." + REAL,
"C18": "LinSpace, LogSpace and nine windows (output, returning, complex and functor forms) proved sample by sample for all lengths over contracts of the elementwise operations; the Dolph-Chebyshev window and symmetry are bounded." + REAL,
"C19": "Every wave and chirp generator proved sample by sample for all lengths, rates, frequencies, phases and parameters; range of sawtooth and PWM proved; periodicity bounded." + REAL,
"C20": "Shifts (in place and not), bin and frequency conversions, and the layout, mirroring, scaling and sizes of all forward and inverse transforms proved for all lengths over contracts of pocketfft and std::rotate (double, complex<double>); the transforms themselves bounded." + REAL,
"C21": "Every constructor, assignment, accessor, iterator and modifier of Signal proved for all sizes, capacities and positions (double; complex<double> except resize with a fill value; float to double conversion), through the standard library's vector code; sequences of operations bounded." + REAL,
"C22": "Every constructor, conversion, sub-view, accessor and iterator of the views proved for all parents, offsets and lengths (double, complex<double>), and that sub-views outside their parent reach the assertion." + REAL,
"C24": "Loop invariant (bracket kept, sign change kept, nested in the given points) and exit condition proved for every function (uninterpreted) and end points; termination is checked bounded." + REAL,
"C25": "Band extraction (with std::find_if), local extrema in both directions, ripple, both edges, parametrisation, classification, all five measuring functions and the frequency responses of the three kinds of systems and of impulses proved for all spectra and sizes (double)." + REAL,
}
TECH = "contract-based deductive verification: contracts on the real functions (LLVM IR of the instantiated templates), own VC generator, z3"
NOT_YET = "check not built yet"
NA = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3-vt run.py --setup",
             checks=[dict(property=p["id"], quick_cmd="python3-vt run.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3-vt run.py %s" % p["id"],
                          technique=TECH, level="proof", level_note=CLAIM[p["id"]]) for p in PROPS if p["id"] in CLAIM],
             not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], NOT_YET)) for p in PROPS if p["id"] not in CLAIM])
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
