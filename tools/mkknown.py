"""writes known_findings.json"""
import json, os
FIXED = """C18 bfd02c9 axes whose later steps were smaller than the first step (also decreasing ones) passed the check for a uniform increasing axis
C08 3fb4346 band averages of integer spectra were truncated to integers
C10 7f4d4a3 the synthesised time axis could run past the end time
C18 2e9e4a2 spectrum2timeseries failed on column vectors its input check accepts
C09 9fdd8be the band filter dropped the highest component in the band although below the upper limit
C17 8dacea0 coherence was computed from averaged real and imaginary parts without the complex cross-spectrum
C18 600ff54 gauge weights outside [0,1] were accepted
C18 1858665 decompose_linear_ZS_series accepted a wrong number of gauges
C05 8fc0e66 wave statistics of a series without waves raised errors or gave wrong numbers
C13 3ffe0b1 steepnesses ignored explicitly given frequency limits once height and period had been determined
C12 a2a5892 the smoothed peak period left the peak (extrapolated vertex) when the peak is at the edge
C11 925684e compute_moment ignored a single given frequency limit
C20 fc0a9d7 get_spectrum failed for series shorter than one segment
C18 71fc4b1 Series accepted a time axis that is not increasing
C15 54b6452 disper failed for infinite depth and for the shallow water option
C15 948939a disper clamped the wave number of very long waves
C18 d8907a6 uniform axes that start far from zero were rejected
C04 5000fd7 sorting waves again interchanged the periods of equally high waves
C11 cdf1802 moments of negative order failed on an integer frequency axis
C14 d24c8ae the JONSWAP spectrum on an integer frequency axis was truncated to integers
C23 f9a0ed5 the exceedance plot did not show the i-th highest wave at i/N
C11 68701c9 the high-frequency tail failed on an integer frequency axis
C01 30d2943 zero crossings (and Hrms, coherence inputs, wave numbers) of arrays of 8- to 32-bit integers overflowed: int16 counts 20000, -20000 gave a crossing outside the interval between the two samples
C01 3ae8007 on a time axis with unequal steps crossing times were not between their samples
C27 228bcf5 differences of unsigned 64-bit axes wrapped around: a decreasing uint64 (and, asked directly, uint8) axis was taken for uniform, and the nearest index to a whole number below an unsigned value was wrong
C18 cbcbb35 gauge positions and Fourier coefficients given as narrow integers overflowed: positions -100, 0, 100 as int8 gave another decomposition than as floats, decreasing unsigned positions were accepted
C16 f3596ae gauge weights given as unsigned integers changed sign: the decomposition was wrong""".splitlines()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({"findings": [], "fixed": ["fixed: property=" + l for l in FIXED]}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
