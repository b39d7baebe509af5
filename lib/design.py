"""Oracle and cost (quick tier, 8 cores, once built) per property, for DESIGN.md"""
D = {
"I01": ("the greedy tiling by maximal dyadic intervals, over integers", "1 s; 464k intervals, 2.8M pieces"),
"I02": ("exact integer arithmetic; membership of all grid points for sets", "1 s; 117k pairs"),
"I04": ("regions rounded inwards to the grid of the depth", "1 s; 270k segmentations"),
"I03": ("sorted sets of points", "1 s; 40k partitions and pairs"),
"A01": ("words in degree-lexicographic order; Hall set rules and Witt numbers", "2 s"),
"A02": ("truncated tensor algebra over rationals", "2-60 s"),
"A03": ("power series of the model algebra", "2-40 s"),
"A04": ("recursive definition on words", "3 s"),
"A05": ("the transpose of the model product, <adj_a b, c> = <b, a c>", "2-48 s; 112k operand pairs"),
"A06": ("expansion of Hall trees into words; coordinates by exact linear solving", "2-20 s"),
"A07": ("log of the product of exponentials in the model", "1-20 s"),
"A08": ("coefficient maps truncated by key", "2 s"),
"A09": ("the same operations on model values, compared after each history", "1-55 s; 250k histories"),
"A10": ("the answer of a process with no history", "1 s"),
"S01": ("rationals, rounded as the type rounds", "1 s; thorough 363k states, 2.1M operations"),
"S02": ("lists of exact values", "1 s; thorough 75k states"),
"S03": ("exact 128-bit rationals", "1 s"),
"S04": ("a model of two slots, and a ledger of every block GMP allocates", "8 s; 3.6M states"),
"S05": ("maps from exponents to exact fractions, compared with the terms read back", "1 s; 229k states, 1.8M operations"),
"T01": ("ordered product of tensor exponentials over Fractions", "20 s; 0.5M queries of 9k streams"),
"T02": ("the answer of a fresh stream", "15 s; 93k histories, 327k queries"),
"T03": ("proportional split of each piece, exact", "23 s; 158k queries"),
"T04": ("each normal variate is given a name by a scripted generator: the covariances of the linear forms must be those of Brownian motion, cells agree with their parts and with earlier answers", "2 s; thorough 156k histories, 15M comparisons"),
"T05": ("channel model: sort, difference, jump from 0, lead and lag, time", "22 s; 1.2M queries of 50k streams"),
"T06": ("initial value times signature of the increments", "12 s; 90k queries"),
"T07": ("derivative of the exponential by exact series", "12 s; 67k perturbations"),
"T08": ("the path function itself at the refinement asked for", "12 s; 45k queries, 14k histories"),
"T09": ("frames differenced and placed by hand, exact products", "48 s; 319k queries of 7140 streams"),
"T10": ("prefix sums over the channels", "1 s; 141k lookups"),
"R01": ("equal seeds give equal draws, unequal ones differ, states move between generators, affine dependence on mean and variance", "1 s; thorough 173k request sequences"),
"B01": ("words and Hall trees as tuples", "1 s"),
"B02": ("reference algebra over Fractions and polynomials; identity of objects handed out", "5 s"),
"B03": ("element-by-element reads of the same view in Python", "2 s"),
"B04": ("dictionaries from monomials to Fractions", "2 s"),
"B05": ("Fractions, rounded as the type rounds; memory reused between reading a Scalar and using it", "2 s; 62k states"),
"A11": ("sums over deals of a word's letters, Fractions", "7 s; 12k states"),
"C01": ("section 1, The scheduler", "80 s; 190 scenarios, 43k schedules"),
"C02": ("section 1, The scheduler", "35 s; 598 scenarios, 24k schedules of 3.3M steps"),
"P01": ("equality with the original, and its use in further operations", "3 s"),
"P02": ("answers of the original stream before pickling, of a fresh stream after damage", "5 s; 32k states, 198k queries"),
"P03": ("equal value, or an exception for a cut archive; never a crash or another value", "32 s; thorough 7.4M archives"),
"K01": ("definitions on words, in exact small integers", "8 s; 1.04M calls"),
"K02": ("words, Hall trees and Dynkin brackets over NumPy; expected refusals; memory around operands and results compared", "9 s; 222k calls"),
}
