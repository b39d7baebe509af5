"""The property catalogue: properties.jsonl and MANIFEST.json are generated from
this file by bin/genmeta, so that the two never drift apart."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), na=None,
         technique=None, note=None, timeout=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, na=na, technique=technique, note=note))


prop("I01", "Dyadic dissection of an interval is its canonical exact tiling",
     "Dissecting an interval at a resolution gives dyadic intervals of the requested half-open type, in increasing order, that abut exactly and together cover exactly the interval whose end points are the given ones rounded outward-consistently onto the resolution grid (down for clopen, up for opencl). Every piece is maximal: its dyadic parent does not fit in the rounded interval, and no piece is finer than the resolution. This holds for every pair of end points, either type, and every resolution whose grid fits the integer range.",
     ["inputs"], "all intervals with end points on a grid finer than the resolution in a box around 0 (both types, both source types), all resolutions -2..7, and resolutions up to 28 for special end points",
     "The tests dissect half a dozen clopen intervals; the tiling loop depends on the parity pattern of both end points at every level, on sign, and on the interval type.",
     ["intervals/src/dyadic_interval.cpp", "intervals/include/roughpy/intervals/dyadic_interval.h"],
     [("ascend while the parent does not contain the far end, emitting siblings, then descend", "to_dyadic_intervals")],
     observe=["to_dyadic_intervals", "rp.DyadicInterval.to_dyadic_intervals"],
     technique="bounded-exhaustive explicit enumeration of all (interval, type, resolution) states on the real code, against an independent greedy tiling model over exact integers",
     note="All end points k/32 in the box, all resolutions in range; the recursion depends only on the binary digits of the end points, all patterns of which up to 8 digits are enumerated. 32-bit multiplier overflow (|k|*2^n >= 2^31) is outside the claim.")

prop("I02", "Dyadic numbers and half-open intervals obey exact interval algebra",
     "Dyadic rationals compare, convert, rebase and step as the exact rationals k/2^n. A dyadic interval's end points, children, siblings, ancestors, containment, alignment and order are those of the real half-open interval it denotes and keep its type; point membership, containment, intersection, union and equality of general intervals agree with point-set semantics for both half-open types.",
     ["inputs"], "all pairs of dyadics with |k| <= 10 (18), powers -2..4 (5), all pairs of dyadic intervals of both types over them, all pairs of half-integer real intervals of both types",
     "The tests check a few clopen examples; ordering of mixed powers, negative multipliers and the opencl type are not reached.",
     ["intervals/src/dyadic.cpp", "intervals/src/dyadic_interval.cpp", "intervals/src/interval.cpp", "intervals/src/real_interval.cpp", "intervals/src/intersection_and_union.cpp"],
     [("comparison at a common power; type-aware unit()", "Dyadic operators, DyadicInterval")],
     technique="bounded-exhaustive explicit enumeration of operand pairs on the real code against exact integer arithmetic",
     note="Pairs over the stated box; larger multipliers only repeat the same digit patterns until 32-bit overflow, which is outside the claim. The intersection of disjoint intervals is not claimed (an existing test fixes it to the default interval).")

prop("I03", "Partitions stay sorted tilings under every operation",
     "A partition built from any list of points consists of the interval's type-preserving pieces between consecutive distinct interior points, whatever order the points come in, ignoring points outside or on the boundary. Inserting a new interior point, refining by midpoints, merging two partitions, copying, assigning and comparing act as set operations on the interior points (merge also contributes the inner end points), and mesh is the smallest piece length.",
     ["histories", "inputs"], "all partitions of all intervals with integer end points 0..6 (7), all insertion sequences of length 4, all ordered pairs for merge, equality and assignment, both types",
     "Tests cover a handful of unit-interval partitions; the merge has eight relative positions of end points times coincidences of points.",
     ["intervals/src/partition.cpp", "intervals/include/roughpy/intervals/partition.h"],
     [("linear interleaving merge, lower_bound insertion", "Partition::merge, insert_intermediate")],
     technique="exhaustive exploration of partition states and operation sequences on the real code against a sorted-set model",
     note="All partitions of up to 6 (7) unit pieces and all pairs of them; insertion of repeated and boundary points is left unspecified.")

prop("I04", "Dyadic segmentation finds every good region to the asked depth",
     "Segmenting an interval with a predicate that holds exactly for the intervals inside one of finitely many good regions, which are separated by gaps, returns the interval itself (with its type) when that is good, and otherwise, in ascending order, one segment per region: the region cut down to the interval and rounded inwards to the grid of 2^max_depth equal cells of the interval, left out when nothing remains. Also with touching regions, every segment lies inside the interval and is made of good cells. An empty interval that is not good is refused.",
     ["inputs", "histories"], "every choice of good cells among 8 (16) cells, with the outer regions also sticking out of the interval on either or both sides, every single region on a grid of 64 cells, depths 0..8, five intervals of both types, all layouts of touching regions over 8 cells",
     "Tests have one predicate; the searcher walks depth by depth from the right, expands a find to both sides by halving, and skips what earlier finds covered by comparing dyadics of different depth.",
     ["intervals/src/dyadic_searcher.cpp", "intervals/src/scaled_predicate.cpp", "intervals/src/segmentation.cpp"],
     [("search by depth with a map of the regions seen, expansion by halving", "DyadicSearcher")],
     technique="exhaustive enumeration of region layouts within a bounded grid, driving the real searcher, against inward rounding of the regions",
     note="A predicate is any family of regions on a grid of 8, 16 or 64 cells; predicates that are not of this form (say bounded length) are not claimed.")

ALG = ["algebra/src/lite_context.h", "algebra/include/roughpy/algebra/algebra_base_impl.h",
       "algebra/include/roughpy/algebra/implementors/algebra_impl.h", "vendored/libalgebra_lite"]
ENUM = "bounded-exhaustive enumeration of operands (every coefficient pattern over small supports, both storages, several construction styles) on the real code, each answer compared exactly with an independent rational reference model"

prop("A01", "Tensor and Lie bases index their words bijectively and canonically",
     "For every width and depth the tensor basis lists every word exactly once, by degree and then lexicographically, and the Lie basis is a Hall basis: its size in each degree is the Witt number, each key of degree above one has parents of smaller total degree in Hall order whose degrees add up, and letters are the first keys. Conversions between index, key, word, letters and text are mutually inverse, parents and first letters are right, and the sizes by degree reported by contexts and bases agree. Free tensor product, shuffle product and Lie bracket of any two basis keys are those of the words.",
     ["inputs"], "all keys of the tensor and Lie bases of every context with total dimension up to a few thousand (width 1..6)",
     "Tests look at width 2-5 bases at a few keys; packed keys carry degree in their top byte and roll over at each degree boundary.",
     ["vendored/libalgebra_lite/tensor_basis.h", "vendored/libalgebra_lite/basis", "algebra/src/libalgebra_lite_internal/tensor_basis_info.h", "algebra/src/libalgebra_lite_internal/lie_basis_info.h", "algebra/include/roughpy/algebra/basis.h"],
     [("sizes/powers tables, packed (degree,index) keys", "tensor_basis"), ("Hall set grown degree by degree", "hall_set")],
     observe=["Basis::index_to_key", "key_to_string", "parents", "size"],
     technique="exhaustive enumeration of all basis keys of each context on the real code against an independent word / Hall-set model",
     note="Every key of every basis within the size bound; no sampling.")

prop("A02", "Free tensors form the truncated tensor algebra whatever their storage",
     "For every coefficient type and for dense, sparse and mixed operands (including empty and self-aliased ones) addition, subtraction, negation, scaling, division by scalars, fused scale-add, in-place and out-of-place products, equality, coefficient access, iteration, size, degree and is_zero agree with the exact truncated tensor algebra over the context's scalars; a copy never changes with its original; the context's free multiplication of free and shuffle tensors is the concatenation product.",
     ["inputs"], "all elements with every single basis coefficient and all pairs from a basis-covering set with mixed fractional coefficients, width 1-4, depth 1-6 (7), double/float/rational/polynomial coefficients, dense/sparse x dense/sparse, three construction styles",
     "The tests fix one or two shapes and mostly dense doubles; truncation levels, dense sizes short of the full dimension, aliasing and mixed storage are combinatorial.",
     ALG, [("dense product by degree, sparse product by key", "free_tensor_multiplication::fma"), ("in-place merges of sparse maps", "sparse_vector::inplace_binary_op")],
     observe=["FreeTensor arithmetic", "Context::free_multiply"], technique=ENUM,
     note="Exact comparison for rationals and polynomials (evaluated at several points), tolerance of a few ulps for floats. The default-constructed null element and operands of different contexts are outside the claim.")

prop("A03", "Tensor exponential, logarithm, fused exponential, inverse and antipode",
     "exp of a tensor without constant term and log of a tensor with constant term one are the truncated power series and mutually inverse; multiply-by-exponential (in place or not) equals the product with the exponential of the argument without its constant term; the antipode is the signed word reversal and an anti-automorphism, so it inverts exponentials; the inverse is a two-sided inverse. All this holds for dense and sparse storage, at every truncation level.",
     ["inputs"], "all basis-covering elements, width 1-3, depth 1-5 (7), double/float/rational/polynomial, dense and sparse",
     "Tests compare exp and log for one or two elements; tiling in the antipode only starts above depth 2 and each depth parity takes other branches.",
     ["vendored/libalgebra_lite/free_tensor.h", "algebra/include/roughpy/algebra/free_tensor.h"],
     [("Horner evaluation with truncation", "exp/log/fmexp"), ("tiled in-place transposition", "antipode_helper")],
     observe=["FreeTensor.exp/log/fmexp/antipode/inverse"], technique=ENUM,
     note="Compared exactly with power series over rationals.")

prop("A04", "Shuffle and half-shuffle products are those of words",
     "The shuffle product is the commutative, associative, truncated shuffle of words, for every coefficient type and storage, in place or not, through ShuffleTensor operators and through the context for any mix of free and shuffle tensors; the half-shuffle is the left half-shuffle (first letter kept from the left factor), which is zero on a left constant, and satisfies u*v = u<v + v<u for words.",
     ["inputs", "histories"], "as for the free tensor product; contexts used in every order since the word products are memoised",
     "The memoised recursive word product is only filled on demand, so which words were multiplied before matters; tests do a few products.",
     ["vendored/libalgebra_lite/shuffle_tensor.h", "vendored/libalgebra_lite/basis", "algebra/src/lite_context.h"],
     [("recursive memoised word product", "shuffle_tensor_multiplier, half_shuffle_tensor_multiplier")],
     observe=["ShuffleTensor arithmetic", "shuffle_multiply", "half_shuffle_multiply"], technique=ENUM,
     note="Exact for rational coefficients.")

prop("A05", "The adjoint of left multiplication is the transpose of multiplication",
     "For every tensor x and argument y, the adjoint of left multiplication by x applied to y is the element whose pairing with any word w equals the pairing of y with x times w (left removal of prefixes), truncated to the context, with the type of the argument, for dense, sparse and mixed operands and all coefficient types.",
     ["inputs"], "all pairs from a basis-covering set of elements, width 1-3, depth 1-5, four coefficient types, four storage combinations, free and shuffle arguments",
     "Three separate kernels (dense/dense, dense/sparse, sparse) handle disjoint storage combinations; tests reach one of them.",
     ["vendored/libalgebra_lite/free_tensor.h", "algebra/src/lite_context.h", "roughpy/src/algebra/free_multiply_funcs.cpp"],
     [("left_ftm_adjoint eval overloads", "free_tensor.h")],
     observe=["Context::adjoint_to_left_multiply_by", "rp.adjoint_to_free_multiply"], technique=ENUM,
     note="Exact for rational coefficients.")

prop("A06", "Lie elements form the free nilpotent Lie algebra and map faithfully to tensors",
     "Lie addition, scaling and bracket (operator * and commutator) are those of the free nilpotent Lie algebra: bilinear, antisymmetric, Jacobi, truncated. lie_to_tensor is the injective homomorphism sending brackets to commutators, tensor_to_lie is its left inverse (on any tensor the Dynkin idempotent), both linear, for any storage and coefficient type.",
     ["inputs", "histories"], "all single-key and basis-covering elements, width 1-5, depth 1-6; all basis keys for the maps",
     "Tests check one bracket identity; memoised bracket tables are shared between contexts.",
     ["vendored/libalgebra_lite/lie.h", "vendored/libalgebra_lite/maps.h", "vendored/libalgebra_lite/maps.cpp", "algebra/src/lite_context.h"],
     [("recursive Hall rewriting with cache", "lie_multiplier"), ("cached expand / rbracketing", "maps_implementation")],
     observe=["Lie arithmetic", "Context.lie_to_tensor", "Context.tensor_to_lie"], technique=ENUM,
     note="The model builds its own Hall basis and solves for coordinates exactly.")

prop("A07", "CBH and signatures from increments match the group product",
     "The Campbell-Baker-Hausdorff product of any list of Lie elements equals log of the product of their exponentials, in order, empty lists giving zero; the context's signature and log-signature of a list or matrix of increments is that product and its logarithm, whatever the vector type asked for, the row order, or missing (null) rows.",
     ["inputs"], "all short sequences (up to length 3-4) over a basis-covering set of Lie elements and of increment rows, width 1-3, depth 1-5",
     "Tests check two-element CBH on one shape.",
     ["algebra/src/lite_context.h", "algebra/include/roughpy/algebra/context.h", "algebra/src/context.cpp"],
     [("fold of fmexp then log then tensor_to_lie", "cbh_impl, compute_signature")],
     observe=["Context.cbh", "Context::signature", "Context::log_signature"], technique=ENUM,
     note="Exact for rational coefficients.")

prop("A08", "Construction and conversion preserve coefficients up to truncation",
     "Constructing an algebra element from dense data, from key/value pairs in any order, of any scalar type, gives exactly those coefficients converted to the context's type; converting an element to another context or vector type keeps every coefficient whose word exists in the target (Lie elements through their tensors) and drops the others; nothing is lost, duplicated or invented, for any pair of widths-compatible contexts and any storage.",
     ["inputs"], "all ordered pairs of contexts (depths 1-4 x coefficient types x storages), all single-coefficient and basis-covering elements, key permutations and data longer or shorter than the basis",
     "Tests convert one tensor; the pairs of (source depth, target depth, source scalar, target scalar, storage) are combinatorial.",
     ["algebra/src/lite_context.h", "scalars/src/scalar_helpers/standard_scalar_type.h"],
     [("construct_impl, tensor_populate_vcd", "lite_context.h")],
     observe=["Context::construct_*", "Context::convert"], technique=ENUM, note="Exact; float targets compared with the rounded value.")

prop("A09", "Arbitrary in-place operation histories agree with the pure algebra",
     "After any sequence of in-place and out-of-place operations (add, subtract, scale, divide, fused scale-add/-subtract, product, fused product, copy, assign, clear, self-aliased operands, borrowed views) on two elements of any storage, both hold exactly the value the same sequence gives in the pure algebra.",
     ["histories"], "all operation sequences up to length 3 (4) over 16 operations, from 16 storage/initial-value combinations, for free tensors, shuffle tensors and Lie elements",
     "Dense size and degree bookkeeping depends on the history of operations; tests apply one operation to a fresh object.",
     ALG, [("dimension and degree kept by each in-place operation", "dense_vector, sparse_vector")],
     state=[("m_degree, storage size", "bookkeeping of a dense vector", "dense_vector.h")],
     technique="exhaustive depth-first exploration of all operation sequences up to a depth on the real code, with the exact algebra as lock-step model",
     note="All interleavings of the operation alphabet to the stated depth.")

prop("A10", "Results do not depend on which contexts were used before",
     "Bases, products, brackets, maps and signatures of a context are the same whatever other contexts (other depths and coefficient types of the same width, other widths) were created and used earlier in the process, and asking for a context twice gives the same context.",
     ["histories"], "all orders of use of up to four contexts out of the five shapes, each order in a fresh process",
     "Registries of bases and memoised product tables are process-wide; the test suite always runs in one order.",
     ["vendored/libalgebra_lite/maps.cpp", "vendored/libalgebra_lite/registry.h", "algebra/src/context.cpp", "algebra/src/lite_context.cpp"],
     [("process-wide registries and caches keyed by width/depth", "basis_registry, multiplication_registry, lie_multiplier cache")],
     technique="exhaustive exploration of all orders of context use, one fresh process per order, all observable tables compared with the model",
     note="All permutations of the stated contexts.")


SCAL = ["scalars/src/scalar.cpp", "scalars/src/scalar/arithmetic.cpp", "scalars/src/scalar/casts.cpp", "scalars/src/scalar/type_promotion.cpp", "scalars/include/roughpy/scalars/scalar.h", "scalars/include/roughpy/scalars/packed_scalar_type_ptr.h"]

prop("S01", "Scalars are values, whatever type they have and however they are held",
     "A scalar of any supported type (signed and unsigned 8-64 bit integers, half, bfloat, float, double, rational, rational polynomial) behaves as the number it holds, whatever holds it: built in place, from a fraction, copied, moved, referring to an array element or to caller's memory, mutable or const. Addition, subtraction, multiplication, division and negation, in place or not, between scalars of any two types give the value in the promoted type (exact when both are exact; rounded once for floating point; an in-place operation on a typed reference or scalar keeps the left type); equality and is_zero agree with the values; conversion to and assignment from any type that can represent the value preserves it; copying never aliases the source, and operands are never changed.",
     ["inputs", "histories"], "all ordered pairs of 14 scalar types x 8 ways of holding each operand x representative values (zero, +-1, small, fractional, extreme, two-term polynomials) x 4 operations, out of place and in place",
     "The tests exercise double-double pairs and few conversions; storage mode, type pair and operation are dispatched separately, giving thousands of combinations.",
     SCAL, [("packed type pointer / type info and content mode", "PackedScalarTypePointer"), ("dispatch on promoted type through conversion buffers", "scalar_inplace_* and convert_copy")],
     state=[("p_type_and_content_type + union", "type, storage mode and payload of a Scalar", "scalars/include/roughpy/scalars/scalar.h")],
     observe=["Scalar operators", "scalar_cast", "Scalar::change_type", "rp.Scalar"],
     technique="bounded-exhaustive enumeration of all (type, storage form, value) pairs and operations on the real code against exact rational arithmetic with explicit rounding",
     note="Values whose exact result does not fit the promoted integer type, integer/integer division, and division by zero or by a non-constant polynomial are excluded.")

prop("S02", "Scalar arrays keep their elements through copies, views and conversions",
     "A scalar array of any type, length and storage (owned, mutable view, const view, empty) reads back the elements it was given; slices and borrowed views show exactly the selected elements; assigning one array to another of any storage or type, moving it, or converting it into an array of another type yields exactly the source's elements (converted), independent of the source afterwards; element writes change that element only; keyed arrays keep each key with its value; a two-dimensional scalar stream yields the rows of its data.",
     ["inputs", "histories"], "all types x storages x lengths 0..4 (5), all slices, all ordered pairs of arrays (14x14 types, 8x8 storages, lengths 0..3) for assignment/move/conversion, all keyed-array operations",
     "Storage and type of target and source are handled by separate branches; tests assign like to like.",
     ["scalars/src/scalar_array.cpp", "scalars/src/key_scalar_array.cpp", "scalars/src/scalar_stream.cpp", "scalars/src/scalar_type.cpp", "scalars/src/scalar_helpers/standard_scalar_type.h"],
     [("storage-model dispatch", "ScalarArray::operator=, operator[]"), ("size-checked conversion copy", "convert_copy")],
     observe=["ScalarArray", "KeyScalarArray", "ScalarStream"],
     technique="bounded-exhaustive enumeration of arrays and pairs of arrays on the real code against vectors of exact values",
     note="Copy construction of an owned array shares its buffer by design and is only checked for reading.")

prop("S03", "Generic values compute, compare, convert and print exactly",
     "Values of the runtime-typed value library (signed and unsigned integers of every width, floats and doubles, multi-precision integers and rationals) behave as the numbers they hold: for two values of one type, and for mixed types where the operation is offered, + - * (and / of floating point and rational values) in value and in-place form, also of a value with itself, give exactly the type's arithmetic, all six comparisons agree with the order of the numbers, equal values have equal hashes; the number functions (absolute value, real and imaginary part, conjugate, square root, power including negative powers of rationals, exponential, logarithm, construction from a fraction) are the mathematical ones; reading a value from text and printing it are inverse, 8-bit integers print as numbers; a conversion between builtin types (offered for all of them) yields the number when it is representable, and an exact conversion never yields another number (integers beyond 2^24 or 2^53 may be refused by an exact conversion to floating point).",
     ["inputs"], "all pairs of 8-20 boundary values per type x all operations, all ordered pairs of types for mixed operations and conversions (exact and inexact), all number functions on all values and small exponents",
     "Tests check few operations of two types; each type has its own implementation of every operation, reached only through virtual dispatch.",
     ["platform/src/generics/value.cpp", "platform/src/generics/value_arithmetic.cpp", "platform/src/generics/value_compare.cpp", "platform/src/generics/builtin_types/", "platform/src/generics/multiprecision_types/", "platform/src/generics/number_trait.cpp", "platform/src/generics/arithmetic_trait.cpp", "platform/src/generics/comparison_trait.cpp"],
     [("mixed-type dispatch through traits and conversions", "Value::operator+=, operator=="), ("conversion tables", "conversion_impl.h")],
     observe=["generics::Value", "generics::Ref/ConstRef", "ArithmeticTrait", "ComparisonTrait", "NumberTrait", "ConversionTrait"],
     technique="bounded-exhaustive enumeration of values, pairs of values and types on the real code against an exact 128-bit rational model",
     note="Division by zero, integer overflow, negative powers of integers and conversions between builtin and multi-precision types (not offered) are not claimed.")

prop("S04", "Generic values and arrays own their contents through every history",
     "However generic values and arrays are created, copied, moved, assigned (to themselves, across types, from references), resized, reserved and destroyed, each slot reads back the contents a plain value would have: copies are independent, moved-to slots have the old contents, an assignment of another type converts, array elements keep their values through growth, shrinkage and reallocation and new elements are zero; every block of number storage is released exactly once, and none is left when the last owner is gone.",
     ["histories"], "all histories up to depth 4 (5) of some 25 value operations over two slots and of some 30 array operations over two arrays, for inline, builtin and multi-precision types",
     "Ownership faults need particular orders of copy, move and assignment between storage kinds; tests do each once.",
     ["platform/src/generics/value.cpp", "platform/src/generics/array.cpp", "platform/include/roughpy/generics/values.h", "platform/include/roughpy/generics/array.h"],
     [("inline or allocated value storage", "ValueStorage"), ("capacity and element construction", "Array::resize, reserve")],
     observe=["generics::Value", "generics::Array", "allocations of GMP"],
     technique="exhaustive exploration of all bounded operation histories on the real code, every slot compared with a value model after each step, with an allocation ledger")

prop("S05", "Generic polynomials form the polynomial ring, each in one proper form",
     "Generic monomials (finite maps from indeterminates to positive powers) and polynomials (finite maps from monomials to non-zero rational coefficients) compute exactly: products of monomials add their powers, the six comparisons of monomials are one total order that puts lower degrees first, equal ones have equal hashes and print alike; sums, differences and products of polynomials, also of one with itself, quotients by a non-zero fraction (zero is refused) and constants made from a fraction (in any terms and signs) are those of the polynomial ring; each result is in the one proper form (terms in strictly increasing order, no zero coefficient, fractions in lowest terms), so equality, hash, degree and the tests for zero and for a constant agree with the polynomial; the other operand is left as it was.",
     ["inputs"], "all pairs and ordered triples of the 27 (256) monomials in three (four) indeterminates with powers up to 2 (3); all pairs of 478 (1,783) polynomials of up to three terms x + - *, each with itself, five divisors, through the functions and through the traits",
     "Tests add polynomials whose terms are in both operands; terms that are new, cancel or lie beyond the end of the other operand take other paths.",
     ["platform/src/generics/polynomial_type/monomial.cpp", "platform/src/generics/polynomial_type/polynomial.cpp", "platform/src/generics/polynomial_type/polynomial_arithmetic.cpp", "platform/src/generics/polynomial_type/polynomial_comparison.cpp", "platform/src/generics/polynomial_type/polynomial_number.cpp", "platform/src/generics/polynomial_type/indeterminate.h"],
     [("sorted flat maps changed while they are searched", "poly_add_inplace, poly_sub_inplace, Monomial::operator*="), ("terms that cancel are erased", "poly_mul_inplace")],
     observe=["generics::Monomial", "generics::Polynomial", "PolynomialArithmetic", "PolynomialComparison", "PolynomialNumber"],
     technique="bounded-exhaustive enumeration of monomials and polynomials on the real code against maps of exponents and exact fractions",
     note="The type object, its parser and conversions need a parser library that is not installed here and are not part of the build.")


STR = ["streams/src/stream.cpp", "streams/src/stream_base.cpp"]
HIST = "exhaustive exploration of all bounded streams and query histories on the real code (through the Python API), every answer compared with an exact signature model in lock-step"

prop("T01", "Signature of an increment stream is the ordered product of its increments",
     "For every stream of increments (any rows, any increasing or repeated time stamps, with or without a time channel, any width, depth, coefficient type and storage), the signature over a query interval is the product, in time order, of the exponentials of exactly the increments lying in it, and the log signature is its logarithm; increments and query ends count at the start of their dyadic cell (the stream's resolution for increments, the query's resolution for the ends), increments at equal times apply one after the other, and outside the support nothing contributes. So signatures over adjacent intervals multiply (Chen), parts of the path are never lost or counted twice. The support of the stream starts at the first increment and covers the last; without an explicit resolution the stream's resolution separates distinct increments.",
     ["inputs"], "all row sequences up to length 3 (4) over 5 rows x 3-6 layouts of time stamps (negative, fractional, close, repeated, implicit) x resolutions, each queried on every pair of a grid of end points and several resolutions; width/depth/type/storage sweep; time channel sweep",
     "Tests check whole-stream signatures of random data at the default resolution; alignment of time stamps, cells and query ends is where streams go wrong.",
     STR + ["streams/src/lie_increment_stream.cpp", "streams/src/dyadic_caching_layer.cpp", "roughpy/src/streams/lie_increment_stream.cpp", "roughpy/src/streams/signature_arguments.cpp"],
     [("trim, dissect into dyadic cells, combine cell log signatures by CBH", "Stream::log_signature_impl"), ("recursion to the stream resolution and cached cells", "DyadicCachingLayer::log_signature")],
     observe=["LieIncrementStream.from_increments", "Stream.signature", "Stream.log_signature"], technique=HIST,
     note="Exact for rational coefficients, tolerance 1e-10 for doubles. Clopen queries (the Python API makes no others).")

prop("T02", "Stream answers depend on neither earlier queries nor edits of answers",
     "Every answer of an increment stream to a signature or log signature query (any interval, resolution, context given by ctx, depth or dtype, on the stream or a restriction of it) is the one a fresh stream would give, whatever queries were asked before, through whichever restriction, and whatever in-place changes callers made to earlier answers. Restricting a stream does not change it.",
     ["histories"], "all query histories of length 2 over 108 queries and length 3 over 18 queries (4 thorough) on four streams, results modified in place after each query",
     "Cell log signatures are cached and shared between restrictions; tests never ask the same stream twice with different contexts.",
     STR + ["streams/src/dyadic_caching_layer.cpp", "streams/src/lie_increment_stream.cpp"],
     [("cache of dyadic cells at the stream resolution", "DyadicCachingLayer::m_cache")],
     state=[("m_cache", "dyadic cell -> log signature", "streams/include/roughpy/streams/dyadic_caching_layer.h")],
     observe=["Stream.signature", "Stream.log_signature", "Stream.restrict"], technique=HIST, note="All histories to the stated depth.")

prop("T03", "Piecewise abelian and simplified streams contribute each piece in proportion",
     "A piecewise abelian stream's signature over an interval is the ordered product of the exponentials of its pieces, each scaled by the fraction of the piece that the interval covers (ends rounded down to the query's cells), including gaps between pieces, queries inside one piece and across several, in any context. Simplifying a stream over a partition gives the piecewise stream whose piece over each cell of the partition is the original's log signature over it, in the context, depth and resolution asked for, and leaves the original unchanged.",
     ["inputs"], "all sequences of up to 3 pieces over 5 Lie elements x 8 layouts x resolutions, each queried on a grid of intervals and resolutions; all simplifications of 81 (256) streams over 6 partitions x resolutions x contexts",
     "Tests query whole pieces only.",
     STR + ["streams/src/piecewise_abelian_stream.cpp", "streams/include/roughpy/streams/piecewise_abelian_stream.h", "roughpy/src/streams/piecewise_abelian_stream.cpp"],
     [("proportion of each piece in the queried cell", "PiecewiseAbelianStream::log_signature_impl"), ("pieces from a partition", "Stream::simplify")],
     observe=["PiecewiseAbelianStream.construct", "Stream.simplify", "Stream.signature"], technique=HIST,
     note="Proportions of pieces of non-dyadic length are compared with tolerance 1e-10; pieces are given in order and disjoint.")

prop("T05", "Tick streams and schemas give every tick its own channel, in time order",
     "A stream built from tick data, in any of the accepted formats (tuples, nested pairs, records, dictionaries, lists of items, explicit, enumerated or inferred channel types, float, integer or datetime time stamps in any order), has one channel per increment or value label, one per variant of a categorical label, two (lead, lag) per lead-lag value, in the order of first appearance or of the given schema, then time if included. Its signature over an interval is the time-ordered product of the ticks in it: an increment tick moves its channel by its datum, a value tick by the change from the previous value (from 0 at first), a lead-lag value its lead then its lag, a categorical tick its variant's channel by 1, the time channel by the time since the previous tick. Time is counted from the first tick seen; the default support covers all ticks. Schemas read off data or parsed in any format have exactly those labels and width.",
     ["inputs"], "all sequences of up to 3 ticks over 6 kinds x 5 time layouts (unsorted, simultaneous) x 11 formats x resolutions x supports x time channel x declared schemas and lead-lag; all schemas of up to 3 (4) channels in 4 formats",
     "Tests use two-tick examples; the visiting of formats, label lookup, variant offsets and sorting compose.",
     STR + ["streams/src/tick_stream.cpp", "streams/src/schema.cpp", "streams/src/channels/", "roughpy/streams/tick_stream.py", "roughpy/src/streams/tick_stream.cpp", "roughpy/src/streams/r_py_tick_construction_helper.cpp", "roughpy/src/args/parse_schema.cpp", "roughpy/src/args/convert_timestamp.cpp"],
     [("labels to stream dimensions to Lie keys", "StreamSchema::label_to_lie_key"), ("tree of dyadic cells with events", "TickStream::recursive_logsig")],
     observe=["TickStream.from_data", "StreamSchema.from_data", "StreamSchema.parse"], technique=HIST,
     note="Lead-lag combined with a time channel, and Lie ticks, are not claimed. Exact rational coefficients.")

prop("T09", "Sound file streams play every frame once, at its time",
     "A stream made from a sound file (WAV; 8, 16 and 32 bit integer or 32 and 64 bit floating point samples, any number of channels, any sample rate, named by a path or a file URI) has one channel per channel of the file. Frame n (n at least 1; the first frame is only the starting value) happens at time n divided by the sample rate, and moves an increment channel by its sample, a value channel by the change from the previous frame's sample; integer samples are scaled to [-1, 1). Signatures and log signatures over any interval, at any resolution and in any context of the same width (whatever its depth and floating point type) are the ordered product of the frames in the interval, frames counting at the start of their cell of the stream's resolution; before and after the file, in cells without frames and outside an explicit support nothing contributes. The support is the length of the file unless given; an explicit width, depth, context, type, resolution (0 included) or channel types is honoured; files that are not there or are not sound files, and widths that do not match, are refused.",
     ["inputs"], "42 files (3 channel counts x 7 lengths and rates x 2 contents) x 5 sample formats x 6 resolutions x all channel type assignments, with contexts, supports and URI forms rotating, each queried on all pairs of a grid of end points x resolutions x 4 contexts",
     "The only test opens one bundled recording and queries it once; alignment of frames and cells, skipped first readings and differencing across query ends are where readers go wrong.",
     STR + ["streams/src/external_data_stream.cpp", "streams/src/external_data_sources/sound_file_data_source.cpp", "roughpy/src/streams/externally_sourced_stream.cpp"],
     [("frames of a cell, differenced", "SoundFileDataSource::query_impl"), ("increments to log signatures", "ExternalDataStream::log_signature_impl"), ("options", "SoundFileDataSourceFactory::construct_stream")],
     observe=["ExternalDataStream.from_uri", "Stream.signature", "Stream.log_signature"], technique=HIST,
     note="Compressed formats, and streams with exact coefficients, are not claimed. Compared within floating point tolerance.")

prop("T10", "Schemas map labels, channels and dimensions of a stream one to one",
     "In a stream schema made of any sequence of increment, value, lead-lag, categorical and Lie channels, with or without the time channel, the channels occupy consecutive dimensions in the order of insertion: one each, two (lead, lag) if lead-lag, one per variant if categorical, the time channel last. Looking up a dimension, a Lie key (dimension plus one), a label, a 'label:variant', a channel number or a channel and variant number leads to the same place from every direction, whether or not the schema is finalised, also when labels are prefixes of one another or numbers; the width is the number of dimensions. Inserting a label that exists returns the channel there is; unlabelled channels get fresh labels. Finalising to a greater width adds increment channels up to it and leaves the others where they are; to a smaller one, and inserting afterwards, throws; so do labels, variants, channels and dimensions that do not exist.",
     ["inputs"], "all sequences of up to 3 (4) channels of 7 kinds, with and without time, every lookup before and after finalising, finalising to 3 widths; all sequences of up to 3 numeric labels followed by unlabelled channels",
     "Tests cover one schema with a channel of each kind.",
     ["streams/src/schema.cpp", "streams/src/channels/", "streams/include/roughpy/streams/schema.h", "streams/src/parametrization.cpp"],
     [("walk over the channels' variants", "StreamSchema::stream_dim_to_channel_it, channel_variant_to_stream_dim"), ("label comparison", "StreamSchema::compare_labels")],
     observe=["StreamSchema"], technique=ENUM,
     note="Labels containing ':' and the width of Lie channels are not claimed.")

prop("T08", "Function streams answer to the accuracy asked for, whatever was asked before",
     "The log signature of a function stream over an interval at a resolution is that of the path through the function's values at the ends of all dyadic cells of the interval at that resolution - refined further only where earlier queries had done so - for intervals on either side of the origin, larger or smaller than those asked before, in any order, at the default or an explicit resolution, and in other contexts of no greater depth. Answers changed in place by the caller do not affect the stream.",
     ["histories"], "all histories of 1 and 2 queries over 32 queries and of 3 (4) queries over 12 on three functions x resolutions x supports",
     "The tree of computed intervals grows up, down and sideways with the history of queries; tests ask one or two queries of a fresh stream.",
     STR + ["streams/src/dynamically_constructed_stream.cpp", "roughpy/src/streams/function_stream.cpp"],
     [("tree of dyadic intervals with accuracies", "DynamicallyConstructedStream::m_data_tree")],
     state=[("m_data_tree", "dyadic interval -> value, accuracy, parent, sibling", "streams/include/roughpy/streams/dynamically_constructed_stream.h")],
     observe=["FunctionStream.from_function", "Stream.signature"], technique=HIST, note="All histories to the stated depth; exact rational coefficients.")

prop("T04", "Brownian streams have the law of Brownian motion after every query history",
     "Whatever intervals were asked for before, at whatever resolutions and on either side of the origin, the increments of a Brownian stream are centred Gaussians with the covariance of Brownian motion: the covariance of the increments over two intervals is the length of their intersection in each channel, and zero between channels. Earlier answers are never rewritten: the increment over an interval is the sum of the increments of its parts, and repeated queries repeat their increments. The log signature over an interval at a resolution is the CBH product of the increments over the finest cells in use, which have no bracket terms. Two streams with the same seed and history give the same answers.",
     ["histories"], "all histories of up to 2 queries over 29 queries and of 3 and 4 (5) queries over 11, widths 1 to 3, both storages; exact linear forms in the variates drawn",
     "The law and the consistency of the answers depend on the history of queries that built the tree; tests ask three fixed queries of one seed and cannot see a variance.",
     STR + ["streams/src/dynamically_constructed_stream.cpp", "streams/src/brownian_stream.cpp", "scalars/src/random/standard_random_generator.h"],
     [("conditional refinement of increments", "BrownianStream::compute_child_lie_increments"), ("root and neighbour increments", "BrownianStream::gaussian_increment"), ("tree of dyadic intervals", "DynamicallyConstructedStream::m_data_tree")],
     state=[("m_data_tree", "dyadic interval -> value, accuracy, parent, sibling", "streams/include/roughpy/streams/dynamically_constructed_stream.h")],
     observe=["BrownianStream::log_signature"], technique=HIST, note="All histories to the stated depth; a scripted generator makes each variate a separate digit of an exact rational, so one execution yields the exact linear form of every answer.")

prop("R01", "Random generators are reproducible, resumable and honour their parameters",
     "For every generator (default, pcg, mt19937) and scalar type that offers them, two generators with the same seed give the same values for the same sequence of requests; a generator given the state of another continues as the other would; reseeding restarts the sequence; the seed and type reported are those in use; a normal request with location m and scale s gives m + s z for the variates z a standard normal request would give; uniform requests stay within their ranges, range by range, and every request gives the number of values asked for.",
     ["histories"], "all sequences of 3 (4) requests out of 7 over 4 scalar types x 3 generators x 6 seeds, with a state transfer before every request",
     "Reproducibility is a statement about all sequences of requests and points of interruption; tests cover one state string of one generator.",
     ["scalars/src/random/standard_random_generator.h", "scalars/src/random/standard_random_generator.cpp", "scalars/src/types/half/half_random_generator.h", "scalars/src/types/bfloat16/bfloat16_random_generator.h", "scalars/src/scalar_type.cpp"],
     [("generator state", "StandardRandomGenerator::m_generator"), ("generator registry", "ScalarType::m_rng_getters")],
     observe=["ScalarType::get_rng", "RandomGenerator::normal_random", "RandomGenerator::uniform_random_scalar"], technique=HIST, note="All request sequences to the stated depth.")

BIND = ["roughpy/src/algebra/"]
prop("B01", "Python keys and bases enumerate and convert words and Hall trees faithfully",
     "For every width and depth, the Python tensor and Lie bases list each key exactly once, in index order, and index_to_key, key_to_index, size (of each degree), parents, degrees and letters agree with each other and with the words / Hall trees they name. A TensorKey made from letters, from an index, by splitting (split_n takes the last n letters off) or by reversing is the key of that word; keys compare and hash as width and word do, and are unequal to other objects. A LieKey made from nested brackets that name a basis element is that element's key and prints as it; letters beyond the width and malformed brackets are refused. Elements have exactly these keys as coordinates.",
     ["inputs"], "all words and Hall trees of 15 (19) shapes, all pairs of words of each, all nested brackets of basis elements, all indices and one beyond",
     "Tests construct a handful of keys of width 3 or less.",
     BIND + ["algebra/src/tensor_basis.cpp", "algebra/src/lie_basis.cpp"],
     [("letters to key", "PyTensorKey"), ("brackets to key", "PyLieKey::operator key_type"), ("basis wrappers", "wordlike_basis_setup")],
     observe=["TensorKey", "LieKey", "Context.tensor_basis", "Context.lie_basis"], technique="bounded exhaustive enumeration of the real code against an independent executable model",
     note="The product of two TensorKeys in the wrong order is a known finding (pinned by an existing test).")

prop("B02", "Python algebra objects compute the right results and own what they hand out",
     "For free tensors, shuffle tensors and Lie elements of either storage and every coefficient type, the Python operators (+, -, unary -, *, /, their reflected and in-place forms with ints, floats, Scalars and elements) and methods (add_scal_mul, sub_scal_mul, add_scal_div, sub_scal_div, add_mul, sub_mul, mul_smul, mul_sdiv), the module's free, shuffle and adjoint multiplications, indexing by key or position, equality and conversion to numpy give the mathematical result, of the type the first operand (for products: the argument) has, and leave every operand not assigned to unchanged. Items and values taken from an iteration keep their key and value while the iteration continues and after the element, the iterator or the list that held them is gone.",
     ["inputs"], "all elements and pairs of elements with coefficients in {0, 1, -2} on up to 4 coordinates x storages x coefficient types x kinds; operations in sequence on shared elements",
     "Tests compare a few random elements per operation; the binding layer's own logic (overload order, lifetimes, argument parsing) is only seen with the right mixture of types and storages.",
     BIND + ["algebra/include/roughpy/algebra/algebra_iterator.h", "algebra/include/roughpy/algebra/algebra_base.h", "roughpy/src/scalars/scalars.cpp"],
     [("operator overloads", "setup_algebra_type"), ("iteration items", "AlgebraIteratorItem"), ("free functions", "free_multiply_funcs.cpp")],
     observe=["FreeTensor", "ShuffleTensor", "Lie", "free_multiply", "shuffle_multiply", "adjoint_to_free_multiply"], technique="bounded exhaustive enumeration of the real code against an independent executable model",
     note="numpy arrays of sparse elements being all zeros is a known finding (pinned by an existing test). Exact for rationals; 1e-12 (doubles) and 1e-5 (floats) relative otherwise.")

prop("B03", "Python data arguments are read element by element whatever their memory layout",
     "An algebra element or stream made from Python data has exactly the data's values as coefficients in order, and owns them: for one- and two-dimensional numpy arrays and memoryviews of every integer and floating dtype with any strides (contiguous, strided, reversed, transposed, broadcast, offset), array.array, lists and tuples of numbers or Scalars, dictionaries and lists of (position or key, value) pairs in any order, and other Lie elements of either storage, for either requested storage and every coefficient type; a two-dimensional array gives one Lie increment per row. Changing the source afterwards does not change the element.",
     ["inputs"], "all views with strides in {0, +-1, +-2, 3, n} and offsets {0, 1} of 10 dtypes x sizes x kinds x contexts; all lists over 3 values and all sparse patterns over 3 values of up to 5 coordinates; 30 two-dimensional layouts x 7 shapes x 4 dtypes x 3 coefficient types",
     "Tests pass contiguous arrays; strides, offsets and borrowing matter only for views.",
     ["roughpy/src/args/", "roughpy/src/algebra/context.cpp", "roughpy/src/streams/lie_increment_stream.cpp", "scalars/src/types/"],
     [("choice between borrowing and copying", "ConversionManager::handle_dltensor_leaf"), ("strided copy", "stride_copy"), ("sparse data", "ConversionManager::handle_lie_leaf")],
     observe=["FreeTensor", "ShuffleTensor", "Lie", "LieIncrementStream.from_increments", "Context.compute_signature"], technique="bounded exhaustive enumeration of the real code against an independent executable model",
     note="Numbers only; Fractions, object arrays and the keys= argument are not claimed. A 2-tuple of numbers is a (key, value) pair.")

prop("B04", "Python monomials and polynomials compute exactly and own their values",
     "Monomial and PolynomialScalar objects behave as monomials and polynomials with rational coefficients: constructors from symbols, powers, dictionaries, pairs and numbers; +, -, *, / and their reflected and in-place forms between monomials, polynomials, ints, floats and Fractions of any size; powers, negation and unary plus; reading, setting and deleting items; len, bool, degree and printing; equality, and for monomials hashing and a total order, by degree first, that agrees with it. Operands that are not assigned to keep their values, an in-place form changes only the object it is applied to, operations that make no sense (division by zero, by a monomial or by a polynomial that is not constant, unknown types) raise an error and leave the operands alone, and results stay valid after their operands are gone.",
     ["inputs"], "all pairs of 9 monomials, 9 polynomials and 17 numbers (up to 10^40) x operators x forms, all pairs and triples of monomials for the order, constructor forms, item histories; all histories of 3 (4) in-place steps over two variables that may be one object",
     "No test in the suite calculates with polynomials from Python; size limits, aliasing and in-place forms are seen only in the right mixture.",
     ["roughpy/src/scalars/r_py_polynomial.cpp", "roughpy/src/scalars/r_py_polynomial.h", "algebra/libalgebra_lite/src/polynomial_basis.cpp"],
     [("polynomial operators", "RPyPolynomial"), ("monomials", "RPyMonomial"), ("numbers to rationals", "py_to_scalar")],
     observe=["Monomial", "PolynomialScalar"], technique="bounded exhaustive enumeration of the real code against an independent executable model",
     note="Monomial.degree() raises NotImplementedError and is not claimed; nor are constructions with zero or negative powers.")

prop("B05", "Python Scalars are values that compute correctly and outlive their source",
     "A Scalar read from an algebra element (by key, by position or from an iteration) or computed from Scalars has the coefficient's value and type, as printed, as to_float, and in comparisons; it keeps them when the element it was read from is changed or gone, and changing it does not change the element. +, -, *, / and their reflected and in-place forms between Scalars, and between a Scalar and an int, float or Fraction that its type holds exactly, negation, == and != give the mathematical result (zero has no sign), in the common type of two Scalars of the same type; operands not assigned to are unchanged; dividing by any zero raises an error and changes nothing.",
     ["histories"], "3 coefficient types x 12 values x 10 ways to obtain a Scalar; all pairs with 12 values x {Scalar, int, float, Fraction} and -0.0, True and 64 bit extremes x 4 operators x 3 forms; pairs of different types; all histories of 3 (4) steps over two variables that may be one object",
     "The tests convert Scalars to floats and no more; lifetimes and signed zeros need particular histories.",
     ["roughpy/src/scalars/scalars.cpp", "roughpy/src/algebra/free_tensor.cpp", "roughpy/src/algebra/shuffle_tensor.cpp", "roughpy/src/algebra/lie.cpp", "scalars/src/scalar.cpp", "scalars/src/scalar/arithmetic.cpp", "scalars/src/scalar/comparison.cpp"],
     [("operators", "init_scalars"), ("coefficients", "FreeTensor.__getitem__"), ("zero test", "Scalar::is_zero")],
     observe=["Scalar"], technique=HIST, note="In-place forms on Scalars that own their value (results of arithmetic). Rational results exactly, doubles to 1e-14, floats to 1e-6. The type of a result with a Python number is claimed for rationals only.")

prop("A11", "The linear Log of tensor_functions is the logarithm convolution series",
     "tensor_functions.Log is linear, keeps the type of its argument (FreeTensor or ShuffleTensor) and the argument itself, and maps every word to the sum over k of (-1)^(k+1)/k times the sum of the concatenations of k non-empty subwords that shuffle to it (dealing its letters, in order, into k non-empty hands); on group-like free tensors it is their logarithm. tensor_word_factory makes the key of the letters given. TensorTensorProduct holds the external product of two tensors, and *, +, add_scal_prod, add_scal_div and sub_scal_div are the linear operations they name, of which only the last three change the product they are called on.",
     ["inputs"], "every word of 9 (13) shapes up to width 4 and depth 4 (6) x coefficient types x storages x element types, pairs of words with 2 sets of coefficients, exponentials of 3 to 6 Lie elements of each shape; all pairs of 17 external products x 13 operations",
     "The one test of Log is at depth 2, where it is correct by symmetry; at depth 3 the code raised an error.",
     ["roughpy/tensor_functions.py", "roughpy/src/algebra/tensor_key.cpp"],
     [("series of convolution powers", "Log"), ("convolution", "_convolve"), ("external products", "TensorTensorProduct")],
     observe=["tensor_functions.Log", "tensor_functions.TensorTensorProduct", "tensor_functions.tensor_word_factory"], technique="bounded exhaustive enumeration of the real code against an independent executable model",
     note="Exact for rationals (and for one polynomial-valued group-like element per shape), 1e-11 for doubles.")

prop("T06", "Tensor valued streams carry their initial value along by signatures",
     "A tensor valued stream's value at a time t of its domain is its initial value times the signature of its increments from the start of the domain to t. Querying it over an interval gives the tensor valued stream over the intersection with its domain, whose initial value is the value at its start, so nested queries agree with direct ones; terminal_value is the value at the end of the domain, and signature and log_signature (over the domain, or an interval inside it, at a given resolution) are those of the increments. Built from values - Lie elements or group-like tensors in any time order - it starts from the earliest value and has each given value from just after its time until the next, on a domain that covers all times, at a default resolution that separates them.",
     ["histories"], "all streams of up to 2 (3) increments over 5 rows x time layouts x resolutions x initial values x domains, all nested queries of length 2 over 5 intervals; all value sequences up to length 3 over 4 group elements x 8 time layouts (unsorted) x 3 forms of the data x resolutions",
     "Tests check one Brownian and one three-value stream, first level only.",
     STR + ["streams/src/tensor_valued_stream.cpp", "roughpy/src/streams/tensor_valued_stream.cpp"],
     [("value at a time", "TensorValuedStream::value_at"), ("increments from values", "stvs_from_values")],
     observe=["TensorValuedStream", "TensorValuedStream.from_values", "TensorValuedStream.query"], technique=HIST, note="Over streams of increments; ends of intervals round down to the stream's resolution. Exact rational coefficients.")

prop("T07", "Signature derivatives are derivatives of the exponential of the log signature",
     "signature_derivative of a stream over an interval with a Lie perturbation P is the derivative at 0 of exp(L + e P), where L is the stream's log signature over the interval at the resolution, for perturbations of any degree and storage, whichever form the call takes (interval and perturbation, a pair, a list), at the stream's depth or another one, leaving the perturbation unchanged; over a list of consecutive intervals it is the derivative of the product of their signatures.",
     ["inputs"], "all streams of up to 2 increments over 3 rows x 2 layouts x storages, every basis direction and 2 mixed perturbations in either storage x 4 intervals x resolutions x call forms, lists of 2 and 3 intervals, other depths",
     "Tests use depth 2 at most, where only one bracket of the series is seen.",
     STR + ["algebra/src/lite_context.h", "roughpy/src/streams/stream.cpp", "streams/src/stream.cpp"],
     [("series in ad", "LiteContext::derive_series_compute"), ("product rule", "LiteContext::sig_derivative_impl")],
     observe=["Stream.signature_derivative"], technique="bounded exhaustive enumeration of the real code against an independent executable model",
     note="Known finding: over several intervals the signatures of the earlier intervals are left out (pinned by an existing test).")

SCHED = "exhaustive stateless exploration of thread interleavings of the real code up to a preemption bound, under a controlled scheduler, with happens-before race detection on every schedule"
prop("C01", "Concurrent queries of one stream are free of races and answer as alone",
     "Threads may query the same stream object at the same time, in any combination of log_signature, signature, signature_derivative, restriction and simplification, over any intervals, resolutions and contexts, including the first queries, which fill the stream's caches. No interleaving races on data, blocks for ever or crashes. On streams made of data every query gets the answer it gets alone; on Brownian streams the increments answered concurrently are the increments answered by the same queries afterwards.",
     ["schedules"], "2 threads with one query each (all pairs of 7 queries, 6 kinds of stream, among them one that reads from an external source), 3 threads, and 2 threads with two queries; every schedule with at most 1 (2) preemptions at locks, once-flags, guarded statics and atomic memory operations, and at most 2 (3) preemptions at locks for selected clients",
     "The caching layers and lazily grown trees are filled under locks by the first query that needs a node; no test uses two threads, and a missing or misplaced lock shows only in particular interleavings of cold objects.",
     STR + ["streams/src/dyadic_caching_layer.cpp", "streams/src/dynamically_constructed_stream.cpp", "scalars/src/random/standard_random_generator.h"],
     [("cache of dyadic pieces under its lock", "DyadicCachingLayer::log_signature"), ("tree grown under its lock", "DynamicallyConstructedStream::log_signature")],
     state=[("m_cache", "dyadic interval -> Lie", "streams/include/roughpy/streams/dyadic_caching_layer.h"), ("m_data_tree", "dyadic interval -> value and accuracy", "streams/include/roughpy/streams/dynamically_constructed_stream.h")],
     observe=["Stream.log_signature", "Stream.signature"], technique=SCHED,
     note="Explores the C++ layer; the Python layer holds the interpreter lock. Switches before operations on objects only one thread of the execution uses are not branched on.")

prop("C02", "Contexts, algebra objects and generators may be shared between threads",
     "Threads may at the same time get contexts (of new or existing shapes and coefficient types), read shared algebra objects, and use a shared context to multiply (free, shuffle, half shuffle, adjoint, Lie bracket), exponentiate, take logarithms, form CBH products, convert between Lie elements and tensors, build elements and print bases, including the first uses, which fill the shared multiplication and bracket caches and registries; and they may draw from, and read the seed and state of, one random generator. No interleaving races on data, blocks for ever or crashes; every call answers what it answers alone, and draws from a generator are those of some order of the requests.",
     ["schedules"], "all pairs of 21 operations from cold shared contexts in 2 coefficient types and storages, 14 triples, all pairs of 9 scalar and generator operations; every schedule with at most 1 (2) preemptions at locks, once-flags, guarded statics and atomic memory operations (2 for generators)",
     "Multiplication tables, bracket caches, context and scalar type registries are global and filled lazily; no test uses two threads.",
     ["algebra/src/context.cpp", "algebra/src/lite_context.h", "algebra/src/lite_context.cpp", "vendored/libalgebra_lite/registry.h", "vendored/libalgebra_lite/maps.cpp", "vendored/libalgebra_lite/hall_set.h", "vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp", "vendored/libalgebra_lite/algebra/lie_multiplier.cpp", "scalars/src/random/standard_random_generator.h", "scalars/src/scalar_type.cpp"],
     [("registries under locks", "get_context, multiplication_registry::get, basis_registry::get"), ("memoised products", "lie_multiplier::operator(), right_half_shuffle_tensor_multiplier::operator()"), ("lazy brackets", "maps::rbracket")],
     state=[("m_cache", "parents -> product", "vendored/libalgebra_lite/lie.h"), ("s_lite_context_cache", "shape and coefficient type -> context", "algebra/src/lite_context.cpp")],
     observe=["get_context", "Context.cbh", "FreeTensor", "RandomGenerator::normal_random"], technique=SCHED,
     note="Only reading operations on shared elements are concurrent. Race detection sees instrumented code (not inside GMP or libstdc++'s compiled part).")

PERS = ["roughpy/src/streams/stream.cpp", "roughpy/src/intervals/", "roughpy/src/algebra/", "roughpy/src/scalars/r_py_polynomial.cpp"]
prop("P01", "Pickled Python values come back equal and usable",
     "Intervals (real and dyadic), dyadics, partitions, monomials, polynomials, and free tensors, shuffle tensors and Lie elements of every coefficient type and storage, when pickled and unpickled (by any protocol) or copied or deep-copied, alone or inside containers, give an object of the same type that equals the original, has the same ends, factors, pieces, terms, coefficients (exactly), shape, storage and coefficient type, prints and hashes as it, and gives the same results in further arithmetic; a copy changed in place leaves the original as it was. Copies of copies are no different.",
     ["inputs"], "all dyadics, dyadic and real intervals and partitions over small grids, all monomials and polynomials over small term sets, all coefficient patterns of algebra elements of 3 shapes x 4 coefficient types x 2 storages x 3 kinds; every protocol, copy and deepcopy, once and twice",
     "Tests pickle one value of a few types in double precision.",
     PERS + ["algebra/include/roughpy/algebra/algebra_base_impl.h", "scalars/src/scalar/raw_bytes.cpp"],
     [("pickling through archives", "RPY_PICKLE, RPY_SERIAL_SAVE_FN"), ("raw bytes of exact values", "to_raw_bytes, from_raw_bytes")],
     observe=["pickle.dumps", "pickle.loads", "copy.deepcopy"], technique="bounded exhaustive enumeration of the real code against an independent executable model",
     note="Scalars, keys and contexts cannot be pickled and are not claimed.")

prop("P02", "Pickled streams answer as the original whatever happens to the cache files",
     "A pickled stream of Lie increments (also restricted) or Brownian stream, loaded at any time, has the width, context, coefficient type, resolution and support of the original and answers queries as it: for a Brownian stream, those asked before it was pickled. This holds for any history of queries, pickling and loading of several streams that share a directory, and if cache files are missing, torn off at any byte by a crash while they were written, or unreadable: a cache file never makes a load fail, or an answer change. Kinds of stream that cannot be pickled, and bytes that are not a whole pickled stream, raise an exception and do not end the process.",
     ["histories", "crash"], "round trips after every number of queries (0-7), 1 or 2 loads, files kept or removed, for 47 streams; every truncation of 3 cache files and one pickle; all histories of up to 6 (7) operations out of 9 on two streams that share a directory",
     "The cache directory is state outside the process: what a load sees depends on the history of all streams that used it and on where a writer stopped; tests pickle one stream once.",
     ["streams/src/dyadic_caching_layer.cpp", "streams/include/roughpy/streams/dyadic_caching_layer.h", "streams/include/roughpy/streams/brownian_stream.h", "streams/include/roughpy/streams/lie_increment_stream.h", "roughpy/src/streams/stream.cpp"],
     [("cache files named by identity", "DyadicCachingLayer::m_cache_id"), ("loading cache files", "DyadicCachingLayer::load_cache")],
     state=[("m_cache_id", "identity of the stream's cache file", "streams/include/roughpy/streams/dyadic_caching_layer.h"), (".stream_cache/*", "dyadic interval -> Lie, on disk", "streams/src/dyadic_caching_layer.cpp")],
     observe=["pickle.dumps", "pickle.loads", "Stream.signature"], technique="bounded exhaustive enumeration of operation histories and crash points of the real code",
     note="A torn file is a prefix of the bytes written, over no file or an old one.")

prop("P03", "Archives give back every value, and refuse archives cut short",
     "Scalars of every type (double, float, half, bfloat16, rationals and polynomials of any size, integers), arrays of them with and without keys, monomials, dyadics, dyadic and real intervals, partitions, free and shuffle tensors and Lie elements (also unset) of every storage and coefficient type, and streams, written to a JSON, XML, binary or portable binary archive and read back - into a fresh object or over another value - equal the original bit for bit, with the same type, context, storage and keys, and are written again as the same bytes. A loaded stream has the original's metadata and support and answers as the original does. Reading an archive that was cut short at any byte raises an exception, never returning a value.",
     ["inputs", "crash"], "edge values of 10 scalar types, all arrays of up to 3 entries over 3-6 values, polynomials over all subsets of 5 monomials, all supports (up to dimension 8) of elements of 4 (7) shapes x 4 coefficient types x 2 storages, 110 dyadics, all intervals and partitions over 11 points, each through 4 formats; every cut of selected binary, portable binary and JSON archives; 8064 streams",
     "Each type, format and storage has its own pair of read and write functions which must mirror each other byte by byte; tests write one value per type.",
     ["scalars/src/scalar/raw_bytes.cpp", "scalars/include/roughpy/scalars/scalar_serialization.h", "scalars/include/roughpy/scalars/key_scalar_array.h", "algebra/include/roughpy/algebra/algebra_base_impl.h", "intervals/src/", "streams/include/roughpy/streams/", "platform/include/roughpy/platform/serialization.h"],
     [("raw bytes", "to_raw_bytes, from_raw_bytes"), ("algebra elements", "AlgebraBase::save, AlgebraBase::load"), ("stream metadata", "StreamMetadata")],
     observe=["Scalar", "ScalarArray", "KeyScalarArray", "FreeTensor", "Stream"], technique="bounded exhaustive enumeration of the real code against an independent executable model",
     note="Bare polynomials only in the binary formats. XML is not cut (its parser's own checks).")

COMP = ["roughpy_compute/dense/basic/", "roughpy_compute/dense/intermediate/", "roughpy_compute/dense/views.hpp", "roughpy_compute/common/"]
prop("K01", "The compute kernels equal their definitions at all degrees and strides",
     "The kernels of roughpy_compute over dense data compute: a + op(b c) (fma) and in-place b = op(b c) for the free tensor product; a + op of the shuffle product; a + op of the adjoints of left free multiplication and of shuffle multiplication; the antipode (with every signer); exp of a tensor with zero constant term, log of one with constant term 1, and b exp(x). This holds at every depth from 0, for every minimum and maximum degree of each operand, missing degrees counting as zero; for data behind pointers or strided iterators, also negative strides; writing only the entries the output view covers. Vector operations (add, sub, scale, negate, in place or not) act entrywise under any operation; applying a sparse matrix (CSR or CSC) adds op of the matrix-vector product to the output; strided iterators obey the algebra of positions.",
     ["inputs"], "widths 1-5 (6), depths 0-5 (6), every combination of maximum (and, at low depth, minimum) degrees of all operands, 4 stride layouts, 3 operations, 3 generic fillings and all pairs of basis elements; vectors of all depths, all matrices over {0, 1, -2} up to 2x3 (3x3), iterator positions and offsets in -3..3 x strides",
     "The tests call the Python module with contiguous operands of equal full degree.",
     COMP, [("degree loops", "ft_fma, ft_adj_lmul, st_fma, st_adj_mul, ft_exp, ft_log, ft_fmexp"), ("strides", "StridedDenseIterator"), ("sparse maps", "apply_sparse_linear_map")],
     observe=["roughpy.compute"], technique="bounded exhaustive enumeration of the real code against an independent executable model",
     note="Out-of-place exp/log read into zeroed outputs, as the Python layer does. Order comparison of negative-stride iterators is not claimed.")

prop("K02", "roughpy.compute agrees with the algebra of tensors and Lie elements",
     "In the roughpy.compute module: tensor and Lie bases report their width, depth, size and degree_begin, compare equal and hash alike exactly when they denote the same basis (fresh, truncated or built from the same data), and standard Lie bases are Hall bases. For each Hall basis, standard or given as data, whatever bases were used before, get_l2t_matrix holds the expansions of its elements in words and get_t2l_matrix maps words to their Dynkin brackets; lie_to_tensor and tensor_to_lie apply them with the scale factor and are mutually inverse on Lie elements. ft_fma, st_fma, ft_inplace_mul, ft_mul, st_mul, antipode, ft_adjoint_left_mul, ft_exp, ft_log and ft_fmexp give the truncated-algebra result for every combination of operand depths (missing degrees are zero), batch shapes, float32/float64 and memory layouts, writing only their output. Operands of other widths, dtypes or batch shapes, too small, misaligned, byte-swapped or read-only outputs are refused and left unchanged. check_lie_basis_data accepts exactly data meeting the Hall rules for the given order.",
     ["inputs", "histories"], "every combination of operand depths 0-3 (5), widths 1-3 (4), batches () to (2, 3) and empty, 5 memory layouts of each operand, 2 dtypes; all pairs of basis elements; all Hall bases arranged in any way within degrees of 5 shapes, all histories of 3 (4) uses of 6 bases; every single change of an entry of small basis data",
     "The tests use contiguous arrays of one shape, standard bases and equal depths.",
     ["roughpy/compute/__init__.py", "roughpy/compute/_src/"],
     [("array traversal and degree bounds", "py_binary_array_fn.hpp, py_ternary_array_fn.hpp"), ("Lie maps and product caches", "lie_basis.c, lie_multiplication_cache.cpp"), ("tensor bases", "tensor_basis.c")],
     observe=["roughpy.compute"], technique="bounded exhaustive enumeration of calls and histories on the real module against an independent executable model",
     note="The completeness of custom basis data is not checked by the library and not claimed; nor are tensor-to-Lie maps of bases whose parents are not in index order, and Lie conversions at depth 0.")
