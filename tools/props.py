import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if obs: a['observe_at']=obs
    P.append({'id':id,'title':title,'statement':stmt,'quantifier':{'over':over,'text':q},'why_tests_cant':why,'anchors':a})
L='code/latte/'
p('C01','Rational arithmetic is exact and always in lowest terms',
 'Every operation on rational numbers (construction, sum, difference, product, quotient, integer power, negation, assignment, comparison, inner product of rational vectors) yields the exact mathematical value, for integers of any size and either sign, also when an operand is the object being updated. Every result is stored in lowest terms with a positive denominator, so two rationals compare equal exactly when their values are equal. Writing a rational as text and reading it back gives the same value, with an optional sign and optional blanks around the slash accepted.',
 ['inputs'],'all rationals with non-zero denominator, all exponents (non-negative for base 0), all aliasings of operand and result',
 'tests evaluate a few volumes and counts whose final numbers pass through these operations; the operand space (signs, common factors, sizes beyond a machine word, self-operands) is unbounded',
 [L+'rational.cpp',L+'rational.h'],[('RationalNTL operations','rational.cpp: RationalNTL::*'),('vec_RationalNTL','rational.cpp: vec_RationalNTL::*')])
p('C02','Rational vectors keep their exact value under every operation',
 'A rational vector (vertex) keeps exactly the value of each coordinate through construction, entry updates, copying, reduction to lowest terms, integer scaling and scalar multiplication; bringing it to integers multiplies it by one positive factor. The integer vector and common factor that it hands out always describe its current entries, whatever was updated since they were last computed. The direction from one vertex to another is the primitive integer vector on that ray, pointing from the first to the second.',
 ['inputs','histories'],'all rational vectors with positive denominators of any length and size, all sequences of updates and scaling requests',
 'a stale cached scaling or a lost common factor shows only for particular denominators and particular orders of updates; tests see final counts',
 [L+'rational.cpp',L+'rational.h'],[('rationalVector','rational.cpp: rationalVector::*, compute_integer_scale, canonicalizeRationalVector, normalizeRationalVector, constructRay')])
p('C03','Lists of vectors and cones keep exactly their contents',
 'Appending, concatenating, copying, removing from, comparing and freeing the linked lists in which vectors and cones are kept change exactly the list they are asked to change: a copy has the same entries in the same order with every attribute (vertex, determinants, rays, facets, lattice points, hints) and shares no memory with the original, a concatenation is the entries of both lists in order, a removal drops exactly one entry. Freeing a list or a cone releases each of its own nodes once and nothing that belongs to another list. A membership or equality test answers according to the entries.',
 ['inputs','histories'],'all lists of any length and dimension, all sequences of list operations on separated lists',
 'a lost attribute, a shared node or a double release shows only in the runs that later use that attribute or that memory; tests see the final counts of some examples',
 [L+'cone.cpp',L+'cone.h',L+'ramon.cpp'],[('list operations','cone.cpp: lengthListVector ... copyListCone'),('list helpers','ramon.cpp: createListVector ... isEqual')])
p('C07','Rays and facets of simplicial cones are dual to each other',
 'For a simplicial cone given by linearly independent rays, the computed facet normals are primitive integer vectors, facet i has product zero with every ray but ray i and a negative product with ray i, the recorded facet divisors and both determinants are the exact ones, and the rays are untouched. Exchanging a cone with its dual swaps rays with facets, equalities with lineality generators and the two determinants, and nothing else. Conversion between vector lists and integer matrices (rays, facets, scaled facets) keeps every entry and order.',
 ['inputs'],'all non-singular integer ray matrices of any dimension and entry size, all lists and matrices',
 'signs, missing common-factor cancellation and divisor bookkeeping matter only for particular determinants (negative, non-unimodular, rows with a common factor)',
 [L+'dual.cpp',L+'convert.cpp'],[('simplicial dual','dual.cpp: computeDetAndFacetsOfSimplicialCone, dualizeCone'),('conversions','convert.cpp: createConeDecMatrix, createFacetMatrix, createFacetMatrix2, transformArrayBigVectorToListVector, convert_listVector_to_mat_ZZ')])
p('C04','Conversions between number types keep every value',
 'Converting an integer between the two arbitrary-precision libraries, to or from a rational, or entry by entry in a vector keeps its value and sign for every integer of any size, zero included. Conversion to a machine integer returns the same value or refuses, and the inner product modulo a number is the representative of the exact product with the sign of the modulus.',
 ['inputs'],'all integers of any size, vectors of any length',
 'a lost sign, a dropped high byte or a missing top digit needs a number of one particular size, and then every later count is silently wrong',
 [L+'latte_gmp.cpp',L+'latte_ntl.cpp'],[('library to library','latte_gmp.cpp: convert_ZZ_to_mpz, convert_mpz_to_ZZ, convert_vec_ZZ_to_mpz_vector'),('machine integers, modular products','latte_ntl.cpp: convert_ZZ_to_int, InnerProductModulo')])
p('C06','Signed decomposition adds up to the cone and respects the index limit',
 'Decomposing a simplicial cone, in the dual, primal or all-primal mode, delivers simplicial cones with signs such that, away from finitely many hyperplanes, the signed number of delivered cones containing a point is 1 inside the given cone and 0 outside (in dual mode, read on the duals of the cones). Every delivered cone has the vertex of the cone decomposed, linearly independent generators, consistent facets and exact determinants, and an index at most the configured limit in the space where the limit is applied; a limit of 0 delivers the cone undecomposed. Each step replaces a cone by cones of strictly smaller index, so the decomposition terminates.',
 ['inputs','configurations'],'all non-singular integer generator matrices of any dimension and entry size, all vertices, all index limits, the three decomposition modes',
 'a wrong sign, a lost child or an index test in the wrong space cancels or stays invisible in the final counts of the examples; the tree of cones is different for every input',
 [L+'barvinok/barvinok.cpp',L+'barvinok/barvinok.h'],[('decomposition','barvinok/barvinok.cpp: barvinok_Single, barvinok_DFS, barvinokStep, deliver_cone, computeAndCheckDeterminants, MatrixGCD, CheckOmega')])
p('C22','Perturbing a vertex keeps the lattice points and moves them off the facets',
 'Perturbing a simplicial cone replaces only its vertex: rays, facets, determinants and sign stay as they were. The cone at the new vertex contains exactly the same lattice points, and no lattice point lies on a facet hyperplane of it; the stability cube found on the way has that first property throughout. The test whether a facet hyperplane contains lattice points is exact for every cone and vertex, and the check of equivalence refuses vertices that would change the lattice points.',
 ['inputs'],'all simplicial cones with non-singular integer rays, all rational vertices, any dimension above one',
 'rounding directions and common factors matter only for particular vertices (negative, on or just beside a facet hyperplane), and a wrong vertex changes counts silently',
 [L+'Irrational.cpp',L+'Irrational.h'],[('perturbation','Irrational.cpp: irrationalizeCone, computeConeStabilityCube, simplifyConeStabilityCube'),('tests','Irrational.cpp: isConeIrrational, checkConeIrrational, assertConesIntegerEquivalent')])
p('C08','The Smith normal form is diagonal, divisible, and reached by unimodular steps',
 'For every nonsingular square integer matrix, the Smith normal form returned is a diagonal matrix with positive entries, each dividing the next. It equals the product of the returned left multiplier, the input and the returned right multiplier, and both multipliers are unimodular integer matrices. The input matrix is unchanged, and the computation always ends.',
 ['inputs'],'all nonsingular integer matrices of any dimension and entry size',
 'which steps are taken depends on the signs, zeros and common divisors of the entries met on the way; a rare sign pattern can give a wrong multiplier that still looks like an integer matrix, and the point enumeration silently follows it',
 [L+'genFunction/matrix_ops.cpp',L+'genFunction/matrix_ops.h'],[('elimination','matrix_ops.cpp: eliminationRow, eliminationCol, check, diagonalizationIn'),('form','matrix_ops.cpp: SmithNormalFormIlio, SmithNormalForm')])
p('C09','The lattice points of a fundamental parallelepiped are enumerated exactly once',
 'For every simplicial cone and every rational vertex, the enumerated points are exactly the lattice points of the half-open fundamental parallelepiped at the vertex, each of them once, so their number is the absolute determinant of the rays. The list of scalar products with a vector contains exactly the products of those points with it: in list order when the points are already listed, and one per point otherwise. The vertex, rays, facets and determinants of the cone stay as they were.',
 ['inputs'],'all non-singular integer ray matrices of any dimension and entry size, all rational vertices, all vectors for the scalar products',
 'a point lost or doubled needs particular elementary divisors, vertices or facets; the examples have a few cones, and a shifted point set can leave a count unchanged',
 [L+'genFunction/piped.cpp',L+'genFunction/IntCombEnum.cpp'],[('point generator','genFunction/piped.cpp: PointsInParallelepipedGenerator, computePointsInParallelepiped'),('scalar products','genFunction/piped.cpp: PointsScalarProductsGenerator, computeLatticePointsScalarProducts'),('multiplier enumeration','genFunction/IntCombEnum.cpp: IntCombEnum')])
p('C10','Todd polynomials and truncated power series are exact',
 'The truncated series of the exponential, of the reciprocal of a series with a nonzero constant term, of a product of series and of t/(1-exp t) have exactly the rational coefficients of the power series they stand for, up to the stated order. For every integer vector of any length, zeros and negative entries included, the evaluated Todd polynomials are the coefficients of the product of the factors x_i t/(1-exp(x_i t)) up to the order equal to the length. The arguments are unchanged.',
 ['inputs'],'all orders, all lengths and all rational coefficients, all integer vectors',
 'a wrong high-order coefficient shows only in dimensions the examples never reach, or with zero, negative or long arguments, and then shifts a count by a fraction that cancels in others',
 [L+'todd/todd-expansion.cpp',L+'todd/todd-expansion.h'],[('series','todd/todd-expansion.cpp: taylor_exponential, taylor_reciprocal, taylor_product, taylor_product_aux'),('Todd polynomials','todd/todd-expansion.cpp: taylor_for_todd, evaluate_todd')])
p('C11','The contribution of a cone to the count is the exact constant term',
 'For every simplicial cone, rational vertex and integer vector orthogonal to none of its rays, the contribution returned is the sign coefficient of the cone times the constant term of the Laurent series of the sum of exp(<c,x>t) over the lattice points x of its fundamental parallelepiped, divided by the product of the factors 1-exp(<c,r>t) over its rays r. The weights and the sums of powers returned separately are the exact coefficients of that expression, and a vector orthogonal to a ray is refused. The geometry of the cone stays as it was.',
 ['inputs'],'all non-singular integer ray matrices of any dimension and entry size, all rational vertices, all integer vectors',
 'a wrong weight is cancelled or hidden in a total that the tests only compare for a few polytopes; it needs a particular dimension, sign or zero product to show',
 [L+'ExponentialSubst.cpp',L+'ExponentialSubst.h'],[('weights','ExponentialSubst.cpp: computeExponentialResidueWeights'),('sums of powers','ExponentialSubst.cpp: compute_sums_of_scalar_powers, compute_sums_of_scalar_powers_mpz'),('residue','ExponentialSubst.cpp: computeExponentialResidue_Single')])
p('C24','The number of lattice points reported for a polytope is exact',
 'For every rational polytope given by inequalities and equations or by vertices, the count printed equals the number of integer points of the polytope, whichever of the documented computation modes is chosen. An empty polytope gives zero, and an unbounded one is refused.',
 ['inputs','configurations'],'all rational polyhedra the input formats can state, all documented option combinations',
 'the examples sample a few dozen polytopes and mode combinations out of an unbounded space, and errors in separate stages can cancel on them',
 [L+'count.cpp',L+'countDriver.cpp',L+'preprocess.cpp'],[('driver of the count','countDriver.cpp: mainCountDriver'),('stages','preprocess.cpp, triangulation/, barvinok/, ExponentialSubst.cpp, genFunction/')])
p('C25','Volumes and integrals over a polytope are exact and agree between methods',
 'For every full-dimensional rational polytope and every polynomial with rational coefficients, the triangulation and the cone-decomposition methods return the same exact rational integral, and the volume is the integral of the constant one.',
 ['inputs','configurations'],'all rational polytopes, all polynomials and powers of linear forms',
 'each method is tested on a handful of polytopes of small dimension; a wrong residue term can vanish on all of them',
 [L+'valuation/valuation.cpp',L+'integration/residue.cpp',L+'integration/multiply.cpp',L+'integration/PolyTrie.cpp'],[('integration methods','valuation/PolytopeValuation.cpp'),('polynomial representation','integration/PolyTrie.cpp, integration/blockReps.h')])
p('C20','Preprocessing keeps the lattice points of the input polyhedron',
 'For every input system, removing the equations by a change of lattice coordinates gives a full-dimensional system whose integer points correspond one to one to those of the input, and projecting back returns the original points. Inconsistent equations are reported as an empty polytope.',
 ['inputs'],'all integer systems of inequalities and equations',
 'a coordinate change that is right only up to a sublattice shows up only for equations with particular common divisors',
 [L+'preprocess.cpp',L+'ProjectUp.cpp',L+'convert.cpp'],[('lattice change','preprocess.cpp: preprocessProblem'),('projecting up','ProjectUp.cpp')])
p('C21','Input files are read exactly as documented or refused',
 'Every file in the documented inequality, vertex or cdd format is read to the matrix, equation set and non-negativity set it states, and a truncated or malformed file is refused with an error and never read as a different system.',
 ['inputs'],'all byte sequences as input files',
 'malformed input is practically untested, and a silently misread number gives a plausible wrong count',
 [L+'ReadingFile.cpp',L+'convert.cpp',L+'ReadPolyhedron.cpp'],[('readers','ReadingFile.cpp, ReadPolyhedron.cpp')])
p('C17','The coefficients of the knapsack denumerant are exact quasi-polynomials',
 'For every list of positive integers, the top coefficients of the function counting the ways to write a number with these parts agree, at every non-negative number, with the true count in all the degrees reported.',
 ['inputs'],'all lists of positive integers, all numbers of requested coefficients',
 'the tests compare a few short lists; a periodic term with a rare modulus is not sampled',
 ['code/latte/top-knapsack/TopKnapsack.cpp','code/latte/top-knapsack/PeriodicFunction.cpp'],[('coefficients','top-knapsack/TopKnapsack.cpp'),('step polynomials','top-knapsack/PeriodicFunction.cpp')])
p('C23','Triangulations cover a cone without overlap',
 'For every pointed rational cone, each of the available triangulation methods delivers simplicial cones spanned by given rays, whose interiors do not meet and whose union is the cone.',
 ['inputs','configurations'],'all pointed rational cones, all triangulation methods and random seeds',
 'degenerate ray configurations are rare among the examples, and overlaps can cancel in a count of a symmetric polytope',
 [L+'triangulation/triangulate.cpp',L+'triangulation/RegularTriangulation.cpp',L+'barvinok/Triangulation.cpp'],[('triangulation','triangulation/*.cpp')])
p('C15','Polynomial interpolation reproduces every given point exactly',
 'From as many points as the polynomial has coefficients, with pairwise different rational abscissae, interpolation returns the exact rational coefficients of the polynomial of that degree bound through all the points, for every order and size of the data. Too many or too few points, or two points with the same abscissa, end the program with an error instead of returning a wrong polynomial, and evaluating a polynomial at a rational number gives its exact value.',
 ['inputs'],'all degrees, all lists of rational points, all coefficient lists and evaluation points',
 'a pivot that is zero only for particular abscissae, or a sign that is normalised only by chance, does not occur on the few sequences the examples interpolate',
 [L+'interpolation/PolynomialInterpolation.cpp',L+'interpolation/PolynomialInterpolation.h'],[('interpolation','interpolation/PolynomialInterpolation.cpp: PolynomialInterpolation::addPoint, GE, solve, getSolutionVector, isSingular, evaluatePoly')])
p('C18','Poles of a knapsack denumerant and their inclusion-exclusion weights are right',
 'For a list of positive integers with greatest common divisor one and an order k, the divisors selected for the top k+1 coefficients of the number of solutions are exactly the greatest common divisors of the sublists that leave out at most k entries, each once, for both methods of finding them. The weights are the integers for which the weights of the multiples of every selected divisor add up to one, and a list without the divisor one is refused; the binomial coefficients used with them are exact. The coefficients built from these divisors and weights give the number of solutions.',
 ['inputs'],'all lists of positive integers, all orders, all lists of divisors in every order, all binomial arguments',
 'a divisor that is missed or counted twice, or a weight computed before the weights it needs, changes a coefficient only for lists with a particular divisor structure; the few example knapsacks do not have it',
 [L+'top-knapsack/TopKnapsack.cpp',L+'top-knapsack/TopKnapsack.h'],[('knapsack','top-knapsack/TopKnapsack.cpp: MobiusList::insertGCD, computeMobius, TopKnapsack::everyGCDFromEntireList, everyGCDFromSubsets, binomial')])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
