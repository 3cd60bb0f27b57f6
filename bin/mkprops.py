import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or []))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=None
    assert len(title)<=80,title
    P.append(d)
C='code/latte/'
p('C01','The lattice-point count of a polytope given by inequalities is exact',
 'For every bounded rational polyhedron given by linear inequalities, the counting program prints, and stores in its result file, exactly the number of integer points satisfying all the inequalities. A polytope without integer points is counted as 0.',
 ['inputs'],'every inequality system A x <= b with integer data describing a bounded polyhedron',
 'The tests count a fixed list of example polytopes; a wrong branch for particular right-hand sides, non-simple or non-integral vertices, ties, or degenerate positions is not sampled.',
 [C+'count.cpp',C+'ReadPolyhedron.cpp',C+'barvinok/barvinok.cpp',C+'barvinok/dec.cpp',C+'genFunction/piped.cpp',C+'Residue.cpp',C+'ResSingle.cpp',C+'vertices/cdd.cpp',C+'VertexConesWith4ti2.cpp',C+'CheckEmpty.cpp'],
 [('signed decomposition into unimodular cones',C+'barvinok/barvinok.cpp barvinokDecomposition_Single'),('residue summation of the generating function',C+'ResSingle.cpp, Residue.cpp'),('vertex cones of the polytope',C+'VertexConesWith4ti2.cpp, vertices/cdd.cpp')],['number printed by count','numOfLatticePoints'])
p('C02','All counting variants give the same number',
 'Whatever combination of supported decomposition method, substitution, determinant bound, triangulation method, dualization method, vertex-cone method and redundancy check is selected, the counting program reports the same number of lattice points, namely the exact one.',
 ['inputs','configurations'],'every polytope, every supported combination of command line options',
 'The test suite runs five option sets on example files; options outside these sets and inputs that reach their special branches (large determinants, non-simplicial cones, ties) are not run.',
 [C+'count.cpp',C+'ExponentialSubst.cpp',C+'Irrational.cpp',C+'triangulation/triangulate.cpp',C+'dual.cpp',C+'barvinok/dec.cpp',C+'todd/todd-expansion.cpp'],
 [('option parsing and dispatch',C+'count.cpp mainCountDriver'),('exponential residue with Todd polynomials',C+'ExponentialSubst.cpp'),('primal irrational decomposition',C+'Irrational.cpp')],['number printed by count','numOfLatticePoints'])
p('C03','Signed cone decomposition preserves the cone',
 'Decomposing a simplicial cone yields signed simplicial cones, each of absolute determinant at most the requested bound, whose signed indicator functions add up to the indicator of the original cone, modulo lower-dimensional cones for the dual method and exactly for every non-boundary apex with the primal method. Each returned cone carries its own correct determinant and facet data.',
 ['inputs'],'every full-dimensional simplicial cone with integer rays, every determinant bound',
 'Tests only see final counts of particular polytopes; sign, tie and short-vector selection branches depend on the ray coordinates.',
 [C+'barvinok/barvinok.cpp',C+'barvinok/dec.cpp',C+'barvinok/SubspaceAvoidingDecomposition.cpp',C+'dual.cpp'],
 [('short vector and replacement of rays',C+'barvinok/barvinok.cpp ComputeOmega / barvinok_DFS'),('determinant bookkeeping',C+'barvinok/barvinok.cpp')],['list of cones handed to the consumer'])
p('C04','Fundamental parallelepipeds are enumerated exactly',
 'For every simplicial cone and every rational apex, the integer points enumerated for its half-open fundamental parallelepiped are pairwise different, all lie in that parallelepiped, and their number is the absolute value of the determinant of the primitive rays.',
 ['inputs'],'every simplicial cone with integer rays and every rational apex',
 'Tests enumerate parallelepipeds of a few polytopes; floor, modulus and normal-form handling for negative or boundary apex coordinates is input dependent.',
 [C+'genFunction/piped.cpp',C+'genFunction/IntCombEnum.cpp',C+'genFunction/matrix_ops.cpp'],
 [('Smith normal form enumeration',C+'genFunction/piped.cpp PointsInParallelepipedGenerator'),('multiplier counter',C+'genFunction/IntCombEnum.cpp'),('scaled fractional multipliers',C+'genFunction/piped.cpp')],['latticePoints list of a cone'])
p('C05','Dualizing a cone gives its dual; dualizing twice gives it back',
 'For every pointed full-dimensional cone, dualization returns exactly the facet normals of the cone (primitive, correctly oriented, none missing, none redundant), with every available backend, and dualizing the result again returns the rays of the original cone. Determinants and facet divisors stored with a simplicial cone agree with its rays.',
 ['inputs','configurations'],'every list of integer rays spanning a pointed full-dimensional cone, every dualization backend',
 'Tests see dualization only through final counts of examples.',
 [C+'dual.cpp',C+'DualizationWith4ti2.cpp',C+'vertices/cdd.cpp',C+'cone.cpp'],
 [('simplicial shortcut and general dualization',C+'dual.cpp'),('swap of rays and facets',C+'dual.cpp dualizeBackCones')],['rays and facets of the cones'])
p('C06','Irrationalizing apexes never changes which integer points are counted',
 'Moving the apex of a full-dimensional cone for the primal methods keeps exactly the same integer points in the cone, and no integer point lies on the boundary hyperplanes of any cone that the subsequent decomposition up to the checked determinant can produce.',
 ['inputs'],'every full-dimensional cone with integer rays and rational apex',
 'Tests only compare final counts; a shift that is too large or goes in the wrong direction shows only for particular apex fractions.',
 [C+'Irrational.cpp'],
 [('stability cube and shift',C+'Irrational.cpp irrationalizeCone'),('irrationality checks',C+'Irrational.cpp checkConeIrrational')],['cone vertex after irrationalization'])
p('C07','Equations, redundancy, dilation and change of coordinates keep the point set',
 'Replacing the problem by a smaller equivalent one (explicit or hidden equations, redundant inequalities, nonnegativity declarations, projection to the affine hull, dilation by an integer factor) never changes the number of lattice points: the reported number is that of the dilated original polyhedron, including 0 when the equations have no integer solution.',
 ['inputs'],'every system of equations and inequalities describing a polytope, every dilation factor',
 'Tests include few files with equations; solvability of the equations over the integers and the choice of lattice basis depend on the numbers.',
 [C+'preprocess.cpp',C+'ramon.cpp',C+'ReadPolyhedron.cpp',C+'ReadLatteStyle.cpp',C+'ProjectUp.cpp',C+'CheckEmpty.cpp',C+'vertices/cdd.cpp'],
 [('projection to the affine hull',C+'preprocess.cpp ProjectOutVariables / preprocessProblem'),('Hermite form',C+'ramon.cpp ihermite'),('redundancy and hidden equations',C+'ReadPolyhedron.cpp')],['number printed by count'])
p('C08','Ehrhart polynomials and series describe every dilation',
 'The Ehrhart polynomial reported for an integral polytope, evaluated at every nonnegative integer t, equals the number of lattice points of the t-fold dilation; the Taylor coefficients of the Ehrhart series reported for a rational polytope (for a positive requested number of terms), and the rational function written for it, have these numbers as coefficients. Requesting an Ehrhart polynomial of a non-integral polytope is refused.',
 ['inputs'],'every bounded rational polytope, every requested number of terms',
 'The test suite never runs the Ehrhart options.',
 [C+'ExponentialEhrhart.cpp',C+'ehrhart.cpp',C+'count.cpp',C+'Residue.cpp',C+'RudyResNTL.cpp',C+'PolyTree.cpp'],
 [('graded exponential residue',C+'ExponentialEhrhart.cpp'),('homogenized series residue',C+'ResSingle.cpp, Residue.cpp ResidueFunction'),('Taylor expansion',C+'PolyTree.cpp')],['printed polynomial','series coefficients','.rat file'])
p('C09','The written generating function is that of the integer points',
 'The multivariate rational generating function written for a polyhedron, read as a sum of rational functions, equals the sum of the monomials of the integer points of the polyhedron; for an unbounded pointed polyhedron this holds for the generating function of the infinite point set.',
 ['inputs'],'every pointed rational polyhedron',
 'No test looks at the generating function file.',
 [C+'genFunction/maple.cpp',C+'ProjectUp.cpp',C+'count.cpp',C+'barvinok/barvinok.cpp',C+'print.cpp'],
 [('writing of one cone',C+'genFunction/maple.cpp'),('projecting up to the original coordinates',C+'ProjectUp.cpp')],['.rat and .maple output files'])
p('C10','Vertex descriptions and inequality descriptions give the same results',
 'Counting from a list of (possibly redundant) points counts the lattice points of their convex hull, the same number obtained from the inequalities of the hull. A list containing a point that is not a vertex may be refused with a message by the vertex-cone method; it is never miscounted.',
 ['inputs'],'every finite list of rational points spanning a full-dimensional polytope',
 'Tests contain few vertex files and never redundant or duplicated points.',
 [C+'ReadPolyhedron.cpp',C+'ReadingFile.cpp',C+'vertices/cdd.cpp',C+'triangulation/triangulate.cpp'],
 [('vertex cones from points',C+'ReadPolyhedron.cpp, vertices/cdd.cpp computeVertexConesFromVrep'),('homogenization',C+'ReadPolyhedron.cpp')],['number printed by count'])
p('C11','Integer maximization and minimization return a true optimum',
 'For every polytope containing an integer point and every integer cost vector, the optimal value reported by the maximizer (minimizer) is the largest (smallest) value of the cost over the integer points, and the reported solution is an integer point of the polytope attaining it. For a polytope without integer points it is reported as integrally empty.',
 ['inputs'],'every polytope, every integer cost vector',
 'The test suite never runs the optimizers.',
 [C+'maximize.cpp',C+'minimize.cpp',C+'IntegralHull.cpp',C+'binarySearchIP.cpp',C+'ConeInfo.cpp',C+'heap.cpp'],
 [('digging algorithm',C+'IntegralHull.cpp SolveIP, ConeInfo.cpp'),('LP relaxation',C+'vertices/cdd.cpp LP'),('binary search',C+'binarySearchIP.cpp')],['reported optimal value and solution'])
p('C12','Integrals of polynomials over polytopes are exact',
 'The integral of a polynomial over a full-dimensional polytope is reported as the exact rational value, whichever method (cone decomposition, triangulation, products of linear forms) is selected, for every polynomial including repeated, cancelling and constant monomials.',
 ['inputs','configurations'],'every full-dimensional rational polytope, every polynomial, every method',
 'Tests integrate a handful of fixed polynomials over fixed polytopes; degenerate linear forms (zero, constant on faces) are hit for particular coefficients only.',
 [C+'valuation/PolytopeValuation.cpp',C+'valuation/valuation.cpp',C+'valuation/Perturbation.cpp',C+'integration/newIntegration.cpp',C+'integration/residue.cpp',C+'integration/PolyTrie.cpp'],
 [('polynomial to powers of linear forms',C+'integration/PolyTrie.cpp decompose'),('simplex formula with repeated values',C+'integration/newIntegration.cpp, residue.cpp'),('tangent cones with perturbation',C+'valuation/Perturbation.cpp')],['printed answer','returned rational'])
p('C13','Integrals of powers and products of linear forms are exact',
 'The integral over a full-dimensional polytope of a sum of powers of linear forms, or of products of powers of linear forms, is reported as the exact rational value for every method offered.',
 ['inputs','configurations'],'every full-dimensional rational polytope, every such integrand',
 'Tests use fixed integrands; poles cancel only for special relations between form and polytope.',
 [C+'valuation/PolytopeValuation.cpp',C+'integration/newIntegration.cpp',C+'integration/residue.cpp',C+'valuation/Perturbation.cpp',C+'integration/GeneralMonomialSum.h'],
 [('simplex formula',C+'integration/newIntegration.cpp'),('product of linear forms on a simplex',C+'integration/newIntegration.cpp integrateLinFormProducts'),('perturbed Lawrence formula',C+'valuation/Perturbation.cpp')],['printed answer'])
p('C14','Volumes are exact with every method',
 'The reported volume of a full-dimensional polytope is the exact rational volume, with the triangulation method, with the cone decomposition method, and with both.',
 ['inputs','configurations'],'every full-dimensional rational polytope',
 'Tests compare volumes of fixed polytopes and one database of reference volumes.',
 [C+'valuation/PolytopeValuation.cpp',C+'valuation/valuation.cpp',C+'triangulation/triangulate.cpp'],
 [('Lawrence formula',C+'valuation/PolytopeValuation.cpp findVolumeUsingLawrence'),('determinants over a triangulation',C+'valuation/PolytopeValuation.cpp findVolumeUsingDeterminant')],['printed answer'])
p('C15','Top Ehrhart coefficients are asked of the right cones and weights',
 'What integrate --valuation=top-ehrhart hands to its Maple script is exact: for every full-dimensional polytope, the simplicial cones written, scaled with any dilation factor, cover every lattice point of the dilated polytope exactly once (as generating functions), the powers of linear forms written sum up to the given polynomial or linear-form weight, and the function, number of coefficients, dilation mode and save file requested are those asked for on the command line.',
 ['inputs','configurations'],'every full-dimensional rational polytope (simple or not), polynomial or linear-form weights, every dilation, every option',
 'The tests never run this valuation; without Maple nothing is compared.',
 [C+'top-ehrhart/TopEhrhart.cpp',C+'valuation/valuation.cpp',C+'integration/GeneralMonomialSum.h',C+'integration/PolyTrie.cpp',C+'triangulation/triangulate.cpp'],
 [('cones and weights written',C+'top-ehrhart/TopEhrhart.cpp'),('polynomial to linear forms',C+'integration/PolyTrie.cpp decompose')],['written Maple script','command run'])
p('C16','Knapsack quasi-polynomial coefficients are exact',
 'For every list of positive integer weights with greatest common divisor 1, the coefficients reported for the number of nonnegative integer solutions of the weighted sum equation are the true ones: with all coefficients requested, evaluating them at every right-hand side t gives the number of solutions for t, and with fewer requested they coincide with those.',
 ['inputs','configurations'],'every list of positive weights with gcd 1, every coefficient, both pole-finding algorithms',
 'The test suite never runs the knapsack program against reference values.',
 [C+'top-knapsack/TopKnapsack.cpp',C+'top-knapsack/PeriodicFunction.cpp',C+'integration/GeneralMonomialSum.h'],
 [('poles from gcds and Moebius weights',C+'top-knapsack/TopKnapsack.cpp findGCDs, MobiusList'),('series expansion of each pole',C+'top-knapsack/TopKnapsack.cpp findResidue'),('step function arithmetic',C+'top-knapsack/PeriodicFunction.cpp')],['printed or saved answer'])
p('C17','Triangulations of cones are exact dissections',
 'Every triangulation method turns a cone given by generators into simplicial cones spanned by generators of the cone, which cover it and whose interiors do not overlap.',
 ['inputs','configurations'],'every list of generators of a pointed full-dimensional cone, every triangulation method',
 'Tests see triangulations only through counts with the default method.',
 [C+'triangulation/triangulate.cpp',C+'triangulation/RegularTriangulation.cpp',C+'triangulation/RegularTriangulationWithCddlib.cpp',C+'triangulation/RegularTriangulationWith4ti2.cpp',C+'triangulation/RegularTriangulationWithCdd.cpp',C+'triangulation/BoundaryTriangulation.cpp'],
 [('lifting by random or Delone heights',C+'triangulation/RegularTriangulation.cpp'),('lower faces to simplicial cones',C+'triangulation/RegularTriangulationWithCddlib.cpp, RegularTriangulationWith4ti2.cpp'),('recursion on non-simplicial pieces',C+'triangulation/triangulate.cpp')],['simplicial cones handed to the consumer'])
p('C18','Exact rational and vector arithmetic is correct and canonical',
 'Rational numbers and rational vectors used throughout are kept in lowest terms with positive denominator, and addition, subtraction, multiplication, division, powers, comparison, parsing, scaling to integers and conversions between number representations give the exact result.',
 ['inputs'],'every rational operand',
 'No unit tests exist for the arithmetic layer.',
 [C+'rational.cpp',C+'convert.cpp',C+'latte_gmp.cpp',C+'latte_ntl.cpp',C+'todd/gmp_pow.cpp'],
 [('canonicalization',C+'rational.cpp RationalNTL::canonicalize, rationalVector::computeIntegerScale'),('conversions',C+'latte_gmp.cpp')],['values and printed forms'])
p('C19','Sparse polynomials are parsed, stored, combined and printed exactly',
 'Reading a polynomial, a sum of powers of linear forms or a sum of products of them from text, combining it (adding terms, multiplying with degree bounds, rewriting monomials as powers of linear forms) and printing it preserves its value as a function: equal monomials are merged, and no term is lost, duplicated or invented.',
 ['inputs'],'every such expression',
 'Tests use fixed expressions and only look at final integrals.',
 [C+'integration/PolyTrie.cpp',C+'integration/PolyRep.cpp',C+'integration/burstTrie.h',C+'integration/multiply.h',C+'integration/GeneralMonomialSum.h'],
 [('burst trie insertion and iteration',C+'integration/burstTrie.h'),('text form',C+'integration/PolyTrie.cpp loadMonomials, printMonomials'),('degree-bounded product',C+'integration/multiply.h')],['printed form','stored terms'])
p('C20','File formats and conversions preserve the polyhedron',
 'Converting an inequality or vertex file between the native format and the cdd formats describes the same polyhedron, equations included; reading any supported input style of the same polyhedron gives the same result; a cone list written and read back, also as ray indicators of subcones, is the same list.',
 ['inputs'],'every polyhedron, every supported file style',
 'Tests read example files in their given style only and never compare styles.',
 [C+'latte2ine.cpp',C+'latte2ext.cpp',C+'convert.cpp',C+'ReadLatteStyle.cpp',C+'ReadingFile.cpp',C+'ReadSubcones.cpp',C+'print.cpp',C+'polyhedron-to-cones.cpp',C+'latte_cddlib.cpp'],
 [('native format reader',C+'ReadLatteStyle.cpp'),('cdd matrix conversion',C+'latte_cddlib.cpp'),('cone list format',C+'print.cpp, ReadSubcones.cpp')],['converted files','counts'])
p('C21','Empty and unbounded polyhedra are recognized',
 'The program reports a polyhedron as empty exactly when no real point satisfies the constraints, and as unbounded (refusing to count) exactly when it is nonempty and contains a ray; it never prints a finite count for an unbounded polyhedron. (An empty system whose homogeneous part is unbounded, and an empty system in the cdd style, for which the program announces that it does not check, may be refused instead of counted as 0.)',
 ['inputs'],'every system of linear constraints',
 'No test feeds empty or unbounded systems systematically.',
 [C+'CheckEmpty.cpp',C+'ReadPolyhedron.cpp',C+'count.cpp',C+'vertices/cdd.cpp'],
 [('feasibility check',C+'CheckEmpty.cpp'),('unboundedness from vertex computation',C+'ReadPolyhedron.cpp, count.cpp')],['messages, exit status, printed count'])
p('C22','File names are passed to external programs unharmed',
 'A file name given on the command line, whatever characters it contains, reaches an external program as exactly one argument with exactly those characters, and never causes any other command to run. A failing external command or rename stops the program with a failure status, and the temporary directory is one the program itself has just created: intermediate names lie inside it and cleaning up removes exactly that directory.',
 ['inputs','configurations'],'every file name string, every exit status, every set of directory names already taken',
 'Tests use plain names only.',
 [C+'latte_system.cpp'],
 [('quoting',C+'latte_system.cpp shell_quote'),('temporary directory',C+'latte_system.cpp'),('checked command execution',C+'latte_system.cpp')],['command line handed to the shell'])
p('C23','Supported invocations end normally and without memory errors',
 'On every valid input and for every supported option the programs end by reporting a result or a documented refusal: they never read or write freed, uninitialized-length or out-of-range memory, free twice, divide by zero, fail an internal assertion or loop forever.',
 ['inputs','configurations'],'every valid input file, every supported option combination',
 'The tests run few options on few files, without memory checking.',
 [C+'count.cpp',C+'cone.cpp',C+'barvinok/barvinok.cpp',C+'valuation/PolytopeValuation.cpp',C+'Residue.cpp',C+'ReadPolyhedron.cpp'],
 [('ownership of cone and vector lists',C+'cone.cpp freeCone, freeListCone'),('driver clean-up',C+'count.cpp')],['process end'])
p('C24','Polynomial interpolation recovers the polynomial',
 'Interpolating from enough sample points of a polynomial of the stated degree returns exactly its coefficients.',
 ['inputs'],'every univariate polynomial with rational coefficients, every set of distinct sample points',
 'No test runs the interpolation.',
 [C+'interpolation/PolynomialInterpolation.cpp'],
 [('Vandermonde elimination',C+'interpolation/PolynomialInterpolation.cpp solve')],['returned coefficients'])
p('C25','Normal forms and lattice bases are exact',
 'Hermite and Smith normal forms, adjoints, matrix inverses and lattice bases computed for integer matrices satisfy their defining equations: the transformation matrices are unimodular, the product with the input is the normal form, divisibility and shape conditions hold, and the basis generates exactly the integer solutions.',
 ['inputs'],'every integer matrix of full rank',
 'No unit tests exist for these routines.',
 [C+'ramon.cpp',C+'genFunction/matrix_ops.cpp',C+'convert.cpp'],
 [('Hermite form with transformation',C+'ramon.cpp ihermite'),('Smith form',C+'genFunction/matrix_ops.cpp')],['returned matrices'])
p('C26','Generated polytope families are what they claim to be',
 'The polytope generators write files describing exactly the polytope they announce: facets and vertices written for a point set are those of its convex hull (or of the polar dual), and graph-based generators produce graphs with the promised number of edges and vertices.',
 ['inputs'],'every list of points, every size parameter',
 'No test runs the generators.',
 [C+'buildPolytopes/BuildPolytope.cpp',C+'buildPolytopes/GraphMaker.cpp',C+'buildPolytopes/BuildHypersimplexEdgePolytope.cpp',C+'buildPolytopes/BuildRandomPolynomials.cpp'],
 [('hull and dual files',C+'buildPolytopes/BuildPolytope.cpp'),('graphs',C+'buildPolytopes/GraphMaker.cpp')],['written files'])
p('C27','Todd polynomials, Taylor products and power series are exact',
 'The series building blocks used for substitution (Todd polynomial values, truncated products, quotients and powers of power series, binomial and factorial factors) equal the mathematical coefficients up to the requested order.',
 ['inputs'],'every argument and every order',
 'Only final counts are tested.',
 [C+'todd/todd-expansion.cpp',C+'todd/gmp_pow.cpp',C+'ExponentialSubst.cpp',C+'RudyResNTL.cpp',C+'PolyTree.cpp'],
 [('Todd values',C+'todd/todd-expansion.cpp'),('Taylor quotients',C+'RudyResNTL.cpp, PolyTree.cpp')],['returned coefficients'])
p('C28','Priority queues and the digging enumeration yield items in order',
 'Every priority queue (the vector heap and the cone heap that drive the optimizer\'s digging search, and the generic heap in all its flavours) returns its entries in order of weight whatever the order of insertions and removals, and never loses, duplicates or alters an entry.  On top of them, the digging search enumerates the exponents of a cone\'s series in strictly decreasing order, none skipped, each with its exact coefficient and lattice points.',
 ['histories'],'every sequence of insertions and removals',
 'The optimizer is not run by the tests.',
 [C+'heap.cpp',C+'ConeInfo.cpp'],
 [('binary heap',C+'heap.cpp, ConeInfo.cpp ConeInfo_Heap')],['order of removed entries'])
p('C29','Approximate counting is within its stated error',
 'Approximate counting options report bounds that contain the exact number of lattice points.',
 ['inputs','configurations'],'every polytope and sampling rate',
 'Not tested; depends on floating point and random sampling.',
 [C+'ExponentialApprox.cpp'],[('sampling formula',C+'ExponentialApprox.cpp')],['reported bounds'])
p('C30','The result database returns what was stored',
 'Every polytope, integrand and result recorded in the experiment database is returned unchanged and statistics are computed over exactly the recorded rows.',
 ['histories'],'every sequence of stores and queries',
 'No test uses the database.',
 [C+'sqlite/IntegrationDB.cpp',C+'sqlite/VolumeDB.cpp',C+'sqlite/SqliteDB.cpp'],[('queries',C+'sqlite/IntegrationDB.cpp')],['query results'])
p('C31','Hilbert bases of cones are exact',
 'The normalization program enumerates exactly the Hilbert basis of the given cone.',
 ['inputs'],'every pointed rational cone',
 'Not tested.',
 [C+'normalize/normalize.cpp',C+'normalize/ReductionTest.cpp'],[('reduction of candidates',C+'normalize/normalize.cpp')],['output files'])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
