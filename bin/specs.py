"""What is checked: harnesses, configurations and bounds of every property."""
LIB = """barvinok/dec barvinok/barvinok barvinok/ComputeOmega count LattException barvinok/Triangulation genFunction/piped genFunction/maple
vertices/cdd preprocess rational cone print ramon timing dual
PolyTree RudyResNTL ResSingle Residue IntegralHull ReadingFile Grobner ConeInfo
binarySearchIP CheckEmpty banner convert todd/gmp_pow todd/todd-expansion latte_gmp latte_ntl
latte_random latte_system genFunction/IntCombEnum genFunction/matrix_ops ExponentialSubst ExponentialEhrhart Irrational ReadLatteStyle
cone_consumer triangulation/triangulate triangulation/RegularTriangulation triangulation/RegularTriangulationWithCdd ReadPolyhedron ProjectUp ReadSubcones triangulation/TriangulationWithTOPCOM
latte_cddlib triangulation/RegularTriangulationWithCddlib latte_4ti2 triangulation/RegularTriangulationWith4ti2 VertexConesWith4ti2 DualizationWith4ti2 latte_4ti2_zsolve ExponentialApprox
heap TrivialSubst barvinok/SubspaceAvoidingDecomposition triangulation/BoundaryTriangulation valuation/PolytopeValuation valuation/valuation valuation/Perturbation buildPolytopes/BuildPolytope
buildPolytopes/BuildGraphPolytope buildPolytopes/BuildHypersimplexEdgePolytope buildPolytopes/BuildRandomPolytope buildPolytopes/GraphMaker buildPolytopes/BuildRandomPolynomials top-knapsack/TopKnapsack top-knapsack/PeriodicFunction
integration/PolyTrie integration/PolyRep integration/newIntegration integration/residue top-ehrhart/TopEhrhart interpolation/PolynomialInterpolation""".split()
COMMON_ASSUME = [
 'NTL and GMP integer/rational arithmetic, linear algebra (solve, inv, determinant, LLL, HNF) and number formatting behave as documented (they are replaced by exact symbolic models)',
 'cddlib, 4ti2, scdd_gmp, redcheck_gmp and lrs are replaced by an exact double-description model producing a correct answer for the query they are given (one correct order of rays, not every order)',
 'rand()/RandomBnd return one fixed sequence; files are an in-memory map, disk errors do not occur',
 'machine integers are concrete: values that become sizes or int/long are split case by case',
]
HARNESS = {
 'h_count': {},
 'h_opt': dict(src=[('maximize', ['-Dmain=maximize_main']), ('minimize', ['-Dmain=minimize_main'])]),
 'h_unb': {}, 'h_vrep': {},
 'h_gf': {}, 'h_build': {}, 'h_trie': {}, 'h_val': {}, 'h_cone': dict(src=[('triangulation/test-triangulation', ['-Dmain=triangulate_main'])]), 'h_heap': {}, 'h_alg': {},
 'h_ehr': dict(src=[('ehrhart', ['-Dmain=ehrhart_main'])]),
 'h_quote': dict(only='sq::impl::'), 'h_top': {},
 'h_conv': dict(src=[('latte2ine', ['-Dmain=latte2ine_main']), ('latte2ext', ['-Dmain=latte2ext_main']), ('convertCDD_ine_to_latte', ['-Dmain=convcdd_main']), ('polyhedron-to-cones', ['-Dmain=p2c_main'])]),
 'h_knap': dict(src=[('top-knapsack/Driver', ['-Dmain=knap_main', '-fno-strict-return'])]),
}
PROPS = {}
def cfg(h, c, **k): return dict(h=h, c=c, **k)

NOT_APPLICABLE = {
 'C29': 'approximate counting is floating-point sampling with random draws; the values are IEEE doubles from transcendental functions, which this encoding (exact integers and rationals) cannot represent soundly',
 'C30': 'the database layer is SQL text executed by the SQLite engine; there is no computation of its own to encode, and SQLite itself is out of reach',
 'C31': 'the work is done inside the 4ti2 zsolve library, called with callbacks; only a full model of that solver would answer, so nothing of this code would be decided',
}
# ---------------------------------------------------------------- C01: default count of H-representations
TRI = 'rows=0,1,0|0,0,1|b[0:6],-1,-2;lo=0,0;hi=6,3'
C01_WIDE = [
  'rows=0,1|b[0:1000000000000],-1;want=1+b',
  'rows=a[-9:9],3|b[0:1000000],-7;fiber=0;lo=0;hi=0',
  'rows=0,1,0|0,0,1|b[0:1000000],-2,-3|c[0:3],0,-1;lo=0,0;hi=0,3;fiber=0',
  'rows=0,1,0|0,0,1|b[0:1000000],-2,-1|c[0:3],0,-1;lo=0,0;hi=0,3;fiber=0',
  'rows=0,1,0|0,0,1|b[0:1000000],-1,-1;want=1+b|2+b;wden=2',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:1000000000000],-1,-1,-1;want=1+b|2+b|3+b;wden=6',
  'rows=0,1,0,0,0|0,0,1,0,0|0,0,0,1,0|0,0,0,0,1|b[0:100000],-1,-1,-1,-1;want=1+b|2+b|3+b|4+b;wden=24',
  'rows=0,1,0,0,0,0|0,0,1,0,0,0|0,0,0,1,0,0|0,0,0,0,1,0|0,0,0,0,0,1|b[0:1000],-1,-1,-1,-1,-1;want=1+b|2+b|3+b|4+b|5+b;wden=120',
  'rows=0,1,0|0,0,1|b[0:1000000],-1,0|c[0:1000000],0,-1;want=1+b|1+c',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:1000000],-1,0,0|c[0:1000000],0,-1,0|d[0:1000000],0,0,-1;want=1+b|1+c|1+d',
  'rows=-1000000000000,1,0|-7000000000000000000000+u[0:3],0,1|1000000000000+b[0:9],-1,0|7000000000000000000000+c[0:9],0,-1;want=1+b|1+c+u',
  'rows=0,1,0|0,0,1|b[0:8],-2,-3;lo=0,0;hi=4,3;uni=1,3000000000|0,1;shift=5000000000,-70000000000',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:5],-1,-1,-2;lo=0,0,0;hi=5,5,5;uni=1,0,30000000000000000000000|0,1,-7|0,0,1;shift=500000000000000000000,7,8',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:100000],-2,-3,1|c[0:2],0,-1,0|1,0,0,-1;lo=0,0,0;hi=0,2,1;fiber=0',
  'rows=b[0:6],-1,-1,-1|b,1,-1,-1|b,-1,1,-1|b,-1,-1,1|b,1,1,-1|b,1,-1,1|b,-1,1,1|b,1,1,1;lo=-6,-6,-6;hi=6,6,6',
  'rows=b[0:6],-1,0,-1|b,1,0,-1|b,0,-1,-1|b,0,1,-1|0,0,0,1;lo=-6,-6,0;hi=6,6,6',
  'rows=b[0:3],-2,0,-1|b,1,0,-1|c[0:3],0,-1,-1|b,0,3,-1|0,0,0,1;lo=-3,-1,0;hi=1,3,3',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|1,-1,0,0|1,0,-1,0|1,0,0,-1|b[-3:3],1,1,-1|c[0:3],-1,-1,-1;lo=0,0,0;hi=1,1,1',
  'rows=b[0:9],-2,0|c[0:9],3,0|d[0:9],0,-2|e[0:9],0,5;lo=-3,-1;hi=4,4',
  'rows=a[1:4],-3,1|b[1:4],1,-3|c[1:4],1,2;lo=-6,-6;hi=6,6',
  'rows=0,0,1,0,0|0,1,0,0,0|0,0,0,1,0|0,0,0,0,1|b[0:3],-1,-2,-1,-2|2,0,0,-1,1;lo=0,0,0,0;hi=3,3,3,3',
  'rows=b[0:60000],-3,0|0,1,0|0,0,1|1,0,-1|b,-2,-5;lo=0,0;hi=0,1;fiber=0',
]
def c01(tier):
    t = tier == 'thorough'
    r = [cfg('h_count', TRI, reach=['counted', 'reported-empty'] if False else ['counted'])]
    r += [cfg('h_count', c) for c in [
        'rows=0,1,0|0,0,1|b[0:8],-2,-3;lo=0,0;hi=4,3',
        'rows=0,1,0|0,0,1|b[0:8],-2,-3|c[0:8],-3,-1;lo=0,0;hi=4,3',
        'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:5],-1,-1,-2;lo=0,0,0;hi=5,5,5',
        'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:4],-1,0,0|c[0:3],0,-1,0|d[0:3],0,0,-1;lo=0,0,0;hi=4,4,4',
        'rows=a[-2:2],1,1|b[-2:2],1,-1|c[0:4],-1,0;lo=-3,-7;hi=5,9',
        'rows=0,5,-2|0,-3,4|b[0:6],-2,-2;lo=0,0;hi=6,6',
    ] + C01_WIDE]
    return r
PROPS['C01'] = dict(configs=c01, explain='Every feasible path of the count driver is executed on a polyhedron whose right-hand sides (and some coefficients) are solver variables; the printed and returned count must equal the number of points given by an independent term: a sum of if-then-else terms over all integer points of an enclosing box, a sum of floor/ceiling line lengths over the lines of a box (lines of any length), or the known closed formula of a simplex or box. Configurations with uni/shift hand the code the image of the polytope under an integral unimodular map and translation with entries up to 10^22.',
  bounds='dimension 1 to 5, up to 8 inequalities, right-hand sides up to 10^12 and coefficients up to 10^22 in the ranges named in each configuration.')

# ---------------------------------------------------------------- C02: option combinations
C02_OPTS = ['--compute-vertex-cones=cdd', '--compute-vertex-cones=lrs', '--irrational-primal', '--irrational-all-primal', '--exponential',
  '--irrational-all-primal --exponential --maxdet=1000', '--irrational-primal --exponential --maxdet=3', '--homog', '--homog --irrational-all-primal', '--no-decomposition --exponential', '--maxdet=5 --exponential',
  '--redundancy-check=none', '--redundancy-check=cddlib', 'file', '--triangulation=boundary', '--dualization=4ti2', '--triangulation=4ti2', '--homog --triangulation=cddlib',
  '--irrational-primal --exponential --maxdet=10', '--maxdet=2 --exponential', '--homog --dualization=4ti2', '--irrational-all-primal --dualization=4ti2', 'memsave', 'homog', 'lrs']
W3 = 'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:1000000000000],-1,-1,-1;want=1+b|2+b|3+b;wden=6'
WF = 'rows=0,1,0|0,0,1|b[0:1000000],-2,-1|c[0:3],0,-1;lo=0,0;hi=0,3;fiber=0'
WOCT = 'rows=b[0:6],-1,-1,-1|b,1,-1,-1|b,-1,1,-1|b,-1,-1,1|b,1,1,-1|b,1,-1,1|b,-1,1,1|b,1,1,1;lo=-6,-6,-6;hi=6,6,6'
WPYR = 'rows=b[0:3],-2,0,-1|b,1,0,-1|c[0:3],0,-1,-1|b,0,3,-1|0,0,0,1;lo=-3,-1,0;hi=1,3,3'
WUNI = 'rows=0,1,0|0,0,1|b[0:4],-2,-3;lo=0,0;hi=2,1;uni=1,3000000000|0,1;shift=5000000000,-70000000000'
def c02(tier):
    r = []
    for o in C02_OPTS:
        hom = 'homog' in o
        r.append(cfg('h_count', (W3.replace('1000000000000', '30') if hom else W3) + ';opt=' + o))
        if not hom and 'exp' not in o and 'maxdet' not in o: r.append(cfg('h_count', WF + ';opt=' + o))
        if 'homog --irr' not in o: r += [cfg('h_count', (WOCT.replace('[0:6]', '[0:3]') if o == '--triangulation=boundary' else WOCT) + ';opt=' + o)]
        if 'homog --irr' not in o and 'boundary' not in o: r += [cfg('h_count', WPYR + ';opt=' + o, time=120)]
        r.append(cfg('h_count', WUNI + ';opt=' + o))
    for o in C02_OPTS:
        r.append(cfg('h_count', TRI + ';opt=' + o, reach=['counted']))
        r.append(cfg('h_count', 'rows=1,2,-1|0,-1,3|b[1:6],-2,-2;lo=-1,-1;hi=6,6;opt=' + o, reach=['counted']))
        if 'homog' not in o: r.append(cfg('h_count', 'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:4],-1,-2,-1|5,-2,-1,-3;lo=0,0,0;hi=4,4,4;opt=' + o, reach=['counted']))
        else: r.append(cfg('h_count', 'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:4],-1,-2,-1;lo=0,0,0;hi=4,4,4;opt=' + o, reach=['counted']))
    r.append(cfg('h_count', 'rows=0,1,0|0,0,1|b[0:6],-1,-2;lo=0,0;hi=6,3;cdd=1;opt=--cdd', reach=['counted']))
    r.append(cfg('h_count', 'rows=b[1:6],-3,-2,-2|0,1,0,0|0,0,1,0|0,0,0,1;lo=0,0,0;hi=2,3,3;eq=1;opt=file', reach=['counted']))
    return r
PROPS['C02'] = dict(configs=c02, explain='The count driver is executed symbolically once per option combination on polyhedra with symbolic right-hand sides; each must give the exact count, hence all agree.',
  bounds='the option combinations listed in specs.C02_OPTS; dimension 2 and 3, one or two symbolic right-hand sides per configuration (up to 10^12), simple and non-simple vertices, images under unimodular maps with entries up to 7*10^10.')
# ---------------------------------------------------------------- C07
C07_WIDE = [
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:1000000000],-1,-1,-1;eq=4;want=1+b|2+b;wden=2',
  'rows=0,1,0,0,0|0,0,1,0,0|0,0,0,1,0|0,0,0,0,1|b[0:1000000],-1,-1,-1,-1;eq=5;want=1+b|2+b|3+b;wden=6',
  'rows=b[0:1000000000],-1,0,-1,0|c[0:1000000000],0,-1,0,-1|0,1,0,0,0|0,0,1,0,0|0,0,0,1,0|0,0,0,0,1;eq=1,2;want=1+b|1+c',
  'rows=b[0:1000000],-1,-1|-1*b,1,1|0,1,0|0,0,1;want=1+b',
  'rows=0,1,0|0,0,1|b[0:1000000],-1,-1;opt=--dilation=1000;dil=1000;want=1+1000*b|2+1000*b;wden=2',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:1000000],-1,-1,-1;opt=--dilation=12345;dil=12345;want=1+12345*b|2+12345*b|3+12345*b;wden=6',
  'rows=0,1,0|0,0,1|b[0:1000000],-1,-1|b,-1,-1|b,0,-1|5+b,-1,0;want=1+b|2+b;wden=2',
  'rows=0,1,0|0,0,1|b[0:1000000],-1,-1|b,-1,-1|b,0,-1|5+b,-1,0;want=1+b|2+b;wden=2;opt=--redundancy-check=cddlib',
  'rows=0,1,0|0,0,1|b[0:1000000],-1,-1|b,-1,-1|b,0,-1|5+b,-1,0;want=1+b|2+b;wden=2;opt=--redundancy-check=none',
  'rows=0,1,0|0,0,1|b[0:1000000],-1,-1|2*b,-2,-2|3*b,0,-3;want=1+b|2+b;wden=2',
  'rows=0,1,0|0,0,1|7*b[0:1000000]+c[0:6],-7,-7;want=1+b|2+b;wden=2',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:6],-2,-3,-1;eq=4;lo=0,0,0;hi=3,2,6;uni=1,0,3000000000|0,1,-7|0,0,1;shift=50000000000,7,8',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:6],-2,-2,-4;eq=4;lo=0,0,0;hi=3,3,2;uni=1,1,30000000000000000000000|0,1,-7|0,0,1;shift=0,7,-800000000000000000000000',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:4],-2,-2,-4;eq=4;lo=0,0,0;hi=12,12,12;uni=1,1,3000000000000|0,1,-7|0,0,1;shift=0,7,-8;dil=3;opt=--dilation=3',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[0:6],-6,-10,-15;eq=4;lo=0,0,0;hi=1,1,1',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[20:40],-6,-10,-15;eq=4;lo=0,0,0;hi=7,4,3',
  'rows=0,1,0,0,0|0,0,1,0,0|0,0,0,1,0|0,0,0,0,1|b[0:6],-2,-1,-3,1|1,0,0,0,-1;eq=5;lo=0,0,0,0;hi=4,7,3,1',
  'rows=b[0:3],-1,0,0,0|c[0:3],0,-1,0,0|d[0:3],0,0,-2,-1|0,0,0,0,1|0,0,0,1,0;eq=1,2;lo=0,0,0,0;hi=3,3,2,3',
  'rows=b[0:3],-1,0,0|c[0:3],0,-2,0|d[0:3],0,0,-3;eq=1,2,3;lo=0,0,0;hi=3,3,3',
  'rows=b[0:1000000],-1,-1;extra=nonnegative 2 1 2~;want=1+b|2+b;wden=2',
]
def c07(tier):
    L = ['rows=b[0:6],-1,-2,-1|0,1,0,0|0,0,1,0|0,0,0,1;lo=0,0,0;hi=6,6,6;eq=1',
     'rows=b[-2:6],-3,-2,-2|0,1,0,0|0,0,1,0|0,0,0,1;lo=0,0,0;hi=6,6,6;eq=1',
     'rows=b[0:4],-1,-2|-1*b,1,2|0,1,0|0,0,1;lo=0,0;hi=4,4',
     'rows=b[0:6],-2,-4|-1*c[0:6],2,4|0,1,0|0,0,1;lo=0,0;hi=4,4',
     'rows=b[0:5],-1,-2|0,1,0|0,0,1|c[3:8],-1,-1|9,-1,0;lo=0,0;hi=5,5',
     'rows=b[0:5],-1,-2;extra=nonnegative 2 1 2~;lo=0,0;hi=5,5',
     'rows=b[0:5],-1,-2|0,0,1;extra=nonnegative 1 1~;lo=0,0;hi=5,5',
     'rows=b[0:5],-1,-2,-1;eq=1;extra=nonnegative 3 1 2 3~;lo=0,0,0;hi=5,5,5',
     'rows=b[0:4],-1,-2|0,1,0|0,0,1;opt=--dilation=3;dil=3;lo=0,0;hi=12,12',
     'rows=b[0:4],-2,-4|0,1,0|0,0,1;eq=1;opt=--dilation=3;dil=3;lo=0,0;hi=12,12',
     'rows=b[0:4],-2,-3,-1|0,1,0,0|0,0,1,0|0,0,0,1;eq=1;opt=--dilation=2;dil=2;lo=0,0,0;hi=8,8,8',
     'rows=b[0:4],-1,-2,-1|c[0:4],-2,1,-3|0,1,0,0|0,0,1,0|0,0,0,1;eq=1,2;lo=0,0,0;hi=4,4,4',
     'rows=b[-4:4],-1,-2|c[-4:4],2,-1;eq=1,2;lo=-12,-12;hi=12,12',
     'rows=b[-4:4],-2,0|c[-4:4],0,-3;eq=1,2;lo=-12,-12;hi=12,12',
     'rows=b[-4:4],-2,0|c[-4:4],0,-3;eq=1,2;lo=-12,-12;hi=12,12;opt=--dilation=6;dil=6',
     'rows=b[0:4],-1,-1,-1|2*b,-2,-2,-2|0,1,0,0|0,0,1,0|0,0,0,1;eq=1,2;lo=0,0,0;hi=4,4,4',
     'rows=b[0:4],-1,-1,-1|c[0:8],-2,-2,-2|0,1,0,0|0,0,1,0|0,0,0,1;eq=1,2;lo=0,0,0;hi=4,4,4',
     'rows=b[0:4],-2,-4|0,1,0|0,0,1;eq=1;opt=--dilation=2;dil=2;lo=0,0;hi=12,12',
     'rows=b[0:4],-2,-4|0,1,0|0,0,1;opt=--dilation=2 --cdd;cdd=1;dil=2;lo=0,0;hi=12,12',
     'rows=b[0:4],-2,-4|0,1,0|0,0,1;opt=--homog --dilation=2;dil=2;lo=0,0;hi=12,12',
     'rows=b[-2:4],-2,-4,-3|0,1,0,0|0,0,1,0|0,0,0,1;eq=1;opt=--dilation=2;dil=2;lo=0,0,0;hi=8,8,8',
     'rows=2,-1,0|b[-3:3],2,0|0,0,1|c[-1:1],0,-1;lo=-3,0;hi=3,2',
     'rows=1,-1|b[0:3],1;lo=-3;hi=1', 'rows=5,-2|b[0:3],2;lo=-3;hi=3',
     'rows=b[0:6],-2,-1,-3|0,1,0,0|0,0,1,0|0,0,0,1;lo=0,0,0;hi=6,6,6;eq=1;cdd=1;opt=--cdd',
     'rows=b[0:6],-2,-1,-3|0,1,0,0|0,0,1,0|0,0,0,1;lo=0,0,0;hi=6,6,6;eq=1;opt=--redundancy-check=none',
     'rows=b[0:6],-2,-1,-3|0,1,0,0|0,0,1,0|0,0,0,1;lo=0,0,0;hi=6,6,6;eq=1;opt=--irrational-primal',
     'rows=b[0:6],-2,-1,-3|0,1,0,0|0,0,1,0|0,0,0,1;lo=0,0,0;hi=6,6,6;eq=1;opt=--homog',
     'rows=b[0:3],-1,-2,-1,-1|c[0:3],-1,1,-3,-2|0,1,0,0,0|0,0,1,0,0|0,0,0,1,0|0,0,0,0,1;eq=1,2;lo=0,0,0,0;hi=3,3,3,3',
     'rows=b[1:4],-1,0,0|1,1,-1,0|-1,-1,1,0|0,1,0,0|0,0,0,1|c[0:2],0,0,-1;lo=0,0,0;hi=4,5,2',
    ]
    return [cfg('h_count', c) for c in L + C07_WIDE]
PROPS['C07'] = dict(configs=c07, explain='The count driver is executed on polyhedra with explicit, hidden, dependent and inconsistent equations, redundant rows, nonnegativity declarations and dilation; the count must be that of the dilated original.',
  bounds='dimension 1 to 4, up to three equations, dilation 2, 3, 6, 1000 and 12345; right-hand sides in the ranges of each configuration (up to 10^9), also of images under unimodular maps with entries up to 10^22.')
# ---------------------------------------------------------------- C10
def c10(tier):
    L = ['pts=1,0,0|1,a[0:4],0|1,0,b[0:4]|1,2,2;lo=0,0;hi=4,4', 'pts=1,0,0|1,a[1:4],0|1,0,b[1:4];lo=0,0;hi=4,4',
     'pts=1,a[-3:3],1|1,3,-2|1,-2,-1|1,1,1;lo=-3,-3;hi=3,3', 'pts=2,a[-3:3],1|3,6,-2|1,-2,-1;cdd=1;lo=-3,-3;hi=3,3',
     'pts=1,0,0,0|1,2,0,0|1,0,3,0|1,1,1,a[1:4];lo=0,0,0;hi=3,3,4', 'pts=1,0,0,0|1,2,0,0|1,0,2,0|1,0,0,2|1,1,1,a[0:3];lo=0,0,0;hi=3,3,3',
     'pts=1,a[-2:2]|1,b[-2:2]|1,1;lo=-2;hi=2', 'pts=1,a[-2:2]|1,b[-2:2];lo=-2;hi=2',
     'pts=1,0,0|1,a[1:4],0|1,0,b[1:4];lo=0,0;hi=4,4;opt=--vrep --homog', 'pts=1,0,0|1,a[1:4],0|1,0,b[1:4]|1,1,1|1,0,0;lo=0,0;hi=4,4;opt=--vrep --homog',
     'pts=2,a[-3:3],1|3,6,-2|1,-2,-1;opt=--vrep;lo=-3,-3;hi=3,3',
     'pts=1,0,0|1,a[1:4],0|1,0,b[1:4];lo=0,0;hi=4,4;opt=--vrep --irrational-primal', 'pts=1,0,0|1,a[1:4],0|1,0,b[1:4];lo=0,0;hi=4,4;opt=--vrep --irrational-all-primal',
     'pts=1,0,0|1,a[1:4],0|1,0,2|1,3,3;lo=0,0;hi=4,4;opt=--vrep --exponential', 'pts=1,-1,0|1,a[0:3],-2|1,2,1|1,0,2;lo=-1,-2;hi=3,2',
     'pts=1,0,0,0|1,1,0,0|1,0,1,0|1,0,0,1|1,1,1,a[1:3];lo=0,0,0;hi=1,1,3',
    ]
    return [cfg('h_vrep', c) for c in L]
PROPS['C10'] = dict(configs=c10, explain='The count driver reads vertex files whose coordinates are symbolic; the count must equal the number of box points in the convex hull, written as a condition over all simplices spanned by the points.',
  bounds='up to 5 points in dimension 1 to 3, hull full-dimensional; a list with a non-vertex may be refused by the vertex-cone method (it says so), never miscounted.')
# ---------------------------------------------------------------- C11
C11_WIDE = [
  'rows=0,1,0|0,0,1|b[1:8],-2,-3;lo=0,0;hi=4,3;uni=1,3000000000|0,1;shift=5000000000,-70000000000;cost=c[-2:2],1',
  'rows=0,1,0|0,0,1|b[1:8],-2,-3;lo=0,0;hi=4,3;uni=1,3000000000|0,1;shift=5000000000,-70000000000;cost=c[-2:2],1;min=1',
  'rows=0,1,0|0,0,1|b[1:8],-2,-3;lo=0,0;hi=4,3;uni=1,300000000000000000000|0,1;shift=50000000000000000000000,-70000000000;cost=1000000000000000000000,c[-2:2];min=1',
  'rows=0,1,0|0,0,1|b[1:8],-2,-3;lo=0,0;hi=4,3;shift=-5,-7;cost=c[-2:2],1;need=nonempty',
  'rows=0,1,0|0,0,1|b[1:8],-2,-3;lo=0,0;hi=4,3;shift=-5,-7;cost=c[-2:2],-1;need=nonempty;min=1',
  'rows=b[1:3],-1,-1,-1|b,1,-1,-1|b,-1,1,-1|b,-1,-1,1|b,1,1,-1|b,1,-1,1|b,-1,1,1|b,1,1,1;lo=-3,-3,-3;hi=3,3,3;cost=1,2,3',
  'rows=b[1:3],-1,-1,-1|b,1,-1,-1|b,-1,1,-1|b,-1,-1,1|b,1,1,-1|b,1,-1,1|b,-1,1,1|b,1,1,1;lo=-3,-3,-3;hi=3,3,3;cost=1,c[-2:2],3;min=1',
  'rows=b[1:3],-2,0,-1|b,1,0,-1|c[1:3],0,-1,-1|b,0,3,-1|0,0,0,1;lo=-3,-1,0;hi=1,3,3;cost=1,-1,2',
  'rows=b[1:3],-2,0,-1|b,1,0,-1|c[1:3],0,-1,-1|b,0,3,-1|0,0,0,1;lo=-3,-1,0;hi=1,3,3;cost=1,-1,2;min=1',
  'rows=b[1:9],-2|c[0:9],3;lo=-3;hi=4;cost=d[-3:3]',
  'rows=b[1:9],-2|c[0:9],3;lo=-3;hi=4;cost=d[-3:3];min=1',
  'rows=b[1:9],-2|c[0:9],3;lo=-3;hi=4;cost=1;opt=bbs',
  'rows=0,1,0,0,0|0,0,1,0,0|0,0,0,1,0|0,0,0,0,1|b[1:3],-1,-2,-1,-2|2,0,0,-1,1;lo=0,0,0,0;hi=3,3,3,3;cost=1,3,-1,2',
  'rows=0,1,0,0,0|0,0,1,0,0|0,0,0,1,0|0,0,0,0,1|b[1:3],-1,-2,-1,-2|2,0,0,-1,1;lo=0,0,0,0;hi=3,3,3,3;cost=1,3,-1,2;min=1',
  'rows=0,1,0|0,0,1|b[1:6],-2,-3;lo=0,0;hi=3,2;cost=1000000000000*c[-2:2],1000000000000;need=nonempty',
]
def c11(tier):
    B = ';need=nonempty'
    L = ['rows=0,1,0|0,0,1|b[1:6],-1,-2;lo=0,0;hi=6,3;cost=1,1' + B, 'rows=0,1,0|0,0,1|6,-1,-2;lo=0,0;hi=6,3;cost=c[-2:2],1' + B,
     'rows=0,1,0|0,0,1|7,-3,-2;lo=0,0;hi=3,4;cost=c[-2:2],d[-2:2]' + B, 'rows=0,1,0|0,0,1|7,-3,-2;lo=0,0;hi=3,4;cost=c[-2:2],d[-2:2];min=1' + B,
     'rows=0,1,0|0,0,1|b[1:6],-1,-2;lo=0,0;hi=6,3;cost=1,1;min=1' + B,
     'rows=b[1:6],-1,-2,-1|0,1,0,0|0,0,1,0|0,0,0,1;lo=0,0,0;hi=6,6,6;cost=1,1,2;eq=1' + B, 'rows=b[1:6],-1,-2,-1|0,1,0,0|0,0,1,0|0,0,0,1;lo=0,0,0;hi=6,6,6;cost=1,1,2;eq=1;min=1' + B,
     'rows=2,5,-2|0,-3,4|b[1:6],-2,-2;lo=-3,-5;hi=6,6;cost=1,2' + B, 'rows=2,5,-2|0,-3,4|b[1:6],-2,-2;lo=-3,-5;hi=6,6;cost=1,c[-3:0];min=1' + B,
     'rows=2,2,-2|-1,-2,2|b[0:6],-3,-2|0,0,1;lo=-3,-5;hi=6,6;cost=1,2', 'rows=2,2,-2|-1,-2,2|b[0:6],-3,-2|0,0,1;lo=-3,-5;hi=6,6;cost=1,2;min=1',
     'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:8],-2,-1,-3;lo=0,0,0;hi=4,8,2;cost=c[-2:2],1,-1' + B,
     'rows=0,1,0,0|0,0,1,0|0,0,0,1|7,-2,-1,-3;lo=0,0,0;hi=4,8,2;cost=c[-2:2],d[0:3],2;min=1' + B,
     'rows=b[1:6],-1,-2,-1|0,1,0,0|0,0,1,0|0,0,0,1;lo=0,0,0;hi=6,6,6;cost=1,1,2;eq=1;opt=bbs' + B,
     'rows=b[1:6],-1,-2|0,1,0|0,0,1;lo=0,0;hi=6,3;cost=1,c[-2:2];opt=bbs' + B, 'rows=b[3:6],-1,-2|-1,1,0|-1,0,1;lo=0,0;hi=6,3;cost=1,2;opt=bbs;min=1' + B,
     'rows=b[4:8],-1,-2|-1,2,0|-1,0,2;lo=0,0;hi=6,3;cost=1,2;opt=bbs;min=1' + B, 'rows=b[4:8],-1,-2|-1,2,0|-1,0,2;lo=0,0;hi=6,3;cost=-1,2;opt=bbs;min=1' + B, 'rows=b[4:9],-2,-2|-1,2,0|-1,0,2;lo=0,0;hi=6,3;cost=1,1;opt=bbs' + B,
     'rows=b[1:6],-1,-2|0,1,0|0,0,1;lo=0,0;hi=6,3;cost=1,c[-2:2];opt=lrs' + B, 'rows=b[1:6],-1,-2|0,1,0|0,0,1;lo=0,0;hi=6,3;cost=1,c[-2:2];opt=cdd;cdd=1' + B,
     'rows=1,1,0|b[1:5],-3,-4|0,0,1;lo=-1,0;hi=2,3;cost=c[-3:3],2' + B, 'rows=1,1,0|b[1:5],-3,-4|0,0,1;lo=-1,0;hi=2,3;cost=c[-3:3],-2;min=1' + B,
     'rows=b[1:4],-2,-3,-1|3,2,-1,0|0,1,0,0|0,0,1,0|0,0,0,1;lo=0,0,0;hi=2,3,4;eq=1;cost=1,c[-2:2],1' + B,
     'rows=2,5,-2|0,-3,4|b[1:6],-2,-2;lo=-3,-5;hi=6,6;cost=c[-2:2],-1' + B, 'rows=2,5,-2|0,-3,4|5,-2,-2;lo=-3,-5;hi=6,6;cost=c[-2:2],d[-2:2]' + B,
     'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[2:7],-2,-1,-2;lo=0,0,0;hi=4,8,4;cost=c[-1:1],0,1' + B, 'rows=0,1,0|0,0,1|b[1:6],-2,-2|c[1:4],-1,1;lo=0,0;hi=6,6;cost=1,-1;min=1' + B,
     'rows=0,1,0|0,0,1|b[1:6],-2,-2|c[1:4],-1,1;lo=0,0;hi=6,6;cost=1,1' + B,
     'rows=b[0:0],-1,-2|0,1,0|0,0,1;lo=0,0;hi=1,1;cost=1,2', 'rows=b[0:0],-1,-2|0,1,0|0,0,1;lo=0,0;hi=1,1;cost=1,2;min=1',
    ]
    return [cfg('h_opt', c) for c in L + C11_WIDE]
PROPS['C11'] = dict(configs=c11, explain='The maximize and minimize drivers (digging and binary search) are executed on polytopes with symbolic right-hand sides and symbolic cost vectors; the reported point must be feasible and have the reported value, and no box point may be better.',
  bounds='dimension 1 to 4, costs within [-3,3] times at most 10^21, images under unimodular maps with entries up to 3*10^20; the nested count runs of binary search are executed in the same process.',
  note='The binary search reports only a value; the value must be attained and optimal.')
# ---------------------------------------------------------------- C21
C21_WIDE = [
  'rows=b[-2:2],1,0|c[-2:2],-1,0|0,0,1|2,0,-1;uni=1,3000000000|0,1;shift=5000000000,-70000000000',
  'rows=0,a[-1:2],1|0,1,b[-2:1]|4,-1,-1;shift=5000000000000000000000,-70000000000',
  'rows=b[-2000000:2000000],1|c[-2000000:2000000],a[-2:2]',
  'rows=b[-2000000:2000000],1,0|c[-2000000:2000000],-1,0|0,0,1|2,0,-1',
  'rows=b[-2000000:2000000],1,0|c[-2000000:2000000],-1,0',
  'rows=b[0:1000000],2,0|c[-2000000:2000000],-3,0|0,0,1|d[-1:1],0,-1',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[-3:5],-1,c[-1:1],-1;eq=4',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[-3:5],-1,c[-1:1],-1',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[-3:5],-1,c[-1:1],-1|d[-1:1],0,-1,1',
]
def c21(tier):
    L = ['rows=b[-2:2],1,0|c[-2:2],-1,0|0,0,1|2,0,-1', 'rows=0,a[-1:2],1|0,1,b[-2:1]|4,-1,-1', 'rows=0,1,0|0,0,1|b[-3:5],c[-1:1],d[-1:1]',
     'rows=0,1,0|0,0,1|b[-3:5],c[-1:1],d[-1:1];opt=--compute-vertex-cones=cdd', 'rows=b[-2:2],1|c[-2:2],a[-2:2]', 'rows=0,1,0|0,0,1|b[-3:5],c[-1:1],d[-1:1];eq=3',
     'rows=b[-1:1],a[-1:1],1|c[-1:1],2,d[-1:1];eq=1,2', 'rows=0,1,0|0,0,1|b[-3:5],c[-1:1],d[-1:1];opt=--compute-vertex-cones=lrs', 'rows=0,1,0|0,0,1|b[-3:5],c[-1:1],d[-1:1];opt=--redundancy-check=none',
     'rows=0,1,0|b[-2:2],-1,1|c[-2:2],1,-1', 'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[-1:3],a[-1:1],-1,0', 'rows=0,1,0|0,0,1|b[-1:2],c[-1:1],-1;opt=--exponential',
     'rows=0,1,0|0,0,1|b[-1:2],c[-1:1],-1;opt=--irrational-all-primal', 'rows=0,1,0|0,0,1|b[-3:5],c[-1:1],d[-1:1];cdd=1;opt=--cdd;need=nonempty', 'rows=0,1,0|0,0,1|b[-3:5],c[-1:1],d[-1:1];opt=--homog;need=nonempty',
     'rows=3,a[-1:1],0|2,0,b[-1:1]|0,1,1', 'rows=0,1,0|1,c[-1:1],0;opt=--dual',
    ]
    return [cfg('h_unb', c) for c in L + C21_WIDE]
PROPS['C21'] = dict(configs=c21, explain='The count driver runs on polyhedra whose shape (empty, bounded, unbounded, containing a line) depends on symbolic coefficients; the report must agree with an independent Fourier-Motzkin characterisation.',
  bounds='dimension 1 to 3, up to 5 rows, coefficients in [-2,2] (right-hand sides up to 2*10^6), images under unimodular maps; empty systems whose homogeneous part is unbounded are outside the claim (the program reports "empty or unbounded" for them), as are empty systems in the cdd input style (the program announces that it does not check them).')
# ---------------------------------------------------------------- C08
C08_WIDE = [
  'rows=0,1,0|0,0,1|b[1:100000],-1,-1;what=poly;want=1+b*T|2+b*T;wden=2;T=4',
  'rows=0,1,0|0,0,1|b[1:200],-1,-1;what=taylor;want=1+b*T|2+b*T;wden=2;T=4',
  'rows=0,1,0|0,0,1|b[1:200],-1,-1;what=series;want=1+b*T|2+b*T;wden=2;T=4',
  'rows=0,1,0|0,0,1|b[1:100000],-1,0|c[1:100000],0,-1;what=poly;want=1+b*T|1+c*T;T=4',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:1000],-1,-1,-1;what=poly;want=1+b*T|2+b*T|3+b*T;wden=6;T=5',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:200],-1,-1,-1;what=taylor;want=1+b*T|2+b*T|3+b*T;wden=6;T=5',
  'rows=0,1,0,0,0|0,0,1,0,0|0,0,0,1,0|0,0,0,0,1|b[1:1000],-1,-1,-1,-1;what=poly;want=1+b*T|2+b*T|3+b*T|4+b*T;wden=24;T=5',
  'rows=b[-100000:100000],1|c[100001:200000],-1;what=poly;want=1+b*T+c*T;T=3',
  'rows=0,1,0|0,0,1|b[1:40],-2,-1|c[1:2],0,-1;lo=0,0;hi=0,2;fiber=0;what=taylor;T=3',
  'rows=0,1,0|0,0,1|b[1:8],-2,-3;lo=0,0;hi=4,3;uni=1,3000000000|0,1;shift=5000000000,-70000000000;what=taylor;T=4',
  'rows=0,1,0|0,0,1|b[1:8],-1,-1;lo=0,0;hi=8,8;uni=1,3000000000|0,1;shift=5000000000,-70000000000;what=poly;T=3',
  'rows=0,1,0|0,0,1|b[1:8],-2,-3;lo=0,0;hi=4,3;uni=1,300000000000000000000|0,1;shift=500000000000000000000000,-70000000000;what=series;T=4',
  'rows=b[1:3],-1,-1,-1|b,1,-1,-1|b,-1,1,-1|b,-1,-1,1|b,1,1,-1|b,1,-1,1|b,-1,1,1|b,1,1,1;lo=-3,-3,-3;hi=3,3,3;what=taylor;T=3',
  'rows=b[1:3],-1,-1,-1|b,1,-1,-1|b,-1,1,-1|b,-1,-1,1|b,1,1,-1|b,1,-1,1|b,-1,1,1|b,1,1,1;lo=-3,-3,-3;hi=3,3,3;what=poly;T=3',
  'rows=b[1:3],-1,-1,-1|b,1,-1,-1|b,-1,1,-1|b,-1,-1,1|b,1,1,-1|b,1,-1,1|b,-1,1,1|b,1,1,1;lo=-3,-3,-3;hi=3,3,3;what=series;T=3',
  'rows=b[1:3],-2,0,-1|b,1,0,-1|c[1:3],0,-1,-1|b,0,3,-1|0,0,0,1;lo=-3,-1,0;hi=2,3,3;what=taylor;T=2',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:100000],-1,-1,-1;eq=4;what=poly;want=1+b*T|2+b*T;wden=2;T=4',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:6],-2,-3,-1;eq=4;lo=0,0,0;hi=3,2,6;uni=1,0,3000000000|0,1,-7|0,0,1;shift=50000000000,7,8;what=taylor;T=3',
  'rows=5,-2|b[0:3],2;lo=-3;hi=3;what=series;T=6',
  'rows=5,-2|b[0:3],2;lo=-3;hi=3;what=taylor;T=6',
  'rows=0,1,0|0,0,1|b[1:8],-2,-3;lo=0,0;hi=4,3;what=taylor;T=12',
]
def c08(tier):
    R2 = 'rows=0,1,0|0,0,1|'; B3 = 'rows=0,1,0,0|0,0,1,0|0,0,0,1|'; N = ';need=nonempty'
    L = [R2 + 'b[1:5],-1,-1;what=poly;lo=0,0;hi=5,5', R2 + 'b[1:8],-1,-2;what=poly;lo=0,0;hi=8,4;integral=b%2', R2 + 'b[1:9],-2,-3;what=series;lo=0,0;hi=5,3;T=6',
     R2 + 'b[1:9],-2,-3;what=taylor;lo=0,0;hi=5,3;T=6', R2 + 'b[1:9],-2,-3;what=series;ehrhart=1;lo=0,0;hi=5,3;T=6', R2 + 'b[1:7],-2,-3;what=taylor;ehrhart=1;lo=0,0;hi=4,3;T=5',
     B3 + 'b[1:4],-1,-1,-2;what=series;lo=0,0,0;hi=4,4,2;T=3', B3 + 'b[1:2],-1,0,0|c[1:2],0,-1,0|d[1:2],0,0,-1;what=poly;lo=0,0,0;hi=2,2,2;T=3', B3 + 'b[1:4],-1,-2,-1;what=poly;lo=0,0,0;hi=4,2,4;integral=b%2;T=3',
     'rows=b[-3:0],1,0|c[1:2],-1,0|0,0,1|d[1:2],0,-1;what=poly;lo=0,0;hi=3,2;T=4', 'rows=a[-1:2],1,1|b[-1:2],1,-1|c[0:3],-1,0;what=series;lo=-2,-5;hi=3,5;T=4' + N, 'rows=a[-1:2],1,1|b[-1:2],1,-1|c[0:3],-1,0;what=taylor;lo=-2,-5;hi=3,5;T=3' + N,
     B3 + 'b[1:6],-2,-1,-3;eq=4;what=series;lo=0,0,0;hi=3,6,2;T=4', 'rows=b[1:6],-2,-1,-3|0,1,0,0|0,0,1,0|0,0,0,1;eq=1;what=series;lo=0,0,0;hi=3,6,2;T=4',
     'rows=b[1:6],-2,-1,-3|0,1,0,0|0,0,1,0|0,0,0,1;eq=1;what=taylor;lo=0,0,0;hi=3,6,2;T=4', 'rows=b[1:6],-2,-1,-3|0,1,0,0|0,0,1,0|0,0,0,1;eq=1;what=poly;lo=0,0,0;hi=3,6,2;T=4;integral=b%6',
     R2 + 'b[1:5],-2,-3;what=taylor;cdd=1;opt=--cdd;lo=0,0;hi=3,2', R2 + 'b[1:5],-2,-3;what=taylor;ehrhart=1;opt=lrs;lo=0,0;hi=3,2', R2 + 'b[1:5],-2,-3;what=taylor;cdd=1;ehrhart=1;opt=cdd;lo=0,0;hi=3,2', R2 + 'b[1:5],-2,-3;what=series;opt=--homog;lo=0,0;hi=3,2',
     R2 + 'b[1:4],-1,-1;what=poly;lo=0,0;hi=4,4;opt=--irrational-primal --maxdet=5', R2 + 'b[1:4],-1,-1;what=poly;lo=0,0;hi=4,4;opt=--irrational-all-primal --maxdet=50', R2 + 'b[1:6],-1,-2;integral=b%2;what=poly;lo=0,0;hi=6,3;opt=--maxdet=10', R2 + 'b[1:6],-1,-3;integral=b%3;what=poly;lo=0,0;hi=6,3;opt=--no-decomposition',
     R2 + 'b[1:3],-1,0|c[1:3],0,-1|d[1:5],-1,-1;what=poly;lo=0,0;hi=3,3', R2 + 'b[1:4],-1,0|c[1:4],1,-2|9,-2,-1;what=series;lo=0,0;hi=4,4;T=4', R2 + 'b[1:4],-1,0|c[1:4],1,-2|9,-2,-1;what=taylor;ehrhart=1;lo=0,0;hi=4,4;T=4',
     'rows=2,3,-1|1,-1,2|b[2:5],-1,-1;what=series;lo=-2,-3;hi=6,6;T=4', 'rows=2,3,-1|1,-1,2|b[2:5],-1,-1;what=taylor;lo=-2,-3;hi=6,6;T=4', R2 + '2,-1,-1|b[2:4],1,-1;what=poly;lo=0,0;hi=2,2;opt=--compute-vertex-cones=cdd;T=4',
     'rows=b[0:0],-1,-2|0,1,0|0,0,1;what=series;lo=0,0;hi=1,1', 'rows=b[0:0],-1,-2|0,1,0|0,0,1;what=poly;lo=0,0;hi=1,1',
     B3 + 'b[1:3],-1,-1,0|c[1:2],0,0,-1;what=poly;lo=0,0,0;hi=3,3,2;T=3', B3 + 'b[1:3],-1,-1,0|c[1:2],0,0,-1;what=series;lo=0,0,0;hi=3,3,2;T=3',
    ]
    if tier == 'thorough': L += [R2 + 'b[1:20],-3,-4;what=series;lo=0,0;hi=7,5;T=8', R2 + 'b[1:20],-3,-4;what=taylor;lo=0,0;hi=7,5;T=8', B3 + 'b[1:9],-1,-2,-3;what=series;lo=0,0,0;hi=9,5,3;T=4', B3 + 'b[1:9],-1,-2,-3;what=taylor;ehrhart=1;lo=0,0,0;hi=9,5,3;T=4', B3 + 'b[1:9],-1,-2,-3;what=poly;integral=b%6;lo=0,0,0;hi=9,5,3;T=4', 'rows=a[-3:4],1,2|b[-3:4],1,-1|c[0:5],-2,0;what=series;lo=-5,-5;hi=3,8;T=4' + N]
    return [cfg('h_ehr', c) for c in L + C08_WIDE]
PROPS['C08'] = dict(configs=c08, explain='The count and ehrhart drivers are executed on polytopes with symbolic right-hand sides; the printed polynomial is evaluated at t = 0..T, the written rational function is expanded as a power series and the printed Taylor terms are parsed, and each must equal the number of integer points of the t-th dilation (a sum of if-then-else terms).',
  bounds='dimension 1 to 4, dilations 0 to T (2 to 6, one 12; thorough 8), right-hand sides in the ranges of each configuration (up to 10^5 for the polynomial), images under unimodular maps with entries up to 3*10^20; a requested number of terms of at least 1.')

# ---------------------------------------------------------------- C09
def c09(tier):
    R2 = 'rows=0,1,0|0,0,1|'; B3 = 'rows=0,1,0,0|0,0,1,0|0,0,0,1|'; N = ';need=nonempty'; E1 = '|0,1,0,0|0,0,1,0|0,0,0,1;lo=0,0,0;'
    L = [R2 + 'b[1:8],-2,-3;lo=0,0;hi=4,3', 'rows=b[1:6],-1,-2,-1' + E1 + 'hi=6,3,6;eq=1', 'rows=b[0:6],-2,-4|0,1,0|0,0,1;lo=0,0;hi=4,3;eq=1', R2 + 'b[1:5],-1,-2;lo=0,0;hi=5,3;what=file;opt=file',
     R2[:-1] + ';lo=0,0;hi=4,4;dir=1,1', 'rows=b[-2:2],1,0|0,-1,2;lo=-2,-2;hi=4,4;dir=1,1', B3 + 'b[1:4],-1,-2,-1;lo=0,0,0;hi=4,2,4', 'rows=b[1:5],-1,-1|c[0:2],0,1|0,1,0|5,-2,1;lo=0,-2;hi=5,5;opt=--maxdet=5',
     'rows=b[1:6],-3,-2,-2' + E1 + 'hi=2,3,3;eq=1;opt=--maxdet=100', 'rows=b[1:6],-3,-2,-2' + E1 + 'hi=2,3,3;eq=1;opt=--no-decomposition', 'rows=b[1:6],-3,-2,-2' + E1 + 'hi=2,3,3;eq=1;what=file;opt=file',
     R2 + 'b[1:5],-2,-3;lo=0,0;hi=5,3;opt=--irrational-primal --maxdet=3', R2 + 'b[1:5],-2,-3;lo=0,0;hi=5,3;opt=--irrational-all-primal --maxdet=1000', 'rows=b[1:5],-1,-1|c[0:2],0,1|0,1,0|5,-2,1;lo=0,-2;hi=5,5;opt=--no-decomposition',
     'rows=2,5,-2|0,-3,4|b[1:6],-2,-2;lo=-3,-5;hi=6,6', 'rows=2,5,-2|0,-3,4|b[1:6],-2,-2;lo=-3,-5;hi=6,6;opt=--compute-vertex-cones=cdd', 'rows=2,5,-2|0,-3,4|b[1:6],-2,-2;lo=-3,-5;hi=6,6;opt=--compute-vertex-cones=lrs',
     R2 + 'b[1:4],-1,-2;lo=0,0;hi=4,2;dil=2;opt=--dilation=2', 'rows=b[1:6],-1,-2,-1' + E1 + 'hi=6,3,6;eq=1;cdd=1;opt=--cdd', 'rows=b[0:6],-2,-2,-4' + E1 + 'hi=3,3,2;eq=1', 'rows=b[0:6],-1,-2,-1|c[0:4],-1,1,-1' + E1 + 'hi=6,3,6;eq=1,2',
     R2 + 'b[0:3],-1,-1|2,-1,0;lo=0,0;hi=3,3', B3 + 'b[1:3],-1,1,0;lo=0,0,0;hi=4,4,3;dir=1,1,1', 'rows=0,2,-1|0,-1,3|b[-3:3],1,1;lo=-1,-1;hi=4,4;dir=1,1', 'rows=0,2,-1|0,-1,3|b[-3:3],1,1;lo=-1,-1;hi=4,4;dir=1,1;opt=--irrational-primal',
     'rows=b[0:3],2,1|c[0:2],-1,-1|4,-1,1|3,1,-1;lo=-8,-8;hi=8,8;m=0' , 'rows=b[0:3],2,1|c[0:2],-1,-1|4,-1,1|3,1,-1;lo=-8,-8;hi=8,8;m=0;what=file;opt=file',
     'rows=b[0:3],-1,1|c[-2:1],1,-1|0,1,0|3,-1,0;lo=0,-3;hi=3,5', 'rows=a[-1:2],1,1|b[-1:2],1,-1|c[0:3],-1,0;lo=-2,-5;hi=3,5', 'rows=b[-2:3],2|c[0:5],-3;lo=-3;hi=3', 'rows=1,0,0,1|2,0,0,-1|b[1:3],-1,-1,0|0,1,0,0|0,0,1,0;lo=0,0,-1;hi=3,3,2',
     'rows=b[1:5],-1,-1,-1|0,1,0,0|0,0,1,0|0,0,0,1|2,-1,0,0;eq=1;lo=0,0,0;hi=5,5,5;opt=--compute-vertex-cones=cdd', 'rows=b[1:4],-1,-2|-1*b,1,2|0,1,0|0,0,1;lo=0,0;hi=4,4',
    ]
    if tier == 'thorough': L += [B3 + 'b[1:8],-2,-3,-1;lo=0,0,0;hi=4,3,8', B3 + 'b[1:6],-1,-1,-2|c[1:4],-1,1,1;lo=0,0,0;hi=6,6,4', 'rows=a[-3:4],1,2|b[-3:4],1,-1|c[0:5],-2,0;lo=-5,-5;hi=3,8', R2 + 'b[1:20],-3,-7;lo=0,0;hi=7,3', B3 + 'b[1:4],-1,-1,0|2,0,0,-1|c[0:3],0,1,-2;lo=0,0,0;hi=4,4,3', 'rows=b[1:9],-3,-2,-4' + E1 + 'hi=3,5,3;eq=1;opt=--maxdet=7']
    return [cfg('h_gf', c) for c in L]
PROPS['C09'] = dict(configs=c09, explain='The count driver writes the generating function of a polyhedron with symbolic right-hand sides; every printed term is parsed and expanded as a Laurent series in one common direction, and the coefficient of every monomial of an enlarged box must be 1 for points of the polyhedron and 0 elsewhere.',
  bounds='dimension 1 to 3, with up to two equations, bounded and pointed unbounded polyhedra; monomials of the box named in each configuration enlarged by one.')

# ---------------------------------------------------------------- C12, C13, C14
VS = 'rows=0,1,0|0,0,1|b[1:6],-1,-2;'; VS6 = 'rows=0,1,0|0,0,1|6,-1,-2;'; VQ = 'rows=2,3,-1|1,-1,2|b[2:5],-1,-1;'; VB = 'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:4],-1,-2,-1;'
VX = 'rows=a[-2:0],1,0|3,-1,0|0,0,1|c[1:2],0,-1;'; VP = 'rows=0,0,0,1|2,-1,0,-1|2,1,0,-1|2,0,-1,-1|b[1:2],0,1,-1;'; VO = 'rows=b[1:3],-1,-1|b,1,1|c[1:3],1,-1|c,-1,1;'; VT = 'rows=b[1:3],1,-1|2,-1,-1|1,0,1;'; V1 = 'rows=2,3|b[1:7],-2;'
VD = 'rows=a[-1:2],1,1|b[-1:2],1,-1|c[0:3],-1,0;'; VR = 'rows=a[1:2],b[1:2],-1|1,-1,2|2,-1,-1;'; VC = 'rows=b[0:3],1,0|2,-1,0|1,0,1|1,0,-1;'; VBc = 'rows=1,1,0,0|2,-1,0,0|0,0,1,0|b[1:3],0,-1,0|0,0,0,1|2,0,0,-1;'
C12_WIDE = [
  'rows=0,1,0|0,0,1|1000000000000000000000+b[1:2],-1,-2;val=mono;mono=1,2,1|c[-1:1],0,1',
  'rows=0,1,0|0,0,1|6,-1,-2;val=mono;mono=1000000000000000000*c[-1:1],2,1|1000000000000000000,0,1',
  'rows=0,1,0|0,0,1|b[1:3],-1,-2;val=mono;mono=1000000000000000000000000,2,1|c[-1:1],0,1;uni=1,300|0,1;shift=5000000000,-700',
  'rows=0,1,0|0,0,1|6,-1,-2;val=mono;mono=1,15,0|c[-9:9],0,17',
  'rows=0,1,0|0,0,1|6,-1,-2;val=mono;mono=1,35,0',
  'rows=0,1|b[1:9],-2;val=mono;mono=1,30',
]
def c12(tier):
    M = lambda c, m, o='': c + 'val=mono;mono=' + m + (';opt=' + o if o else '')
    L = [M(VS, '1,2,1'), M(VS6, 'c[-3:3],2,0|2,0,1'), M(VS6, '1,2,0|c[-2:2],2,0'), M(VS6, 'c[-2:2],1,0'), M(VS6, 'c[-3:3],2,1|d[-2:2],1,0|e[-2:2],0,0'), M(VB, '1,1,0,2|2,1,1,0'), M(VX, '1,1,0'), M(VT, '1,1,0'),
     VS + 'val=mono;mono=1,2,1;cden=3;opt=--cone-decompose', M(VS, '1,3,2', '--triangulate'), M(VS, '1,3,2', '--polynomial-as-plf'), M(V1, '1,3|2,1|c[-1:1],0'), M(VR, '1,1,1'), M(VD, '1,2,0'), M(VD, '1,1,0|c[0:1],0,1', '--cone-decompose'),
     'pts=1,0,0|1,a[1:4],1|1,1,b[1:4];val=mono;mono=1,1,1', 'pts=1,a[-3:3],0|1,b[-3:3],0|1,0,2;val=mono;mono=1,1,0;opt=--polynomial-as-plf', M(VO, '1,1,0|2,0,1'), M(VC, '1,1,1|2,0,2', '--triangulate'), M(VC, '1,1,1|2,0,2', '--polynomial-as-plf'), M(VC, '1,1,1|2,0,2', '--cone-decompose'), M(VC, '1,1,0'),
     M(VBc, '1,1,1,1|c[-1:1],0,0,1', '--polynomial-as-plf'), M(VBc, '1,1,0,1', '--triangulate'), M(VBc, '1,1,0,1', '--cone-decompose'), M(VP, '1,1,0,0', '--polynomial-as-plf'), M(VQ, '1,1,0|2,0,1'), M(VQ, '1,2,1', '--polynomial-as-plf'),
     VS + 'val=mono;mono=1,1,1;cdd=1;opt=--cdd', M(VS, '1,1,1', '--compute-vertex-cones=cdd'), M(VS, '1,1,1', '--compute-vertex-cones=lrs'), M(VS, '1,0,3', '--triangulation=4ti2'), M(VS6, 'c[-9:9],5,3'), M(VS6, 'c[-3:3],1,0|d[-3:3],1,0|1,0,0|e[-1:1],0,0'), M(VS6, '1,1,0|1,0,1|1,2,0|1,0,2|1,1,1|c[-2:2],3,0|1,0,3')]
    if tier == 'thorough': L += [M(VO, '1,2,0'), M(VX, '1,2,0'), M(VP, '1,1,0,1', '--polynomial-as-plf'), M(VS, '1,5,2'), M(VB, '1,3,0,2', '--polynomial-as-plf'), M(VS6, 'c[-5:5],9,7')]
    return [cfg('h_val', c) for c in L + C12_WIDE]
VALX = ' The oracle computes the vertices by Cramer\'s rule, a pulling triangulation and Dirichlet\'s formula over the same symbolic parameters.'
PROPS['C12'] = dict(configs=c12, explain='The integrate driver is executed on polytopes with symbolic right-hand sides, vertices or coefficients and polynomials with symbolic coefficients; every printed and returned integral (cone decomposition, triangulation, products of linear forms) must equal the exact rational integral.' + VALX,
  bounds='dimension 1 to 3, full-dimensional, polynomials of degree at most 8 (with symbolic shape at most 5; degree 15 to 35 with fixed shape) with up to 7 terms and coefficients up to 10^24, including repeated and cancelling monomials.')
C13_WIDE = [
  'rows=0,1,0|0,0,1|b[1:9],-1,-2;val=lf;lf=1,3,1,2|c[-9:9],2,1,1',
  'rows=0,1,0|0,0,1|b[1:3],-1,-2;val=lf;lf=1,3,1,2;uni=1,3000|0,1;shift=5000000000,-700',
  'rows=0,1,0|0,0,1|6,-1,-2;val=lf;lf=1,15,1,2',
  'rows=0,1,0|0,0,1|6,-1,-2;val=lf;lf=1,15,1,2;opt=--triangulate',
  'rows=0,1,0|0,0,1|b[1:3],-1,-2;val=plf;plf=1,2,1,1,2,c[-2:2],1;uni=1,3000|0,1;shift=5000000000,-700',
  'rows=0,1,0|0,0,1|b[1:5],-1,-2;val=plf;plf=1,8,1,1,3,c[-2:2],1',
]
def c13(tier):
    F = lambda c, m, o='': c + 'val=lf;lf=' + m + (';opt=' + o if o else '')
    G = lambda c, m, o='': c + 'val=plf;plf=' + m + (';opt=' + o if o else '')
    L = [F(VS, '1,2,1,c[-2:2]'), G(VS, '1,2,1,0,1,0,1'), G(VX, '1,1,1,0'), G(VS6, '1,1,1,0,1,1,0'), G(VS6, 'c[-2:2],1,1,0,2,a[-1:1],2'), F(VS6, 'c[-2:2],2,1,0'), F(VS6, '2,2,1,0|c[-2:2],2,1,0'), F(VS6, '1,0,1,0|c[-2:2],2,1,0'), G(VS6, '1,0,1,0|c[-2:2],2,1,0'),
     F(VB, '1,2,1,0,-1'), G(VB, '1,1,1,0,-1,2,0,1,1'), F(VX, '1,2,1,1', '--cone-decompose'), F(V1, '1,3,2'), F(V1, '1,2,c[-2:2]|1,1,1'), G(V1, '1,2,c[-2:2],1,1'), F(VS6, '1,3,a[-2:2],b[-2:2]', '--triangulate'), F(VS6, '1,3,a[-2:2],b[-2:2]', '--cone-decompose'), F(VS6, '1,2,a[-2:2],b[-2:2]'),
     G(VS6, '1,2,a[-2:2],b[-2:2],1,1,1'), G(VS6, '1,1,a[-2:2],1,1,1,b[-2:2]'), F(VC, '1,2,c[-2:2],1', '--triangulate'), F(VC, '1,2,c[-2:2],1', '--cone-decompose'), G(VC, '1,2,c[-2:2],1,1,1,0|2,1,1,1'), F(VBc, '1,2,1,c[-1:1],0', '--cone-decompose'), F(VBc, '1,1,1,c[-1:1],0'), G(VBc, '1,1,1,0,c[-1:1],1,1,0,1'),
     F(VQ, '1,1,1,1'), F(VQ, '1,2,1,c[-1:1]', '--cone-decompose'), G(VQ, '1,2,1,c[-1:1]'), VS + 'val=lf;lf=2,3,1,2;cden=5', VS + 'val=plf;plf=2,1,1,2,1,0,3;cden=5', 'pts=1,a[-3:3],0|1,b[-3:3],0|1,0,2;val=lf;lf=1,2,1,0', 'pts=1,a[-3:3],0|1,b[-3:3],0|1,0,2;val=plf;plf=1,1,1,0,1,0,1', 'pts=2,a[-3:3],1|3,6,-2|1,-2,-1;val=lf;lf=1,1,1,0', F(VD, '1,2,1,0', '--cone-decompose'), F(VR, '1,2,1,1', '--cone-decompose'), G(VR, '1,1,1,1,1,1,-1'), F(VO, '1,2,1,2', '--cone-decompose'), G(VO, '1,2,1,2'), F(VS6, '1,7,a[-1:1],2'), G(VS6, 'c[-2:2],3,1,2,1,1,2,2,1,2')]
    S3 = 'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:2],-1,-1,-1;'; S4 = 'rows=0,1,0,0,0|0,0,1,0,0|0,0,0,1,0|0,0,0,0,1|b[1:1],-1,-1,-1,-1;'
    L += [F(S3, '1,2,c[-2:2],d[-2:2],e[-2:2]', '--triangulate'), F(S3, '1,%d,c[-1:2],d[-1:2],e[-1:2]' % (3 if tier == 'quick' else 5), '--cone-decompose'), G(S3, '1,1,c[0:2],d[0:2],e[0:2],1,1,0,1'), F(S4, '1,2,c[0:2],d[0:2],e[0:2],f[0:2]', '--triangulate'), F(S4, '1,2,c[0:2],d[0:2],e[0:2],f[0:2]', '--cone-decompose')]
    if tier == 'thorough': L += [F(VO, '1,3,1,2'), F(VS6, '1,5,a[-3:3],b[-3:3]'), G(VS6, '1,3,a[-3:3],b[-3:3],2,1,1'), F(VB, '1,4,1,0,c[-1:1]', '--cone-decompose'), G(VB, '1,2,1,0,c[-1:1],2,0,1,1')]
    return [cfg('h_val', c) for c in L + C13_WIDE]
PROPS['C13'] = dict(configs=c13, explain='The integrate driver is executed on sums of powers and on products of powers of linear forms whose coefficients (also of the forms themselves) are symbolic, over polytopes with symbolic right-hand sides; every printed and returned integral must equal the exact one.' + VALX,
  bounds='dimension 1 to 4, full-dimensional, powers up to 8 (one of 15); in a product every power is at least 1 (a product with a constant factor is refused by the program).')
C14_WIDE = [
  'rows=0,1,0|0,0,1|b[1:9],-1,-2;val=volume;uni=1,3000000000|0,1;shift=5000000000,-70000000000',
  'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:9],-1,-2,-3;val=volume;uni=1,0,300|0,1,-7|0,0,1;shift=500000000000000000000,7,8',
  'rows=0,1,0,0,0,0|0,0,1,0,0,0|0,0,0,1,0,0|0,0,0,0,1,0|0,0,0,0,0,1|b[1:4],-1,-1,-1,-1,-1;val=volume',
  'rows=0,1,0|0,0,1|1000000000000+b[1:4],-1,-2;val=volume',
  'rows=b[1:4],-1,-1,-1|b,1,-1,-1|b,-1,1,-1|b,-1,-1,1|b,1,1,-1|b,1,-1,1|b,-1,1,1|b,1,1,1;val=volume',
  'rows=b[1:2],-2,0,-1|b,1,0,-1|c[1:2],0,-1,-1|b,0,3,-1|0,0,0,1;val=volume',
  'rows=b[1:1000000000000],2|c[0:1000000000000],-3;val=volume',
]
def c14(tier):
    V = lambda c, o='': c + 'val=volume' + (';opt=' + o if o else '')
    L = [V(c) for c in (VS, VQ, VB, VX, VP, VO, VT, V1, VD, VR, VC, VBc)] + [V(VS, o) for o in ('--compute-vertex-cones=cdd', '--compute-vertex-cones=lrs', '--triangulation=4ti2', '--cone-decompose', '--triangulate')] + [V(c, o) for c in (VO, VP, VBc, VQ) for o in ('--cone-decompose', '--triangulate', '--triangulation=4ti2')]
    L += [VS + 'val=volume;cdd=1;opt=--cdd', 'pts=1,0,0|1,a[1:4],0|1,0,b[1:4];val=volume', 'pts=1,0,0,0|1,a[1:4],1,0|1,1,b[2:4],0|1,0,1,3;val=volume', 'pts=2,a[-3:3],1|3,6,-2|1,-2,-1;val=volume', 'pts=1,a[-3:3]|1,b[-3:3];val=volume', 'rows=0,1,0|0,0,1|b[-1:6],-1,-2;val=volume', 'rows=0,1,0|0,0,1|b[1:5],-1,-2|c[1:5],-3,-1;val=volume', 'rows=b[0:3],1,0|c[1:3],-1,0|d[0:3],0,1|e[1:3],0,-1;val=volume',
      'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:4],-1,0,0|c[1:3],0,-2,0|d[1:2],0,0,-3;val=volume', 'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:4],-1,-1,0|c[1:4],0,-2,-1;val=volume', 'rows=0,1,0,0,0|0,0,1,0,0|0,0,0,1,0|0,0,0,0,1|b[1:4],-1,-1,-2,-3;val=volume', 'rows=a[-2:2],2,1|b[-2:2],-1,1|c[0:3],0,-1;val=volume', 'rows=3,-1,-1,-1|3,1,-1,1|b[1:3],1,1,-1|3,-1,1,1;val=volume', 'rows=1,1,0|b[1:3],-1,0|0,0,1|5,-1,-2|4,1,-2;val=volume']
    if tier == 'thorough': L += [V(c, o) for c in (VD, VR, VX, VC, VB, VT, V1) for o in ('--cone-decompose', '--triangulate', '--triangulation=4ti2')] + ['rows=b[1:4],1,1,1|b,-1,1,1|b,1,-1,1|b,1,1,-1|b,-1,-1,1|b,-1,1,-1|b,1,-1,-1|b,-1,-1,-1;val=volume',
      'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:4],-1,0,0|c[1:4],0,-2,0|d[1:4],0,0,-3;val=volume', 'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:5],-1,-1,0|c[1:5],0,-2,-1;val=volume']
    return [cfg('h_val', c) for c in L + C14_WIDE]
PROPS['C14'] = dict(configs=c14, explain='The integrate driver computes the volume (by cone decomposition and by triangulation) of polytopes with symbolic right-hand sides, vertices or coefficients; every printed and returned volume must equal the exact one.' + VALX,
  bounds='dimension 1 to 5, full-dimensional polytopes (also non-simple ones and images under unimodular maps), right-hand sides in the ranges of each configuration.')

# ---------------------------------------------------------------- C03 .. C06, C17: single cones
def cones(L, reach=None): return [cfg('h_cone', c, **({'reach': [reach]} if reach else {})) for c in L]
OCT4 = 'rays=1,0,0,1|-1,0,0,1|0,1,0,1|0,-1,0,1|0,0,a[1:3],1|0,0,b[-3:-1],1'; SQ3 = 'rays=1,0,1|0,1,1|-1,0,1|0,a[-3:-1],1'; PENT = 'rays=1,0,1|0,1,1|-1,0,1|0,a[-3:-1],1|1,1,b[1:2]'; HEX = 'rays=2,0,1|1,a[1:2],1|-1,1,1|-2,0,1|-1,b[-2:-1],1|1,-1,1'
PRISM = 'rays=0,0,0,1|1,0,0,1|0,1,0,1|0,0,1,1|1,0,a[1:2],1|0,1,b[1:2],1'; CUBE = 'rays=0,0,0,1|1,0,0,1|0,1,0,1|1,1,0,1|0,0,1,1|1,0,1,1|0,1,1,1|1,1,a[1:2],1'
def c03(tier):
    L = []
    for m in ('dual', 'irr', 'all'):
        L += ['what=dec;mode=%s;rays=%s' % (m, r) for r in ('a[-4:4],1|b[-4:4],3;v=1,1;den=2', '1,0|a[-5:5],b[1:5];v=0,1;den=3', 'a[0:2],1,0|0,1,2|1,b[0:3],0;v=1,0,1;den=3', '1,0,0|0,1,0|a[0:2],b[0:2],c[1:4];v=1,2,0;den=5', '1,0,0,0|0,1,0,0|0,0,1,0|1,a[0:1],b[0:2],3;v=1,0,0,1;den=2')]
        L += ['what=dec;mode=%s;maxdet=%d;rays=%s' % (m, k, r) for k in (2, 4) for r in ('a[-4:4],1|b[-4:4],3;v=1,1;den=2', 'a[0:2],1,0|0,1,2|1,b[0:3],0;v=1,0,1;den=3')]
        L += ['what=dec;mode=%s;maxdet=0;rays=a[-4:4],1|b[-4:4],3' % m]
    L += ['what=dec;mode=all;rays=1,2|a[-3:3],3;v=p[-3:3],1;den=4', 'what=dec;mode=irr;rays=1,2|a[-3:3],3;v=p[-3:3],1;den=4', 'what=dec;mode=dual;%s' % SQ3, 'what=dec;mode=dual;%s;tri=4ti2' % PENT, 'what=dec;mode=all;%s;v=1,0,0;den=2' % SQ3]
    if tier == 'thorough': L += ['what=dec;mode=%s;rays=a[-9:9],b[-9:9]|c[1:4],2' % m for m in ('dual', 'irr', 'all')] + ['what=dec;mode=%s;rays=1,0,0|a[0:2],3,1|b[0:3],c[0:3],5;v=1,1,1;den=2' % m for m in ('dual', 'irr', 'all')] + ['what=dec;mode=dual;%s' % OCT4, 'what=dec;mode=all;rays=1,0,0,1|-1,0,0,1|0,1,0,1|0,-1,0,1|0,0,1,1|0,0,b[-2:-1],1']
    return cones(L, 'decomposed')
PROPS['C03'] = dict(configs=c03, explain='The decomposition routines are executed on cones with symbolic rays and apexes; for a symbolic integer point the signed sum of the membership conditions in the returned cones must equal the membership in the original cone (in the polar cones for the dual method; the primal method after a dual triangulation is an identity modulo cones with lines and is checked on simplicial cones), and every returned determinant, facet and sign is compared with its definition.',
  bounds='dimension 2 to 4, simplicial cones and cones with 4 to 5 rays, determinant bounds 0, 1, 2 and 4, ray entries in the ranges of each configuration, test points with coordinates in [-50,50].')
def c04(tier):
    L = ['what=piped;rays=' + r for r in ('a[-3:3],1|1,b[-3:3];v=p[-3:3],1;den=2;g=1,3', 'a[-3:3],b[-2:2]|1,2;v=p[-2:2],1;den=3;g=u[-3:3],1', '1,0,a[-2:2]|0,1,b[-2:2]|1,1,3;v=p[-1:1],1,0;den=2;g=1,2,4', 'a[1:7]|;v=p[-5:5];den=3'.replace('|;', ';'), '1,2|a[-3:3],4;v=p[-4:4],q[-1:1];den=5', '1,0,0|a[0:1],2,0|1,b[0:1],3;v=1,p[-2:2],1;den=2;g=3,1,1', '2,1,0|0,2,1|a[0:1],0,2;v=0,p[-1:1],1;den=3', '1,0,0,0|0,1,0,0|0,1,2,0|1,a[0:1],0,3;v=1,0,p[-1:1],1;den=2;g=1,1,2,3', '1,0|0,1;v=p[-7:7],q[-7:7];den=6', '1,0|a[0:5],6;v=0,p[0:5];den=6', '3,1|a[-1:1],2;v=1000000,p[-1:1];den=7')]
    if tier == 'thorough': L += ['what=piped;rays=' + r for r in ('a[-5:5],b[-5:5]|1,3;v=p[-3:3],1;den=2', '1,0,a[-3:3]|0,1,b[-3:3]|1,1,5;v=p[-2:2],1,0;den=3;g=1,2,4', '2,1,0|0,2,1|a[0:2],b[0:2],3;v=0,p[-2:2],1;den=3')]
    return cones(L, 'enumerated')
PROPS['C04'] = dict(configs=c04, explain='The parallelepiped enumeration runs on simplicial cones with symbolic rays and rational apexes; number, membership (all barycentric coordinates in [0,1)) and distinctness of the points are asserted, and the scalar products computed with a symbolic vector are compared with those of the points.',
  bounds='dimension 1 to 4, index up to about 14, apex denominators up to 7.')
def c05(tier):
    L = ['what=dual;' + r for r in ('rays=a[-2:2],b[-3:3]|c[-2:2],e[-2:2]', 'rays=a[-2:2],1,1|1,c[-1:1],2|0,1,e[-2:2]', 'rays=1,0,0,0|a[-1:1],1,0,0|0,b[-2:2],2,1|1,1,1,c[-2:2]')]
    L += ['what=dual;dual=%s;%s;again=1' % (m, r) for m in ('cdd', '4ti2') for r in (SQ3, PENT, HEX, OCT4, PRISM, 'rays=a[-2:2],b[-2:2],1|1,2,1|-1,0,1|0,-3,1', 'rays=1,0,0|0,1,0|a[1:2],0,1|0,b[1:2],1')]
    L += ['what=dual;dual=%s;rays=%s' % (m, r) for m in ('cdd', '4ti2') for r in ('a[-3:3],2|3,b[-3:3]', '1,0,a[-2:2]|0,1,b[-2:2]|1,1,3')]
    if tier == 'thorough': L += ['what=dual;dual=%s;%s;again=1' % (m, r) for m in ('cdd', '4ti2') for r in (CUBE, 'rays=a[-3:3],b[-3:3],1|1,2,1|-1,0,1|0,-3,1', 'rays=a[-2:2],b[-2:2],1|c[0:2],2,1|-1,0,1|0,-3,1')] + ['what=dual;rays=a[-4:4],b[-4:4]|c[-3:3],e[-3:3]', 'what=dual;rays=a[-2:2],b[-1:1],1|1,c[-2:2],2|0,1,e[-2:2]']
    return cones(L, 'dualized')
PROPS['C05'] = dict(configs=c05, explain='dualizeCone is executed on cones with symbolic rays (also with more rays than the dimension, with cddlib and 4ti2); every facet normal must be primitive and valid, for a symbolic integer point the facet inequalities must hold exactly when the point is in the cone generated by the rays, and dualizing again must return the rays.',
  bounds='dimension 2 to 4, up to 6 rays (8 in the thorough tier), ray entries in the ranges of each configuration, test points with coordinates in [-50,50].')
def c06(tier):
    L = ['what=irr;rays=' + r for r in ('a[-3:3],1|b[-3:3],2;v=p[-4:4],1;den=2', 'a[-3:3],b[-3:3]|1,2;v=p[-3:3],1;den=3', '1,0,a[-2:2]|0,1,b[-2:2]|1,1,3;v=p[-2:2],1,0;den=2', '1,0,0|0,1,0|a[0:2],b[0:2],c[1:4];v=1,p[0:2],1;den=2', '1,0,0,0|0,1,0,0|0,1,2,0|1,a[0:1],b[0:2],3;v=1,0,p[-1:1],1;den=2')] + ['what=irr;rays=1,0,0|0,1,0|0,0,1;v=p[-5:5],q[-5:5],1;den=%d' % d for d in (1, 2, 3, 7)] + ['what=irr;rays=1,0|a[-5:5],7;v=p[-6:6],q[-1:1];den=%d' % d for d in (1, 5)]
    L += ['what=dec;mode=%s;rays=%s' % (m, r) for m in ('irr', 'all') for r in ('1,2|a[-3:3],3;v=p[-3:3],1;den=4', '1,0|a[0:6],7;v=p[-2:2],0;den=3', '1,0,0|0,1,0|a[0:2],b[0:2],c[1:4];v=p[-1:1],2,0;den=5', '2,1,0|0,1,2|1,b[0:3],0;v=p[-1:1],0,1;den=3', '1,0|a[0:6],7;v=p[-2:2],0;den=3;maxdet=2')]
    if tier == 'thorough': L += ['what=irr;rays=a[-5:5],b[-5:5]|c[1:3],2;v=p[-3:3],1;den=3', 'what=dec;mode=all;rays=1,0|a[0:12],13;v=p[-2:2],q[0:1];den=3', 'what=dec;mode=irr;rays=1,0|a[0:12],13;v=p[-2:2],q[0:1];den=3', 'what=dec;mode=all;rays=1,0,0|a[0:2],3,1|b[0:3],c[0:3],5;v=p[-1:1],1,1;den=2']
    return cones(L)
PROPS['C06'] = dict(configs=c06, explain='irrationalizeCone (and the two irrational decompositions) are executed with symbolic rays and apexes: for every facet the integer points on each side must be unchanged (equal floors) and the new apex must lie on no integer translate of a facet hyperplane; after the decomposition no returned facet hyperplane may contain an integer point.',
  bounds='dimension 2 to 4, simplicial cones, apex denominators up to 7, ray entries in the ranges of each configuration.')
def c17(tier):
    L = ['what=tri;tri=%s;%s' % (t, r) for t in ('cddlib', '4ti2', 'delone', 'cdd') for r in (SQ3, PENT, HEX, OCT4, PRISM, 'rays=a[-2:2],b[-2:2],1|1,2,1|-1,0,1|0,-3,1', 'rays=1,0,0|0,1,0|a[1:2],0,1|0,b[1:2],1')]
    L += ['what=tri;tri=%s;%s;rnd=%d;maxh=%d;draws=%d' % (t, r, k, k, n) for t in ('4ti2', 'cddlib') for r, k, n in ((SQ3, 3, 5), (PENT, 2, 7), ('rays=1,0,0,1|-1,0,0,1|0,1,0,1|0,-1,0,1|0,0,a[1:2],1|0,0,-1,1', 2, 6), (SQ3, 1, 6))]
    L += ['what=tri;tri=4ti2;%s;ht=%s' % (SQ3, h) for h in ('h[0:3],2,1,1', 'h[0:3],k[0:3],1,0')] + ['what=tri;tri=4ti2;%s;ht=h[0:2],1,k[0:2],0,0,0' % OCT4, 'what=tri;tri=4ti2;%s;bias=50;rnd=2;draws=5' % SQ3, 'what=tri;tri=4ti2;%s;bias=0' % PENT]
    L += ['what=tri;tri=cdd;%s;rnd=3;draws=5' % SQ3, 'what=tri;tri=cdd;%s;rnd=1;draws=8' % SQ3]
    L += ['what=tri;prog=1;%s' % r for r in (SQ3, PENT, OCT4)] + ['what=tri;prog=%d;%s;opt=--triangulation=%s' % (k, r, m) for k, r, m in ((2, SQ3, 'cddlib'), (2, PENT, '4ti2'), (1, PENT, 'delone'), (2, 'rays=1,0,0|0,1,0|a[1:2],0,1|0,b[1:2],1', '4ti2'))]
    if tier == 'thorough': L += ['what=tri;tri=%s;%s' % (t, r) for t in ('cddlib', '4ti2', 'delone', 'cdd') for r in (CUBE, 'rays=a[-2:2],b[-2:2],1|c[0:1],2,1|-1,0,1|0,-3,1')] + ['what=tri;tri=%s;%s;rnd=3;maxh=3;draws=6' % (t, PENT) for t in ('4ti2', 'cddlib')] + ['what=tri;tri=%s;%s;rnd=2;maxh=2;draws=9' % (t, OCT4) for t in ('4ti2', 'cddlib')]
    return cones(L, 'triangulated')
PROPS['C17'] = dict(configs=c17, explain='Every triangulation method (and the triangulate program, on LattE cone files and cdd files) runs on nonsimplicial cones with symbolic generators and, for the lifting heights, with the draws of the random generator as solver variables; every piece must be simplicial and spanned by given generators, and a symbolic integer point in general position must lie in exactly one piece if it is in the cone and in none otherwise.',
  bounds='dimension 3 and 4, 4 to 6 generators (8 in the thorough tier), up to 8 symbolic random draws with 1 to 3 values each, generator entries in the ranges of each configuration, test points with coordinates in [-50,50].')

# ---------------------------------------------------------------- C18, C24, C25, C27: arithmetic layer
def alg(L): return [cfg('h_alg', c[0] if isinstance(c, tuple) else c, reach=[c[1] if isinstance(c, tuple) else 'checked']) for c in L]
def c18(tier):
    t = tier == 'thorough'; k = 9 if t else 6; N = 'n[-%d:%d]' % (k, k); D = 'd[-%d:%d]' % (k, k); M = 'm[-4:4]'; E = 'e[-3:3]'
    if t: M, E = 'm[-6:6]', 'e[-6:6]'
    L = ['what=rat;a=n[-%d:%d],d[-%d:%d];b=%s;op=make' % (k, k, k, k, b) for b in ('1,1', '-6,4')]
    L += ['what=rat;a=%s,%s;b=%s;op=%s' % (N, d, b, o) for o in ('ring', 'div') for d, b in ((D, '4,-6'), ('4', '%s,%s' % (M, E)), ('d[1:4]', '%s,%s' % (M, 'e[1:3]')))]
    L += ['what=rat;a=n[-3:3],d[-3:3];b=m[-3:3],e[-3:3];op=ring', 'what=rat;a=n[-3:3],d[-3:3];b=m[-3:3],e[-3:3];op=div', 'what=rat;a=n[-9:9],d[-9:9];b=1,1;op=pow', 'what=rat;a=n[-4:4],d[-3:3];b=m[-4:4],e[-3:3];op=cmp', 'what=rat;a=n[-30:30],4;b=m[-9:9],-6;op=cmp']
    L += ['what=vec;n=x[-9:9],y[-9:9],3;d=a[1:6],b[1:6],4;op=scale', 'what=vec;n=x[-9:9],y[-9:9],3;d=a[1:6],b[1:6],4;op=scale;lazy=1', 'what=vec;n=x[-9:9],y[-9:9],4;d=a[1:6],b[1:6],4;op=canon', 'what=vec;n=x[-5:5],y[-5:5],4;d=a[1:4],3,4;op=mult;f=g[-3:3],h[1:3]', 'what=vec;n=x[-9:9],y[-9:9],4;d=a[1:9],b[1:9],4;op=norm', 'what=vec;n=x[-9:9],y[-9:9],4,z[-3:3];d=a[1:6],b[1:6],4,6;op=norm', 'what=vec;n=x[-5:5],y[-5:5],4;d=2,1,4;op=ray;m=u[-3:3],w[-3:3],1;e=1,b[1:3],2', 'what=vec;n=x[-9:9],3;d=a[1:6],1;op=ray;m=1,w[-9:9];e=1,2']
    L += ['what=conv;a=x[-3:3],y[-5:5];shift=%d' % i for i in (0, 30, 31, 32, 40, 63, 64, 65, 100)] + ['what=conv;a=x[-9:9],y[-5:5];shift=3;conc=0']
    if t: L += ['what=vec;n=x[-9:9],y[-9:9],4;d=a[1:9],b[1:9],4;op=mult;f=g[-5:5],h[1:6]', 'what=vec;n=x[-9:9],y[-9:9],3;d=a[1:9],b[1:9],4;op=scale', 'what=vec;n=x[-5:5],y[-5:5],4;d=a[1:4],1,4;op=ray;m=u[-5:5],w[-5:5],1;e=1,b[1:4],2'] + ['what=conv;a=x[-9:9],y[-8:8];shift=%d' % i for i in (7, 15, 16, 33, 62, 96, 127, 128, 200)]
    return alg(L)
PROPS['C18'] = dict(configs=c18, explain='RationalNTL, vec_RationalNTL, rationalVector and the conversion and power routines are executed with symbolic numerators, denominators and entries (constructed, parsed from text and printed, combined, also with themselves); every result must be the exact rational in lowest terms with positive denominator, every scaled vector the exact multiple.',
  bounds='numerators and denominators up to 9 in absolute value (scalar products of the conversions up to 2^100 times that), exponents -3 to 3, vectors of 2 to 4 entries.')
def c24(tier):
    S = 'solved'; A = ','.join('%s[-9:9]' % c for c in 'abcdefg'); P = lambda n: ','.join(A.split(',')[:n])
    L = ['what=interp;coef=%s;x=%s' % (P(n), x) for n, x in ((1, '5'), (2, '0,1'), (3, '0,1,2'), (3, '-4,7,1'), (4, '1,0,-1,2'))]
    L += ['what=interp;coef=%s;x=1,3,7;raw=1;copy=1' % P(3), 'what=interp;coef=%s;x=x[0:5],y[0:5],z[-5:0];symx=1' % P(3), 'what=interp;coef=%s;x=x[0:3],2,y[-2:1];cd=2;xd=2' % P(3), 'what=interp;coef=%s;x=x[-3:3],y[-3:3];symx=1;cd=5;xd=3' % P(2), 'what=interp;coef=%s;x=x[0:3],y[0:3],z[0:3];copy=1' % P(3), 'what=interp;coef=a[-4:4],b[-4:4],3,c[-4:4];x=x[0:1],2,3,-2;cd=3;xd=2', 'what=interp;coef=%s;x=x[0:3],y[0:3],z[0:3],w[0:3]' % P(4), 'what=interp;coef=3,a[-9:9],-2,b[-9:9],1;x=0,1,2,3,4;cd=6']
    if tier == 'thorough': L += ['what=interp;coef=%s;x=x[0:3],y[0:3],3,-2;cd=6;xd=2' % P(4), 'what=interp;coef=%s;x=0,1,2,3,4' % P(5), 'what=interp;coef=%s;x=x[0:4],y[0:4],z[0:4],w[0:4],v[0:4]' % P(5), 'what=interp;coef=%s;x=1,0,-1,2,-2,3' % P(6), 'what=interp;coef=%s;x=x[-3:3],y[-3:3],z[-3:3],w[-3:3];symx=1' % P(4)]
    return alg([(c, S) for c in L])
PROPS['C24'] = dict(configs=c24, explain='PolynomialInterpolation is given the values of a polynomial with symbolic rational coefficients at distinct (partly symbolic) sample points, in every order; the coefficients it returns and the value of its evaluation at a further symbolic point must be exact.',
  bounds='degree 0 to 3 (5 in the thorough tier), coefficients with numerators up to 9 over 1, 5 or 6, sample points up to 7 in absolute value over 1, 2 or 3.')
def c25(tier):
    S = 'computed'
    L = ['what=hermite;m=' + m for m in ('a[-3:3],b[-3:3]|c[-3:3],2', 'a[-3:3],b[-3:3],1|c[-3:3],2,3', '1,b[-3:3],1|c[-3:3],2,3|2,5,a[-4:4]', 'a[-3:3],b[-3:3],1,c[-2:2]|c,2,3,1|0,1,1,d[-3:3]', 'a[-2:2],b[-2:2]|c[-2:2],d[-2:2]|1,2', 'a[-5:5],b[-5:5],c[-5:5]', 'a[-5:5]', '0,a[-3:3],b[-3:3]|0,2,c[-3:3]')]
    L += ['what=smith;m=' + m for m in ('a[-3:3],b[-3:3]|c[-3:3],d[-3:3]', 'a[-9:9],b[-9:9]|2,4', '0,b[-4:4]|c[-4:4],d[-4:4]', 'a[-4:4],2,1|1,2,0|0,c[-3:3],4', 'a[-2:2],b[-2:2],1|1,2,e[-2:2]|0,c[-2:2],4', '2,a[-3:3],0|0,2,b[-3:3]|c[-3:3],0,2', '1,0,a[-4:4],2|b[-4:4],2,0,1|3,1,4,1|0,c[-2:2],1,1', '2,0,0|0,a[1:6],0|0,0,b[1:6]', 'a[1:6],0|0,b[1:6]', '0,a[-2:2],b[-2:2]|0,1,c[-2:2]|1,d[-2:2],0')]
    L += ['what=facets;m=' + m for m in ('a[-4:4],b[-4:4]|c[-4:4],d[-4:4]', 'a[-4:4],b[-4:4],1|1,2,0|0,c[-3:3],4', '1,0,0,a[-2:2]|0,1,b[-2:2],0|0,1,3,c[-2:2]|1,0,0,2')]
    if tier == 'thorough': L += ['what=smith;m=a[-4:4],b[-4:4]|c[-4:4],d[-4:4]', 'what=smith;m=a[-2:2],b[-2:2],f[-1:1]|1,2,e[-2:2]|d[-1:1],c[-2:2],4', 'what=smith;m=a[-6:6],b[-6:6]|c[-6:6],6', 'what=smith;m=a[-2:2],0,0,2|0,b[-2:2],4,0|0,6,c[-3:3],0|1,0,0,d[-2:2]', 'what=hermite;m=a[-3:3],b[-3:3],c[-3:3]|d[-3:3],2,e[-3:3]', 'what=hermite;m=a[-2:2],b[-2:2],1|c[-2:2],2,d[-2:2]|2,5,e[-4:4]']
    return alg([(c, S) for c in L])
PROPS['C25'] = dict(configs=c25, explain='ihermite, SmithNormalForm and the facet matrices are computed for matrices with symbolic entries; unimodularity of the transformations (determinant polynomials), the product equations, shape, divisibility, sign and determinant conditions are asserted.',
  bounds='1 to 4 rows, entries in the ranges of each configuration (up to 9 in absolute value); Smith form and facet matrices for nonsingular square matrices.  The lattice bases used for equations are checked through the counts of C07.')
def c27(tier):
    S = 'computed'; t = tier == 'thorough'
    L = ['what=todd;op=exp;order=%d' % n for n in (0, 1, 2, 6, 9)]
    L += ['what=todd;op=recip;a=' + a for a in ('3,b[-9:9],c[-9:9],d[-9:9];den=6', 'a[-4:4],b[-4:4],c[-4:4]', 'a[-9:9],2,b[-9:9]', 'a[-9:9]', '-1,b[-5:5],c[-5:5],d[-3:3],1;den=2')]
    L += ['what=todd;op=prod;a=' + a for a in ('a[-5:5],b[-5:5],c[-5:5]|d[-5:5],3,f[-3:3];den=2', 'a[-5:5],b[-5:5]|c[-5:5],d[-5:5]|1,g[-5:5]', 'a[-9:9],1,2,b[-9:9]', 'a[-5:5],2,1|b[-5:5],3,-1|c[-5:5],1,1;den=2')]
    L += ['what=todd;op=eval;x=' + x for x in ('a[-9:9]', 'a[-9:9],b[-9:9]', 'a[-5:5],2,-3', '1,a[-4:4],-2,3', '1,-1,a[-4:4],-2,3')]
    L += ['what=todd;op=residue;' + x for x in ('rays=1,0|0,1;p=a[-5:5],b[-5:5];l=2,-3', 'rays=1,0|0,1;p=3,-2;l=x[-5:5],y[-5:5]', 'rays=1,a[-3:3]|0,1;p=2,-3;l=1,y[-5:5];sign=-1', 'rays=1,3|1,2;p=2,p[-4:4];l=1,y[-5:5];sign=-1', 'rays=1,a[-3:3],0|0,1,0|1,2,-1;p=2,p[-5:5],-3;l=1,3,4;sign=-1', 'rays=1;p=p[-5:5];l=x[-5:5]', 'rays=1,0,0,0|0,1,0,a[-2:2]|0,0,1,0|0,0,0,-1;p=1,p[-2:2],3,0;l=1,-2,3,5')]
    L += ['what=tree;' + x for x in ('op=add;a=a[-9:9],e[0:4],1,2|b[-9:9],f[0:3]', 'op=mul;a=a[-9:9],e[0:4],1,2|b[-9:9],f[0:3],c[-3:3],1|3,0,1,1', 'op=exp;a=a[-9:9],e[0:3],b[-4:4],0;k=3', 'op=exp;a=a[-9:9],1,b[-4:4],0,1,2;k=4;deg=4', 'op=div;a=a[-9:9],e[0:3],b[-4:4],0|c[-5:5],0,d[-5:5],1', 'op=div;a=a[-9:9],e[0:3],b[-4:4],0|c[-5:5],0,d[-5:5],1,2,2;deg=4;ten=10', 'op=mul;a=a[-9:9],e[0:3]|b[-9:9],f[0:3];bare=1', 'op=div;a=a[-9:9],2|3,0,d[-5:5],1,2,3;bare=1;deg=5', 'op=add;a=a[-9:9],0,b[-9:9],0|c[-9:9],0;deg=0')]
    if t: L += ['what=todd;op=prod;a=a[-9:9],b[-9:9],c[-9:9]|d[-9:9],e[-9:9],f[-9:9];den=6', 'what=todd;op=eval;x=a[-4:4],b[-4:4],c[-4:4]', 'what=todd;op=residue;rays=1,0|0,1;p=a[-5:5],3;l=x[-5:5],y[-5:5]', 'what=todd;op=residue;rays=1,a[-3:3],0|0,1,0|1,2,-1;p=2,p[-5:5],-3;l=x[-5:5],3,4;sign=-1', 'what=todd;op=exp;order=15', 'what=tree;op=mul;a=a[-9:9],e[0:5],1,2|b[-9:9],f[0:5],c[-3:3],1|3,0,d[-4:4],1|1,0,1,1;deg=5', 'what=tree;op=div;a=a[-9:9],e[0:5],b[-4:4],0|c[-5:5],0,d[-5:5],1,e2[-3:3],2,1,4;deg=5']
    return alg([(c, S) for c in L])
PROPS['C27'] = dict(configs=c27, explain='The Taylor coefficients of the exponential and Todd series, reciprocals, products, Todd polynomial values, the exponential residue of a cone and the expansion of expression trees (sum, product, power, quotient) are computed with symbolic coefficients and arguments and compared with the defining equations (for instance value times the product of (1-exp(x t))/(x t) is 1 up to the order).',
  bounds='orders 0 to 9 (15 in the thorough tier), up to 5 arguments, coefficients and arguments up to 9 in absolute value, residues in dimension 1 to 4 for unimodular cones with nonzero scalar products; quotients of expression trees within the stated power of ten.')

# ---------------------------------------------------------------- C19: polynomials and sums of linear forms
def c19(tier):
    t = tier == 'thorough'; L = []
    MT = ['a[-2:2],1,e[0:2],1|b[-2:2],3,1,f[0:2]|5,2,0,2|c[-1:1],1,1,1', 'a[-3:3],1,e[0:5]|b[-3:3],2,f[0:5]|c[-3:3],1,2', 'a[-2:2],d[1:3],1,e[0:1],0|b[-2:2],1,f[0:1],1,0|c[-2:2],2,1,1,g[0:1]',
      '1,1,e[0:2],0,1|2,1,0,1,f[0:1]|3,1,1,g[0:1],0|a[-9:9],1,0,0,0|5,1,1,1,1', '1,1,2,0,1|2,1,2,e[0:1],0|3,1,2,1,f[0:1]|a[-9:9],1,2,1,2|5,1,2,g[0:2],2', '1,1,0,3|b[-2:2],1,0,3|c[-2:2],1,e[2:3],3|-4,3,4,0|a[-2:2],1,0,f[0:4]',
      'a[-9:9],1,7,0,0,0|b[-9:9],1,e[5:7],0,0,f[0:1]']
    for i, m in enumerate(MT):
        L += [('what=mono;op=print;t=%s;style=%d' % (m, i % 3), 'printed'), ('what=mono;op=dec;t=%s;style=%d%s' % (m, (i + 1) % 3, ';via=insert' if i % 2 else ''), 'rewritten')]
    L += [('what=mono;op=print;via=insert;t=' + m, 'printed') for m in MT[:3]]
    L += [('what=mul;' + m, 'multiplied') for m in ('t=a[-2:2],1,e[0:1],1|b[-2:2],3,1,0|1,1,2,2;u=c[-2:2],2,0,1|3,1,f[0:1],1;min=0,0;max=2,2', 't=a[-2:2],1,e[0:2]|1,1,1;u=c[-2:2],2,f[0:1]|1,1,0;min=0;max=m[0:3]',
      't=a[-2:2],1,-1,0|b[-2:2],1,e[-2:0],1|1,1,0,0;u=c[-2:2],1,f[-1:1],0|1,1,1,1;min=-2,0;max=m[-1:1],2', 't=a[-2:2],1,1,0,0|b[-2:2],1,0,1,0|1,1,0,0,1;u=c[-2:2],1,1,0,0|-1,1,0,e[0:1],0|d[-2:2],1,0,0,1;min=0,0,n[0:1];max=2,1,1')]
    L += [('what=form;' + m, 'read') for m in ('t=a[-2:2],1,1,p[-1:1],1|b[-2:2],3,1,q[-1:1],1|1,2,2,1,1', 't=a[-2:2],1,e[0:3],p[-2:2]|b[-2:2],1,2,q[-2:2];style=1', 't=a[-2:2],c[1:3],2,p[-1:1],0,1|b[-2:2],1,2,0,q[-1:1],r[0:1]|1,1,f[0:2],0,0,1;style=1', 't=a[-2:2],1,14,p[-1:1],1',
      't=1,1,1,2,-1|2,1,1,p[1:3],-1|a[-4:4],1,e[1:2],2,-1|3,1,1,3,q[-2:0]', 't=1,1,1,1,0,0|2,1,1,1,p[-1:1],0|a[-4:4],1,1,1,0,q[-1:1]|3,1,1,1,1,1|b[-1:1],1,2,1,1,r[0:1]')]
    L += [('what=prod;' + m, 'read') for m in ('n=2;t=a[-2:2],1,1,p[-1:1],1,2,1,q[-1:1]|b[-2:2],3,1,1,-1', 'n=1;t=a[-2:2],d[1:2],e[1:3],p[-2:2],f[1:2],q[-2:2],1,1;style=1', 'n=3;t=a[-2:2],1,2,p[-1:1],1,0,e[1:2],1,q[0:1],0,1,0,0,r[-1:1]|1,1,1,1,1,1|b[-1:1],2,2,1,1,1', 'n=2;t=3,2,e[0:2],1,p[0:1],1,1,q[0:1],2,r[0:1],1;style=1')]
    L += [('what=many;a=a[-9:9]', 'many'), ('what=many;a=a[-9:9];n=135;at=128', 'many'), ('what=many;a=a[-9:9];n=64;at=63', 'many'), ('what=many;a=a[-9:9];n=65;at=64', 'many')]
    if t:
        L += [('what=mono;op=%s;t=%s;style=%d' % (o, m, k), r) for o, r in (('print', 'printed'), ('dec', 'rewritten')) for k, m in enumerate(('a[-3:3],d[1:3],e[0:3],g[0:3]|b[-3:3],3,h[0:3],f[0:3]|5,2,0,2|c[-1:1],1,1,1', '1,1,e[0:2],h[0:2],1|2,1,0,1,f[0:1]|3,1,1,g[0:1],0|a[-9:9],1,0,0,0|5,1,1,1,1|b[-9:9],2,i[0:2],1,1', 'a[-3:3],1,e[0:1],f[0:1],g[0:1],h[0:1]|b[-3:3],1,i[0:1],j[0:1],1,k[0:1]|1,1,1,1,1,1'))]
        L += [('what=form;t=a[-2:2],c[1:3],2,p[-2:2],s[-1:1],1|b[-2:2],1,2,0,q[-1:1],r[-1:1]|1,1,f[0:2],0,0,1|2,1,2,1,u[0:1],1', 'read'), ('what=mul;t=a[-2:2],1,e[0:2],g[0:2]|b[-2:2],3,1,0|1,1,2,2;u=c[-2:2],2,h[0:2],1|3,1,f[0:2],1|1,1,0,0;min=0,0;max=m[1:3],2', 'multiplied')]
    return [cfg('h_trie', c, reach=[r]) for c, r in L]
PROPS['C19'] = dict(configs=c19, explain='Polynomials, sums of powers of linear forms and sums of their products with symbolic coefficients and exponents are read from text, inserted, merged, added, multiplied with degree bounds, rewritten as powers of linear forms and printed, by the trie and the block-list code; stored terms must be the merged ones, and every rewriting must have the same value at a symbolic point.',
  bounds='1 to 4 variables, up to 6 symbolic terms (135 terms for the block lists), exponents up to 7 (degree 14 for the factorials), coefficients up to 9 in absolute value.')
# ---------------------------------------------------------------- C16: knapsack quasi-polynomials
def c16(tier):
    t = tier == 'thorough'; L = ['alpha=' + a for a in ('a[1:4],b[1:4],c[1:4]', 'a[1:6],b[1:6]', 'a[1:7],4,6', 'a[1:5],2,3;subsets=0', '6,10,15', '6,10,15,1', '1,2,3,4,6;subsets=0', '1,2,3,4,6;mode=one', '1,2,2,4;drv=2', 'a[2:4],b[2:4],3,c[1:3];drv=1', 'a[1:4],2,b[1:3];drv=1;subsets=0', '1,2,3;drv=2;mode=top',
      '2,4,1;rnd=3;draws=3', '3,4,5;rnd=2;draws=3', 'a[2:4],6,9;seed=7', '1,2,3,4,5,6;mode=top', '2,2,3,3;subsets=0', '4,6,9,10', '1,1,1,1', 'a[1:3],b[1:3],c[1:3],d[1:3];subsets=0', '12,8,a[3:7];drv=1', '5,7,a[1:9];from=1')]
    if t: L += ['alpha=' + a for a in ('a[1:6],b[1:6],c[1:6]', 'a[1:5],b[1:5],c[1:5];subsets=0', 'a[1:4],b[1:4],c[1:4],d[1:4]', '3,4,5;rnd=3;draws=4', '1,2,3;rnd=5;draws=3;subsets=0', '1,2,3,4,5,6', '2,3,4,6,12', '6,10,15,30,1', 'a[1:12],b[1:12]', '6,a[1:6],10,b[1:4];drv=2', '1,2,4,8,3', '2,4,6,3,9;subsets=0', '1,1,2,2,3,3,4;mode=top')]
    r = [cfg('h_knap', 'what=knap;' + c, reach=['computed']) for c in L]
    P = ['a=a[-5:5],6,b[-5:5],4;ops=NF+F*', 'a=a[-5:5],6,b[-5:5],4,c[-3:3],3,1,2;ops=FF*F+2D-N+', 'a=a[-4:4],d[1:5],b[-4:4],4;ops=F3N+c', 'a=1,6,a[-5:5],4,b[-4:4];ops=FN*d', 'a=a[-3:3],5,b[-3:3],6,c[-3:3],4;ops=FNk+F-2', 'a=a[-3:3],b[-3:3],2,3;ops=CCF-*D+0', 'a=1,2,1,3,a[-9:9],d[1:9];ops=FF+k', 'a=a[-5:5],1,b[-5:5],4;ops=NN+F+D*1']
    if t: P += ['a=a[-9:9],10,b[-9:9],6,c[-9:9],15;ops=FF+F*2', 'a=a[-5:5],d[1:6],b[-5:5],e[1:6];ops=FF*N-c', 'a=a[-3:3],4,b[-3:3],6;ops=FD*F+DD*-3']
    return r + [cfg('h_knap', 'what=per;' + c, reach=['evaluated']) for c in P]
PROPS['C16'] = dict(configs=c16, explain='TopKnapsack (and the top-ehrhart-knapsack driver, through its files and options) computes the requested coefficients for symbolic weights; each printed expression is parsed and evaluated at a symbolic right-hand side ranging over one full period (every MOD denominator is shown to divide it, so every t >= 0 is covered) and must equal the coefficient obtained by exact interpolation of the numbers of solutions on that residue class; the random directions drawn are solver variables in some configurations. The arithmetic of step functions is executed on operation sequences with symbolic numbers.',
  bounds='2 to 7 weights, symbolic weights up to 12, periods up to a few hundred; random draws restricted to the first few draws and a few values each.')
# ---------------------------------------------------------------- C22: file names and external programs
def c22(tier):
    t = tier == 'thorough'
    r = [cfg('h_quote', 'what=quote;len=%d' % n, reach=['quoted']) for n in range(0, 11 if t else 8)]
    r += [cfg('h_quote', 'what=status;' + c, reach=['executed']) for c in ('str=0', 'str=1', 'lo=0;hi=8;mul=256', 'str=1;lo=0;hi=8;mul=256')]
    return r + [cfg('h_quote', 'what=temp;' + c, reach=['used', 'refused']) for c in ('early=0', 'early=1;max=6')]
PROPS['C22'] = dict(configs=c22, explain='latte_system.cpp is compiled with a symbolic string class: every character of the argument is a solver variable over all 255 nonzero bytes. The quoted text, put into a command line, is read by a model of the POSIX shell (quotes, escapes, operators, expansions) executed on the same symbolic characters: it must be exactly one word with exactly the given characters. The exit status of the command and of the rename is a solver variable, as are the number of directory names already taken and the kind of failure.',
  bounds='arguments of 0 to 7 (thorough: 10) bytes; exit statuses -1..40 and multiples of 256 up to 2048; up to 6 directory names already taken. The shell model covers one simple command, not a whole script.')
# ---------------------------------------------------------------- C15: what the Maple script for top Ehrhart coefficients is given
PYR = 'rows=b[1:3],1,1,-1|2,1,-1,-1|2,-1,1,-1|2,-1,-1,-1|0,0,0,1;lo=-3,-3,0;hi=3,3,3'
OCTA = 'rows=1,1,1,1|1,1,1,-1|1,1,-1,1|1,1,-1,-1|1,-1,1,1|1,-1,1,-1|1,-1,-1,1|b[1:2],-1,-1,-1;lo=-2,-2,-2;hi=2,2,2'
def c15(tier):
    t = tier == 'thorough'
    L = [TRI.replace('b[0:6]', 'b[1:6]'), TRI.replace('b[0:6]', 'b[1:6]') + ';val=mono;w=a[-3:3],1,e[0:2]|2,0,0;k=2;real=1;dden=2;dils=1,3', PYR + ';dils=1;val=lf;w=a[-3:3],2,1,p[-2:2],1|1,1,1,0,2;k=1;save=x.txt', PYR + ';dils=1,2', PYR + ';dils=1,3;dden=2;opt=--triangulation=cddlib;real=1',
      PYR + ';dils=1;opt=--compute-vertex-cones=lrs', PYR + ';dils=1;opt=--compute-vertex-cones=cdd;val=mono;w=a[-2:2],e[0:1],1,2;cden=4', OCTA + ';dils=1,2;val=mono;w=a[-2:2],1,1,0|1,0,0,2|c[-1:1],0,0,0;cden=3', 'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:5],-1,-1,-2;lo=0,0,0;hi=5,5,3',
      'rows=a[-2:2],1,1|b[-2:2],1,-1|c[0:4],-1,0;lo=-3,-7;hi=5,9;dils=1', 'rows=0,5,-2|0,-3,4|b[1:6],-2,-2;lo=0,0;hi=6,6;dils=1,2,5;dden=3;k=3', 'rows=0,5,-2|0,-3,4|b[1:6],-2,-2;lo=0,0;hi=6,6;cdd=1;opt=--cdd;val=lf;w=1,e[0:3],2,q[-1:1]', 'rows=b[0:5],-1|0,1;lo=0;hi=5;val=lf;w=a[-4:4],3,c[-2:2]',
      'rows=0,1,0|0,0,1|b[1:4],-1,0|c[1:4],0,-1;lo=0,0;hi=4,4;val=mono;w=a[-3:3],1,1|b1[-2:2],2,0|5,0,0;k=-1', 'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:3],-1,0,0|c[1:3],0,-1,0|d[1:3],0,0,-1;lo=0,0,0;hi=3,3,3;dils=1;val=mono;w=a[-2:2],1,1,1|1,0,2,0']
    if t: L += [OCTA + ';dils=1,3;dden=2;opt=--triangulation=' + m for m in ('4ti2', 'cddlib', 'cdd')] + [TRI.replace('b[0:6]', 'b[1:12]').replace('hi=6,3', 'hi=12,6') + ';val=lf;w=a[-5:5],d[0:4],p[-2:2],q[-2:2];k=4',
      'rows=0,1,0,0,0|0,0,1,0,0|0,0,0,1,0|0,0,0,0,1|b[1:3],-1,-1,-1,-1;lo=0,0,0,0;hi=3,3,3,3;dils=1', 'rows=a[-2:2],1,1|b[-2:2],1,-1|c[0:4],-1,0|d[1:4],0,-1;lo=-3,-7;hi=5,9;dils=1,2;opt=--compute-vertex-cones=cdd', PYR + ';dils=1,2,5;dden=3;val=mono;w=a[-3:3],f[0:2],g[0:2],1|b2[-3:3],1,1,1', 'rows=3,1,1,0|3,-1,1,0|3,1,-1,0|b[1:3],-1,-1,0|2,1,0,1|2,-1,0,1|1,0,0,-1;lo=-3,-3,-5;hi=3,3,1;dils=1']
    return [cfg('h_top', c, reach=['written']) for c in L]
PROPS['C15'] = dict(configs=c15, explain='integrate --valuation=top-ehrhart runs on polytopes with symbolic right-hand sides and symbolic weights up to the point where it starts Maple. The script it wrote is parsed: its simplicial cones, each flipped into one common direction as a half-open cone, must cover every lattice point of every checked (also fractional) dilation of the polytope exactly once and every other point of a larger box with total 0; its weights, multiplied out, must be the given polynomial; the requested function, number of coefficients, dilation mode, save file and the command run must be the ones asked for.',
  bounds='dimension 1 to 4, up to 8 facets (simple and non-simple vertices), right-hand sides up to 12, weights up to degree 6, dilations 1/2 to 5/2 and 1 to 3. The Maple script itself (not C++, Maple is not installed) is outside: it is assumed to turn correct cones and weights into correct coefficients.')
# ---------------------------------------------------------------- C28: priority queues, terms of a cone's series
def c28(tier):
    t = tier == 'thorough'; L = []
    for w in ('vec', 'cone', 'int_min', 'int_max', 'dbl_min', 'dbl_max', 'cust'):
        L += ['what=%s;ops=%s' % (w, o) for o in (['?????', 'IIIIIip?p', 'IIIIIIIIipppi', 'iItiptpIip'] + (['??????', 'iiiii?pi', 'IIIIIIi??ppp', 'IIIIIIIIIIIIIIiip?'] if t else []))]
        if w not in ('vec', 'cone'): L += ['what=%s;ops=%s' % (w, o) for o in ['fiiiIwp', 'IifiIIwp', 'iiIxIip'] + (['fiiiiwp?p', 'IIIfiIIiwpip'] if t else [])]
        if w.startswith('int'): L += ['what=%s;ops=%s' % (w, o) for o in ['IIiIcip', 'iIIcpc'] + (['IIIIIicpcp'] if t else [])]
    L += ['what=cone;ops=iIIxIip', 'what=cone;ops=IitIptip']
    r = [cfg('h_heap', c, reach=['drained']) for c in L]
    S = ['rays=1,0|0,1;cost=a[-4:4],b[-4:4];terms=4', 'rays=1,0|1,3;cost=a[-3:3],b[-3:3];terms=3;coef=-1;p=1,-2', 'rays=1,0,0|0,1,0|0,0,1;cost=-2,b[-4:4],c[-3:3];terms=4', 'rays=a[-3:3],1|b[-2:2],-3;cost=2,5;terms=4;p=q[-2:2],1']
    if t: S += ['rays=1,0,0|0,1,0|0,0,1;cost=a[-3:3],b[-4:4],c[-3:3];terms=5', 'rays=1,0|0,1;cost=a[-6:6],b[-6:6];terms=8', 'rays=1,0,0,0|0,1,0,0|0,0,1,0|0,0,0,1;cost=-2,-3,c[-4:4],d[-3:3];terms=4']
    return r + [cfg('h_heap', 'what=series;' + s, reach=['expanded']) for s in S]
PROPS['C28'] = dict(configs=c28, explain='Vector_Heap, ConeInfo_Heap and the generic heap (its source compiled once more with a symbolic weight type in place of int and double) run under operation sequences chosen by the solver, with symbolic weights: every entry returned must be one that is in the queue, with extreme weight, and the queue must drain to empty after exactly the inserted entries.  ConeInfo must list the exponents of the cone series in strictly decreasing order, none skipped, with coefficient and lattice points equal to those of the expansion of the product of geometric series.',
  bounds='up to 6 free operations or 18 given ones (with up to 3 symbolic weights among up to 16 entries), weights in [-9,9]; series in 2 to 4 variables, up to 8 terms after the leading one, nonzero scalar products.')
# ---------------------------------------------------------------- C20: file formats
def c20(tier):
    t = tier == 'thorough'; A = 'rows=a[-3:3],b[-2:2],1|2,-1,c[-4:4]'; B3 = A + '|1,1,1'
    I = [A, B3 + ';eq=2,3', B3 + ';eq=2;extra=nonnegative 2 1 2~', B3 + ';eq=2;linpos=own;extra=nonnegative 1 2~linearity 1 2~', A + ';den=2,3;sep=^;eol= ~~', 'rows=a[-900000000:900000000],b[-5:5],0,1|7,d[-3:3],c[-4:4],0|0,0,1,0|1,1,1,1;eq=1,4;extra=nonnegative 3 3 1 2~',
         B3 + ';eq=1;linpos=own;extra=linearity 1 1~nonnegative 1 1~', A + ';sep=   ;eol=~', 'rows=a[-9:9],1|b[-9:9],-1', B3 + ';eq=1,2,3', B3 + ';eq=3;extra=~~']
    r = [cfg('h_conv', 'what=l2i;' + c, reach=['converted']) for c in I]
    E = ['rows=1,a[-3:3],b[-2:2]|1,2,-1|1,c[-4:4],0', 'rows=1,1,1,1|1,a[-9:9],b[-2:2],0|1,2,-1,5|1,c[-4:4],0,d[-9:9]', 'rows=1,a[-9:9],3|1,0,0;sep=^;eol=^~']
    r += [cfg('h_conv', 'what=l2e;' + c, reach=['converted']) for c in E]
    C = [A + ';den=2,3', A + ';type=integer', A + ';type=integer;eq=2', B3 + ';eq=1,3;den=2,3;head=name~', A + ';den=6,4;head=* comment~name~', 'rows=a[-90000000:90000000],b[-5:5],0,1|7,d[-3:3],c[-4:4],0|0,0,1,0|1,1,1,1;eq=4', B3 + ';eq=1,2,3;den=1,12', 'rows=a[-9:9],1|b[-9:9],-1;den=5']
    r += [cfg('h_conv', 'what=i2l;' + c, reach=['converted']) for c in C]
    K = ['d=2;n=1;r0=a[-9:9],1|2,b[-9:9];v0=c[-5:5],d[-5:5];den=3', 'd=2;n=2;r0=a[-9:9],1|2,b[-9:9];v0=c[-5:5],d[-5:5];den=3,1;r1=1,0|0,-1;f1=0,-1|e[-3:3],0;v1=1,e[-3:3]', 'consumer=1;d=3;n=2;r0=a[-9:9],1,0|2,b[-9:9],1|0,0,1;v0=c[-5:5],d[-5:5],1;r1=1,0,0|0,-1,0;v1=1,e[-3:3],0',
         'd=3;n=3;r0=a[-9:9],1,0|2,b[-9:9],1|0,0,1|1,1,1;v0=c[-5:5],7,1;den=12,1,2;r1=1,0,0|0,-1,0;v1=1,e[-3:3],0;r2=0,0,a;v2=3,1,2', 'd=1;n=2;r0=1;v0=a[-9:9];r1=-1;v1=b[-9:9];den=2,3;f0=-1']
    r += [cfg('h_conv', 'what=cones;' + c, reach=['read-back']) for c in K]
    S = ['rays=1,0|0,1|-1,a[-3:3];n=2', 'rays=1,0|0,1|-1,a[-3:3];n=2;hint=0', 'rays=1,0|0,1|-1,a[-3:3]|2,3;n=2;hint=1', 'rays=1,0,0|0,1,0|0,0,1|a[-2:2],b[-2:2],-1;n=1'] + (['rays=1,0|0,1|-1,a[-3:3];n=3', 'rays=1,0|0,1|-1,a[-3:3]|b[-3:3],5|7,7;n=2;hint=2'] if t else [])
    r += [cfg('h_conv', 'what=sub;' + c, reach=['read-back']) for c in S]
    X = ';lo=0,0;hi=6,3'; T2 = 'rows=0,1,0|0,0,1|b[1:6],-1,-2'; Q = 'rows=0,1,0|0,0,1|b[1:6],-2,-3|2,-1,0'; SQ = 'rows=0,1,0|0,0,1|2,-1,0|b[1:3],0,-1'; P = ';pts=0,0,1|2,0,1|0,b,1|2,b,1'; D3 = 'rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:3],-2,-1,-3;lo=0,0,0;hi=3,3,3'
    Y = ['via=file;rows=b[0:5],-1,-2;plus=1,2;extra=nonnegative 2 1 2~;lo=0,0;hi=5,5', 'via=file;opt=+;rows=b[0:5],-1,-2;plus=1,2;lo=0,0;hi=5,5', 'via=file;opt=+;rows=b[0:5],-1,-2|3,1,0|c[0:2],0,1;plus=1,2;lo=0,0;hi=5,5', 'via=file;opt=+;rows=b[0:4],-1,-2,-1;eq=1;plus=1,2,3;lo=0,0,0;hi=4,4,4',
         'via=file;rows=b[0:5],-1,-2|c[0:2],-1,0;plus=1,2;eq=1;linpos=own;extra=nonnegative 2 1 2~linearity 1 1~;lo=0,0;hi=5,5', 'via=file;rows=b[0:5],-1,-2|c[0:2],-1,0|0,1,0;plus=2;eq=1;extra=nonnegative 1 2~;lo=0,0;hi=5,5',
         'via=file;sep=  ;eol= ~~;' + T2 + X, 'via=file;sep=^;eol=^~;' + T2 + ';eq=3' + X, 'via=cdd;' + T2 + X, 'via=cdd;' + T2 + ';eq=3' + X, 'via=cones;' + T2 + X, 'via=cones;' + Q + X, 'via=cones;' + D3]
    Y += ['via=cones;' + Q + X + ';opt=' + o for o in ('--irrational-primal', '--irrational-all-primal', '--maxdet=5 --exponential')] + ['via=cones;pre=--compute-vertex-cones=%s;' % m + Q + X for m in ('cdd', 'lrs')]
    Y += ['via=homogcones;' + T2 + X, 'via=homogcones;' + Q + X + ';opt=--triangulation=cddlib', 'via=homogcones;' + D3, 'via=dualext;' + T2 + X, 'via=dualext;' + Q + X, 'via=dualext;listfmt=1;' + T2 + X, 'via=dualext;' + T2 + '|2,-1,0' + X + ';opt=--triangulation=4ti2', 'via=dualext;' + D3,
          'via=dualext;' + SQ + X + ';sub=2 4~1 1 1 0~1 0 1 1~', 'via=dualext;listfmt=1;' + SQ + X + ';sub=2 4~0 1 1 1~1 1 0 1~', 'via=primext;rows=0,1,0|0,0,1|2*b[1:3],-1,-2;pts=0,0,1|2*b,0,1|0,b,1' + X, 'via=primext;listfmt=1;rows=0,1,0|0,0,1|2*b[1:3],-1,-2;pts=0,0,1|2*b,0,1|0,b,1' + X, 'via=primext;' + SQ + P + X, 'via=primext;listfmt=1;' + SQ + P + X]
    if t: Y += ['via=dualext;' + SQ + X + ';sub=2 4~1 1 1 0~1 0 1 1~', 'via=cones;rows=a[0:3],1,1|b[0:3],1,-1|c[1:4],-1,0;lo=-3,-7;hi=5,9', 'via=homogcones;rows=a[0:3],1,1|b[0:3],1,-1|c[1:4],-1,0|3,-1,0;lo=-3,-7;hi=5,9', 'via=cones;rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:4],-1,-1,-2|3,-1,-1,0;lo=0,0,0;hi=4,4,4;opt=--exponential', 'via=cdd;rows=0,1,0,0|0,0,1,0|0,0,0,1|b[1:4],-1,-1,-2|c[0:6],-3,-2,-1;eq=4;lo=0,0,0;hi=4,4,4']
    return r + [cfg('h_conv', 'what=style;' + y, reach=['counted']) for y in Y]
PROPS['C20'] = dict(configs=c20, explain='The converters (latte2ine, latte2ext, ConvertCDDineToLatte) run on files with symbolic entries; every row they write must be proportional to the corresponding row read (a positive multiple unless it is an equation), equations and nonnegativity lines included. Cone lists and subcone files with symbolic entries and symbolic indicators are written and read back. The count driver is given the same polyhedron in every style (whitespace, keyword order, nonnegativity line or option +, cdd file, vertex cones, primal and dual homogenized cones in both formats, subcones) and must return the number of integer points of the original.',
  bounds='dimension 1 to 3, up to 4 rows, entries up to 9*10^8, denominators up to 12, up to 3 cones, up to 5 rays; polytopes of positive dimension for the cone inputs, subdivisions in the dual space (a subdivision of the primal cone counts shared faces twice, its documentation restricts it to what holds up to lower-dimensional cones); the linearity line of a cdd file stands before the matrix, as cddlib requires.')

# ---------------------------------------------------------------- C26: generators
def c26(tier):
    t = tier == 'thorough'
    T2 = 'pts=0,0|4,0|0,a[1:6]'; S = 'pts=0,0|4,b[-3:3]|0,a[1:6]|2,1'; SQ = 'pts=1,1|1,-1|-1,a[1:4]|-1,b[-4:-1]'; B3 = 'pts=0,0,0|4,0,0|0,a[1:3],0|0,0,b[1:2]|5,5,5'
    CU = 'pts=1,1,1|1,1,-1|1,-1,1|1,-1,-1|-1,1,1|-1,1,-1|-1,-1,1|-1,-1,a[-3:-1]'; OC = 'pts=1,0,0|-1,0,0|0,a[1:4],0|0,-1,0|0,0,b[1:4]|0,0,-1'; PY = 'pts=1,1,0|1,-1,0|-1,1,0|-1,-1,0|0,0,a[1:5]'
    LD = 'pts=0,0,1|4,0,1|0,a[1:6],1|0,1,1'; LN = 'pts=0,0,c[-3:3]|a[1:4],b[-3:3],1'; Q = 'pts=0,0,0|1,a[0:3],0|0,1,1|1,1,b[0:3]'
    H = [(T2, 'Hhvd', ''), (T2, 'vVdH', ''), (T2, 'dhHVstxyn', ''), (S, 'HVn', ';den=2,3'), (S, 'HVstxyn', ''), (S, 'hvH', ''), (SQ, 'HVhvdstxy', ''), (SQ, 'vhVHn', ';den=2,3'), (B3, 'cHhvdVstxyn', ''), (B3, 'HVn', ';den=5,2,7'), (CU, 'stxyhvHV', ''), (OC, 'txsyvhVH', ''), (PY, 'stxyHVhv', ''), (LD, 'HVnst', ''), (LN, 'HVn', ''), (LN, 'VH', ';den=2,3'), (Q, 'HVstxy', ''), (T2, 'HVhvd', ';name=a~b^c'), (S, 'cVHs', ''), ('pts=a[-5:5],0|b[-5:5],1|0,c[-4:4]', 'HV', '')]
    r = [cfg('h_build', 'what=hull;%s;ops=%s%s' % (p, o, x), reach=['hrep' if 'H' in o else 'vrep']) for p, o, x in H]
    if t: r += [cfg('h_build', 'what=hull;%s;ops=%s%s' % (p, o, x), reach=['hrep' if 'H' in o else 'vrep']) for p, o, x in [(CU, 'HVhvdstxy', ';den=2,3'), (OC, 'vhdVHstxyn', ';den=2,3'), (PY, 'hvHVdst', ';den=3,1,2'), ('pts=0,0|4,b[-3:3]|c[-2:2],a[1:6]|2,1|-3,-1', 'HVstn', ''), ('pts=0,0,0,1|1,0,a[0:3],0|0,1,0,0|0,0,1,1|1,1,1,b[0:2]', 'HVstxyhv', ''), ('pts=a[-4:4],0|b[-4:4],1|0,c[1:5]', 'HVhvd', ''), ('pts=a[-9:9],0|b[-9:9],1|0,c[-9:9]', 'HV', ';den=2,3')]]
    G = ['type=lin;n=a[0:9]', 'type=cir;n=a[0:9];pre=1', 'type=circ;n=a[4:9];m=b[1:4]', 'type=check;n=a[1:4];m=b[1:4]', 'type=kneser;n=a[2:6];m=b[1:3]', 'type=pet', 'type=petfun;n=a[1:3]', 'type=my;n=%d;e=%d' % ((4, 3) if t else (3, 2)), 'type=randC;n=a[2:5];m=b[1:10];seed=3', 'type=randC;n=4;m=5;rnd=4;draws=%d' % (8 if t else 5), 'type=randD;n=a[4:7];m=b[0:8];seed=5', 'type=randD;n=5;m=3;rnd=6;draws=%d' % (6 if t else 4), 'type=randC;n=6;m=15;seed=11',
         'type=lin;n=4;poly=e', 'type=cir;n=a[3:6];poly=se', 'type=check;n=2;m=a[2:4];poly=se', 'type=kneser;n=5;m=2;poly=e', 'type=pet;poly=se', 'type=my;n=3;e=2;poly=e', 'type=randC;n=5;m=7;seed=2;poly=se']
    r += [cfg('h_build', 'what=graph;' + g, reach=['made']) for g in G]
    r += [cfg('h_build', c, reach=['made']) for c in ['what=hyper;n=a[3:6];k=b[1:3]', 'what=hyper;twice=1;n=5;k=a[1:4]', 'what=rpoly;d=a[1:3];deg=b[0:4];m=2;rnd=5;draws=3', 'what=rpoly;d=3;deg=7;m=4;seed=9', 'what=rpts;d=2;n=3;max=a[2:9];rnd=8;draws=%d;scaled=1' % (4 if t else 2), 'what=rpts;d=3;n=4;max=5;rat=1;rnd=5;draws=4;scaled=1', 'what=rpts;d=2;n=3;max=50;pneg=0;seed=7']]
    return r
PROPS['C26'] = dict(configs=c26, explain='The generators run on point sets with symbolic coordinates, on graph sizes that are symbolic and split over their whole range, and on symbolic random draws. Files written for the hull and its dual (after any sequence of requests on the same object) must have exactly the rows the definition gives: the facets and equations of the convex hull, its extreme points, the polar dual about the centre; simple/simplicial answers and vertex counts are compared with the definition. Graphs must have the promised vertices and edges (exact edge sets, degrees, components, strong regularity); edge polytopes, hypersimplices, random polynomials and random points must have the announced shape.',
  bounds='dimension 1 to 4, up to 8 points, coordinates within 9 with denominators up to 7; graphs up to 30 vertices, up to 8 symbolic draws per random graph (later draws are a fixed sequence); duals only of full-dimensional hulls. polymake is absent: a model answers its properties by definition (all subsets of points), so the facet computation itself is not the code under test.')

# ---------------------------------------------------------------- C23: memory safety and termination
def c23(tier):
    t = tier == 'thorough'; r = []; n = 0
    for p in sorted(PROPS):
        if p == 'C23': continue
        for c in PROPS[p]['configs'](tier):
            n += 1
            if t or n % 3 == 1: r.append({k: v for k, v in c.items() if k not in ('reach', 'note')})
    D2 = 'rows=0,1,0|0,0,1|b[0:6],-1,-2;lo=0,0;hi=6,3'
    r += [cfg('h_count', D2 + ';opt=--maxdet=6'), cfg('h_count', 'rows=0,1,0|0,0,1|b[7:12],-3,-4;lo=0,0;hi=4,4;opt=--homog --maxdet=6'), cfg('h_ehr', 'rows=0,1,0|0,0,1|b[7:12],-3,-4;lo=0,0;hi=4,4;what=taylor;T=2;opt=--maxdet=6'), cfg('h_ehr', 'rows=0,1,0|0,0,1|b[1:3],-1,-1;lo=0,0;hi=3,3;what=taylor;T=0'), cfg('h_ehr', 'rows=0,1,0|0,0,1|b[1:3],-1,-1;lo=0,0;hi=3,3;what=taylor;ehrhart=1;T=0')]
    return r
PROPS['C23'] = dict(configs=c23, memory=True, labels=['ends-normally', 'normal-end', 'abnormal-end*'], explain='The harnesses of the other checks run with the code under test, the models and the harness compiled with AddressSanitizer, checked standard containers and pattern-initialised locals. On every path the solver finds feasible (which addresses are used is fixed along a path, so a path stands for all values of its symbolic inputs) the run must reach its end: no out-of-range or freed memory, no double free, no failed assertion, no arithmetic exception, no endless loop. The values computed are not judged here. Counterexamples are replayed on a build of the same code with the same instrumentation against the real libraries.',
  bounds='the configurations of the other checks (every third one in the quick tier, all in the thorough tier), with their bounds; 60 s of processor time per path; memory inside NTL, GMP, cddlib and 4ti2 themselves is not instrumented; leaks are not judged.')
