#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = 'include/fastad_bits/reverse/'
C = R + 'core/'
T = R + 'stat/'
U = 'include/fastad_bits/util/'
FW = 'include/fastad_bits/forward/core/'
INP, PRG, HIS, CFG = 'inputs', 'programs', 'histories', 'configurations'

VG = 'gated value-graph dataflow over compiler IR with formal differentiation and normal-form value numbering'
VGM = 'gated value-graph dataflow over compiler IR: memory-region effect analysis'
TY = 'type-level compile-accept / compile-fail witnesses'
LN_V = ('Decides the rule for all operand values at once on every generated client program, at the enumerated shapes; '
        'floating point is abstracted to exact reals, so rounding is out of scope.')

P = []


def add(id, title, statement, over, text, why, files, mech, tech=VG, note=LN_V, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ['value returned by evaluation', 'adjoints of the variables'], hook_needed=None),
                  tech=tech, note=note))


add('P01', 'Elementwise functions evaluate and differentiate exactly',
    'Every elementwise function (negation, trigonometric and inverse trigonometric, exp, log, sqrt, erf, sigmoid, hyperbolic) applied to a scalar, '
    'vector or matrix expression evaluates to that function of each component. Differentiating it adds to every operand component the incoming '
    'seed times the exact derivative there, on the first and on every later evaluation, alone or inside a larger expression.',
    [INP, PRG], 'all operand and seed values in the domain, scalar/vector/matrix operands, leaf or composite operands, repeated evaluation',
    'the tests sample one or two points per function and mostly one shape', [C + 'unary.hpp', U + 'numeric.hpp'],
    [('unary expression node', C + 'unary.hpp'), ('derivative table', C + 'unary.hpp')])
add('P02', 'Binary arithmetic is exact for every mix of shapes and constants',
    'Addition, subtraction, multiplication and division of any two operands of equal shape, or of a scalar with a vector or matrix on either side, '
    'with variables, subexpressions or constants (including integer constants) in either position, evaluate componentwise. The gradient of each operand '
    'is the exact partial derivative, summed over all components for a broadcast scalar, and constants receive none.',
    [INP, PRG], 'all operand and seed values, all admitted shape combinations, constants left or right, nested operands',
    'the tests sample a few points for a few of the shape and constness combinations', [C + 'binary.hpp', C + 'constant.hpp', U + 'type_traits.hpp'],
    [('binary expression node', C + 'binary.hpp'), ('broadcast reduction of seeds', C + 'binary.hpp'), ('constant conversion', U + 'type_traits.hpp')])
add('P03', 'Sums, products and norms evaluate and differentiate exactly',
    'The sum, product and squared norm over the elements of a vector or matrix, and the sum or product of a function over an iterator range, evaluate to the exact reduction for every number of '
    'elements. Every element receives the exact partial derivative, including when one or several factors of a product are zero.',
    [INP, PRG], 'all element values including zeros, sizes from one up, ranges over containers of variables, composed functions',
    'the tests sample one range each, with values drawn away from zero', [C + 'sum.hpp', C + 'prod.hpp', C + 'norm.hpp'],
    [('sum over elements and over ranges', C + 'sum.hpp'), ('product with zero handling', C + 'prod.hpp'), ('squared norm', C + 'norm.hpp')])
add('P04', 'Integer powers evaluate and differentiate exactly for every exponent',
    'Raising any expression to a compile-time integer power, positive, zero or negative, evaluates to the repeated product (or its reciprocal) of each component, '
    'and its gradient is exponent times the next lower power, at every base for which it is defined, including zero and negative bases.',
    [INP, PRG], 'all base values, exponents of either sign and both parities, scalar/vector/matrix',
    'the tests sample a handful of exponents and bases', [C + 'pow.hpp'], [('power node and exponentiation by recursion', C + 'pow.hpp')])
add('P05', 'Matrix products and transposes are exact in value and gradient',
    'The product of a matrix with a vector or matrix, and the transpose of a vector or matrix, evaluate to the mathematical result for every compatible shape. '
    'Each operand, variable, subexpression or constant on either side, receives exactly its share of the derivative and constants receive none.',
    [INP, PRG], 'all operand and seed values; rectangular shapes; constants on either side; chains of products and transposes',
    'the tests sample square or few shapes at one point', [C + 'dot.hpp', C + 'transpose.hpp'],
    [('product node', C + 'dot.hpp'), ('transpose node', C + 'transpose.hpp')])
add('P06', 'Determinant and log-determinant are exact for each decomposition',
    'For an invertible square matrix the determinant, and the logarithm of its absolute value, equal their mathematical definition with every admitted decomposition policy (for the symmetric ones, on symmetric and, where '
    'required, positive definite input). Every entry receives the exact cofactor derivative, whatever the sign of the determinant or of the pivots.',
    [INP, PRG], 'all invertible 1x1 and 2x2 matrices (every pivot order), order three over several zero patterns, leaf or composite operand, constants; singular diagonal matrices among repeated evaluations',
    'the tests sample one matrix per policy', [C + 'det.hpp', C + 'log_det.hpp'],
    [('determinant node and policies', C + 'det.hpp'), ('log-determinant node and policies', C + 'log_det.hpp')],
    note=LN_V + ' Orders 1 and 2 in full; order 3 over selected zero patterns (full symmetric ones in the thorough tier); larger orders exceed the path budget.')
ST = ('scalar or vector data and parameters, each variable, subexpression or constant; values inside and outside the domain; repeated evaluation')


def stat(id, name, f, extra=''):
    add(id, '%s log-density is exact in every combination of argument kinds' % name,
        'The adjusted %s log-density (up to additive constants) of scalar or vector data with scalar or vector%s parameters equals its formula for every combination of variable and constant arguments, '
        'and is minus infinity outside the support or parameter domain.%s Every variable argument receives exactly the partial derivative times the seed, constants receive none, '
        'and later evaluations use the then-current values of the variable arguments.' % (name.lower(), ' or matrix' if name == 'Normal' else '', extra),
        [INP, PRG, HIS], ST, 'the tests sample one point for some of the combinations; the rest of the specialisations are never run', [T + f, U + 'shape_traits.hpp'],
        [('log-density nodes, one specialisation per combination of shapes', T + f)])


stat('P07', 'Normal', 'normal.hpp')
stat('P08', 'Cauchy', 'cauchy.hpp')
stat('P09', 'Uniform', 'uniform.hpp')
stat('P10', 'Bernoulli', 'bernoulli.hpp')
stat('P11', 'Wishart', 'wishart.hpp')
P[-2]['statement'] = ('The Bernoulli log-density of scalar or vector zero-one data with scalar or vector success probability equals its formula, and is minus infinity for data other than zero and one and for impossible data; a probability outside the unit interval counts as the nearer of its ends. '
                      'A variable probability receives exactly the partial derivative times the seed wherever the density is finite, a constant receives none, and later evaluations use the then-current argument values.')
P[-1]['statement'] = ('The Wishart log-density of a symmetric positive definite matrix given a positive definite scale matrix and constant degrees of freedom equals its formula, for every combination of variable and constant matrices. '
                      'Outside that domain it is minus infinity and delivers no gradient; inside it every variable entry receives exactly the partial derivative times the seed, on every evaluation.')
P[-5]['title'] = 'Normal log-density is exact for every mix of argument kinds'
for k, n in ((-4, 'Cauchy'), (-3, 'Uniform'), (-2, 'Bernoulli'), (-1, 'Wishart')):
    P[k]['title'] = '%s log-density is exact for every mix of argument kinds' % n
add('P12', 'Gradients compose: chain rule and accumulation over shared operands',
    'However an expression is nested in others, its value is the composition of the values and every variable receives the sum, over all its occurrences, of the exact chain-rule contributions. '
    'Adjoints are added to what is already there, and repeating the backward pass adds the same contribution again.',
    [INP, PRG], 'every kind of expression used once or twice inside scalar and elementwise parents, with arbitrary initial adjoints and seeds; repeated backward passes',
    'compositions are unbounded and the tests have a few fixed ones', [C + 'var_view.hpp', C + 'binary.hpp', C + 'unary.hpp', C + 'sum.hpp', C + 'eval.hpp'],
    [('adjoint accumulation at leaves', C + 'var_view.hpp'), ('seed propagation in each node', C + 'binary.hpp')])
add('P13', 'Reserved storage is exactly what evaluation uses',
    'The number of value and adjoint cells an expression asks for is exactly the number that binding assigns, and no evaluation or differentiation reads or writes outside them or outside the storage of its variables, constants and seed. '
    'This holds for every kind of expression and nesting, so independently allocated storage is never overrun and sibling subexpressions never share cells.',
    [INP, PRG], 'every expression kind, shape and operand combination, all values and branches',
    'an overrun of a heap block rarely fails a test, and the tests compute with generously sized storage', [C + 'value_adj_view.hpp', C + 'value_view.hpp', C + 'bind.hpp', C + 'eq.hpp', U + 'size_pack.hpp', U + 'ptr_pack.hpp'],
    [('reservation and binding in each node', C + 'value_adj_view.hpp'), ('placeholders take over the storage of their expression', C + 'eq.hpp'), ('allocation', C + 'bind.hpp')],
    tech=VGM, note='Decides bounds of every access on every path of the generated client programs at the enumerated shapes, for all operand values.')
add('P14', 'Evaluation is repeatable: only current operands matter',
    'Evaluating and differentiating an expression after its variables changed gives exactly what a freshly built expression over the new values gives. Nothing is carried over from earlier evaluations, whatever branch, sign or domain they were in.',
    [INP, HIS], 'every expression kind, every pair of consecutive operand values including moves between domain, sign and branch cases',
    'the tests mostly evaluate each expression once', [C + 'eval.hpp', C + 'if_else.hpp', C + 'prod.hpp', T + 'normal.hpp', T + 'uniform.hpp', T + 'wishart.hpp'],
    [('cached intermediate results are recomputed on evaluation', T + 'normal.hpp'), ('constant parts computed once', C + 'constant.hpp')])
add('P15', 'Differentiation leaves operands, constants and the result intact',
    'Evaluating and differentiating an expression that contains no assignment leaves every variable value and every constant it refers to unchanged, and the evaluated result can still be read unchanged after the backward pass. '
    'With assignments, only the assigned variables change.',
    [INP, PRG], 'every expression kind, shape and operand combination', 'the tests look at adjoints and results, seldom at operands afterwards',
    [C + 'var_view.hpp', C + 'constant.hpp', C + 'eq.hpp', C + 'value_view.hpp'], [('leaf access', C + 'var_view.hpp'), ('constant nodes', C + 'constant.hpp'), ('compound assignment restores', C + 'eq.hpp')], tech=VGM)
add('P16', 'Constant subexpressions fold to the same value and take no gradient',
    'An expression of constants only is itself a constant whose value is the same as that of the expression with variables in place of the constants, for every function, operator, reduction and product. '
    'Mixing constants into an expression leaves value and gradients with respect to the variables as they would be with constant-valued variables; a constant that owns its data is independent of the caller.',
    [INP, PRG], 'every operation over owned and viewed constants of each shape, all values', 'few tests build constant-only expressions',
    [C + 'constant.hpp', C + 'unary.hpp', C + 'binary.hpp', C + 'sum.hpp', C + 'prod.hpp', C + 'pow.hpp', C + 'det.hpp', C + 'if_else.hpp'],
    [('folding when operands are constant', C + 'constant.hpp')])
add('P17', 'Placeholders and sequencing equal direct substitution',
    'A comma-separated sequence of assignments to placeholder variables, each assigned once, followed by an expression has the value and gradient obtained by substituting each placeholder by its expression, however often it is used and in whatever shapes. '
    'Statements take effect left to right, and the assigned variable holds the value of its expression after evaluation.',
    [INP, PRG], 'placeholder chains of several statements, scalar/vector/matrix, used several times, composite right-hand sides', 'the tests have a few fixed sequences at one point',
    [C + 'eq.hpp', C + 'glue.hpp'], [('assignment node', C + 'eq.hpp'), ('sequencing node', C + 'glue.hpp')])
add('P18', 'Compound assignment evaluates and differentiates in place',
    'Adding, subtracting, multiplying or dividing a variable in place by an expression evaluates to the updated variable; differentiating delivers the exact derivative with respect to the old value of the variable and to every operand, also when the same variable is updated several times in one sequence. '
    'Differentiation restores the old value so the expression can be evaluated again.',
    [INP, PRG, HIS], 'the four operators, every shape and scalar broadcasting, repeated updates, use inside larger expressions', 'the tests apply each operator once at one point',
    [C + 'eq.hpp'], [('compound assignment node', C + 'eq.hpp')])
add('P19', 'Conditionals evaluate and differentiate only the selected branch',
    'Comparisons and logical combinations of expressions evaluate to the corresponding truth values for all operands including ties. '
    'A conditional expression has the value and gradient of the branch its condition selects at the current operand values; the other branch receives no adjoint and the condition contributes no derivative.',
    [INP, PRG, HIS], 'all operand values on either side of and at the boundary, all comparison and logical operators, branches of every shape, constant conditions or branches, repeated evaluation', 'the tests take each branch once',
    [C + 'if_else.hpp', C + 'binary.hpp', C + 'unary.hpp'], [('conditional node', C + 'if_else.hpp'), ('comparison and logical operators', C + 'binary.hpp')])
add('P20', 'Iterated statements behave like the unrolled sequence',
    'Applying an expression generator over a range has the value and gradient of the sequence of generated expressions executed in order and undone in reverse, for every length, including generators that assign to or update variables declared outside.',
    [INP, PRG], 'ranges of several lengths, generators that read, assign or update variables, use before a final expression', 'the tests have two fixed loops',
    [C + 'for_each.hpp'], [('iteration node', C + 'for_each.hpp')])
add('P21', 'Forward mode propagates exact directional derivatives',
    'Every arithmetic operator, in-place addition and elementary function on forward-mode variables yields the function value and, as tangent, its exact directional derivative along the tangents of the operands, for every composition, including results that alias an operand.',
    [INP, PRG], 'all operand values and tangents, all operators and functions and their pairwise compositions', 'the tests check each operation at one point', [FW + 'forward.hpp', FW + 'dualnum.hpp', 'include/fastad_bits/forward/core.hpp'],
    [('tangent formulas', FW + 'forward.hpp'), ('value and tangent storage', FW + 'dualnum.hpp')], observe=['value and adjoint of the forward variable'])
add('P22', 'Forward and reverse mode agree on every program both can express',
    'For every function written with operations both modes offer, the forward-mode value equals the reverse-mode value and the forward-mode tangent equals the inner product of the reverse-mode gradient with the direction.',
    [INP, PRG], 'all operand values and directions over compositions of every shared operation', 'no test compares the two modes', [FW + 'forward.hpp', C + 'unary.hpp', C + 'binary.hpp'],
    [('forward formulas', FW + 'forward.hpp'), ('reverse formulas', C + 'unary.hpp')])
add('P23', 'Variables own their storage; views and subviews alias it exactly',
    'A variable owns its values and adjoints: copying, moving or assigning yields an independent variable with the same values and adjoints and never leaves any variable referring to the storage of another. '
    'Views, elements, heads, tails and the like refer to exactly the stated cells of the underlying values and adjoints, and resetting adjoints sets exactly those cells to zero.',
    [INP, PRG, HIS], 'copies, moves, assignments, self-assignment and destruction in every order, for each shape; every index and length', 'aliasing mistakes show only when both objects are used afterwards',
    [C + 'var.hpp', C + 'var_view.hpp', C + 'value_adj_view.hpp', C + 'value_view.hpp'], [('rebinding of views on copy', C + 'var.hpp'), ('subviews', C + 'var_view.hpp')])
add('P24', 'Bound expressions stay self-contained when copied, moved or destroyed',
    'A bound expression carries its own working storage: a copy, move or assignment can be evaluated and differentiated after the original was changed or destroyed, and the two never use each other\'s storage. Results and gradients of each are those of the expression itself.',
    [PRG, HIS], 'copy/move construction and assignment, self-assignment, destruction order, interleaved evaluation of copies', 'sharing goes unnoticed as long as the original is alive and idle',
    [C + 'bind.hpp', C + 'eval.hpp'], [('bound expression and its cache', C + 'bind.hpp')], tech=VGM)
add('P25', 'Shapes, constness and value types of expressions follow the algebra',
    'Every admitted combination of operands compiles and yields an expression whose static shape (scalar, vector, matrix), constness and value type follow the algebra of the operation. '
    'Ill-shaped combinations, such as vector with matrix arithmetic, assignments of the wrong shape or missing seeds of non-scalar results, are rejected at compile time.',
    [PRG], 'about a thousand programs covering every operation over every combination of operand kinds, accepted or rejected', 'a template that is never instantiated is never tested, and rejection cannot be tested by running',
    [U + 'type_traits.hpp', U + 'shape_traits.hpp', C + 'expr_base.hpp', C + 'binary.hpp', C + 'constant.hpp'], [('type traits', U + 'type_traits.hpp'), ('shape traits', U + 'shape_traits.hpp')], tech=TY,
    note='The compiler decides each witness program; a program is accepted exactly if the current tree accepts it with the stated static type.', observe=['compiler verdict'])
add('P26', 'Every public header is self-contained and safe in several units',
    'Each public header compiles on its own, twice and in any order, with both installed compilers. Including the library in any number of translation units of one program never produces duplicate symbols.',
    [CFG, PRG], 'every header alone, all together in both orders, two compilers; every function and variable definition', 'each test program is one translation unit with a fixed include order',
    ['include/fastad', 'include/fastad_bits/reverse/core.hpp', 'include/fastad_bits/reverse/stat.hpp', 'include/fastad_bits/forward.hpp'], [('include structure', 'include/fastad'), ('inline and template definitions', C + 'pow.hpp')],
    tech='header-closure compilation and linkage analysis of the emitted symbol table', note='The compilers decide each unit; linkage is read off the emitted module.', observe=['compiler verdict', 'symbol table'])
add('P27', 'The library keeps no mutable state of its own',
    'No object of static or thread storage duration that can change, or that keeps data of the first use it saw, exists in the library, and evaluating or differentiating has no effect beyond the storage of the expression, its variables and its heap allocations. Hence expressions over disjoint variables never influence each other, also across threads.',
    ['schedules', HIS, PRG], 'all declarations and all calls in the library sources, all interleavings of disjoint expressions', 'interference needs particular interleavings or orders of evaluation',
    ['include/fastad_bits'], [('all state lives in nodes, variables and caches', C + 'bind.hpp')], tech='syntax-tree queries over resolved declarations and callees, plus global-write analysis of the IR',
    note='Decides absence of mutable static state and of external effects for every declaration and resolved call; user lambdas are out of scope.', observe=['declarations', 'resolved callees'])
add('P28', 'One-call differentiation equals evaluation followed by backward pass',
    'Differentiating a bound or unbound expression in one call returns the same value and delivers the same adjoints as evaluating it and then running the backward pass, with seed one by default for scalars and the given seed otherwise. Evaluation alone changes no adjoint.',
    [INP, PRG], 'scalar, vector and matrix expressions, lvalue and temporary, default and explicit seeds', 'the tests use one entry point per expression', [C + 'eval.hpp', C + 'bind.hpp'],
    [('entry points', C + 'eval.hpp'), ('binding', C + 'bind.hpp')])
add('P29', 'Results never depend on leftover contents of storage',
    'No value or adjoint that evaluation and differentiation deliver depends on what the working storage, temporaries or unevaluated branches contained before; everything read was written in the same pass or belongs to an operand.',
    [INP, PRG, HIS], 'every expression kind, shape and operand combination, arbitrary prior contents of the storage', 'fresh storage is usually zero in the tests, which hides missing initialisation',
    [C + 'bind.hpp', C + 'value_adj_view.hpp', C + 'sum.hpp', C + 'prod.hpp', C + 'dot.hpp', C + 'eq.hpp'], [('adjoints of intermediate results are written before they are read', C + 'value_adj_view.hpp')], tech='gated value-graph dataflow: definedness (reaching stores) of delivered cells')

add('P30', 'Memory the library allocates is released exactly once',
    'Building, copying, moving, assigning, binding, evaluating and destroying variables and expressions releases every block of memory the library allocated exactly once, on every path, and nothing is read or written after its release. '
    'A copy of an expression or bound expression stays usable after the original is gone.',
    [INP, PRG, HIS], 'every expression kind copied and differentiated after the original died; ownership scenarios of variables and bound expressions; all values and branches',
    'leaks and use after release rarely change a result, and the tests run without a checker', [C + 'var.hpp', C + 'bind.hpp', C + 'constant.hpp', C + 'for_each.hpp', C + 'eval.hpp', T + 'wishart.hpp'],
    [('variables own their storage', C + 'var.hpp'), ('bound expressions own the working storage', C + 'bind.hpp')], tech='ownership (allocation/release typestate) analysis over the gated value graph with heap regions',
    observe=['allocations and releases', 'memory accesses'])
add('P31', 'Operands whose run-time sizes disagree never produce a result',
    'Combining operands of one shape kind whose run-time sizes disagree (elementwise operations, comparisons, assignments, branches, matrix products, densities with in-domain parameters), taking the determinant of a non-square matrix or indexing '
    'outside a vector fails a check. No such use returns a value or writes adjoints, in builds with checks enabled.',
    [INP, PRG], 'every binary, branching, assigning and density operation with disagreeing sizes in each position, all values', 'no test uses ill-sized operands: the process would abort',
    [C + 'binary.hpp', C + 'dot.hpp', C + 'if_else.hpp', C + 'eq.hpp', C + 'det.hpp', C + 'log_det.hpp', C + 'var_view.hpp', T + 'normal.hpp', T + 'cauchy.hpp', T + 'uniform.hpp', T + 'wishart.hpp'],
    [('size checks at construction', C + 'binary.hpp'), ('size checks of products', C + 'dot.hpp')], tech='reachability of normal return in the gated value graph of ill-sized client programs', observe=['normal return'])
add('P32', 'Whole programs of the documented kinds are exact',
    'Programs of the kinds the documentation presents (option pricing with placeholders, quadratic forms, regressions over viewed rows, layered networks with jump connections, glued programs of placeholders, products and sums over ranges, posteriors, '
    'robust losses, normalised exponentials) evaluate to their mathematical definition. They deliver the exact gradient of every parameter, on the first and on later evaluations, inside larger expressions, and whatever the working storage held before.',
    [INP, PRG, HIS], 'about thirty programs that mix all parts of the library; all operand, constant and seed values; repeated evaluation with changed data', 'the tests sample one point of a few such programs',
    [C + 'glue.hpp', C + 'eq.hpp', C + 'dot.hpp', C + 'pow.hpp', C + 'if_else.hpp', C + 'for_each.hpp', T + 'normal.hpp', 'README.md'],
    [('composition of nodes', C + 'expr_base.hpp'), ('placeholders', C + 'eq.hpp')])

NA = [
    ('N01', 'Results are accurate to a few units in the last place',
     'Every value and derivative is within a few units in the last place of the exact one, also near cancellation and at extreme magnitudes.',
     [INP], 'all floating-point operands', 'the tests use loose tolerances at sampled points', [C + 'unary.hpp', C + 'prod.hpp', T + 'normal.hpp'], [('formulas', C + 'unary.hpp')],
     'A bound on rounding over all runtime operands needs numerical error analysis with operand ranges; the value graphs here abstract floating point to real arithmetic, so no static rule in reach decides it.'),
    ('N02', 'Overflow, underflow and NaN propagate as in the plain formula',
     'Where operands are infinite, not-a-number or so large that intermediate results overflow, values and derivatives are those of IEEE evaluation of the plain formula.',
     [INP], 'all floating-point operands including special values', 'the tests use moderate finite operands', [C + 'unary.hpp', C + 'binary.hpp'], [('formulas', C + 'unary.hpp')],
     'Depends on the rounding and special-value behaviour of each runtime operation order, which the real-valued abstraction does not represent.'),
    ('N03', 'Matrix results are exact at every size, including blocked kernels',
     'Products, determinants and densities are exact for matrices of every size, including those where the linear algebra back end switches to blocked or vectorised kernels.',
     [INP, CFG], 'all sizes', 'the tests use sizes up to ten', [C + 'dot.hpp', C + 'det.hpp', T + 'wishart.hpp'], [('products', C + 'dot.hpp')],
     'The value graphs are built per shape; sizes are runtime quantities without a bound, and blocked kernels at large sizes exceed any affordable unrolling. The small shapes are decided under P05, P06, P07 and P11.'),
    ('N04', 'Evaluation time is proportional to the size of the expression',
     'One evaluation and one backward pass visit each subexpression a bounded number of times, so gradient cost is a small multiple of evaluation cost.',
     [INP, PRG], 'all expressions', 'timing is not tested', [C + 'glue.hpp', C + 'eval.hpp'], [('evaluation', C + 'eval.hpp')],
     'A cost claim over runtime quantities; a static visit count is a proxy that behaviour-preserving edits (recomputation) would trip.'),
    ('N05', 'One expression may be evaluated from several threads at once',
     'Concurrent evaluation of the same bound expression, or of expressions that share variables, is free of data races.',
     ['schedules'], 'all interleavings', 'no test uses threads', [C + 'bind.hpp', C + 'var_view.hpp'], [('working storage', C + 'bind.hpp')],
     'Not a guarantee of this library (working storage and adjoints are unsynchronised by design), so there is nothing to hold; independence of disjoint expressions is decided under P27.'),
]


def main():
    import importlib
    extra = os.path.join(HERE, 'tools', 'moreprops.py')
    if os.path.exists(extra):
        exec(compile(open(extra).read(), extra, 'exec'), globals())
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        for id, title, st, over, text, why, files, mech, _ in NA:
            f.write(json.dumps(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))) + '\n')
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[
        dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
             evidence_file='evidence/%s.json' % p['id'], technique='static analysis: ' + p['tech'], level='other', level_note=p['note']) for p in sorted(P, key=lambda p: p['id'])],
        not_applicable=[dict(property=n[0], reason=n[-1]) for n in NA])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    import jsonschema
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        jsonschema.validate(d, sch)
        assert len([x for x in d['statement'].split('. ') if x]) <= 3, d['id']
        for a in d['anchors']['files']:
            assert os.path.exists('/repo/' + a), a
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(P), 'claimed', len(NA), 'not applicable')


main()
