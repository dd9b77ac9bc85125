"""Writes properties.jsonl (run by hand after editing)."""
import json, os
I = 'include/wave/geometry/src/'
G, C, U, Dn, Es = I + 'geometry/', I + 'core/', I + 'util/', I + 'dynamic/', I + 'estimation/'
P = []


def p(id, title, st, q, why, files, mech, over=('inputs',), obs=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': obs or ['the value returned by evaluation'], 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': list(over), 'text': q}, 'why_tests_cant': why, 'anchors': a})


p('C01', 'Rotation compose, inverse and rotate are those of SO(3)',
  'For matrix, quaternion and angle-axis rotations in any combination, composing two rotations, inverting one, and rotating a vector give exactly the rotation (or vector) that the corresponding matrix product, transpose and matrix-vector product give, and the result is again a valid rotation. This holds for arbitrarily nested expressions mixing the representations.',
  'all unit quaternions, all rotation matrices, all axes and angles (within a stated range of turns), all vectors',
  'tests compare a few random rotations; sign, ordering and half-turn errors in one representation pair show only on particular inputs',
  [G + 'op/Compose.hpp', G + 'op/Inverse.hpp', G + 'op/Rotate.hpp', G + 'leaf/MatrixRotation.hpp', G + 'leaf/QuaternionRotation.hpp', G + 'leaf/AngleAxisRotation.hpp'],
  [('evalImpl(Compose/Inverse/Rotate) per leaf', G + 'leaf/*.hpp')])
p('C02', 'Rigid transform compose, inverse and apply are those of SE(3)',
  'For matrix and compact (quaternion plus vector) rigid transforms in any combination, composing, inverting and applying to a point equal the corresponding products and inverse of 4x4 homogeneous matrices, and the result is again a valid rigid transform. The rotation and translation parts read from a transform are those of its homogeneous matrix.',
  'all orthonormal rotation parts, all translations and points', 'tests sample a few transforms; a wrong translation term may vanish for them',
  [G + 'op/Compose.hpp', G + 'op/Inverse.hpp', G + 'op/Transform.hpp', G + 'leaf/MatrixRigidTransform.hpp', G + 'leaf/CompactRigidTransform.hpp', G + 'base/RigidTransformBase.hpp'],
  [('evalImpl(Compose/Inverse/Transform)', G + 'base/RigidTransformBase.hpp'), ('rotation()/translation()', G + 'base/TransformBase.hpp')])
p('C03', 'Rotation exponential and logarithm are the true maps and mutually inverse',
  'The exponential of any relative rotation vector is the rotation about that vector by its length, including at and near zero; the logarithm of a rotation in any representation is a vector of length below pi whose exponential is that rotation, and log(exp(v)) = v for |v| < pi. Quaternions of either sign give the same logarithm.',
  'all vectors (length bounded by a number of turns), all rotations of angle below the stated fraction of pi', 'the small-angle branches, sign flips and the neighbourhood of pi are missed by random tests',
  [G + 'leaf/RelativeRotation.hpp', G + 'op/ExpMap.hpp', G + 'op/LogMap.hpp', G + 'leaf/MatrixRotation.hpp', G + 'leaf/QuaternionRotation.hpp', G + 'leaf/AngleAxisRotation.hpp'],
  [('evalImpl(ExpMap)', G + 'leaf/RelativeRotation.hpp'), ('evalImpl(LogMap)', G + 'leaf/*Rotation.hpp')])
p('C04', 'Rigid transform exponential and logarithm are the true maps and mutually inverse',
  'The exponential of a twist is the matrix exponential of SE(3), including at and near zero rotation; the logarithm of a rigid transform in either representation is the twist with rotation part shorter than pi whose exponential is that transform, and log(exp(x)) = x whenever the rotation part is shorter than pi.',
  'all twists with bounded rotation part and any translation part; all transforms of rotation angle below the stated fraction of pi', 'the coefficient series and their small-angle branches are wrong only on thin sets of inputs',
  [G + 'leaf/Twist.hpp', G + 'base/RigidTransformBase.hpp', G + 'leaf/MatrixRigidTransform.hpp'],
  [('evalImpl(ExpMap, Twist)', G + 'leaf/Twist.hpp'), ('evalImpl(LogMap, rigid transform)', G + 'base/RigidTransformBase.hpp')])
p('C05', 'Box-plus and box-minus obey the left-perturbation convention',
  'Adding a tangent vector to a rotation or rigid transform is the exponential of that vector composed on the left; subtracting two of them is the logarithm of the first composed with the inverse of the second. Hence (x + d) - x = d within the injectivity radius and y + (x - y) = x, for every representation and mix of representations.',
  'all rotations and transforms, all tangent vectors of bounded length', 'left/right confusion and representation-specific shortcuts agree on commuting or small samples',
  [G + 'op/BoxPlus.hpp', G + 'op/BoxMinus.hpp', G + 'base/AffineBase.hpp', G + 'op/CommonExpressions.hpp'], [('BoxPlus/BoxMinus evalImpl', G + 'op/BoxPlus.hpp, BoxMinus.hpp')])
p('C06', 'Each operation\'s Jacobian is its true local derivative',
  'For every differentiable operation (compose, inverse, rotate, transform, exp, log, box-plus, box-minus, sum, difference, negation, scaling, product, division, representation conversion, part access) the Jacobian returned with respect to each operand equals the derivative of the operation under left perturbations of operand and result, at every point of the operation\'s domain including identity and near-zero inputs.',
  'all operand values in the domain of the operation', 'tests compare with finite differences of limited accuracy at a few random points and never at the singular points of the formulas',
  [G + 'op/', G + 'leaf/', G + 'base/RigidTransformBase.hpp', G + 'base/RotationBase.hpp'], [('leftJacobianImpl/rightJacobianImpl/jacobianImpl', G + 'op/*.hpp')], obs=['evalWithJacobians', 'jacobian(wrt)'])
p('C07', 'All Jacobian evaluation modes return the same derivative',
  'For one expression and one set of inputs, the forward, reverse, typed, dynamic and dynamic-reverse evaluation modes and the per-target jacobian call return the same value and, target by target, the same Jacobian, which is the chain-rule derivative of the whole expression. The returned tuple pairs each Jacobian with the target it was asked for, in the order asked.',
  'all inputs, for a family of expression trees of depth up to 4 mixing all operation kinds', 'agreement on sampled inputs does not exclude branch- or order-dependent disagreement; hidden transposes vanish on symmetric samples',
  [C + 'functions/JacobianEvaluator.hpp', C + 'functions/ReverseJacobianEvaluator.hpp', C + 'functions/TypedJacobianEvaluator.hpp', C + 'functions/DynamicJacobianEvaluator.hpp', C + 'functions/DynamicReverseJacobianEvaluator.hpp'],
  [('evaluators', C + 'functions/*JacobianEvaluator.hpp')], over=('inputs', 'programs'), obs=['evalWithJacobians', 'evalWithJacobians(wrt...)', 'jacobian(wrt)', 'evaluateWith*Jacobians'])
p('C08', 'Jacobians sum over repeated occurrences and vanish for absent variables',
  'When a variable occurs several times in an expression, the Jacobian with respect to it is the sum of the contributions of all occurrences, along every path; a variable that does not occur has a zero Jacobian of the right size wherever the call accepts it as a target. Which variable is meant is decided by object identity, not by equal value or equal type.',
  'all inputs, for expression trees with 0 to 3 occurrences of the target', 'random tests rarely share variables; missed accumulation shows only in those trees',
  [C + 'functions/JacobianEvaluator.hpp', C + 'functions/DynamicJacobianEvaluator.hpp', C + 'functions/DynamicReverseJacobianEvaluator.hpp', C + 'functions/IsSame.hpp'],
  [('isSame / combine steps', C + 'functions/IsSame.hpp')], over=('inputs', 'programs'), obs=['evalWithJacobians(wrt...)', 'jacobian(wrt)'])
p('C09', 'Frames never change numbers and are carried to the result',
  'Evaluating an expression over framed objects gives exactly the same numbers and Jacobians as over the unframed ones, and the result carries the frames that frame algebra prescribes (outer frames after composition, swapped after inverse). Casting frames changes the declared frames only, never the stored value.',
  'all inputs, for each operation with frames', 'a lost or swapped frame or a copied wrong value on the framed path is only seen for the operations and values tested',
  [G + 'frames/Framed.hpp', G + 'frames/frame_cast.hpp', G + 'frames/frame_traits.hpp'], [('Framed', G + 'frames/Framed.hpp'), ('frame_cast', G + 'frames/frame_cast.hpp')], over=('inputs', 'programs'))
p('C10', 'Frame-inconsistent expressions are rejected at compile time',
  'An expression combining framed objects compiles only if the frames match under frame algebra, whichever frames are used; mismatched compositions, sums, transforms and assignments are rejected.',
  'all assignments of frames to operands', 'tests can only show that accepted programs compile', [G + 'op/', G + 'frames/frame_traits.hpp'], [('static_assert on frames', G + 'op/*.hpp')], over=('programs',), obs=['compiler acceptance'])
p('C11', 'Dynamic and proxy expressions mean the same as static ones',
  'Wrapping any expression in a dynamic object or proxy and evaluating it (value or Jacobians) gives what direct evaluation gives. Rebinding a proxy changes what that proxy and expressions built from it afterwards mean, while copies and expressions made before keep the earlier meaning; named objects inside are read when the expression is evaluated; reference proxies track the object referred to.',
  'all inputs, for wrapped expressions of each kind and rebinding histories up to length 3', 'virtual dispatch and ownership bugs depend on the history of rebinding',
  [Dn + 'Dynamic.hpp', Dn + 'DynamicBase.hpp', Dn + 'Proxy.hpp', Dn + 'RefProxy.hpp'], [('Proxy/RefProxy/Dynamic', Dn)], over=('inputs', 'histories'))
p('C12', 'Expressions keep temporaries, refer to named objects, evaluate before writing',
  'An expression stored for later keeps copies of the temporaries it was built from and refers to named objects, so evaluating it after those temporaries are gone is safe and sees the current value of the named objects. Assigning an expression to an object that occurs in it gives the value computed from the old contents.',
  'all inputs and modifications, for expression shapes with every mix of named and temporary operands', 'a dangling reference or aliasing error often yields the right number by luck in optimised test builds',
  [C + 'storage/RefSelector.hpp', C + 'storage/UnaryStorage.hpp', C + 'storage/BinaryStorage.hpp', C + 'storage/NaryStorage.hpp', C + 'storage/LeafStorage.hpp', C + 'functions/PrepareExpr.hpp'],
  [('ref_sel storage choice', C + 'storage/RefSelector.hpp')], over=('inputs', 'histories'))
p('C13', 'Writing through maps and part access changes exactly the addressed coefficients',
  'Leaves over mapped memory read and write exactly the mapped coefficients; assigning to the rotation or translation part of a rigid transform, or to a part of a compound, changes that part to the assigned value and leaves every other coefficient unchanged.',
  'all initial contents and assigned values', 'tests check the written part, seldom every untouched coefficient for arbitrary contents',
  [G + 'base/TransformBase.hpp', G + 'leaf/MatrixRigidTransform.hpp', G + 'leaf/CompactRigidTransform.hpp', C + 'op/MemberAccess.hpp', C + 'storage/LeafStorage.hpp'], [('rotation()/translation() blocks', G + 'base/TransformBase.hpp')])
p('C14', 'Vector, point and scalar arithmetic is real arithmetic',
  'Sum, difference, negation, scaling, scalar product, division, scalar arithmetic and norms of translations, relative rotations, points, twists and scalars equal the componentwise real operations, including mixed expressions with plain numbers.',
  'all real components', 'tests use a handful of vectors', [G + 'op/Sum.hpp', G + 'op/Subtract.hpp', G + 'op/Minus.hpp', G + 'op/Scale.hpp', G + 'op/Product.hpp', G + 'op/Divide.hpp', G + 'base/VectorBase.hpp', G + 'base/ScalarBase.hpp'],
  [('evalImpl of arithmetic ops', G + 'op/*.hpp')])
p('C15', 'Identity and zero are neutral',
  'The identity rotation and transform are neutral for composition, inverse, rotation and logarithm, and zero is neutral for sums and exponentials, when given as the special types and in every position of an expression; assigning them gives exactly the identity or zero value, and Jacobians through them are those of the simplified expression.',
  'all other operands', 'the special-cased overloads are many and tested one by one on samples', [G + 'leaf/Identity.hpp', G + 'leaf/Zero.hpp'], [('Identity/Zero overloads', G + 'leaf/Identity.hpp, Zero.hpp')])
p('C16', 'Structured matrices behave as the dense matrices they stand for',
  'Cross-product matrices and identity-matrix placeholders give, in every supported product, sum, transpose, negation, and conversion to dense form, the result the equivalent dense matrices give, including when accumulated into or multiplied with blocks of other matrices.',
  'all vectors and matrices of the supported sizes', 'special product overloads are exercised only through some operations', [U + 'math/CrossMatrix.hpp', U + 'math/IdentityMatrix.hpp'], [('generic_product_impl specialisations', U + 'math/*.hpp')])
p('C17', 'Approximate comparison agrees with the values',
  'Comparing two objects approximately answers yes for equal values (including two representations or signs of one rotation) and no whenever they differ by clearly more than the precision given, symmetrically in the arguments, and the zero test answers by magnitude.',
  'all pairs of values and precisions in a stated range', 'threshold logic is tested at a few distances only', [G + 'base/AffineBase.hpp', G + 'base/VectorBase.hpp', G + 'base/RotationBase.hpp', G + 'base/ScalarBase.hpp'], [('isApprox/isZero', G + 'base/*.hpp')])
p('C18', 'Noise models and factors compute the whitened residual they document',
  'A noise model built from standard deviations or a covariance has a square-root information matrix whose square is the inverse covariance; a factor\'s residual is that matrix applied to the measurement function minus the measurement, and its Jacobians are taken with respect to its variables in order.',
  'all positive deviations, all positive definite covariances, all variables and measurements', 'tests use fixed numbers', [Es + 'Noise.hpp', Es + 'Factor.hpp', Es + 'impl/Factor_impl.hpp', Es + 'FactorVariable.hpp'], [('FullNoise/DiagonalNoise', Es + 'Noise.hpp'), ('Factor::evaluateRaw', Es + 'impl/Factor_impl.hpp')])
p('C19', 'Compound objects act component by component',
  'Box-plus, box-minus, assignment, part access and evaluation of a compound object equal the same operations on each part, with tangent blocks laid out in declaration order; Jacobians of a compound expression with respect to a variable in its parts are the block arrangement of the parts\' Jacobians.',
  'all values of all parts', 'block offsets are right for the two or three compounds tested', [G + 'base/CompoundBase.hpp', C + 'storage/CompoundLeafStorage.hpp', C + 'storage/NaryStorage.hpp', C + 'op/MemberAccess.hpp'], [('CompoundBase ops', G + 'base/CompoundBase.hpp')])
p('C20', 'Converting between representations keeps the rotation or transform',
  'Constructing or assigning one representation from any other (matrix, quaternion, angle-axis; 4x4 and compact), or from an expression, yields the same rotation or transform in a valid stored form, whatever branch the conversion takes.',
  'all rotations and transforms', 'the matrix-to-quaternion branches and signs are selected by the input', [G + 'leaf/', C + 'op/Convert.hpp', C + 'functions/AddConversions.hpp', C + 'functions/PrepareOutput.hpp'], [('evalImpl(Convert)', G + 'leaf/*.hpp')])
p('C21', 'Random objects are valid members of their group',
  'Objects generated randomly are valid: unit quaternions, unit axes, orthonormal matrices with positive determinant and proper bottom rows, for every outcome of the random source.',
  'all outcomes of the random number source', 'a sample of random objects is not all of them', [G + 'leaf/', G + 'base/'], [('Random()', G + 'leaf/*.hpp')])
p('C22', 'Block and mapped Jacobian containers address disjoint correct blocks',
  'The block-matrix, per-variable Jacobian map and index-sequence helpers give each key or index its own block of the right size and position; reading and writing one block never affects another, and products and sums over blocks equal those of the assembled dense matrix.',
  'all coefficient values and the supported block layouts', 'layout errors hide when blocks have equal size or zero content', [C + 'storage/BlockMatrix.hpp', U + 'math/MatrixMap.hpp', U + 'meta/index_sequence.hpp'], [('BlockMatrix', C + 'storage/BlockMatrix.hpp'), ('MatrixMap', U + 'math/MatrixMap.hpp')])
p('C23', 'Evaluation stays inside valid memory and reads only initialised values',
  'Building, copying, moving, storing and evaluating expressions, proxies and factors, and evaluating Jacobians in every mode, reads and writes only live, in-bounds objects, never reads an indeterminate value, and frees each allocation once.',
  'all inputs, for a family of programs covering each storage kind', 'such errors are silent in optimised builds', [C + 'storage/', Dn, C + 'functions/'], [('storage classes', C + 'storage/')], over=('inputs', 'histories'))
p('C24', 'Single-precision instantiations compute the same functions',
  'Every operation instantiated with single-precision scalars computes the same mathematical function, values and Jacobians, as with double precision, up to rounding, including the small-angle branches.',
  'all inputs', 'the test suite exercises single precision little', [G + 'leaf/', G + 'op/'], [('Scalar-generic evalImpl', G + 'leaf/*.hpp')])
p('C25', 'Evaluation is repeatable and has no side effects',
  'Evaluating an expression, asking for its Jacobians or comparing it changes neither its operands nor the expression, and evaluating it again, or interleaving other evaluations, gives the same result bit for bit.',
  'all inputs and evaluation orders up to three calls', 'tests evaluate once', [C + 'functions/Evaluator.hpp', C + 'functions/JacobianEvaluator.hpp', C + 'functions/PrepareExpr.hpp'], [('Evaluator', C + 'functions/Evaluator.hpp')], over=('inputs', 'histories'))

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    na = {'C10': 'acceptance of a program is decided by the C++ type checker during template instantiation; there is no run-time code to execute symbolically, and probing the compiler program by program is enumeration, not solver-based checking'}
    with open(root + '/properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    ck, nal = [], []
    for x in P:
        i = x['id']
        if os.path.exists('%s/checks/%s.py' % (root, i.lower())) and i not in na:
            ck.append({'property': i, 'quick_cmd': 'python3-vt run.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt run.py %s --tier thorough' % i,
                       'technique': 'symbolic execution of the compiled LLVM IR of the library, obligations decided by Z3 (nonlinear real arithmetic after certified rewriting)',
                       'level': 'model_checking', 'level_note': 'all real-number inputs within the stated ranges on every path; floating-point rounding is outside; loops and expression shapes are bounded by the listed harnesses'})
        else:
            nal.append({'property': i, 'reason': na.get(i, 'no check has been built for it')})
    m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q engine checks || true', 'checks': ck, 'not_applicable': nal,
         'notes': 'Each check compiles its harnesses against /repo/include in a temporary folder, symbolically executes them and queries Z3; see DESIGN.md.'}
    json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
