"""Single-precision instantiations compute the same functions."""
import re, importlib
from fractions import Fraction
from engine.case import *

PROPERTY = 'C24'
LEVEL = 'model_checking'
PRE = '#include "vh_compound.hpp"\n#include "vh_float.hpp"\n'
BOUNDS = 'the cases of C01 to C07, C14, C15 and C20 with every type instantiated for single precision; exact real arithmetic over the single-precision code and its constants; values within the bounds of those checks'
OUTSIDE = 'rounding of single-precision operations (results are compared as real functions); compounds, factors and mapped storage'
ASSUMPTIONS = ['single-precision operations are read as real operations, constants by the value they stand for']
PER_TU = 6
BUDGET = 60
FROM = ('c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c14', 'c15', 'c20')
TYPES = 'RotationM|RotationQ|RotationA|RigidTransformM|RigidTransformQ|RelativeRotation|Translation|Point|Twist'
EIG = r'Eigen::(?:Matrix\dd?|Vector\d|Quaternion|AngleAxis|RowVector\d|MatrixX|VectorX)'
# differences of nearly equal rotations: the branch conditions are rounded sums the encoding cannot separate
SKIP = re.compile(r'^c05_.*(minus|lazy|_eb_).*|^c04_log_exp$|^c06_log(xz)?_T')
SLOW = re.compile(r'^c03_(log_neg|log_inv|exp_log|logpi|exp_logpi|log_exp)|^c04_exp_log|^c06_(log_RM|log_RA|plus_(RA|TQ)|minus)|^c07_log|^c15_.*minus|^c05_plus_RA|^c02_.*_RA|^c20_.*RA')


def conv(s):
    s = re.sub(r'\b(%s)d\b' % TYPES, r'\1f', s)
    s = re.sub(r'\b(Eigen::(?:Matrix\d|Vector\d|RowVector\d|Quaternion|AngleAxis|MatrixX|VectorX))d\b', r'\1f', s)
    s = re.sub(r'\b(Eigen::Matrix<|Scalar<|Eigen::Quaternion<|Eigen::AngleAxis<)double\b', r'\1float', s)
    return s


def cases(tier):
    out = []
    for m in FROM:
        mod = importlib.import_module(m)
        for c in mod.cases('quick'):
            c.name = m + '_' + c.name
            if SKIP.search(c.name) or tier == 'quick' and SLOW.search(c.name):
                continue
            c.body = conv(c.body)
            c.pre = conv(getattr(mod, 'PRE', '')) + conv(c.pre)
            for l in c.leaves:
                l.ctype = 'float' if l.ctype == 'double' else conv(l.ctype)
            c.tol = max(c.tol or 0, 3e-4)
            c.ntol = 1e-4
            c.btol = Fraction(1, 10 ** 5)
            out.append(c)
    return out
