PROPERTY = "C28"
EDITS = [("gdal/sicd_sensor_model_builder.py", '''    coefficients = [0] * (poly1d.order1 + 1)
    for coef in poly1d.coef:
        coefficients[coef.exponent1] = coef.value
    return np.polynomial.Polynomial(coefficients)
''', '''    coefficients = [coef.value for coef in sorted(poly1d.coef, key=lambda coef: coef.exponent1)]
    return np.polynomial.Polynomial(coefficients)
''')]
NEEDS = "a document that leaves out zero coefficients of a polynomial"
BREAKS = "the coefficients after the one left out move to lower exponents"
DEMO = '''
import numpy as np

import aws.osml.formats.sicd.models.sicd_v1_2_1 as s
from aws.osml.gdal.sicd_sensor_model_builder import poly1d_to_native

def poly(d, n):
    return s.Poly1DType(coef=[s.PolyCoef1DType(value=v, exponent1=k) for k, v in d.items()], order1=n)

assert np.allclose(poly1d_to_native(poly({0: 1.0, 1: 2.0, 2: 3.0}, 2))(2.0), 17.0)
assert np.allclose(poly1d_to_native(poly({0: 1.0, 2: 3.0}, 2))(2.0), 13.0)
assert np.allclose(poly1d_to_native(poly({3: 1.0}, 3))(2.0), 8.0)
'''
