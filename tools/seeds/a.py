A = 'python/aces/clf/'
SEEDS = [
 dict(id='lut1d-index-map-neighbour', property='C14', edits=[(A+'IndexMap.py', "elif value >= inputValues[-1]:", "elif value >= inputValues[-2]:")],
  needs='an index map whose last segment is sampled strictly inside', breaks='values inside the last segment of an index map are clamped to its end',
  demo='''
from aces.clf.IndexMap import IndexMap
m = IndexMap(3, [[0.0, 0.5, 1.0], [0, 10, 30]])
assert abs(m.process(0.75) - 20.0) < 1e-6, m.process(0.75)
assert abs(m.process(0.25) - 5.0) < 1e-6
'''),
 dict(id='half-domain-negative-below', property='C13', edits=[(A+'Array.py', "halfValue2 = uint16ToHalf(max(indexMin, min(indexMax, halfToUInt16(halfValue1)-offset)))", "halfValue2 = uint16ToHalf(max(indexMin, min(indexMax, halfToUInt16(halfValue1)-abs(offset))))")],
  needs='a negative input between two halves whose nearest half lies towards zero', breaks='interpolates between the wrong pair of halves (extrapolates)',
  demo='''
import aces.clf as clf
n = 65536
vals = [float(i % 2) for i in range(n)]
l = clf.LUT1D('16f', '16f', 'i', 'n', halfDomain=True)
l.setArray(1, vals)
for x in (-0.5001, -0.5002, -0.5003, -3.0011, 0.5001, 0.5003):
    r = l.process(np.array([x, x, x], dtype=np.float32))
    assert 0.0 <= r[0] <= 1.0, (x, r[0])
'''),
 dict(id='cdl-rev-noclamp-luma', property='C05', edits=[(A+'ASCCDL.py', "                for i in range(3):\n                    outSat = luma + (1.0/saturation) * (outValue[i] - luma)\n                    if outSat < 0:", "                for i in range(3):\n                    outSat = luma + (1.0/saturation) * (outValue[i] - luma)\n                    if outSat < 0 or power[i] == 0.5:")],
  needs='reverse no-clamp style with a power of exactly one half', breaks='the power is not undone for that channel',
  demo='''
import aces.clf as clf
def cdl(style):
    c = clf.ASCCDL('16f', '16f', 'i', 'n', style)
    c.setSlope(1.1, 0.9, 1.3); c.setOffset(.01, .02, -.01); c.setPower(1.2, 0.5, 1.5); c.setSaturation(0.7)
    return c
x = np.array([0.2, 0.5, 0.7], dtype=np.float32)
y = cdl('FwdNoClamp').process(x.copy())
z = cdl('RevNoClamp').process(y.copy())
assert np.allclose(x, z, atol=1e-4), (x, z)
'''),
 dict(id='range-out-depth-swap', property='C06', edits=[(A+'Range.py', "maxOutValue = self._valueElements['maxOutValue'] / bitDepthSize(outBitDepth)", "maxOutValue = self._valueElements['maxOutValue'] / bitDepthSize(inBitDepth)")],
  needs='a range whose input and output bit depths differ, with a maximum output limit', breaks='the maximum output limit is read in the code values of the input depth',
  demo='''
import aces.clf as clf
r = clf.Range('8i', '10i', 'i', 'n', 'clamp')
r.setMinInValue(0.0); r.setMaxInValue(255.0); r.setMinOutValue(0.0); r.setMaxOutValue(1023.0)
o = r.process(np.array([0., 127.5, 255.], dtype=np.float32))
assert np.allclose(o, [0., 511.5, 1023.], atol=.01), o
'''),
 dict(id='tetra-tie-branch', property='C12', edits=[(A+'Array.py', "            elif (fx > fz):\n                rgbaBuffer[0] = (", "            elif (fx > fz or fz > 0.999):\n                rgbaBuffer[0] = (")],
  needs='a position just below a blue grid plane with blue fraction larger than red, red larger than green', breaks='the tetrahedron does not match the order of the fractions, a weight becomes negative',
  demo='''
import aces.clf as clf
vals = [0.0]*24
vals[(1*3)+0] = 1.0   # entry r=0 g=0 b=1
l = clf.LUT3D('32f', '32f', 'i', 'n', 'tetrahedral')
l.setArray([2, 2, 2], vals)
x = np.array([0.5, 0.1, 0.9995], dtype=np.float32)
r = l.process(x)
assert abs(r[0] - (0.9995-0.5)) < 1e-4, r
'''),
 dict(id='matrix-offset-only-square', property='C07', edits=[(A+'Matrix.py', "                    outValue[i] += matrix[offset+dimensions[1]-1]", "                    outValue[i] += matrix[offset+3]")],
  needs='a matrix with a row count other than three and an offset column', breaks='a coefficient is added instead of the offset',
  demo='''
import aces.clf as clf
m = clf.Matrix('16f', '16f', 'i', 'n')
m.setMatrix([4, 5], [1, 0, 0, 0, .1, 0, 1, 0, 0, .2, 0, 0, 1, 0, .3, 0, 0, 0, 1, .4])
o = m.process(np.array([.5, .5, .5, .5], dtype=np.float32), 4)
assert np.allclose(o, [.6, .7, .8, .9], atol=1e-5), o
'''),
 dict(id='moncurve-rev-break', property='C08', edits=[(A+'ExtensionGamma.py', "                    pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])\n", "                    pivot = offset[i]/(gamma[i]-1.0)\n")],
  needs='a value between the break point in the input domain and in the output domain', breaks='reverse moncurve uses the input-domain break point',
  demo='''
import aces.clf as clf
def g(style):
    n = clf.Gamma('32f', '32f', 'i', 'n', style)
    n._params = [[2.4, 0.055, None]]
    return n
for x in (0.01, 0.03, 0.05, 0.2, 0.3):
    y = g('moncurveFwd').process(np.array([x]*3, dtype=np.float32))
    z = g('moncurveRev').process(y)
    assert np.allclose(z, x, atol=1e-4), (x, z)
'''),
 dict(id='log-shadow-default', property='C09', edits=[(A+'ExtensionLog.py', "                shadow[channel] = param[4]\n\n        '''\n        print( \"gamma      : %s\" % gamma )", "                shadow[channel if channel < 2 else 0] = param[4]\n\n        '''\n        print( \"gamma      : %s\" % gamma )")],
  needs='per-channel log parameters with different shadows', breaks='the shadow of the blue channel is applied to red',
  demo='''
import aces.clf as clf
n = clf.Log('32f', '32f', 'i', 'n', 'linToLog')
n.setLogParams(0.6, 685., 95., 1.0, 0.0, 'R')
n.setLogParams(0.6, 685., 95., 1.0, 0.05, 'B')
m = clf.Log('32f', '32f', 'i', 'n', 'linToLog')
m.setLogParams(0.6, 685., 95., 1.0, 0.0, 'R')
x = np.array([.3, .3, .3], dtype=np.float32)
a, b = n.process(x.copy()), m.process(x.copy())
assert abs(a[0]-b[0]) < 1e-7 and abs(a[2]-b[2]) > 1e-4, (a, b)
'''),
]
