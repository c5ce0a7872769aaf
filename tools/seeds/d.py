A = 'python/aces/clf/'
L = 'python/aces/lutFormats/'
T = 'python/aces/'
SEEDS = [
 dict(id='range-scale-kept', property='C37', edits=[(A+'Range.py', "                scale=(maxOutValue - minOutValue) / (maxInValue - minInValue)\n", "                if not hasattr(self, '_scale'):\n                    self._scale = (maxOutValue - minOutValue) / (maxInValue - minInValue)\n                scale = self._scale\n")],
  needs='a range that is evaluated, given other limits, and evaluated again', breaks='the slope of the first limits is used with the second limits',
  demo='''
import aces.clf as clf
r = clf.Range('16f', '16f', style='noClamp')
def limits(a, b, c, d):
    r.setMinInValue(a); r.setMaxInValue(b); r.setMinOutValue(c); r.setMaxOutValue(d)
limits(0., 1., 0., 1.)
p = clf.ProcessList(); p.addProcess(r)
assert abs(p.process([.5])[0] - .5) < 1e-6
limits(0., 1., 0., 4.)
assert abs(p.process([.5])[0] - 2.) < 1e-6
'''),
 dict(id='csp-prelut-from-zero', property='C38', edits=[(L+'LutCSP.py', "                    value = (float(s)/(lutResolution1dIn-1))*(\n                        inputMax - inputMin) + inputMin\n", "                    value = (float(s)/(lutResolution1dIn-1))*inputMax\n")],
  needs='a CSP LUT with a shaper over a range that does not start at zero', breaks='the shaper of the file starts at zero',
  demo='''
import aces.clf as clf, tempfile, shutil, os
from aces.lutFormats import Registry
d = tempfile.mkdtemp()
try:
    p = clf.ProcessList()
    m = clf.Matrix('16f', '16f'); m.setMatrix([3, 3], [.5, .25, 0., 0., .5, .25, .25, 0., .5]); p.addProcess(m)
    f = os.path.join(d, 'x.csp')
    Registry.write(p, f, '1D_3D_1D', lutResolution1d3d1d=[5, 3, 5], inputMin=-1., inputMax=1., shaperIn=['linear', -1., 1.], shaperOut=[None, 0., 1.])
    q = Registry.read(f)
    for v in ([-1., 0., 1.], [0., 0., 0.], [1., -1., 0.]):
        assert max(abs(a - b) for a, b in zip(p.process(v), q.process(v))) < 1e-4, v
finally:
    shutil.rmtree(d)
'''),
 dict(id='reference-absolute', property='C30', edits=[(A+'ExtensionReference.py', "            fullPath = os.path.join(basePath, path)\n", "            fullPath = os.path.normpath(basePath + '/' + path)\n")],
  needs='an absolute path together with a base path', breaks='the absolute path is looked for below the base path',
  demo='''
import aces.clf as clf, tempfile, shutil, os
d = tempfile.mkdtemp()
try:
    p = clf.ProcessList()
    m = clf.Matrix('32f', '32f'); m.setMatrix([3, 3], [2., 0, 0, 0, 2., 0, 0, 0, 2.]); p.addProcess(m)
    f = os.path.join(d, 'x.xml')
    p.writeFile(f)
    r = clf.Reference('32f', '32f', path=f, basePath='/somewhere')
    q = clf.ProcessList(); q.addProcess(r)
    assert abs(q.process([.25, .25, .25])[0] - .5) < 1e-6
    r = clf.Reference('32f', '32f', path='x.xml', basePath=d)
    q = clf.ProcessList(); q.addProcess(r)
    assert abs(q.process([.25, .25, .25])[0] - .5) < 1e-6
finally:
    shutil.rmtree(d)
'''),
]
SEEDS += [
 dict(id='inverse-shared-curve', property='C39', edits=[(L+'Sampling.py', "    if channels == 3:\n        lutpn.setIndexMaps(indexMaps[0], indexMaps[1], indexMaps[2])\n", "    if channels == 3 and indexMaps[0] != indexMaps[1]:\n        lutpn.setIndexMaps(indexMaps[0], indexMaps[1], indexMaps[2])\n")],
  needs='a three-channel table in which red and green are the same and blue is not', breaks='blue is inverted with the curve of red',
  demo='''
import tempfile, shutil, os
from aces.lutFormats import Registry
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'x.spi1d')
    for blue in (.25, .5):
        with open(f, 'w') as o: o.write('Version 1\\nFrom 0.0 1.0\\nLength 3\\nComponents 3\\n{\\n 0.0 0.0 0.0\\n 0.25 0.25 %f\\n 1.0 1.0 1.0\\n}\\n' % blue)
        p, q = Registry.read(f), Registry.read(f, inverse=True)
        for v in ([0., .5, 1.], [.5, .5, .5], [1., 0., .5]):
            assert max(abs(a - b) for a, b in zip(q.process(p.process(v)), v)) < 1e-5, v
finally:
    shutil.rmtree(d)
'''),
]
SEEDS += [
 dict(id='half-edge-infinity', property='C13', edits=[(A+'Array.py', "                indexMax = 64511\n", "                indexMax = 64512\n")],
  needs='a value just beyond the largest negative half and a table whose entry for minus infinity is infinite', breaks='the lookup of a finite value reads the entry of minus infinity and gives NaN',
  demo='''
import aces.clf as clf
from aces.clf import simpleSampledLUTHalfDomain
l = simpleSampledLUTHalfDomain('a', 'a', 1, lambda x: x)
r = l.process([65510., -65510., -1.])
assert abs(r[0] - 65504.) < 1 and abs(r[1] + 65504.) < 1 and r[2] == -1., r
'''),
]
SEEDS += [
 dict(id='read-table-integers', property='C32', edits=[(A+'LUT1D.py', "            integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))\n            child.setValuesAreIntegers(integers)\n", "            integers = bitDepthIsInteger(self.getAttribute('inBitDepth'))\n            child.setValuesAreIntegers(integers)\n")],
  needs='a 1D LUT with integer input and floating-point output depth that was read from a file', breaks='the table is printed as whole numbers',
  demo='''
import aces.clf as clf, tempfile, shutil, os, sys, io
d = tempfile.mkdtemp()
try:
    l = clf.LUT1D('10i', '16f'); l.setArray(1, [0.125, 0.25, 0.75])
    p = clf.ProcessList(); p.addProcess(l)
    f = os.path.join(d, 'x.clf')
    p.writeFile(f)
    q = clf.ProcessList(f)
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        q.printInfo()
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    assert '0.125' in text and '0.75' in text, text
finally:
    shutil.rmtree(d)
'''),
]
