A = 'python/aces/clf/'
L = 'python/aces/lutFormats/'
T = 'python/aces/'
STUB_OIIO = '''
import types
class Stub(types.ModuleType):
    UINT8, UINT16, HALF, FLOAT, VERSION, Create = 'u8', 'u16', 'half', 'float', 10700, 'create'
oiio = Stub('OpenImageIO')
sys.modules['OpenImageIO'] = oiio
class Attr:
    def __init__(self, name, value): self.name, self.value, self.type = name, value, 'int'
class Spec:
    def __init__(self): self.attributes = {}
    def set_format(self, t): self.format = t
    def attribute(self, name, *a): self.attributes[name] = a[-1]
oiio.ImageSpec = Spec
class Out:
    written = None
    def open(self, path, spec, mode): Out.spec = spec; return True
    def write_image(self, fmt, pixels): Out.written = list(pixels); return True
    def close(self): pass
class ImageOutput:
    @staticmethod
    def create(path): return Out()
oiio.ImageOutput = ImageOutput
class In:
    def __init__(self, s, data): self.s, self.data = s, data
    def spec(self): return self.s
    def read_image(self, t): return self.data
    def close(self): pass
def image(basetype, w, h, ch, data, meta=()):
    s = types.SimpleNamespace(format=types.SimpleNamespace(basetype=basetype), width=w, height=h, nchannels=ch, channelnames=['c'] * ch, extra_attribs=list(meta))
    class ImageInput:
        @staticmethod
        def open(path): return In(s, data)
    oiio.ImageInput = ImageInput
'''
STUB_OCIO = '''
import types
ocio = types.ModuleType('PyOpenColorIO')
class GroupTransform:
    def __init__(self, c): self.c = c
    def getTransforms(self): return self.c
class FileTransform: pass
class MatrixTransform:
    def __init__(self, m, o, d='forward'): self.m, self.o, self.d = m, o, d
    def getMatrix(self): return self.m
    def getOffset(self): return self.o
    def getDirection(self): return self.d
class LogTransform:
    def __init__(self, b, d): self.b, self.d = b, d
    def getBase(self): return self.b
    def getDirection(self): return self.d
for k in (GroupTransform, FileTransform, MatrixTransform, LogTransform): setattr(ocio, k.__name__, k)
sys.modules['PyOpenColorIO'] = ocio
'''
SEEDS = [
 dict(id='dynamic-parameter-first-only', property='C01', edits=[(A+'ProcessNode.py', "        for dparam in self._dynamicParams:\n            DynamicParameterNode", "        for dparam in self._dynamicParams[:1]:\n            DynamicParameterNode")],
  needs='a node with two dynamic parameters', breaks='only the first dynamic parameter is written',
  demo='''
import aces.clf as clf
import xml.etree.ElementTree as etree
n = clf.Range('16f', '16f', 'i', 'n'); n.setDynamicParam('EXPOSURE'); n.setDynamicParam('CONTRAST')
m = clf.Range(); m.read(n.write(etree.Element('x')))
assert m.getDynamicParam('EXPOSURE') and m.getDynamicParam('CONTRAST')
'''),
 dict(id='hex64-single', property='C02', edits=[(A+'Array.py', "            cast = hexToDouble\n            dtype = np.float64", "            cast = hexToDouble\n            dtype = np.float32")],
  needs='the hex64bit encoding with a value that single precision does not hold', breaks='the decoded value is rounded to single precision',
  demo='''
from aces.clf.Array import Array
import xml.etree.ElementTree as etree
v = 1.0 / 3.0
e = etree.Element('Array'); e.set('dim', '1 1'); e.set('floatEncoding', 'hex64bit')
import struct
e.text = struct.pack('>d', v).hex()
b = Array(); b.read(e)
assert float(b.getValues()[0]) == v
'''),
 dict(id='size-12-bit', property='C03', edits=[(A+'ProcessNode.py', "    elif( bitDepth == bitDepths[\"UINT12\"] ):\n        outValue = (pow(2, 12)-1.0)", "    elif( bitDepth == bitDepths[\"UINT12\"] ):\n        outValue = (pow(2, 12)*1.0)")],
  needs='the code value range of the 12 bit depth', breaks='12 bit limits are scaled by 4096 instead of 4095',
  demo='''
import aces.clf as clf
r = clf.Range('12i', '16f', 'i', 'n', 'noClamp')
r.setMinInValue(0.); r.setMaxInValue(4095.); r.setMinOutValue(0.); r.setMaxOutValue(1.)
assert abs(r.process(np.array([4095.0]))[0] - 1.0) < 1e-6
'''),
 dict(id='lut1d-alpha', property='C04', edits=[(A+'LUT1D.py', "            for i in range(min(3, stride)):\n                # Run", "            for i in range(min(4, stride)):\n                # Run")],
  needs='pixels with four channels through a 1D LUT of one table', breaks='alpha is looked up in the LUT',
  demo='''
import aces.clf as clf
l = clf.LUT1D('32f', '32f', 'i', 'n'); l.setArray(1, [0., 1., 4.])
r = l.process(np.array([.5, .5, .5, .5, .5, .5, .5, .25], dtype=np.float32), 4)
assert r[3] == .5 and r[7] == .25, r
'''),
 dict(id='ec-log-pivot', property='C10', edits=[(A+'ExtensionExposureContrast.py', "            self._params[0] = param", "            self._params[0] = [param[0], param[1], max(param[2], 0.0)] if param[2] < 1.0 else [param[0], param[1], 1.0]")],
  needs='a pivot above one, read from a file', breaks='the pivot is limited to one',
  demo='''
import aces.clf as clf
import xml.etree.ElementTree as etree
def ec(s):
    n = clf.ExposureContrast('32f', '32f', 'i', 'n', s); n.setExposureContrastPivot(.5, 1.3, 2.0); return n
n = ec('linear'); m = clf.ExposureContrast(); m.read(n.write(etree.Element('x')))
x = [.3, .2, .6]
assert np.allclose(n.process(np.array(x, dtype=np.float32)), m.process(np.array(x, dtype=np.float32)))
'''),
 dict(id='ec-linear-negative', property='C10', edits=[(A+'ExtensionExposureContrast.py', "pivot*pow(max(0.0,(pow(2.0,exposure)*outValue[i]/pivot)), contrast)", "pivot*pow(max(0.0,(pow(2.0,abs(exposure))*outValue[i]/pivot)), contrast)")],
  needs='a negative exposure in the linear style', breaks='darkens as little as it brightens',
  demo='''
import aces.clf as clf
n = clf.ExposureContrast('32f', '32f', 'i', 'n', 'linear'); n.setExposureContrastPivot(-1.0, 1.0, .18)
assert np.allclose(n.process(np.array([.5, .5, .5], dtype=np.float32)), .25)
'''),
 dict(id='lookup1d-below', property='C11', edits=[(A+'Array.py', "            if index < 0:\n                result = values[0 + channel]", "            if index < -1:\n                result = values[0 + channel]")],
  needs='a three-channel LUT and an input less than one step below zero', breaks='the last entries of the table are blended in',
  demo='''
import aces.clf as clf
l = clf.LUT1D('32f', '32f', 'i', 'n'); l.setArray(3, [0.]*3 + [.5]*3 + [1.]*3)
r = l.process(np.array([-.1, -.2, .5], dtype=np.float32))
assert np.allclose(r, [0., 0., .5]), r
'''),
 dict(id='process-asarray', property='C15', edits=[(A+'ProcessList.py', "result = np.array(values, np.float32)", "result = np.asarray(values, np.float32)")],
  needs='a caller that passes a float32 array', breaks='the array of the caller is overwritten',
  demo='''
import aces.clf as clf
pl = clf.ProcessList(); r = clf.Range('16f', '16f', 'i', 'n'); r.setMinInValue(0.); r.setMaxInValue(1.); r.setMinOutValue(0.); r.setMaxOutValue(.5); pl.addProcess(r)
x = np.array([.2, .4, .6], dtype=np.float32); y = x.copy()
pl.process(x)
assert (x == y).all()
'''),
 dict(id='index-map-shared-values', property='C16', edits=[(A+'IndexMap.py', "        self._values = []\n        self._values.append( map(lambda p: float(p.split('@')[0])", "        if len(self._values) > 2:\n            self._values = []\n        self._values.append( map(lambda p: float(p.split('@')[0])")],
  needs='two index maps read one after the other', breaks='the values of all index maps end up in one shared list',
  demo='''
from aces.clf.IndexMap import IndexMap
import xml.etree.ElementTree as etree
def m(t):
    e = etree.Element('IndexMap'); e.set('dim', '2'); e.text = t
    i = IndexMap(); i.read(e); return i
a = m('0@0 1@1'); b = m('0@0 2@1')
assert list(a.getValues()[0]) == [0., 1.] and list(b.getValues()[0]) == [0., 2.], (a.getValues(), b.getValues())
assert len(a.getValues()) == 2
'''),
 dict(id='bypass-adapter-own-depth', property='C17', edits=[(A+'ProcessList.py', "                    outBitDepth = self._processes[i+1].getInBitDepth()", "                    outBitDepth = processNode.getOutBitDepth()")],
  needs='a bypassed node whose output depth differs from the input depth of the next node', breaks='the values are scaled to the depth of the bypassed node',
  demo='''
import aces.clf as clf
def ident(i, o): return clf.Range(i, o, 'i', 'n', 'noClamp')
pl = clf.ProcessList()
b = ident('8i', '12i'); b.setAttribute('bypass', True)
for n in (ident('8i', '8i'), b, ident('10i', '10i')): pl.addProcess(n)
r = pl.process([255., 255., 255.])
assert np.allclose(r, 1023., atol=.1), r
'''),
 dict(id='cdl-style-gate', property='C18', edits=[(A+'ASCCDL.py', "style in ['v1.2_Fwd', 'noClampFwd', 'v1.2_Rev', 'noClampRev']):", "style in ['v1.2_Fwd', 'noClampFwd', 'v1.2_Rev']):")],
  needs='the noClampRev keyword without the Autodesk features', breaks='an Autodesk keyword is honoured although the features are off',
  demo='''
import aces.clf as clf
from aces.clf import Common
import aces.clf.Common
C = sys.modules.get('Common') or Common
for m in [x for k, x in list(sys.modules.items()) if k.split('.')[-1] == 'Common' and hasattr(x, 'setFeatureCompatibility')]:
    m.setFeatureCompatibility(0)
n = clf.ASCCDL('16f', '16f', 'i', 'n', 'noClampRev')
try:
    n.process(np.array([.1, .2, .3], dtype=np.float32))
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id='strict-unknown-first', property='C19', edits=[(A+'ProcessList.py', "                if strict:\n                    raise Errors.UnknownProcessNodeError(msg)", "                if strict and len(self._processes) > 0:\n                    raise Errors.UnknownProcessNodeError(msg)")],
  needs='an unknown element in front of all process nodes', breaks='strict reading accepts an unknown element',
  demo='''
import aces.clf as clf
import xml.etree.ElementTree as etree
e = etree.fromstring('<ProcessList id="a"><Blur/><Range inBitDepth="16f" outBitDepth="16f"/></ProcessList>')
try:
    clf.ProcessList().read(e, strict=True)
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id='index-map-print', property='C20', edits=[(A+'IndexMap.py', "            for n in (range(3)):\n                print( \" \"*30 + pairs[n] )", "            for n in (range(3)):\n                print( \" \"*30 + pair[n] )")],
  needs='printing an index map of at least fifteen entries', breaks='an undefined name is used',
  demo='''
from aces.clf.IndexMap import IndexMap
IndexMap(20, [[float(i) for i in range(20)], list(range(20))]).printInfo()
'''),
 dict(id='spi1d-components-stride', property='C21', edits=[(L+'LutSPI.py', "entry = '%s %s' % (entry, data[i * channels + j])", "entry = '%s %s' % (entry, data[i * components + j])")],
  needs='fewer components written than the data has channels', breaks='samples of the wrong entry are written',
  demo='''
sys.path.insert(0, os.path.join(os.getcwd(), 'python', 'aces'))
from lutFormats.LutSPI import LutFormatSPI
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'a.spi1d')
    LutFormatSPI.writeSPI1D(p, 0., 1., [0., 0., 0., .5, .5, .5, 1., 1., 1.], 3, 3, 1)
    t = [float(l) for l in open(p).read().split('{')[1].split('}')[0].split()]
    assert t == [0., .5, 1.], t
finally:
    shutil.rmtree(d)
'''),
 dict(id='capabilities-case', property='C22', edits=[(L+'LutFormat.py', "caps = [f[2] for f in cls.formats if f[1].lower() == extension.lower()]", "caps = [f[2] for f in cls.formats if f[1] == extension]")],
  needs='asking for the capabilities of an extension in capital letters', breaks='the format denies what it can do',
  demo='''
sys.path.insert(0, os.path.join(os.getcwd(), 'python', 'aces'))
from lutFormats.LutSPI import LutFormatSPI
assert LutFormatSPI.canRead('SPI1D') and LutFormatSPI.canWrite3D('Spi3D')
'''),
 dict(id='sample3d-blue-grid', property='C23', edits=[(L+'Sampling.py', "                sampleValueB = float(b)/(lutResolution3d[2]-1)*(\n                    inputMax", "                sampleValueB = float(b)/(lutResolution3d[1]-1)*(\n                    inputMax")],
  needs='a 3D resolution that differs in green and blue', breaks='the blue grid has the wrong step',
  demo='''
sys.path.insert(0, os.path.join(os.getcwd(), 'python', 'aces'))
import clf
from lutFormats import Sampling
s = Sampling.sample3D(clf.ProcessList(), [2, 3, 5], 0., 1.)
assert np.allclose(s[1][2][4], 1.0) and np.allclose(s[0][0][1][2], .25), s[0][0]
'''),
 dict(id='inverse-range-and', property='C24', edits=[(L+'Sampling.py', "    if minInputValue != 0.0 or maxInputValue != 1.0:\n        rangepn2", "    if minInputValue != 0.0 and maxInputValue != 1.0:\n        rangepn2")],
  needs='an original range that differs from 0 to 1 at one end only', breaks='the inverse gives values from 0 to 1',
  demo='''
sys.path.insert(0, os.path.join(os.getcwd(), 'python', 'aces'))
import clf
from lutFormats import Sampling
pl = clf.ProcessList()
for n in Sampling.generateLUT1DInverseIndexMap([3, 1], [0., .25, 1.], 0., 4.): pl.addProcess(n)
assert np.allclose(pl.process([.25, .25, .25]), 2.0, atol=1e-3)
'''),
 dict(id='pixel-mode-no-copy', property='C25', edits=[(T+'filterImageWithCLF.py', "    pvalue = processList.process(pvalue, stride=channels)\n\n    # Reset values if output image and CLF output bit depths don't match\n    if OutRange:\n        pvalue = OutRange.process(pvalue, stride=channels)\n\n    #t1", "    pvalue = processList.process(pvalue, stride=min(channels, 4))\n\n    # Reset values if output image and CLF output bit depths don't match\n    if OutRange:\n        pvalue = OutRange.process(pvalue, stride=channels)\n\n    #t1")],
  needs='several threads and an image of more than four channels', breaks='pixels are cut at the wrong places in the multithreaded mode',
  demo=STUB_OIIO + '''
from aces import filterImageWithCLF as f
clf = f.clf
pl = clf.ProcessList(); m = clf.Matrix('32f', '32f', 'i', 'n'); m.setMatrix([3, 3], [0., 1., 0., 0., 0., 1., 1., 0., 0.]); pl.addProcess(m)
px = np.arange(10, dtype=np.float32)
out = np.zeros(10, dtype=np.float32)
f.filterRow_stride(0, 2, 1, 5, px, None, pl, None, out, False)
r = f.filterRow_parallel(0, 2, 1, 5, px, None, pl, None, None, False)
assert np.allclose(out, r), (out, r)
'''),
 dict(id='bits-per-sample-12', property='C26', edits=[(T+'filterImageWithCLF.py', "        clf.bitDepths[\"UINT12\"] : 12,\n", "        clf.bitDepths[\"UINT12\"] : 16,\n")],
  needs='12 bit output', breaks='the file says 16 bits per sample',
  demo=STUB_OIIO + '''
from aces import filterImageWithCLF as f
f.writePixelArray('x.dpx', [1., 2., 3.], '12i', 1, 1, 3, [Attr('oiio:BitsPerSample', 10)], ['r', 'g', 'b'])
assert Out.spec.attributes['oiio:BitsPerSample'] == 12, Out.spec.attributes
'''),
 dict(id='shaper-out-resolution', property='C27', edits=[(T+'convertCLFtoLUT.py', "        shaperOutLutResolution = int(options.lutResolution1d3d1d[0][2])", "        shaperOutLutResolution = int(options.lutResolution1d3d1d[0][0])")],
  needs='a 1D/3D/1D resolution whose first and last values differ', breaks='the output shaper has the resolution of the input shaper',
  demo='''
from aces import convertCLFtoLUT as c
got = []
c.convertCLFtoLUT = lambda *a: got.append(a)
sys.argv = ['x', '-c', 'a.clf', '-l', 'b.clf', '--generate1d3d1d', '--lutResolution1d3d1d', '11', '33', '17']
c.main()
assert list(got[0][6]) == [11, 33, 17], got
'''),
 dict(id='ocio-blue-offset', property='C28', edits=[(T+'convertOCIOtoCLF.py', "            if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):", "            if( offset[0] != 0.0 or offset[1] != 0.0 ):")],
  needs='a matrix with an offset in blue only', breaks='the offset is dropped',
  demo=STUB_OCIO + '''
from aces import convertOCIOtoCLF as c
n = c.convertMatrixToProcessNode([1., 0, 0, 0, 0, 1., 0, 0, 0, 0, 1., 0, 0, 0, 0, 1.], [0., 0., .25, 0.], 'forward')
assert np.allclose(n.process(np.array([.1, .2, .3], dtype=np.float32)), [.1, .2, .55])
'''),
 dict(id='spi-read-close', property='C29', edits=[(L+'LutSPI.py', "    def readSPI3D(lutPath, inverse=False, interpolation='linear'):\n        with open(lutPath) as f:\n            lines = f.read().splitlines()", "    def readSPI3D(lutPath, inverse=False, interpolation='linear'):\n        f = open(lutPath)\n        lines = f.read().splitlines()\n        f.close()")],
  needs='a failure while reading the file', breaks='the file stays open',
  demo='''
sys.path.insert(0, os.path.join(os.getcwd(), 'python', 'aces'))
import builtins
from lutFormats.LutSPI import LutFormatSPI
state = []
class F:
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def read(self): raise IOError('disk')
    def close(self): state.append('closed')
builtins.open, keep = lambda *a: F(), builtins.open
try:
    LutFormatSPI.readSPI3D('a.spi3d')
except IOError:
    pass
builtins.open = keep
assert state, 'not closed'
'''),
 dict(id='self-contained-sticky', property='C30', edits=[(A+'ProcessList.py', "                process.setWriteReferencedNodes(writeSelfContained)", "                process.setWriteReferencedNodes(writeSelfContained or process.getWriteReferencedNodes())")],
  needs='a normal write after a self-contained write of the same process list', breaks='the reference is inlined although that was not asked for',
  demo='''
import aces.clf as clf
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'r.clf')
    inner = clf.ProcessList(); inner.addProcess(clf.Range('16f', '16f', 'i', 'n')); inner.writeFile(p)
    pl = clf.ProcessList(); pl.addProcess(clf.Reference('16f', '16f', 'i', 'n', path=p))
    pl.write(writeSelfContained=True)
    t = pl.write(writeSelfContained=False).getroot()
    assert [c.tag for c in t] == ['Reference'], [c.tag for c in t]
finally:
    shutil.rmtree(d)
'''),
 dict(id='info-dashes', property='C31', edits=[(A+'Info.py', "        elementType = elementType.replace('-', '')\n", "        elementType = elementType.replace('-', '', 0)\n")],
  needs='an Info child written with a dash', breaks='the release information is lost',
  demo='''
import aces.clf as clf
import xml.etree.ElementTree as etree
i = clf.Info(); i.read(etree.fromstring('<Info><App-Release>r1</App-Release></Info>'))
t = i.write(etree.Element('x'))
assert [c.text for c in t] == ['r1'], [c.tag for c in t]
'''),
 dict(id='gamma-print-offset', property='C32', edits=[(A+'ExtensionGamma.py', "                offset[channel] = param[1]\n\n        values = {", "                offset[channel] = param[0]\n\n        values = {")],
  needs='a per-channel gamma with an offset', breaks='the gamma is printed as offset',
  demo='''
import aces.clf as clf, io, contextlib
n = clf.Gamma('16f', '16f', 'i', 'n', 'moncurveFwd'); n.setGamma(2.4, .055, 'G')
o = io.StringIO()
with contextlib.redirect_stdout(o): n.printInfo()
l = [x for x in o.getvalue().split('\\n') if ' offset' in x][0]
assert '0.055' in l, l
'''),
]
