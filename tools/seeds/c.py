A = 'python/aces/clf/'
L = 'python/aces/lutFormats/'
T = 'python/aces/'
SEEDS = [
 dict(id='get-process-last', property='C35', edits=[(A+'ProcessList.py', "        for processNode in self._processes:\n            if processNode.getAttribute('name') == name:", "        for processNode in reversed(self._processes):\n            if processNode.getAttribute('name') == name:")],
  needs='two nodes of one process list with the same name', breaks='the last of them is returned instead of the first',
  demo='''
import aces.clf as clf
p = clf.ProcessList()
a, b = clf.Range(name='same'), clf.Range(name='same')
p.addProcess(a); p.addProcess(b)
assert p.getProcess('same') is a
'''),
 dict(id='attribute-falsy', property='C35', edits=[(A+'ProcessNode.py', "        if name in self._attributes:\n            value = self._attributes[name]\n        else:\n            value = None", "        value = self._attributes.get(name) or None")],
  needs='an attribute whose value is 0, False or an empty text', breaks='it reads as if it had never been set',
  demo='''
import aces.clf as clf
n = clf.LUT1D(rawHalfs=False)
n.setAttribute('level', 0)
assert n.getAttribute('level') == 0 and n.getAttribute('rawHalfs') is False
'''),
 dict(id='out-depth-of-first', property='C35', edits=[(A+'ProcessList.py', "            self._processes[-1].setAttribute('outBitDepth', name)", "            self._processes[len(self._processes)//2].setAttribute('outBitDepth', name)")],
  needs='a list of three or more nodes whose output depth is set on the list', breaks='the depth is set on a node in the middle',
  demo='''
import aces.clf as clf
p = clf.ProcessList()
for i in range(3): p.addProcess(clf.Range('16f', '16f'))
p.setOutBitDepth('10i')
assert p.getOutBitDepth() == '10i' and p[1].getOutBitDepth() == '16f'
'''),
 dict(id='cube-stride', property='C36', edits=[(A+'LUT3D.py', "sampley = float(y)/(resolution[1]-1)", "sampley = float(y)/(resolution[0]-1)")],
  needs='a 3D table that is not cubic', breaks='green is sampled with the step of red',
  demo='''
from aces.clf import simple3DLUT
l = simple3DLUT('i', 'n', [2, 3, 4])
v = l.getLUTValues()
assert len(v) == 72
for x in range(2):
    for y in range(3):
        for z in range(4):
            k = ((x*3 + y)*4 + z)*3
            assert list(v[k:k+3]) == [x/1., y/2., z/3.], (x, y, z)
'''),
 dict(id='half-table-infinity', property='C36', edits=[(A+'LUT1D.py', "        sample = uint16ToHalf(i)\n", "        sample = uint16ToHalf(min(i, 64511))\n")],
  needs='the entry of minus infinity in a half-domain table', breaks='it holds the function at -65504',
  demo='''
from aces.clf import simpleSampledLUTHalfDomain
v = simpleSampledLUTHalfDomain('i', 'n', 1).getLUTValues()
assert len(v) == 65536 and v[64511] == -65504 and np.isinf(v[64512]) and v[64512] < 0
'''),
]
