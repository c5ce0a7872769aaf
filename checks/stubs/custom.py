"""User-defined elements (read by the analysis only, never executed)."""
import clf
import clf.Comment


class Custom(clf.ProcessNode):
    def __init__(self, inBitDepth='16f', outBitDepth='16f', id='', name=''):
        clf.ProcessNode.__init__(self, 'Custom', inBitDepth, outBitDepth, id, name)


class CustomMatrix(clf.Matrix):
    def __init__(self, inBitDepth='16f', outBitDepth='16f', id='', name=''):
        clf.Matrix.__init__(self, inBitDepth, outBitDepth, id, name)
        self._nodeType = 'CustomMatrix'


class Note(clf.Comment.Comment):
    def __init__(self, comment=''):
        clf.Comment.Comment.__init__(self, comment, 'Note')
