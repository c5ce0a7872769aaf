"""A node whose effect identifies it: x -> scale*x + shift + stride*step (read by the analysis only, never executed)."""
import numpy as np
import clf


class Probe(clf.ProcessNode):
    def __init__(self, inBitDepth, outBitDepth, scale, shift, step):
        clf.ProcessNode.__init__(self, 'Probe', inBitDepth, outBitDepth, 'probe', 'probe')
        self.scale = scale
        self.shift = shift
        self.step = step

    def process(self, values, stride=0, verbose=False):
        out = np.zeros(len(values), dtype=np.float32)
        for i in range(len(values)):
            out[i] = values[i] * self.scale + self.shift + stride * self.step
        return out
