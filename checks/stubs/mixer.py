"""A transform that mixes its channels (read by the analysis only, never executed)."""
import numpy as np
import clf


class Mixer(clf.ProcessNode):
    def __init__(self, coef):
        clf.ProcessNode.__init__(self, 'Mixer', '32f', '32f', 'mixer', 'mixer')
        self.coef = coef

    def process(self, values, stride=0, verbose=False):
        if not stride:
            stride = len(values)
        out = np.zeros(len(values), dtype=np.float32)
        for p in range(len(values) // stride):
            b = p * stride
            for c in range(3):
                m = self.coef[c]
                out[b + c] = m[0] * values[b] + m[1] * values[b + 1] + m[2] * values[b + 2] + m[3] * values[b] * values[b + 1] * values[b + 2]
            for c in range(3, stride):
                out[b + c] = values[b + c]
        return out
