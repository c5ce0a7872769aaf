"""A node that mixes each pixel's channels and depends on nothing else (read by the analysis only, never executed)."""
import numpy as np
import clf

SEEN = []


class Mark(clf.ProcessNode):
    def __init__(self, inBitDepth, outBitDepth, channels, own, other, shift):
        clf.ProcessNode.__init__(self, 'Mark', inBitDepth, outBitDepth, 'mark', 'mark')
        self.channels = channels
        self.own = own
        self.other = other
        self.shift = shift

    def process(self, values, stride=0, verbose=False):
        ch = stride if stride else len(values)
        SEEN.append((len(values), stride))
        out = np.zeros(len(values), dtype=np.float32)
        for i in range(len(values)):
            p = i // ch
            c = i % ch
            out[i] = values[i] * self.own[c % self.channels] + values[p * ch + (c + 1) % ch] * self.other[c % self.channels] + self.shift[c % self.channels]
        return out
