"""A LUT format that keeps what it is given (read by the analysis only, never executed)."""
from lutFormats import LutFormat

GOT = []


class LutFormatKeep(LutFormat.LutFormat):
    formatType = "Keep"
    formats = [["keep", "keep", [LutFormat.IO_CAPABILITY_WRITE_1D, LutFormat.IO_CAPABILITY_WRITE_3D, LutFormat.IO_CAPABILITY_WRITE_1D3D1D]]]

    @classmethod
    def write1D(cls, lutPath, samples, lutResolution1d, inputMin, inputMax):
        GOT.append(('write1D', lutPath, samples, lutResolution1d, inputMin, inputMax))
        return True

    @classmethod
    def write3D(cls, lutPath, samples, lutResolution3d, inputMin, inputMax):
        GOT.append(('write3D', lutPath, samples, lutResolution3d, inputMin, inputMax))
        return True

    @classmethod
    def write1D3D1D(cls, lutPath, samples1dIn, lutResolution1dIn, inputMin, inputMax, samples3d, lutResolution3d, samples1dOut, lutResolution1dOut, outputMin, outputMax):
        GOT.append(('write1D3D1D', lutPath, samples1dIn, lutResolution1dIn, inputMin, inputMax, samples3d, lutResolution3d, samples1dOut, lutResolution1dOut, outputMin, outputMax))
        return True
