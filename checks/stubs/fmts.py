"""LUT formats that record how they are used (read by the analysis only, never executed)."""
import clf
from lutFormats import LutFormat

CALLS = []


class LutFormatRecA(LutFormat.LutFormat):
    formatType = "Recording A"
    formats = [
        ["none", "Na", []],
        ["read", "RA", [LutFormat.IO_CAPABILITY_READ]],
        ["write 1D", "Wa", [LutFormat.IO_CAPABILITY_WRITE_1D]],
        ["write 3D", "ca", [LutFormat.IO_CAPABILITY_WRITE_3D]],
        ["write 1D/3D/1D", "sa", [LutFormat.IO_CAPABILITY_WRITE_1D3D1D]],
        ["both", "ba", [LutFormat.IO_CAPABILITY_WRITE_1D, LutFormat.IO_CAPABILITY_WRITE_3D]],
        ["all", "xa", [LutFormat.IO_CAPABILITY_READ, LutFormat.IO_CAPABILITY_WRITE_1D, LutFormat.IO_CAPABILITY_WRITE_3D, LutFormat.IO_CAPABILITY_WRITE_1D3D1D]],
        ["shared", "sh", [LutFormat.IO_CAPABILITY_READ, LutFormat.IO_CAPABILITY_WRITE_1D]],
    ]

    @classmethod
    def read(cls, lutPath, inverse=False, interpolation='linear', inversesUseIndexMaps=True, inversesUseHalfDomain=True):
        CALLS.append(('A', 'read', lutPath, inverse, interpolation, inversesUseIndexMaps, inversesUseHalfDomain))
        return [clf.Range(), clf.Matrix()]

    @classmethod
    def write1D(cls, lutPath, samples, lutResolution1d, inputMin, inputMax):
        CALLS.append(('A', 'write1D', lutPath))
        return True

    @classmethod
    def write3D(cls, lutPath, samples, lutResolution3d, inputMin, inputMax):
        CALLS.append(('A', 'write3D', lutPath))
        return True

    @classmethod
    def write1D3D1D(cls, lutPath, samples1dIn, lutResolution1dIn, inputMin, inputMax, samples3d, lutResolution3d, samples1dOut, lutResolution1dOut, outputMin, outputMax):
        CALLS.append(('A', 'write1D3D1D', lutPath))
        return True


class LutFormatRecB(LutFormat.LutFormat):
    formatType = "Recording B"
    formats = [
        ["shared", "SH", [LutFormat.IO_CAPABILITY_WRITE_3D, LutFormat.IO_CAPABILITY_WRITE_1D3D1D]],
    ]

    @classmethod
    def write(cls, processList, lutPath, lutStyle=LutFormat.IO_CAPABILITY_WRITE_1D, lutResolution1d=1024, lutResolution3d=33, lutResolution1d3d1d=[1024,33,2], inputMin=0.0, inputMax=1.0, shaperIn=['linear',0.0,1.0], shaperOut=['linear',0.0,1.0]):
        CALLS.append(('B', lutStyle, processList, lutPath, lutResolution1d, lutResolution3d, lutResolution1d3d1d, inputMin, inputMax, shaperIn, shaperOut))
        return True


class LutFormatRecC(LutFormat.LutFormat):
    formatType = "Recording C, every operation of which fails"
    formats = [
        ["shared", "sh", [LutFormat.IO_CAPABILITY_READ, LutFormat.IO_CAPABILITY_WRITE_1D, LutFormat.IO_CAPABILITY_WRITE_3D, LutFormat.IO_CAPABILITY_WRITE_1D3D1D]],
        ["failing", "fa", [LutFormat.IO_CAPABILITY_READ, LutFormat.IO_CAPABILITY_WRITE_1D, LutFormat.IO_CAPABILITY_WRITE_3D, LutFormat.IO_CAPABILITY_WRITE_1D3D1D]],
    ]

    @classmethod
    def read(cls, lutPath, inverse=False, interpolation='linear', inversesUseIndexMaps=True, inversesUseHalfDomain=True):
        CALLS.append(('C', 'read', lutPath, inverse, interpolation, inversesUseIndexMaps, inversesUseHalfDomain))
        return None

    @classmethod
    def write(cls, processList, lutPath, lutStyle=LutFormat.IO_CAPABILITY_WRITE_1D, lutResolution1d=1024, lutResolution3d=33, lutResolution1d3d1d=[1024,33,2], inputMin=0.0, inputMax=1.0, shaperIn=['linear',0.0,1.0], shaperOut=['linear',0.0,1.0]):
        CALLS.append(('C', lutStyle, processList, lutPath, lutResolution1d, lutResolution3d, lutResolution1d3d1d, inputMin, inputMax, shaperIn, shaperOut))
        return False
