"""Stand-in for PyOpenColorIO (read by the analysis only, never executed)."""
CONFIGS = {}
CALLS = []


class Constants(object):
    COLORSPACE_DIR_TO_REFERENCE = 'to_reference'
    COLORSPACE_DIR_FROM_REFERENCE = 'from_reference'
    TRANSFORM_DIR_FORWARD = 'forward'
    TRANSFORM_DIR_INVERSE = 'inverse'
    TRANSFORM_DIR_UNKNOWN = 'unknown'
    INTERP_LINEAR = 'linear'
    INTERP_NEAREST = 'nearest'
    INTERP_TETRAHEDRAL = 'tetrahedral'
    INTERP_BEST = 'best'


class Transform(object):
    direction = 'forward'

    def getDirection(self):
        return self.direction


class GroupTransform(Transform):
    def __init__(self, children):
        self.children = children

    def getTransforms(self):
        return list(self.children)

    def size(self):
        return len(self.children)


class FileTransform(Transform):
    def __init__(self, src, interpolation, direction):
        self.src = src
        self.interpolation = interpolation
        self.direction = direction

    def getSrc(self):
        return self.src

    def getInterpolation(self):
        return self.interpolation


class MatrixTransform(Transform):
    def __init__(self, matrix, offset, direction):
        self.matrix = matrix
        self.offset = offset
        self.direction = direction

    def getMatrix(self):
        return list(self.matrix)

    def getOffset(self):
        return list(self.offset)


class LogTransform(Transform):
    def __init__(self, base, direction):
        self.base = base
        self.direction = direction

    def getBase(self):
        return self.base


class ExponentTransform(Transform):
    pass


class CDLTransform(Transform):
    pass


class ColorSpace(object):
    def __init__(self, to, fro):
        self.transforms = {'to_reference': to, 'from_reference': fro}

    def getTransform(self, direction):
        return self.transforms[direction]


class Config(object):
    def __init__(self, path, search, spaces):
        CONFIGS[path] = self
        self.search = search
        self.spaces = {}
        for name, to, fro in spaces:
            self.spaces[name] = ColorSpace(to, fro)

    @staticmethod
    def CreateFromFile(path):
        CALLS.append(('config', path))
        return CONFIGS[path]

    def getSearchPath(self):
        return self.search

    def getColorSpace(self, name):
        return self.spaces.get(name)
