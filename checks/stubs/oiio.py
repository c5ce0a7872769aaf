"""Stand-in for OpenImageIO: images are kept in memory (read by the analysis only, never executed)."""
UINT8, UINT16, HALF, FLOAT = 2, 4, 8, 9
INT8, INT16, UINT32, INT32, DOUBLE, UNKNOWN = 3, 5, 6, 7, 12, 0
VERSION = 20000
Create = 'Create'

# path -> Image; path -> what can be done with it ('create', 'open', 'write' fail)
IMAGES = {}
FAIL = {}
# images written
WRITTEN = []
CALLS = []


class Format(object):
    def __init__(self, basetype):
        self.basetype = basetype


class Attr(object):
    def __init__(self, name, type, value):
        self.name = name
        self.type = type
        self.value = value


class ImageSpec(object):
    def __init__(self):
        self.width = 0
        self.height = 0
        self.nchannels = 0
        self.channelnames = None
        self.format = Format(UNKNOWN)
        self.extra_attribs = []

    def set_format(self, basetype):
        self.format = Format(basetype)

    def attribute(self, name, a, b=None):
        if b is None:
            value, kind = a, 'deduced'
        else:
            value, kind = b, a
        for x in self.extra_attribs:
            if x.name == name:
                x.value = value
                x.type = kind
                return
        self.extra_attribs.append(Attr(name, kind, value))


class Image(object):
    """spec and pixels, for every type they can be read as: [(type, pixels)...]"""
    def __init__(self, basetype, width, height, channels, names, attrs, data):
        s = ImageSpec()
        s.set_format(basetype)
        s.width, s.height, s.nchannels, s.channelnames = width, height, channels, names
        for n, t, v in attrs:
            s.extra_attribs.append(Attr(n, t, v))
        self.spec = s
        self.data = {}
        for t, pixels in data:
            self.data[t] = pixels


def put(path, *a):
    IMAGES[path] = Image(*a)


def data(path, basetype, pixels):
    IMAGES[path].data[basetype] = pixels


class ImageInput(object):
    def __init__(self, path):
        self.path = path
        self.image = IMAGES[path]
        self.closed = False

    @staticmethod
    def open(path):
        CALLS.append(('input', path))
        if path not in IMAGES:
            return None
        return ImageInput(path)

    def spec(self):
        return self.image.spec

    def read_image(self, basetype):
        if self.closed:
            raise RuntimeError('read after close')
        CALLS.append(('read', basetype))
        if FAIL.get(self.path) == 'read':
            raise RuntimeError('cannot read')
        return list(self.image.data[basetype])

    def close(self):
        CALLS.append(('closed input', self.path))
        self.closed = True
        return True


class ImageOutput(object):
    def __init__(self, path):
        self.path = path
        self.spec = None
        self.state = 'new'

    @staticmethod
    def create(path):
        if FAIL.get(path) == 'create':
            return None
        return ImageOutput(path)

    def open(self, path, spec, mode=Create):
        CALLS.append(('output', path))
        if FAIL.get(path) == 'open':
            return False
        self.path = path
        self.spec = spec
        self.state = 'open'
        return True

    def write_image(self, format, pixels):
        if self.state != 'open':
            raise RuntimeError('image is not open')
        if FAIL.get(self.path) == 'write':
            return False
        if FAIL.get(self.path) == 'raise':
            raise RuntimeError('cannot write')
        WRITTEN.append((self.path, self.spec, format, list(pixels)))
        self.state = 'written'
        return True

    def close(self):
        CALLS.append(('closed output', self.path, self.state))
        self.state = 'closed'
        return True


def fail(path, how):
    FAIL[path] = how
