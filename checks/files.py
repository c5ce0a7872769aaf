"""Text files written or read in a scenario, seen as text with placeholders for the symbolic numbers."""
from common import *
from clfstatic import ext as X, terms as T
import re

LEFT, RIGHT = '\x01', '\x02'


class Text(object):
    def __init__(self, lab, parts):
        self.lab, self.parts, self.s = lab, [], ''
        for p in parts:
            if isinstance(p, Const):
                self.s += str(p.v)
            else:
                self.s += '%s%d%s' % (LEFT, len(self.parts), RIGHT)
                self.parts.append(p)

    def number(self, tok):
        """the value that reading the token as a number gives; None when it is not one number"""
        m = re.match('^%s(\\d+)%s$' % (LEFT, RIGHT), tok)
        if m:
            return self.parts[int(m.group(1))]
        try:
            return Const(float(tok))
        except ValueError:
            return None

    def shown(self, tok):
        return re.sub('%s(\\d+)%s' % (LEFT, RIGHT), lambda m: '<%s>' % short(self.parts[int(m.group(1))], 40), tok)


def content(lab, path):
    """inside a scenario: the text of a file"""
    f = lab.callx('builtins.open', path)
    return lab.call(f, 'read')


def text_of(lab, v):
    return Text(lab, X.flat_parts(v))


def num(lab, part):
    """inside Result.do: the number a printed part stands for"""
    return lab.callx('builtins.float', part)


def write_file(lab, path, pieces):
    """inside a scenario: a file made of strings and numbers (printed with str)"""
    f = lab.callx('builtins.open', path, 'w')
    for p in pieces:
        if isinstance(p, str):
            lab.call(f, 'write', p)
        elif isinstance(p, (int, float)):
            lab.call(f, 'write', repr(p))
        else:
            lab.call(f, 'write', lab.callx('builtins.str', p))
    lab.call(f, 'close')
