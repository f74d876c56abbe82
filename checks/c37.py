import re

from symx.textio import Endless
from . import c03
from .formats import *

BOUNDS = ('files of 5 nodes and up to 3 faces in each format, cut after any of their words (for DAT and hst, inside a section; for '
          'msh 4.1, before the end of the elements); any coordinates in the ranges of C03, any node numbers of four digits where the '
          'format numbers the nodes')
OUTSIDE = ('cuts inside a word; DAT and hst files cut between two sections; Radioss, inp, obj and med files, and the files of the '
           'vtk library, announce neither sizes nor an end that is relied upon')
ASSUMPTIONS = ['gmshparser is executed as installed']


class Refused(Exception):
    pass


class Short(object):
    """the harness of C03, with the file cut short"""
    def __init__(self, h, within, choices):
        self.h, self.within, self.choices = h, within, choices

    def __getattr__(self, n):
        return getattr(self.h, n)

    def choose(self, name, options):
        options = list(options)
        if name in self.choices:
            options = [options[i] for i in self.choices[name] if i < len(options)]
        elif name == 'notation':
            options = options[:1]
        return self.h.choose(name, options)

    def write_text(self, path, text, *a):
        ends = [m.end() for m in re.finditer(r'\S+', text)][:-1]
        if self.within:
            ends = [e for e in ends if self.within(text[:e])]
        ends = ends if self.within else [0] + ends
        parts = [ends[i:i + 32] for i in range(0, len(ends), 32)]
        part = self.h.choose('part', parts)
        return self.h.write_text(path, text[:self.h.choose('cut', part)] + self.h.choose('end', ['', '\n', ' \n']), *a)

    def mod(self, name):
        m = self.h.mod(name)
        return Reader(self.h, m) if name == 'mmio' else m


class Reader(object):
    def __init__(self, h, m):
        self.h, self.m = h, m

    def load_mesh(self, name, fmt):
        try:
            V, F = self.m.load_mesh(name, fmt)
        except (Endless, TimeoutError):
            self.h.fail('the reader stops')
        except Exception:
            raise Refused()
        self.h.true(hasattr(V, 'shape') and hasattr(F, 'shape'), 'nodes and faces')
        return V, F


def cut(h, source, within=None, choices={}, **k):
    """refused, or the whole mesh"""
    try:
        source(Short(h, within, choices), **k)
    except Refused:
        h.true(True, 'refused')


def inside_dat(t):
    return '*RETURN' not in t or t.rfind('ELEMENT,') > t.rfind('*RETURN')


def inside_hst(t):
    w = t.split()
    return w.count('COORDINATES') > w.count('ENDCOORDINATES') or w.count('PANEL') > w.count('ENDPANEL')


def inside_msh4(t):
    return '$Nodes' in t


def T(name, **k):
    return Inst(name, cut, textual=True, replay_s=10, witnesses=8, **k)


INSTANCES = []
for _c in (['unit', 'neg', 'unit'], 'wide'):
    _n = 'wide' if _c == 'wide' else 'signs'
    for _m in (0, 1, 4):
        for _f in ('mar', 'nat', 'nem', 'pnl', 'tec'):
            INSTANCES.append(T('%s / %d / %s' % (_f, _m, _n), source=c03.simple, fmt=_f, cls=_c, choices={'conn': [_m], 'head': [0], 'more variables': [0, 1]},
                               bound='any cut between two words'))
        INSTANCES += [T('gdf / %d / %s' % (_m, _n), source=c03.gdf, cls=_c, choices={'conn': [_m], 'per line': [0, 1, 3]}, bound='any cut between two words')]
    for _m in (0, 1, 2):
        INSTANCES += [T('dat / %d / %s' % (_m, _n), source=c03.dat, cls=_c, within=inside_dat, choices={'conn': [_m], 'layout': [0, 1, 2]},
                        bound='any cut between two words of a section'),
                      T('hst / %d / %s' % (_m, _n), source=c03.hst, cls=_c, layouts=['NE', 'NEE', 'NNE'], within=inside_hst,
                        choices={'conn': [_m]}, bound='any cut between two words of a section'),
                      T('msh 2.2 / %d / %s' % (_m, _n), source=c03.msh2, cls=_c, choices={'conn': [_m], 'tags': [2], 'others': [0, 2]},
                        bound='any cut between two words'),
                      T('msh 4.1 / %d / %s' % (_m, _n), source=c03.msh4, cls=_c, within=inside_msh4,
                        choices={'conn': [_m], 'numbers': [1], 'blocks of nodes': [0, 1], 'parametric': [0], 'lines': [0], 'blocks of faces': [_m % 2]}, bound='any cut between two words')]
