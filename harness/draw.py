"""run the program in-process and look at the figures it would save, without rendering them"""
import contextlib
import os
from unittest import mock

import matplotlib.figure as mfig
import numpy as np

import craterstats.cli as cli
from .core import quiet, Violation


@contextlib.contextmanager
def recorded():
    """figures given to savefig: list of (path, figure)"""
    got = []

    def save(self, fname, *a, **k):
        got.append((str(fname), self))
    with mock.patch.object(mfig.Figure, 'savefig', save):
        yield got


def figures(args):
    with recorded() as got, quiet():
        cli.main([str(e) for e in args])
    return got


def figure(args):
    got = figures(args)
    if len(got) != 1:
        raise Violation('%d figures saved: %r' % (len(got), [g[0] for g in got]))
    return got[0][1]


def main_axes(fig):
    """crater plot axes: linear log-diameter against log density, with frame"""
    c = [a for a in fig.axes if a.get_yscale() == 'log' and a.get_xscale() == 'linear' and a.get_frame_on()]
    if len(c) != 1:
        raise Violation('%d plot areas in figure' % len(c))
    return c[0]


def ticklabels(ax, which='x'):
    axis = ax.xaxis if which == 'x' else ax.yaxis
    return [(float(v), t.get_text()) for v, t in zip(axis.get_majorticklocs(), axis.get_majorticklabels())]
