"""Runs analysis roots with a set of hooks."""
import sys, time
from dom import *
from interp import Interp, FramePos
import models


def make(prog, hooks=(), intercept=None, user=('minifier',)):
    I = Interp(prog, dict(models.M), user)
    I.hooks = list(hooks)
    I.intercept = dict(ENV)
    I.intercept.update(intercept or {})
    return I


def run_root(I, name, setup=None):
    fn = I.p.fns[I.p.roots[name]]
    fn.prep()
    st = State()
    args = [I.top(st, fn.locals[i + 1]) for i in range(fn.nargs)]
    if setup:
        r = setup(I, st, fn, args)
        if r is not None:
            args = r
    I.cur = (fn, fn.line)
    return I.run_fn(st, fn, args)


# ---------------------------------------------------------------- environment of the roots
def src_read(I, s, c):
    """io::Read of the source: writes anything, returns any count, or fails"""
    o = s.copy()
    d = I.T[c.destty]
    return [(s, models.res_ok(I, c.destty, s.num(0, (1 << 62)))),
            (o, models.res_err(I, c.destty, I.top(o, d['variants'][1]['f'][0][1])))]


def top_result(I, s, c):
    return I.top(s, c.destty)


def nop(I, s, c):
    return models.unit(I, c.destty)


ENV = {
    '<vharness::Source as std::io::Read>::read': src_read,
    '<vharness::Sink as std::io::Write>::write': top_result,
    'vharness::any_buf': top_result,
    'vharness::any_more': top_result,
    'vharness::deliver': nop,
    'vharness::any_keep': top_result,
    'vharness::any_filter': top_result,
    'vharness::any_replace': top_result,
}
