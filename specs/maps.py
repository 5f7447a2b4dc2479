"""Vocabulary for properties about maps keyed by parameter id and about objects held by unique_ptr (handles)."""
from .common import *
from engine.loops import Loc, HasView
from engine.vals import Map

K_ = z3.Int('K_')           # an arbitrary parameter id
OWNER = z3.Function('ownerOf', z3.IntSort(), z3.IntSort())      # the parameter an envelope is attached to
COPY = z3.Function('copyOf', z3.IntSort(), z3.IntSort())


def owned(c, lv):
    """makes the unique_ptr<...> values of a map non-null and distinct (unique ownership); returns the map"""
    m = c.get(lv)
    seen = set()

    def rd(k):
        t = m.val.read(k)
        if k.get_id() not in seen:
            seen.add(k.get_id())
            c.I.keepalive.append(k)
            c.fp.ax(z3.Implies(m.has.read(k), z3.And(t > 0, OWNER(t) == k)))
        return t
    r = Map(m.vty, m.has, FArr(rd), m.size, m.keyat, m.pos)
    c.I.put(lv, r)
    return r


def has_loc(l):
    """location of the membership of a map location (for facts about every key)"""
    return Loc('has', l.name + '.has', lambda st, l=l: HasView(l.get(st)), HasView(l.v0), HasView(l.v))


def every(name, loc, sk, at):
    """candidate invariant at(store, idx) for every index of the array at loc; sk: the tracked index"""
    return (name, lambda st: at(st, sk), (loc, at))
