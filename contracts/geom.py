"""Geometric vocabulary of the contracts (no contract lives here)."""
from pyvc.shapes import NS
from pyvc.spec import *


def d2(p, q):
    return Sq(p.x - q.x) + Sq(p.y - q.y)


def cross(o, p, q):
    return (p.x - o.x) * (q.y - o.y) - (p.y - o.y) * (q.x - o.x)


def dot(o, p, q):
    return (p.x - o.x) * (q.x - o.x) + (p.y - o.y) * (q.y - o.y)


def point_at(s, t):
    return NS(x=s.o.x + t * (s.t.x - s.o.x), y=s.o.y + t * (s.t.y - s.o.y))


def on_seg(s, p):
    """p is a point of the closed segment s"""
    return And(cross(s.o, s.t, p) == 0, dot(p, s.o, s.t) <= 0)


def same(p, q):
    return And(p.x == q.x, p.y == q.y)


def near(p, q, m='1e-6'):
    return And(Abs(p.x - q.x) < Q(m), Abs(p.y - q.y) < Q(m))


def on_line(l, p):
    return l.a * p.x + l.b * p.y + l.c == 0


def in_box(s, p, m):
    """p within the bounding box of the segment s, widened by at most m"""
    return And((p.x - s.o.x) * (p.x - s.t.x) <= m * m, (p.y - s.o.y) * (p.y - s.t.y) <= m * m)
