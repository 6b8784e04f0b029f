"""Specification of the motion: x'=cos(theta), y'=sin(theta), theta'=kappa, kappa'=sigma along signed arc length (closed forms)."""
from .terms import *

def flow0(q, ds, k):
    """constant curvature k (k syntactically zero or a non-zero expression)"""
    x, y, t = q
    if not k.d: return (x + ds * cos(t), y + ds * sin(t), t)
    t2 = t + k * ds
    return (x + (sin(t2) - sin(t)) / k, y + (cos(t) - cos(t2)) / k, t2)

def rot(t, x, y): return (x * cos(t) - y * sin(t), x * sin(t) + y * cos(t))
