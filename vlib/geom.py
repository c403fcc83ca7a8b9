"""Numerical model of McCode placements, and numeric values of the library's symbolic geometry."""
import math

import numpy as np

from vlib import cexpr

DEG = math.pi / 180


def rot_axes(angles, degrees=True):
    """The matrix which takes coordinates in the reference axes to coordinates in the rotated axes (x, then y, then z)"""
    k = DEG if degrees else 1.0
    cx, cy, cz = [math.cos(a * k) for a in angles]
    sx, sy, sz = [math.sin(a * k) for a in angles]
    rx = np.array([[1, 0, 0], [0, cx, sx], [0, -sx, cx]], float)
    ry = np.array([[cy, 0, -sy], [0, 1, 0], [sy, 0, cy]], float)
    rz = np.array([[cz, sz, 0], [-sz, cz, 0], [0, 0, 1]], float)
    return rz @ ry @ rx


def place(at, at_ref, angles, rot_ref):
    """at_ref, rot_ref: (position, axes matrix) or None. Absolute (position, axes matrix) by the McCode rules."""
    p0, r0 = at_ref if at_ref is not None else (np.zeros(3), np.eye(3))
    rr = rot_ref[1] if rot_ref is not None else np.eye(3)
    return p0 + r0.T @ np.array(at, float), rot_axes(angles) @ rr


DEGREE_FUNCS = {
    'sin': lambda x: math.sin(x * DEG), 'cos': lambda x: math.cos(x * DEG), 'tan': lambda x: math.tan(x * DEG),
    'atan2': lambda y, x: math.atan2(y, x) / DEG, 'acos': lambda x: math.acos(x) / DEG, 'asin': lambda x: math.asin(x) / DEG,
    'sqrt': math.sqrt, 'abs': abs, 'fabs': abs,
}
RADIAN_FUNCS = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'atan2': math.atan2, 'acos': math.acos, 'asin': math.asin,
                'sqrt': math.sqrt, 'abs': abs, 'fabs': abs}


def num(expr, env, degrees=True):
    """The value of one library expression at *env* (its trigonometry is in degrees, or radians)"""
    text = str(expr)
    try:
        t = cexpr.parse(text)
    except cexpr.BadSyntax as e:
        raise AssertionError(f'{text!r} is not an expression: {e}')
    env = dict(env)
    env.setdefault('PI', math.pi)
    try:
        return float(cexpr.evaluate(t, env, DEGREE_FUNCS if degrees else RADIAN_FUNCS))
    except (cexpr.Undefined, KeyError) as e:
        raise AssertionError(f'{text!r} has no value at {env}: {e}')


def vec(v, env, degrees=True):
    return np.array([num(x, env, degrees) for x in v])


def mat(m, env, degrees=True):
    return np.array([num(x, env, degrees) for x in m]).reshape(3, 3)


def seitz(s, env, degrees=True):
    out = np.eye(4)
    out[:3, :] = np.array([num(x, env, degrees) for x in s]).reshape(3, 4)
    return out


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= tol * scale))
