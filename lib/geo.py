"""Spherical geometry written independently of the code under test."""
import math

import numpy as np


def unit(lon, lat):
    lo, la = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], axis=-1)


def central_angle(p, q):
    """Angle in radians between lon/lat points (degrees), accurate at all distances."""
    a, b = unit(p[..., 0], p[..., 1]), unit(q[..., 0], q[..., 1])
    cr = np.linalg.norm(np.cross(a, b), axis=-1)
    return np.arctan2(cr, np.sum(a * b, axis=-1))


def bearing(p, q):
    """Initial bearing in degrees, clockwise from north, from p to q (lon/lat degrees)."""
    lo1, la1, lo2, la2 = np.radians(p[..., 0]), np.radians(p[..., 1]), np.radians(q[..., 0]), np.radians(q[..., 1])
    return np.degrees(np.arctan2(np.sin(lo2 - lo1) * np.cos(la2), np.cos(la1) * np.sin(la2) - np.sin(la1) * np.cos(la2) * np.cos(lo2 - lo1))) % 360


def cap_points(loc, theta, n):
    """n points spread evenly over the cap of angle theta around loc."""
    i = np.arange(n) + 0.5
    ct = 1 - (1 - math.cos(theta)) * i / n
    st = np.sqrt(1 - ct * ct)
    ph = math.pi * (3 - math.sqrt(5)) * i
    lon, lat = math.radians(loc[0]), math.radians(loc[1])
    e = np.array([-math.sin(lon), math.cos(lon), 0.0])
    nn = np.array([-math.sin(lat) * math.cos(lon), -math.sin(lat) * math.sin(lon), math.cos(lat)])
    return ct[:, None] * unit(*loc) + (st * np.cos(ph))[:, None] * nn + (st * np.sin(ph))[:, None] * e
