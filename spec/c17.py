"""Reference for C17: formulas of the velocity model."""
import numpy as np
from rf.simple_model import SimpleModel
from rf.util import DEG2KM


def vertical(self, slowness, phase='PS'):
    p = slowness / DEG2KM
    name = phase.upper()
    qp = qs = 0
    if 'P' in name:
        qp = np.sqrt(1 / self.vp ** 2 - p ** 2)
    if 'S' in name:
        qs = np.sqrt(1 / self.vs ** 2 - p ** 2)
    return qp, qs


def delay(self, slowness, phase='PS'):
    name = phase.upper()
    qp, qs = vertical(self, slowness, name)
    legs = qp * name.count('P') + qs * name.count('S')
    if name[0] == 'P':
        direct = qp
    else:
        direct = qs
    return np.cumsum((legs - 2 * direct) * self.dz)


def distance(self, depth, slowness, phase='S'):
    if len(phase) % 2 == 0:
        raise ValueError('number of letters has to be odd')
    name = phase.upper()
    p = slowness / DEG2KM
    qp, qs = vertical(self, slowness, name)
    xp = xs = 0.
    if 'P' in name:
        xp = np.cumsum(self.dz * p / qp)
    if 'S' in name:
        xs = np.cumsum(self.dz * p / qs)
    x = xp * name.count('P') + xs * name.count('S')
    i = np.nonzero(depth < self.z)[0][0] - 1
    return x[i] + ((x[i + 1] - x[i]) * (depth - self.z[i]) /
                   (self.z[i + 1] - self.z[i]))


def parity(self, slowness, phase='Ps', ref=6.4):
    if len(phase) % 2 == 1:
        raise ValueError('number of letters has to be even')
    # same for all spellings of the phase, each with its own slowness
    name = phase.upper()
    delay(self, slowness, name)
    delay(self, ref, name)


def parity_distance(self, depth, slowness, phase):
    if len(phase) % 2 == 0:
        raise ValueError('number of letters has to be odd')


def drive_model(z, vp, vs):
    m = SimpleModel(z, vp, vs)
    return m.z, m.dz, m.vp, m.vs


def model(z, vp, vs):
    return z[:-1], np.diff(z), vp[:-1], vs[:-1]


def points(val, n):
    parts = []
    for i in range(len(val) - 1):
        parts.append(np.linspace(val[i], val[i + 1], n[i + 1] + 1,
                                 endpoint=False))
    return np.hstack(parts + [np.array([val[-1]])])


def drive_model_n(z, vp, vs, n):
    m = SimpleModel(z, vp, vs, n)
    return m.z, m.dz, m.vp, m.vs


def model_n(z, vp, vs, n):
    z, vp, vs = points(z, n), points(vp, n), points(vs, n)
    return z[:-1], np.diff(z), vp[:-1], vs[:-1]
