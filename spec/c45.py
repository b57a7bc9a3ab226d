"""C45: velocity models are read from the columns of the file."""
import numpy as np
from pkg_resources import resource_filename

from rf.simple_model import SimpleModel, load_model


def layers(fname):
    m = load_model(fname)
    return m.z, m.dz, m.vp, m.vs


def layers_ref(fname):
    if fname == 'iasp91':
        path = resource_filename('rf', 'data/iasp91.dat')
    else:
        path = fname
    columns = np.loadtxt(path, unpack=True)
    try:
        z, vp, vs, n = columns
    except ValueError:
        z, vp, vs = columns
        m = SimpleModel(z, vp, vs, None)
    else:
        m = SimpleModel(z, vp, vs, n.astype(int))
    return m.z, m.dz, m.vp, m.vs


def layers_default():
    m = load_model()
    return m.z, m.dz, m.vp, m.vs


def layers_default_ref():
    return layers_ref('iasp91')
