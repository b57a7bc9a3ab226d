"""
C42: the normal equations of the deconvolution in the time domain, one
response at a time.
"""
import numpy as np
from scipy.signal import correlate

from rf.deconvolve import deconv_time


def time(rsp, src, shift, spiking, length, solver):
    return list(deconv_time(rsp, src, shift, spiking=spiking, length=length,
                            normalize=None, solve_toeplitz=solver))


def time_ref(rsp, src, shift, spiking, length, solver):
    n = len(rsp[0]) if length is None else length
    auto = matrix(src, spiking, n)
    return [solution(solver, auto, crossed(r, src, n, shift)) for r in rsp]


def solution(solver, a, b):
    if solver == 'toeplitz':
        try:
            from toeplitz import sto_sl
        except ImportError:
            solver = 'scipy'
        else:
            return sto_sl(np.hstack((a, a[1:])), b, job=0)
    if solver == 'scipy':
        from scipy.linalg import solve_toeplitz
        return solve_toeplitz(a, b)
    return solver(a, b)


def matrix(src, spiking, n):
    """first row of the autocorrelation matrix, relative to zero lag"""
    a = correlate(padded(src, 0, n - 1), src, 'valid')
    a = a / a[0]
    a[0] += spiking
    return a


def crossed(r, src, n, shift):
    """lags around the one which aligns the centres, shifted to the left"""
    if shift < 0:
        r = padded(r, 0, 2 * abs(shift))
    if shift > 0:
        r = padded(r, 2 * abs(shift), 0)
    d = len(r) - len(src) + 1 - n
    if d > 0:
        return correlate(r, padded(src, (d + 1) // 2, d // 2), 'valid')
    return correlate(padded(r, (1 - d) // 2, -d // 2), src, 'valid')


def padded(x, left, right):
    return np.hstack([np.zeros(left), x, np.zeros(right)])


def time_default(rsp, src, shift):
    return list(deconv_time(rsp, src, shift, normalize=None))


def time_default_ref(rsp, src, shift):
    return time_ref(rsp, src, shift, 1., None, 'toeplitz')


def time_single(r, src, shift, spiking, length, solver):
    if isinstance(r, (list, tuple)):
        return None
    return deconv_time(r, src, shift, spiking=spiking, length=length,
                       normalize=None, solve_toeplitz=solver)


def time_single_ref(r, src, shift, spiking, length, solver):
    if isinstance(r, (list, tuple)):
        return None
    return time_ref([r], src, shift, spiking, length, solver)[0]
