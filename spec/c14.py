"""
C14: the results of every routine, compared with its own results without
normalisation.
"""
import numpy as np

from rf.deconvolve import (deconv_time, deconv_waterlevel, deconv_iterative,
                           deconv_multitaper, deconvolve)


def scaled(x, norm):
    return [y * norm for y in x]


# ------------------------------------------------------------- time domain
def time(rsp, src, shift, spiking, length, normalize, solver):
    return list(deconv_time(rsp, src, shift, spiking=spiking, length=length,
                            normalize=normalize, solve_toeplitz=solver))


def time_ref(rsp, src, shift, spiking, length, normalize, solver):
    x = deconv_time(rsp, src, shift, spiking=spiking, length=length,
                    normalize=None, solve_toeplitz=solver)
    return scaled(x, 1 / np.max(np.abs(x[normalize])))


def time_default(rsp, src, shift):
    return list(deconv_time(rsp, src, shift))


def time_default_ref(rsp, src, shift):
    x = deconv_time(rsp, src, shift, normalize=None)
    return scaled(x, 1 / np.max(np.abs(x[0])))


def time_single(r, src, shift, normalize):
    if isinstance(r, (list, tuple)):
        return None
    return deconv_time(r, src, shift, normalize=normalize)


def time_single_ref(r, src, shift, normalize):
    if isinstance(r, (list, tuple)):
        return None
    return deconv_time([r], src, shift, normalize=normalize)[0]


# -------------------------------------------------------------- water level
def waterlevel(rsp, src, sr, waterlevel, gauss, tshift, normalize):
    return list(deconv_waterlevel(
        rsp, src, sr, waterlevel=waterlevel, gauss=gauss, tshift=tshift,
        normalize=normalize))


def waterlevel_ref(rsp, src, sr, waterlevel, gauss, tshift, normalize):
    x = deconv_waterlevel(rsp, src, sr, waterlevel=waterlevel, gauss=gauss,
                          tshift=tshift, normalize=None)
    return scaled(x, 1 / np.max(x[normalize]))


def waterlevel_src(rsp, src, sr, waterlevel, gauss, tshift):
    return list(deconv_waterlevel(
        rsp, src, sr, waterlevel=waterlevel, gauss=gauss, tshift=tshift,
        normalize='src'))


def waterlevel_src_ref(rsp, src, sr, waterlevel, gauss, tshift):
    x = deconv_waterlevel(rsp, src, sr, waterlevel=waterlevel, gauss=gauss,
                          tshift=tshift, normalize=None)
    n = len(rsp[0])
    s = deconv_waterlevel([src], src, sr, waterlevel=waterlevel, gauss=gauss,
                          tshift=tshift, normalize=None, length=n)[0]
    return scaled(x, 1 / np.max(s))


def waterlevel_info(rsp, src, sr, normalize):
    return list(deconv_waterlevel(rsp, src, sr, normalize=normalize,
                                  return_info=True)[0])


def waterlevel_info_ref(rsp, src, sr, normalize):
    x = deconv_waterlevel(rsp, src, sr, normalize=None)
    return scaled(x, 1 / np.max(x[normalize]))


def waterlevel_default(rsp, src, sr):
    return list(deconv_waterlevel(rsp, src, sr))


def waterlevel_default_ref(rsp, src, sr):
    x = deconv_waterlevel(rsp, src, sr, normalize=None)
    return scaled(x, 1 / np.max(x[0]))


def waterlevel_single(r, src, sr, normalize):
    if isinstance(r, (list, tuple)):
        return None
    return deconv_waterlevel(r, src, sr, normalize=normalize)


def waterlevel_single_ref(r, src, sr, normalize):
    if isinstance(r, (list, tuple)):
        return None
    return deconv_waterlevel([r], src, sr, normalize=normalize)[0]


# ---------------------------------------------------------------- iterative
def iterative(rsp, src, sr, tshift, gauss, itmax, minderr, mute, normalize):
    return list(deconv_iterative(
        rsp, src, sr, tshift=tshift, gauss=gauss, itmax=itmax,
        minderr=minderr, mute_shift=mute, normalize=normalize)[0])


def iterative_ref(rsp, src, sr, tshift, gauss, itmax, minderr, mute,
                  normalize):
    x = deconv_iterative(
        rsp, src, sr, tshift=tshift, gauss=gauss, itmax=itmax,
        minderr=minderr, mute_shift=mute, normalize=None)[0]
    return scaled(x, 1 / np.max(np.abs(x[normalize])))


def iterative_default(rsp, src, sr):
    return list(deconv_iterative(rsp, src, sr)[0])


def iterative_default_ref(rsp, src, sr):
    x = deconv_iterative(rsp, src, sr, normalize=None)[0]
    return scaled(x, 1 / np.max(np.abs(x[0])))


def iterative_single(r, src, sr, normalize):
    if isinstance(r, (list, tuple)):
        return None
    return deconv_iterative(r, src, sr, normalize=normalize)[0]


def iterative_single_ref(r, src, sr, normalize):
    if isinstance(r, (list, tuple)):
        return None
    return deconv_iterative([r], src, sr, normalize=normalize)[0][0]


# --------------------------------------------------------------- multitaper
def multitaper(rsp, src, nse, sr, tshift, gauss, K, tband, T, olap,
               normalize):
    x = deconv_multitaper(rsp, src, nse, sr, tshift, gauss=gauss, K=K,
                          tband=tband, T=T, olap=olap, normalize=normalize)
    return [x[i] for i in range(len(rsp))]


def multitaper_ref(rsp, src, nse, sr, tshift, gauss, K, tband, T, olap,
                   normalize):
    x = deconv_multitaper(rsp, src, nse, sr, tshift, gauss=gauss, K=K,
                          tband=tband, T=T, olap=olap, normalize=None)
    x = [x[i] for i in range(len(rsp))]
    return scaled(x, 1 / np.max(np.abs(x[normalize])))


def multitaper_default(rsp, src, nse, sr, tshift):
    x = deconv_multitaper(rsp, src, nse, sr, tshift)
    return [x[i] for i in range(len(rsp))]


def multitaper_default_ref(rsp, src, nse, sr, tshift):
    x = deconv_multitaper(rsp, src, nse, sr, tshift, normalize=None)
    x = [x[i] for i in range(len(rsp))]
    return scaled(x, 1 / np.max(np.abs(x[0])))
