"""
C41: the quotient of the spectra of response and source, one response at a
time.
"""
import numpy as np
from scipy.fft import fft, ifft, next_fast_len

from rf.deconvolve import deconv_waterlevel


def waterlevel(rsp, src, sr, level, gauss, tshift, length, nfft):
    return list(deconv_waterlevel(
        rsp, src, sr, waterlevel=level, gauss=gauss, tshift=tshift,
        length=length, nfft=nfft, normalize=None))


def waterlevel_ref(rsp, src, sr, level, gauss, tshift, length, nfft):
    n = len(rsp[0]) if length is None else length
    m = next_fast_len(n) if nfft is None else nfft
    return [quotient(r, src, sr, level, gauss, tshift, n, m) for r in rsp]


def quotient(r, src, sr, level, gauss, tshift, n, m):
    f = np.fft.fftfreq(m, 1 / sr)
    s = fft(src, m)
    power = np.abs(s * np.conj(s))
    power = np.maximum(power, level * max(power))
    q = fft(r, m) * np.conj(s) / power * np.exp(-2j * np.pi * f * tshift)
    if gauss is not None:
        q = q * np.exp(np.maximum(-0.5 * (f / gauss) ** 2, -700))
    return ifft(q, m)[:n]


def waterlevel_default(rsp, src, sr):
    return list(deconv_waterlevel(rsp, src, sr, normalize=None))


def waterlevel_default_ref(rsp, src, sr):
    return waterlevel_ref(rsp, src, sr, 0.05, 0.5, 10., None, None)


def waterlevel_single(r, src, sr, level, gauss, tshift, length, nfft):
    if isinstance(r, (list, tuple)):
        return None
    return deconv_waterlevel(
        r, src, sr, waterlevel=level, gauss=gauss, tshift=tshift,
        length=length, nfft=nfft, normalize=None)


def waterlevel_single_ref(r, src, sr, level, gauss, tshift, length, nfft):
    if isinstance(r, (list, tuple)):
        return None
    return waterlevel_ref([r], src, sr, level, gauss, tshift, length,
                          nfft)[0]
