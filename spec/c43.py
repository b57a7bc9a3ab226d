"""
C43: the multitaper estimate, one response at a time.
"""
import numpy as np
from scipy.fft import fft, ifft
from scipy.signal import detrend

from rf.deconvolve import deconv_multitaper


def multitaper(rsp, src, nse, sr, tshift, gauss, K, tband, T, olap):
    x = deconv_multitaper(rsp, src, nse, sr, tshift, gauss=gauss, K=K,
                          tband=tband, T=T, olap=olap, normalize=None)
    return [x[i] for i in range(len(rsp))]


def multitaper_ref(rsp, src, nse, sr, tshift, gauss, K, tband, T, olap):
    import multitaper as mt
    n = len(rsp[0])
    assert len(src) < n
    assert len(nse[0]) <= n
    dt = 1 / sr
    points = int(round(T / dt))
    sl = mt.MTSpec(np.arange(points), nw=tband, kspec=K)
    tapers, weights = sl.vn.T, sl.lamb
    if K >= 2:
        tapers[1] = -tapers[1]
    if K >= 3:
        tapers[2] = -tapers[2]
    factor = 1 / (1 - olap)
    ns = len(src)
    windows = int(factor * ns / points)
    s = spectra(padded(straight(src), n), tapers, K, windows, points, factor,
                n, False)
    s = s * (ns / float(windows * n))
    out = []
    for c in range(len(rsp)):
        noise = straight(nse[c])
        windows = int(factor * len(noise) / points)
        d = spectra(padded(noise, n), tapers, K, windows, points, factor, n,
                    True)
        d = d * (ns / float(windows * n))
        power = np.zeros(n)
        for k in range(K):
            power = power + (np.real(d[k]) ** 2 + np.imag(d[k]) ** 2) \
                / weights[k]
        windows = int(factor * n / points) - 1
        d = spectra(straight(rsp[c]), tapers, K, windows, points, factor, n,
                    True)
        d = d * (float(n) / float(windows * n))
        num, den = np.zeros(n), np.zeros(n)
        for k in range(K):
            num = num + s[k] * np.conj(d[k])
            den = den + s[k] * np.conj(s[k])
        f = np.fft.fftfreq(n, dt)
        q = num / (den + power)
        if gauss is not None:
            q = q * np.exp(-0.5 * (f / gauss) ** 2)
        q = q * np.exp(-2j * np.pi * f * (tshift - dt))
        out.append(ifft(q).real[::-1])
    return out


def straight(x):
    return detrend(detrend(x, type='constant'), type='linear')


def padded(x, n):
    y = np.zeros(n)
    y[:len(x)] = x
    return y


def spectra(x, tapers, K, windows, points, factor, n, inside):
    out = np.zeros((K, n), dtype=complex)
    for j in range(windows):
        a = int(j * points / factor)
        b = int(a + points)
        if not inside or b < n:
            for k in range(K):
                w = np.zeros(n)
                w[a:b] = tapers[k]
                out[k] = out[k] + fft(w * x)
    return out
