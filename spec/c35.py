"""
C35: the spike trains of the iterative deconvolution, one component at a time.
"""
import numpy as np
from scipy.fft import fft, ifft, next_fast_len

from rf.deconvolve import deconv_iterative


def lowpass(n, dt, f0):
    return np.exp(-0.5 * (np.fft.fftfreq(n, dt) / f0) ** 2)


def delay(n, dt, seconds):
    return np.exp(-2j * np.pi * np.fft.fftfreq(n, dt) * seconds)


def filtered(x, response):
    n = len(response)
    return ifft(fft(x, n) * response, n).real


def iterate(rsp, src, sr, tshift, gauss, itmax, minderr, mute):
    return deconv_iterative(rsp, src, sr, tshift=tshift, gauss=gauss,
                            itmax=itmax, minderr=minderr, mute_shift=mute,
                            normalize=None)


def iterate_ref(rsp, src, sr, tshift, gauss, itmax, minderr, mute):
    rfs, counts, misfits = [], [], []
    for r in rsp:
        a, b, c = one(r, src, sr, tshift, gauss, itmax, minderr, mute)
        rfs.append(a)
        counts.append(b)
        misfits.append(c)
    return rfs, counts, misfits


def one(r, src, sr, tshift, gauss, itmax, minderr, mute):
    n = len(r)
    nfft = next_fast_len(2 * n)
    dt = 1 / sr
    low = lowpass(nfft, dt, gauss)
    target = filtered(r, low)
    source = fft(src, nfft) * low
    source_power = np.sum(ifft(source).real ** 2)
    power = np.sum(target ** 2)
    end = nfft if mute else nfft - int(tshift * sr)
    spikes = np.zeros(nfft)
    misfits = np.zeros(itmax)
    left = target
    misfit = 1
    change = 100 * power + minderr
    count = 0
    while count < itmax and abs(change) > minderr:
        corr = ifft(fft(left) * np.conj(source)).real / source_power / dt
        corr[n:end] = 0
        largest = np.argmax(abs(corr))
        spikes[largest] += corr[largest]
        left = target - ifft(fft(spikes) * source).real * dt
        new = np.sum(left ** 2) / power
        misfits[count] = new
        change = 100 * (misfit - new)
        misfit = new
        count += 1
    shift = delay(nfft, dt, tshift)
    return filtered(spikes, low * shift)[:n], count, misfits
