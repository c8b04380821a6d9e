"""Probes of the known findings (KNOWN_FINDINGS.txt): one specific input each, judged by the oracle of its property.

The engine adds them to the first round of the property's cases.  A probe that violates its property with the key listed in the
file prints a KNOWN-FINDING line; with any other key, or on any other case, a violation stays a violation.
"""
import numpy as np


def _subset(mon, cls, name):
    n = 16
    x = np.zeros(n, complex)
    x[8] = 1.0
    t = np.array([2, 8, 12])
    tfr, _, _ = mon.call(lambda: cls(x, timestamps=t).run(), _name=name + "[subset-of-instants]")
    mon.shape(tfr, (n, 3), name + "[subset-of-instants]")
    mon.ok(int(np.argmax(np.abs(tfr).max(0))) == 1 and np.abs(tfr).max() > 0, name + "[subset-of-instants]",
           "an impulse at instant 8 does not peak in the column of instant 8")


def stft_subset(mon):
    from tftb.processing import ShortTimeFourierTransform
    _subset(mon, ShortTimeFourierTransform, "ShortTimeFourierTransform")


def wvd_subset(mon):
    from tftb.processing import WignerVilleDistribution
    _subset(mon, WignerVilleDistribution, "WignerVilleDistribution")


def pwvd_subset(mon):
    from tftb.processing import PseudoWignerVilleDistribution
    _subset(mon, PseudoWignerVilleDistribution, "PseudoWignerVilleDistribution")


def array_wavelet(mon):
    from tftb.processing import Scalogram
    n = 64
    k = np.arange(n)
    x = np.exp(-np.pi * ((k - 32) / 16.0) ** 2) * np.cos(2 * np.pi * 0.25 * k)
    w = np.exp(-np.pi * (np.arange(-16, 17) / 16.0) ** 2) * np.exp(2j * np.pi * 0.25 * np.arange(-16, 17))
    r = mon.call(lambda: Scalogram(x, fmin=0.1, fmax=0.4, n_voices=16, waveparams=w.reshape(-1, 1)).run(), _name="Scalogram[array-wavelet]")
    mon.shape(r[0], (16, n), "Scalogram[array-wavelet]")


def cross_affine(mon):
    from tftb.processing import BertrandDistribution
    n = 64
    k = np.arange(n)
    x = np.exp(-np.pi * ((k - 32) / 16.0) ** 2) * np.cos(2 * np.pi * 0.25 * k)
    a = mon.call(lambda: BertrandDistribution(x, fmin=0.1, fmax=0.45, n_voices=32).run(), _name="BertrandDistribution")
    b = mon.call(lambda: BertrandDistribution(np.c_[x, x], fmin=0.1, fmax=0.45, n_voices=32).run(), _name="BertrandDistribution[two-columns]")
    mon.close(b[0], a[0], "BertrandDistribution[two-columns]", rtol=1e-9)


def affine_spwv(mon):
    from tftb.processing.affine import smoothed_pseudo_wigner
    n = 64
    k = np.arange(n)
    x = np.exp(-np.pi * ((k - 32) / 16.0) ** 2) * np.cos(2 * np.pi * 0.25 * k)
    mon.call(smoothed_pseudo_wigner, x, fmin=0.1, fmax=0.45, n_voices=32)


PROBES = {
    "T07": [stft_subset, wvd_subset, pwvd_subset],
    "T13": [array_wavelet],
    "T14": [cross_affine, affine_spwv],
}


def cases(pid):
    return [dict(probe=f.__name__) for f in PROBES.get(pid, [])]


def check(mon, case):
    globals()[case["probe"]](mon)
