#!/usr/bin/env python3
"""Writes /verif/KNOWN_FINDINGS.txt: the repaired defects (from /repo's fix: commits) and the recorded ones."""
import os, subprocess, sys
FIX = """
Bertrand distribution over bands wider|T16
fmconst no longer rescales|G03
fmpar phase|G03
fmpower time axis|G04
fmodany accepts|G05
fmlin of a single|G01
keying generators keep|G01
anafsk and anaqpsk|G01
keying generators accept|G06
anasing samples|G07
klauder returns|G01
gdpower of degree|G09
doppler amplitude|G01
noisecg and noisecu|G01
dopnoise returns|G01
scale works|G10
locfreq labels|P01
odd n_fbins get|T07
STFT columns|T01
Spectrogram columns|T02
run() starts|S02
plot() leaves|S01
Wigner-Ville works|T03
pseudo Wigner-Ville labels|T04
Margenau-Hill includes|T06
pseudo Margenau-Hill runs|T06
pseudo Page runs|T06
smoothed pseudo Wigner-Ville stores|T05
reassigned representations find|T09
reassigned spectrogram|T09
reassigned pseudo Wigner-Ville is|T09
reassigned pseudo_margenau|T09
reassigned pseudo_page|T09
reassigned smoothed|T09
reassigned morlet|T09
renyi_information leaves|S01
hough_transform|P07
ridges returns|P06
ideal_tfr draws|P05
wide_band estimates|T12
affine distributions derive|T14
passive Unterberger|T14
Unterberger distribution is|T14
Scalogram wavelet|T13
Scalogram honours|T13
affine distributions no longer|T14
gabor builds|T15
gabor wraps|T15
wide_band correlates|T12
fmpower accepts|G04
fmsin is finite|G01
unilateral amexpos|G02
affine distributions sample|T14
D-Flandrin|T14
affine normalisation|T14
contour plots|P10
the Page plots|P10
the time axis of Margenau|P10
honour sqmod|P10
draw on the axes|P10
derive_window had|P08
reassigned pseudo Wigner-Ville, Margenau|T09
lambdak is 1|T16
the default number of voices is at least|T16
wide_band takes at least two|T16
nextpow2 must not fall|P09
divider must take|P09
nextpow2|P09
nearest_odd|P09
modulo|P09
the Page representation|T06
morlet_scalogram left|T09
integer (and half precision) samples|S03
loctime returned garbage|P01
unsigned sample indices|S03
integrate_2d and is_linear wrapped|S03
atoms accepts one atom|G10
izak accepts|P09
reassigned scalogram and smoothed|T09
derive_window of a one-point|T09
affine plots use the frequencies|P10
surf and wireframe plots|P10
contour plots without show_tf|P10
the scalogram's contours|P10
the spectrum beside an affine plot|P10
fmpower of degree 1|G03
logarithmic contour levels|P10
Margenau-Hill plots accept|P10
plot of the STFT with sqmod|P10
group delay is 0, not NaN|P03
Renyi information of order other|P04
gabor takes its dual window's nulls|T15
gabor keeps the imaginary part|T15
"""
KNOWN = [
    ("T07", "ShortTimeFourierTransform[subset-of-instants]", "STFT treats timestamps as labels of all samples: for a subset of integer instants it silently returns the columns of the first samples (impulse at 8, timestamps [2, 8, 12])"),
    ("T07", "PseudoWignerVilleDistribution[subset-of-instants]", "pseudo Wigner-Ville does the same (impulse at 8, timestamps [2, 8, 12])"),
    ("T07", "raised:WignerVilleDistribution[subset-of-instants]", "Wigner-Ville raises for a timestamps array shorter than the signal ([2, 8, 12] of 16 samples)"),
    ("T13", "raised:Scalogram[array-wavelet]", "Scalogram(waveparams=<array>) raises: its array branch is unreachable"),
    ("T14", "raised:BertrandDistribution[two-columns]", "affine distributions raise for a two-column (cross) signal, which the constructor announces"),
    ("T14", "raised:smoothed_pseudo_wigner", "tftb.processing.affine.smoothed_pseudo_wigner raises for every input (float sizes, unknown keyword)"),
]
table = [l.rsplit("|", 1) for l in FIX.strip().split("\n")]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "d7deb88..HEAD"], text=True).strip().split("\n")
out = ["# Repaired defects of scikit-signal/tftb ('fixed:', suppress nothing) and recorded ones ('known:', each bound to one probe input in tfmon/props/_probes.py)."]
for line in log:
    h, msg = line.split(" ", 1)
    assert msg.startswith("fix: "), line
    msg = msg[5:]
    hits = [p for k, p in table if msg.startswith(k)]
    assert hits, line
    out.append("fixed: property=%s %s %s" % (hits[-1], h, msg))
for p, k, t in KNOWN:
    out.append("known: property=%s key=%s %s" % (p, k, t))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt"), "w") as fh:
    fh.write("\n".join(out) + "\n")
print(len(out) - 1, "entries")
