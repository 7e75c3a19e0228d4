"""Signal-producing classes (no driving source): small complete configurations."""

import acoular as ac
import numpy as np

from mc import td

FS = 1000.0


def mics(n=2):
    m = ac.MicGeom()
    m.pos_total = np.array([[0.0, 0.4, -0.3, 0.1], [0.0, 0.1, 0.2, -0.4], [0.0, 0.0, 0.05, 0.0]])[:, :n]
    return m


def env():
    return ac.Environment(c=343.0)


def noise(n, seed=3, rms=1.0):
    return ac.WNoiseGenerator(seed=seed, num_samples=n, sample_freq=FS, rms=rms)


def traj(moving=True):
    t = ac.Trajectory()
    v = 5.0 if moving else 0.0
    t.points = {float(i): (0.05 + v * i, 0.1, 1.0) for i in range(5)}
    return t


def samples(n, c, tag=0):
    return ac.TimeSamples(data=td.pattern(n, c, tag), sample_freq=FS)


def sources():
    """(name, factory, block sizes)."""
    out = []

    def nums(n):
        def f(quick):
            return range(1, n + 3)

        return f

    for n in (1, 2, 5, 8):
        out += [
            (f'TimeSamples-n{n}', lambda n=n: samples(n, 2), nums(n)),
            (f'MaskedTimeSamples-n{n}', lambda n=n: ac.MaskedTimeSamples(data=td.pattern(n + 3, 3), sample_freq=FS, start=1, stop=-2, invalid_channels=[1]), nums(n)),
            (f'PointSource-loop-n{n}', lambda n=n: ac.PointSource(signal=noise(n + 8), mics=mics(), env=env(), up=2), nums(n + 8)),
            (f'PointSource-zeros-n{n}', lambda n=n: ac.PointSource(signal=noise(n + 5), mics=mics(), env=env(), up=2, prepadding='zeros'), nums(n + 5)),
            (
                f'SphericalHarmonicSource-n{n}',
                lambda n=n: ac.SphericalHarmonicSource(signal=noise(n + 8), mics=mics(), env=env(), up=2, lOrder=1, alpha=np.array([1.0, 0.5, 0.25, 0.1])),
                nums(n + 8),
            ),
            (f'MovingPointSource-n{n}', lambda n=n: ac.MovingPointSource(signal=noise(n + 8), mics=mics(), env=env(), up=2, trajectory=traj()), nums(n + 8)),
            (f'MovingPointSource-conv-n{n}', lambda n=n: ac.MovingPointSource(signal=noise(n + 8), mics=mics(), env=env(), up=2, trajectory=traj(), conv_amp=True), nums(n + 8)),
            (f'PointSourceDipole-n{n}', lambda n=n: ac.PointSourceDipole(signal=noise(n + 8), mics=mics(), env=env(), up=2), nums(n + 8)),
            (f'MovingPointSourceDipole-n{n}', lambda n=n: ac.MovingPointSourceDipole(signal=noise(n + 8), mics=mics(), env=env(), up=2, trajectory=traj()), nums(n + 8)),
            (
                f'LineSource-n{n}',
                lambda n=n: ac.LineSource(signal=noise(n + 8), mics=mics(), env=env(), up=2, num_sources=2, source_strength=np.array([1.0, 0.5])),
                nums(n + 8),
            ),
            (
                f'LineSource-incoh-n{n}',
                lambda n=n: ac.LineSource(
                    signal=noise(n + 8), mics=mics(), env=env(), up=2, num_sources=2, source_strength=np.array([1.0, 0.5]), coherence='incoherent'
                ),
                nums(n + 8),
            ),
            (
                f'MovingLineSource-n{n}',
                lambda n=n: ac.MovingLineSource(
                    signal=noise(n + 8), mics=mics(), env=env(), up=2, num_sources=2, source_strength=np.array([1.0, 0.5]), trajectory=traj()
                ),
                nums(n + 8),
            ),
            (f'UncorrelatedNoiseSource-n{n}', lambda n=n: ac.UncorrelatedNoiseSource(signal=noise(n), mics=mics()), nums(n)),
            (f'SourceMixer-n{n}', lambda n=n: ac.SourceMixer(sources=[samples(n, 2, 1), samples(n, 2, 2)], weights=np.array([0.5, 2.0])), nums(n)),
            (f'SourceMixer-sim-n{n}', lambda n=n: ac.SourceMixer(sources=[
                ac.PointSource(signal=noise(n + 8), mics=mics(), env=env(), up=2),
                ac.PointSource(signal=noise(n + 8, 4), mics=mics(), env=env(), up=2, loc=(0.2, 0.1, 0.9)),
            ]), nums(n + 8)),
            (f'PointSourceConvolve-n{n}', lambda n=n: ac.PointSourceConvolve(signal=noise(n), mics=mics(), kernel=td.pattern(3, 2, 7)), nums(n)),
        ]
    return out
