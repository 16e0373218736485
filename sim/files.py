"""Input files: the 98 parameter lines of the Fortran format, and measured data."""
import numpy as np

from . import gens

# index of the value line of each parameter
LINE = {'data_file': 12, 'output_dir': 14, 'frames': 16, 'skip_frames': 18, 'bins': 20, 'dtbin': 22, 'dturns': 24, 'skip_start': 26, 'skip_end': 28,
        'empty_low': 31, 'empty_high': 34, 'rebin': 36, 'synch': 39, 'demax': 41, 'filmstart': 43, 'filmstop': 45, 'filmstep': 47, 'niter': 49, 'snpt': 51,
        'full_pp': 53, 'beam_ref': 55, 'machine_ref': 57, 'vrf1': 61, 'vrf1dot': 63, 'vrf2': 65, 'vrf2dot': 67, 'h_num': 69, 'h_ratio': 71, 'phi12': 73,
        'b0': 75, 'bdot': 77, 'radius': 79, 'bending': 81, 'gamma_t': 83, 'mass': 85, 'charge': 87, 'self_field': 91, 'g': 93, 'z': 95, 'pickup': 97}
DEFAULT = {'data_file': 'pipe', 'output_dir': '/nonexistent/', 'frames': 4, 'skip_frames': 0, 'bins': 20, 'dtbin': '3.8E-8', 'dturns': 3, 'skip_start': 0,
           'skip_end': 0, 'empty_low': 0, 'empty_high': 0, 'rebin': 1, 'synch': '8.789', 'demax': '-1.E6', 'filmstart': 1, 'filmstop': 1, 'filmstep': 1,
           'niter': 3, 'snpt': 1, 'full_pp': 0, 'beam_ref': 1, 'machine_ref': 1, 'vrf1': '2637.197030932989', 'vrf1dot': '0.0', 'vrf2': 0, 'vrf2dot': '0.0',
           'h_num': 1, 'h_ratio': '2.0', 'phi12': '0.4007821253666541', 'b0': '0.15722', 'bdot': '0.7949999999999925', 'radius': '25.0', 'bending': '8.239',
           'gamma_t': '4.1', 'mass': '0.93827231E9', 'charge': 1, 'self_field': 0, 'g': '0.0', 'z': '0.0', 'pickup': '0.36'}


def lines(**kw):
    """98 lines without line ends"""
    d = dict(DEFAULT, **kw)
    out = ['! comment %d' % i for i in range(98)]
    for k, i in LINE.items():
        out[i] = str(d[k])
    return out


def parameters(p, **kw):
    """for nprofiles profiles of nbins bins"""
    nb = p['nbins']
    d = dict(frames=p['nprofiles'], bins=nb, dtbin=repr(7.6e-7 / nb), synch=repr(nb * 334.0 / 760.0))
    d.update(kw)
    return lines(**d)


def measured(nframes, nbins, data):
    g = gens.rs('measured', data)
    w = gens.waterfall(nframes, nbins, data)
    return np.round((w - 0.02 + 0.002 * g.normal(size=w.shape)) * 1000, 6).ravel()


def text(values, fmt='repr'):
    if fmt == 'repr':
        return [repr(float(v)) for v in values]
    return ['%.17E' % v for v in values]
