"""P03 gaps longer than the allowed interval never yield invented energy"""
from .lib import *
from .energy import *

COVERAGE = ('energy_from_power executed symbolically with every pattern of missing values and enumerated stamp gaps; '
            'the solver compares each interval with a reference that leaves out everything inside a gap, and bounds it '
            'by the largest/smallest valid power times the interval')
BOUNDS = 'up to 5 samples (quick), 6 (thorough), all NaN patterns, gaps 1-3 steps, max_timedelta default/1x/2x/3x/4x, up- and down-sampling'
ASSUMPTIONS = ['power values are arbitrary reals or missing']


def jobs(tier):
    th = tier == 'thorough'
    J = []
    for T in ['right_labeled', 'instantaneous']:
        for tgt in ['15min', '30min', '1h', '2h', '3h', '4h']:
            for mx in [None, '1h', '2h', '3h'] + (['4h'] if th else []):
                J.append((f'nan-{T}-{tgt}-{mx}', h_regular,
                          dict(n=6 if th else 5, start='2020-01-01', step='1h', target=tgt, max=mx, nan=True, type=T)))
                J.append((f'irrnan-{T}-{tgt}-{mx}', h_irregular,
                          dict(n=4, start='2020-01-01', gaps=[1, 3] if not th else [1, 2, 3], unit='1h', target=tgt, max=mx, nan=True, type=T)))
        for unit, tgt, mx in [('1D', '2D', '2D'), ('1D', '3D', None), ('1D', '12h', '2D'), ('1D', '4D', '3D'), ('1min', '2min', '3min'), ('1s', '3s', '2s'),
                              ('12h', '1D', '36h'), ('7D', '14D', '15D')]:
            J.append((f'scale-{T}-{unit}-{tgt}-{mx}', h_irregular,
                      dict(n=4, start='2020-01-01 05:00', gaps=[1, 3] if not th else [1, 2, 3], unit=unit, target=tgt, max=mx, nan=True if th else [1, 2], type=T)))
        for tgt, mx in [('2h', '12h'), ('3h', '3h'), ('2h', None), ('90min', '10h')]:
            J.append((f'long-{T}-{tgt}-{mx}', h_irregular, dict(n=5, start='2021-01-01 03:00', gaps=[1, 9], unit='1h', target=tgt, max=mx, nan=[1, 3], type=T)))
        J.append((f'month-{T}', h_month, dict(n=10, start='2020-01-01', step='7D', target='MS', months=1, nan=[0, 2, 3, 5, 9], type=T)))
        J.append((f'month-{T}-max', h_month, dict(n=10, start='2020-01-01', step='7D', target='MS', months=1, nan=[1, 2, 4, 5], max='14D', type=T)))
    return J
