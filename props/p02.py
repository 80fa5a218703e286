"""P02 instantaneous power -> energy is the trapezoidal integral of the power"""
from .lib import *
from .energy import *

COVERAGE = ('energy_from_power executed symbolically on symbolic power values over enumerated regular and irregular '
            'time axes; each output interval is compared by the solver with an independent trapezoidal integral')
BOUNDS = 'up to 7 power samples (quick), 10 (thorough); steps 10 min..1 D; target/step ratios 1/4..6; UTC, naive and DST zones'
ASSUMPTIONS = ['power values are arbitrary reals; time stamps strictly increasing, concrete and enumerated']


def jobs(tier):
    th = tier == 'thorough'
    n = 10 if th else 7
    T = 'instantaneous'
    J = []
    for step in ['15min', '1h', '1D'] + (['10min', '3h'] if th else []):
        u = pd.Timedelta(step)
        for ratio in [None, 1, 2, 3, 6, 0.5, 0.25, 1.5, 0.4] + ([4, 5, 0.2] if th else []):
            tgt = None if ratio is None else f'{int((u * ratio).value // 10**9)}s'
            for tz in ([None] if step != '1h' else [None, 'US/Eastern', 'UTC']):
                for mx in [None] + ([str(u * 3)] if ratio in (1, 2, 0.5) else []):
                    J.append((f'regular-{step}-{ratio}-{tz}-{mx}', h_regular,
                              dict(n=n, start='2020-03-07 18:30' if tz else '2020-01-01 00:15', step=step, target=tgt,
                                   tz=tz, max=mx, keepfreq=ratio != 2, offset=ratio == 3, type=T)))
    for tgt in ['1h', '2h', '3h', '30min']:
        for mx in [None, '2h', '4h']:
            J.append((f'irregular-{tgt}-{mx}', h_irregular,
                      dict(n=5 if not th else 6, start='2021-01-01 03:00', gaps=[1, 2, 3], unit='1h', target=tgt, max=mx,
                           type=T)))
    for tgt in ['30min', '2h', '1h']:
        J.append((f'linear-{tgt}', h_linear, dict(n=5, start='2021-01-01', step='1h', target=tgt, type=T)))
    for unit, tgt, mx in [('1D', '2D', '3D'), ('1D', '3D', None), ('1D', '12h', '2D'), ('1min', '2min', '3min'), ('1s', '3s', '2s'),
                          ('12h', '1D', '36h'), ('7D', '14D', '15D')]:
        J.append((f'irregular-{unit}-{tgt}-{mx}', h_irregular,
                  dict(n=4 if not th else 5, start='2021-01-01 03:00', gaps=[1, 2, 3], unit=unit, target=tgt, max=mx, type='instantaneous')))
    J.append(('month', h_month, dict(n=10, start='2020-01-01', step='7D', target='MS', months=1, max='8D', type='instantaneous')))
    J.append(('month-tz', h_month, dict(n=7, start='2020-02-01', step='10D', target='MS', months=1, tz='US/Eastern', type='instantaneous')))
    J.append(('quarter', h_month, dict(n=8, start='2020-01-01', step='27D', target='QS', months=3, max='30D', type='instantaneous')))
    for tgt, mx in [('2h', '12h'), ('3h', '12h'), ('2h', '8h'), ('90min', '10h')]:
        J.append((f'long-{tgt}-{mx}', h_irregular, dict(n=6, start='2021-01-01 03:00', gaps=[1, 9], unit='1h', target=tgt, max=mx, type=T)))
    J.append(('single', h_single, {}))
    J.append(('bad', h_bad, {}))
    return J
