import json
import os
import random
from db import REPO
from nx import *

EXPLAIN = ('Value-numbering summaries of unit_data, its generators and convert, instantiated over a unit table with free magnitudes (prime field): every derived unit is the product or quotient its name says, every conversion '
           'factor the ratio of the two magnitudes. The shipped tables, decoded by the summaries of raw_unit_data and const_data, are compared with a reference of unit magnitudes and physical constants.')
RAW, UDATA, CONV = NU + 'raw_unit_data', NU + 'unit_data', NU + 'convert'

# magnitudes in coherent SI units (kilomole for amounts, as the shipped constants are per kilomole)
IN, FT, LBM, LBF, BTU, PSI, HR = 0.0254, 0.3048, 0.45359237, 4.4482216, 1055.056, 6894.757, 3600.0
REFU = {
    'LENGTH': {'m': 1, 'meter': 1, 'metre': 1, 'Angstrom': 1e-10, 'nm': 1e-9, 'ft': FT, 'dm': 0.1, 'in': IN, 'inch': IN, 'mm': 1e-3, 'micron': 1e-6, 'micrometer': 1e-6, 'nanometer': 1e-9, 'millimeter': 1e-3, 'cm': 0.01, 'km': 1e3,
               'yd': 3 * FT, 'yard': 3 * FT, 'mi': 5280 * FT, 'mile': 5280 * FT, 'miles': 5280 * FT, 'fathom': 6 * FT, 'mil': IN / 1000, 'rod': 16.5 * FT, 'furlong': 660 * FT, 'hectometer': 100.0},
    'MASS': {'kg': 1, 'lbm': LBM, 'lb_m': LBM, 'g': 1e-3, 'ton': 2000 * LBM, 'grain': LBM / 7000, 'mg': 1e-6, 'oz': LBM / 16, 'ozm': LBM / 16, 'slug': LBF / FT, 'stone': 14 * LBM, 'amu': 1.660539e-27, 'microgram': 1e-9, 'mt': 1e3, 'tonne': 1e3},
    'MOLES': {'kgmole': 1, 'kgmol': 1, 'kmole': 1, 'kmol': 1, 'lbmole': LBM, 'lbmol': LBM, 'gmole': 1e-3, 'gmol': 1e-3, 'mole': 1e-3, 'mol': 1e-3},
    'TIME': {'s': 1, 'sec': 1, 'second': 1, 'min': 60, 'minute': 60, 'h': HR, 'hr': HR, 'hour': HR, 'day': 86400, 'days': 86400, 'week': 604800, 'weeks': 604800, 'fortnight': 1209600, 'year': 31556952, 'yr': 31556952, 'years': 31556952, 'millisec': 1e-3, 'microsec': 1e-6},
    'FREQUENCY': {'cps': 1, 'cpm': 1 / 60., 'Bq': 1, 'ci': 3.7e10, 'Hz': 1},
    'TEMP. DIFFERENCE': {'DELTAK': 1, 'DELTAC': 1, 'DELTAF': 5 / 9., 'DELTAR': 5 / 9.},
    'VELOCITY': {'mph': 0.44704, 'knot': 0.514444, 'kph': 1 / 3.6},
    'AREA': {'sqm': 1, 'sqcm': 1e-4, 'sqft': FT * FT, 'sqin': IN * IN, 'acre': 43560 * FT * FT, 'hectare': 1e4, 'barn': 1e-28},
    'VOLUME': {'gal': 231 * IN ** 3, 'gallon': 231 * IN ** 3, 'l': 1e-3, 'L': 1e-3, 'Bu': 0.03523907, 'ml': 1e-6, 'milliliter': 1e-6, 'microliter': 1e-9, 'liter': 1e-3, 'quart': 231 * IN ** 3 / 4, 'oz': 231 * IN ** 3 / 128, 'ozv': 231 * IN ** 3 / 128, 'pint': 231 * IN ** 3 / 8,
               'bbl': 42 * 231 * IN ** 3},
    'VOLUMETRIC FLOW': {'cfm': FT ** 3 / 60, 'gph': 231 * IN ** 3 / 3600, 'gpm': 231 * IN ** 3 / 60},
    'FORCE': {'N': 1, 'kN': 1e3, 'lbf': LBF, 'lb_f': LBF, 'dyne': 1e-5, 'kgf': 9.80665, 'kg_f': 9.80665},
    'PRESSURE': {'Pa': 1, 'milliPa': 1e-3, 'microPa': 1e-6, 'kPa': 1e3, 'MPa': 1e6, 'GPa': 1e9, 'gigaPa': 1e9, 'bar': 1e5, 'milliBar': 100, 'atm': 101325, 'psia': PSI, 'psi': PSI, 'ksi': 1e3 * PSI, 'psf': PSI / 144, 'mmH2O': 9.80665, 'mH2O': 9806.65, 'mmHg': 133.3224, 'inHg': 3386.388,
                 'torr': 133.3224, 'inH2O': 249.088, 'in.H2O': 249.088, 'ftH2O': 2989.057},
    'ENERGY': {'J': 1, 'milliJ': 1e-3, 'kJ': 1e3, 'MJ': 1e6, 'Wh': HR, 'Whr': HR, 'kWh': 1e3 * HR, 'kWhr': 1e3 * HR, 'MWh': 1e6 * HR, 'MWhr': 1e6 * HR, 'GWh': 1e9 * HR, 'GWhr': 1e9 * HR, 'GJ': 1e9, 'Btu': BTU, 'MMBtu': 1e6 * BTU, 'kBtu': 1e3 * BTU, 'cal': 4.1868, 'kcal': 4186.8, 'erg': 1e-7,
               'ev': 1.60207e-19, 'eV': 1.60207e-19, 'keV': 1.60207e-16, 'kev': 1.60207e-16, 'mev': 1.60207e-13, 'therm': 1e5 * BTU, 'therms': 1e5 * BTU, 'quad': 1e15 * BTU, 'quads': 1e15 * BTU},
    'POWER': {'W': 1, 'hp': 745.7, 'ton': 12000 * BTU / HR, 'tons': 12000 * BTU / HR, 'microW': 1e-6, 'milliW': 1e-3, 'kW': 1e3, 'MW': 1e6, 'MegaW': 1e6, 'gigaW': 1e9},
    'VISCOSITY-DYNAMIC': {'poise': 0.1, 'centipoise': 1e-3, 'micropoise': 1e-7, 'cp': 1e-3, 'Reyn': PSI},
    'VISCOSITY-KINEMATIC': {'Stoke': 1e-4, 'centiStoke': 1e-6},
    'ANGLES': {'radian': 1, 'radians': 1, 'rad': 1, 'deg': math.pi / 180, 'degree': math.pi / 180, 'degrees': math.pi / 180, 'rev': 2 * math.pi, 'revs': 2 * math.pi, 'revolutions': 2 * math.pi, 'minute': math.pi / 10800, 'quadrant': math.pi / 2, 'cycle': 2 * math.pi, 'cycles': 2 * math.pi},
    'CHARGE': {'Coulomb': 1, 'Faraday': 96500, 'Abcoulomb': 10}, 'ELECTRICAL CAPACITANCE': {'Farad': 1, 'pFarad': 1e-12, 'pF': 1e-12}, 'CURRENT': {'Amp': 1, 'Ampere': 1, 'A': 1}, 'ELECTRICAL RESISTANCE': {'ohm': 1, 'kohm': 1e3},
    'ELECTROMOTIVE FORCE': {'Volt': 1, 'millivolt': 1e-3, 'kV': 1e3, 'MegaVolt': 1e6, 'v': 1},
    'NON DIMENSIONAL': {'-': 1, 'Percent': 0.01, '%': 0.01, 'person': 1, 'persons': 1, 'ppm': 1e-6, 'ppb': 1e-9},
    'MAGNETIC FLUX DENSITY': {'Gauss': 1e-4, 'G': 1e-4, 'Tesla': 1, 'T': 1}, 'MAGNETIC FLUX': {'Maxwell': 1e-8, 'Mx': 1e-8, 'Weber': 1, 'Wb': 1}, 'MAGNETIC FIELD STRENGTH': {'Oersted': 79.57747, 'Oe': 79.57747},
}
REFC = {'#NA': 6.022141e26, '#h_NH3': -46190., '#e': 1.602177e-19, '#h_C2H4': 52280., '#g': 9.80665, '#F': 9.64853e7, '#gc': 6.6743e-11, '#h_CH2': 226730., '#r_e': 2.817940e-15, '#h_C6H6': 82930., '#C1': 3.7420e8, '#k': 1.380649e-23, '#Black': 0., '#White': 16777215.,
        '#h_C2H5OH_g': -235310., '#epsilon_o': 8.854188e-12, '#true': 1., '#false': 0., '#e_Me': 1.7588e11, '#C2': 14388., '#h_C2H5OH_l': -277690., '#Me': 9.10938e-31, '#Red': 255., '#C3': 2897.8, '#h_C8H18_l': -249950., '#h_CH3OH_l': -238660., '#h_C8H18_g': -208450., '#T_zero': 273.15,
        '#Mn': 1.674927e-27, '#Po': 101.325, '#R_inf': 1.097373e7, '#h_C3H6_g': -20410., '#Mp': 1.672622e-27, '#h': 6.62607e-34, '#Vo': 22.4140, '#Blue': 16711680., '#R': 8.314463, '#SndSpeed': 331.36, '#sigma': 5.670374e-8, '#h_CH3OH_g': -200670., '#h_H2O2': -136310., '#G_sc': 1367.,
        '#h_fg_water': 2441.5, '#U': 1.660539e-27, '#Yellow': 65535., '#C': 2.997925e8, '#Green': 65280., '#pi': math.pi, '#muo': 1.256637e-6}
TOL = 5e-4
# quantities of derived units: ('*', a, b) products in both orders or squares, ('/', a, b) quotients
DERIVED = [('AREA', '*', 'LENGTH', 'LENGTH'), ('VISCOSITY-DYNAMIC', '*', 'PRESSURE', 'TIME'), ('ENERGY', '*', 'FORCE', 'LENGTH'), ('VOLUME', '3', 'LENGTH', 'LENGTH'), ('VELOCITY', '/', 'LENGTH', 'TIME'), ('FREQUENCY', '/', 'NON DIMENSIONAL', 'TIME'),
           ('VOLUMETRIC FLOW', '/', 'VOLUME', 'TIME'), ('POWER', '/', 'ENERGY', 'TIME'), ('PRESSURE', '/', 'FORCE', 'AREA'), ('SPRING FORCE', '/', 'FORCE', 'LENGTH')]
DIM = {'LENGTH': {'L': 1}, 'TIME': {'T': 1}, 'FORCE': {'F': 1}, 'NON DIMENSIONAL': {}, 'AREA': {'L': 2}, 'VOLUME': {'L': 3}, 'PRESSURE': {'F': 1, 'L': -2}, 'ENERGY': {'F': 1, 'L': 1}, 'VELOCITY': {'L': 1, 'T': -1}, 'FREQUENCY': {'T': -1}, 'VOLUMETRIC FLOW': {'L': 3, 'T': -1},
       'POWER': {'F': 1, 'L': 1, 'T': -1}, 'SPRING FORCE': {'F': 1, 'L': -1}, 'VISCOSITY-DYNAMIC': {'F': 1, 'L': -2, 'T': 1}}


def factors(name, base):
    """[(unit, exponent)] of a unit name"""
    out = []
    num, _, den = name.partition('/')
    for part, sg in ((num, 1), (den, -1)):
        if not part:
            continue
        if part in base:
            out.append((part, sg))
            continue
        for x in part.split('-'):
            b, _, p = x.partition('^')
            out.append((b, sg * int(p or 1)))
    return out


def mag(name, base):
    if name in base:
        return base[name]
    v = None
    for b, p in factors(name, base):
        if b not in base:
            return None
        for _ in range(abs(p)):
            x = base[b]
            if v is None:
                v = x if p > 0 else (F(1) if isinstance(x, F) else 1.0) / x
            else:
                v = v * x if p > 0 else v / x
    return v


def check(ctx):
    ctx.rule('a conversion factor is the ratio of the two units\' magnitudes, derived units have the magnitude their name says, and incommensurable, unknown or ambiguous pairs are refused')
    w = {p: ctx.public(p)['span'] for p in (RAW, UDATA, CONV, NU + 'const_data')}
    # ---- abstract table: two or three units of every base quantity, free magnitudes
    base, dims, table = {}, {}, {}
    for q in DIM:
        if q == 'SPRING FORCE':
            continue
        table[q] = {}
        for i in range(3 if q in ('LENGTH', 'TIME') else 2):
            u = '%s%d' % (''.join(c for c in q.lower() if c.isalpha()), i)
            base[u] = table[q][u] = uf('unit', F(hash_((q, i))))
            dims[u] = DIM[q]
    table['OTHER'] = {'o1': uf('unit', F(101)), 'o2': uf('unit', F(102)), 'o3': uf('unit', F(103))}
    table['MORE'] = {'o1': uf('unit', F(104)), 'p2': uf('unit', F(105)), 'o3': uf('unit', F(106))}

    def dim(name):
        d = {}
        for b, p in factors(name, base):
            for k, e in dims[b].items():
                d[k] = d.get(k, 0) + e * p
        return {k: e for k, e in d.items() if e}
    nf = Nx(ctx, mode='F', override={RAW: lambda *a: {q: dict(u) for q, u in table.items()}})
    full = None
    with ctx.sub('derived units'):
        full = nf.call(UDATA)
        if not isinstance(full, dict) or not all(isinstance(v, dict) for v in full.values()):
            raise Undecided('unit_data')
        k = 0
        ok_ = True
        for q, us in sorted(full.items()):
            for u, v in sorted(us.items()):
                if q in table and u in table[q]:
                    want, dq = table[q][u], None
                else:
                    want, dq = (mag(u, base), DIM.get(q)) if all(b in base for b, _ in factors(u, base)) else (None, None)
                k += 1
                if want is None:
                    raise Unk('unit %s of %s' % (u, q))
                if v != want:
                    ok_ = ctx.check('derived units', False, 'the %s unit "%s" does not have the magnitude its name says' % (q.lower(), u), w[UDATA])
                elif dq is not None and dim(u) != dq:
                    ok_ = ctx.check('derived units', False, '"%s" is listed as a unit of %s, which it is not' % (u, q.lower()), w[UDATA])
        if ok_:
            ctx.ok('derived units (%d units)' % k)
    with ctx.sub('combinations'):
        miss = []
        for q, op, a, b in DERIVED:
            for x in table[a]:
                for y in table[b]:
                    names_ = ['%s/%s' % (x, y)] if op == '/' else ['%s^3' % x] if op == '3' else ['%s^2' % x] if a == b and x == y else [] if a == b else ['%s-%s' % (x, y), '%s-%s' % (y, x)]
                    miss += ['%s of %s' % (n_, q.lower()) for n_ in names_ if n_ not in full.get(q, {})]
        ctx.check('combinations', not miss, 'missing units: ' + ', '.join(miss[:5]), w[UDATA])
    if full is None:
        return
    # ---- convert
    nc = Nx(ctx, mode='F', override={UDATA: lambda *a: {q: dict(u) for q, u in full.items()}})

    def conv(n, a, b):
        kind, v, post = n.run(CONV, (a, b))
        if kind != 'ret':
            return 'panics', None
        good, x = result(v)
        return ('ok', x) if good else ('err', None)
    rnd = random.Random(3)
    owners = {}
    for q, us in full.items():
        for u in us:
            owners.setdefault(u, set()).add(q)
    with ctx.sub('conversion factors'):
        k = 0
        for q, us in sorted(full.items()):
            l = sorted(us)
            ps = [(a, b) for a in l for b in l]
            if len(ps) > 40:
                ps = rnd.sample(ps, 40 if ctx.tier == 'quick' else min(len(ps), 400))
            for a, b in ps:
                if len(owners[a] & owners[b]) != 1:
                    continue
                k += 1
                s, x = conv(nc, a, b)
                if s != 'ok' or x != us[a] / us[b]:
                    ctx.violation('conversion factors', 'convert("%s", "%s") %s' % (a, b, 'is not the ratio of the two magnitudes' if s == 'ok' else 'is refused' if s == 'err' else 'panics'), w[CONV])
                    raise Done()
        ctx.ok('conversion factors (%d pairs)' % k)
    with ctx.sub('factors of every magnitude'):
        nc.summary(CONV)
        xs = sorted({abs(x) for x in ctx.probes() if x and 1e-120 < abs(x) < 1e120})
        tab = {'A': {'a%d' % i: x for i, x in enumerate(xs)}, 'B': {'b': 2.0}}
        nd = Nx(ctx, override={UDATA: lambda *a: {q: dict(u) for q, u in tab.items()}})
        k = 0
        for i in range(len(xs)):
            for j in {0, len(xs) - 1, i, (i + 1) % len(xs), (i * 3) % len(xs)}:
                k += 1
                s, x = conv(nd, 'a%d' % i, 'a%d' % j)
                if s != 'ok' or not close(x, xs[i] / xs[j]):
                    ctx.violation('factors of every magnitude', 'the factor between units of magnitude %r and %r %s' % (xs[i], xs[j], 'is %r' % x if s == 'ok' else s), w[CONV])
                    raise Done()
        ctx.ok('factors of every magnitude (%d pairs)' % k)
    with ctx.sub('derived units of every magnitude'):
        t2 = {q: {u: xs[(7 * i + 3 * j) % len(xs)] for j, u in enumerate(sorted(us))} for i, (q, us) in enumerate(sorted(table.items()))}
        nd = Nx(ctx, override={RAW: lambda *a: {q: dict(u) for q, u in t2.items()}})
        full2 = nd.call(UDATA)
        b2 = {u: v for q, us in t2.items() for u, v in us.items()}
        for q, us in sorted(full2.items()):
            for u, v in sorted(us.items()):
                if q in t2 and u in t2[q] or not all(b in b2 for b, _ in factors(u, b2)):
                    continue
                try:
                    want = mag(u, b2)
                except (OverflowError, ZeroDivisionError):
                    continue
                if want is None or not 1e-290 < want < 1e290:
                    continue
                if not close(v, want):
                    ctx.violation('derived units of every magnitude', 'the %s unit "%s" is %r instead of %r' % (q.lower(), u, v, want), w[UDATA])
                    raise Done()
        ctx.ok('derived units of every magnitude')
    with ctx.sub('refused conversions'):
        us = sorted(owners)
        bad = [('nope', 'length0'), ('length0', 'nope'), ('nope', 'nope'), ('', 'length0'), ('length0', ''), ('Length0', 'length1'), ('o1', 'o3'), ('o3', 'o1')]
        while len(bad) < 150:
            a, b = rnd.choice(us), rnd.choice(us)
            if not owners[a] & owners[b]:
                bad.append((a, b))
        for a, b in bad:
            s, x = conv(nc, a, b)
            if s != 'err':
                ctx.violation('refused conversions', 'convert("%s", "%s") %s' % (a, b, 'panics' if s == 'panics' else 'is accepted although the units %s' % ('have two conversion factors' if a in owners and b in owners and owners[a] & owners[b] else 'do not convert')), w[CONV])
                raise Done()
        ctx.ok('refused conversions (%d pairs)' % len(bad))
    # ---- shipped data
    nr = Nx(ctx)
    data = None
    with ctx.sub('shipped units'):
        data = nr.call(UDATA)
        k = 0
        wrong = []
        for q, ref in sorted(REFU.items()):
            got = data.get(q, {})
            for u, v in sorted(ref.items()):
                if u not in got:
                    wrong.append('%s (%s) is missing' % (u, q.lower()))
                    continue
                k += 1
                if not abs(got[u] / v - 1) < TOL:
                    wrong.append('%s (%s) is %g instead of %g' % (u, q.lower(), got[u], v))
        allu = {u: v for q, us in REFU.items() for u, v in us.items() if q in DIM and u != 'oz' and u != '-'}
        for q in ('VELOCITY', 'POWER', 'PRESSURE', 'VOLUMETRIC FLOW', 'ENERGY', 'AREA', 'VOLUME', 'SPRING FORCE', 'VISCOSITY-DYNAMIC'):
            for u, v in sorted(data.get(q, {}).items()):
                if u in REFU.get(q, {}) or ('/' not in u and '^' not in u and '-' not in u):
                    continue
                m = mag(u, allu)
                if m is None:
                    continue
                k += 1
                if not abs(v / m - 1) < TOL * 3:
                    wrong.append('%s (%s) is %g instead of %g' % (u, q.lower(), v, m))
        if ctx.check('shipped units (%d units)' % k if not wrong else 'shipped units', not wrong, 'unit data: ' + '; '.join(wrong[:4]), w[RAW]):
            amb = []
            own = {}
            for q, us in data.items():
                for u in us:
                    own.setdefault(u, []).append(q)
            for u, qs in own.items():
                for u2 in own:
                    c = [q for q in qs if q in own[u2]] if len(qs) > 1 and u2 != u and len(own[u2]) > 1 else []
                    if len(c) > 1:
                        amb.append('%s, %s' % (u, u2))
            ctx.check('shipped units are unambiguous', not amb, 'pairs of units with two conversion factors: ' + '; '.join(amb[:4]), w[RAW])
    with ctx.sub('decoding of the shipped tables'):
        # the tables are used as they are written
        f = os.path.join(REPO, 'nexsys/src/units/units.json')
        if os.path.exists(f):
            raw = nr.call(RAW)
            wrong = ['%s (%s) is %r instead of %r' % (u, q.lower(), raw.get(q, {}).get(u), float(v)) for q, us in sorted(json.load(open(f)).items()) for u, v in sorted(us.items()) if q in raw and raw[q].get(u) != float(v)]
            ctx.check('decoding of the shipped tables', not wrong, 'the magnitudes of units.json are not the ones used: ' + '; '.join(wrong[:4]), w[RAW])
    with ctx.sub('shipped constants'):
        c = nr.call(NU + 'const_data')
        wrong = []
        for u, v in sorted(REFC.items()):
            if u not in c:
                wrong.append('%s is missing' % u)
            elif not (c[u] == v if v == 0 else abs(c[u] / v - 1) < 1e-3):
                wrong.append('%s is %g instead of %g' % (u, c[u], v))
        ctx.check('shipped constants (%d)' % len(REFC), not wrong, 'constants: ' + '; '.join(wrong[:4]), w[NU + 'const_data'])


class Done(Undecided):
    pass
