from ..semcheck import *
LEVEL = 'proof'
RULE = '''Value numbering of the code and name tables: the decision diagram of what each function returns (over its arguments,
throwing counted as a result) must equal the diagram built from the tables of the formats, and the composition of a
table with its inverse must be the identity on the tabulated codes.'''
ASSUME = []
TRUST = ['the tables in vlib/checks/c11.py (WMO common code table C-5, MSG/SPE/057)']

# HRIT spacecraft id -> WMO satellite id
HRIT = {0: 1023, 11: 3, 12: 4, 13: 5, 16: 50, 19: 51, 20: 52, 21: 53, 321: 55, 322: 56, 323: 57, 324: 70, 17012: 204, 17014: 205, 17015: 206,
        18007: 251, 18008: 252, 18009: 253, 18010: 254, 18011: 255, 18012: 256, 19001: 310, 19002: 311, 20004: 151, 20005: 152, 21001: 58, 21002: 59}
NAMES = {3: 'METOP1', 4: 'METOP2', 5: 'METOP3', 50: 'METEOSAT3', 51: 'METEOSAT4', 52: 'METEOSAT5', 53: 'METEOSAT6', 54: 'METEOSAT7', 55: 'MSG1',
         56: 'MSG2', 57: 'MSG3', 58: 'MTSAT1', 59: 'MTSAT2', 70: 'MSG4', 150: 'GMS3', 151: 'GMS4', 152: 'GMS5', 204: 'NOAA12', 205: 'NOAA14',
         206: 'NOAA15', 251: 'GOES7', 252: 'GOES8', 253: 'GOES9', 254: 'GOES10', 255: 'GOES11', 256: 'GOES12', 310: 'GOMS1', 311: 'GOMS2'}
MSG = (55, 56, 57, 70)
CHANNELS = ['no-channel', 'VIS006', 'VIS008', 'IR_016', 'IR_039', 'WV_062', 'WV_073', 'IR_087', 'IR_097', 'IR_108', 'IR_120', 'IR_134', 'HRV']
RAD, KEL = 'mW m^-2 sr^-1 (cm^-1)^-1', 'K'
UNITS = ['unknown', RAD, RAD, RAD] + [KEL] * 8 + [RAD]
WAVE = [None, 0.6, 0.8, 1.6, 3.9, 6.2, 7.3, 8.7, 9.7, 10.8, 12.0, 13.4, 0.7]
DIGITS = [2, 4, 4, 4] + [2] * 8 + [4]
SCALED = [0, -1.02691] + [0] * 10 + [-1.63196]
THROW = f('THROW')


def s(x):
    return f('"%s"' % x)


def table(x, t, default):
    r = default
    for k, v in t.items():
        r = ite(deq(x, C(k)), v, r)
    return r


def on_msg(sat, r, default):
    return table(sat, {k: r for k in MSG}, default)


def run(ctx):
    prog = program()
    E = {}

    def ev(name, sig=r'\('):
        x = one(ctx, prog, r'^msat::facts::%s%s' % (name, sig), name)
        if x is None:
            return None
        E[name] = Ev(prog, x, throw_leaf=True)
        return E[name]

    def do(name, want, given=None):
        e = ev(name)
        if e:
            a = [e.val('a%d' % k) for k in range(len(e.fn.j['args']))]
            oblige(ctx, name, e.ret(), want(*a), fn=e.fn, text='returned', given=given(*a) if given else None)
    do('spacecraftIDFromHRIT', lambda x: table(x, {k: C(v) for k, v in HRIT.items()}, C(1023)))
    do('spacecraftIDToHRIT', lambda x: table(x, {v: C(k) for k, v in HRIT.items()}, C(0)))
    none = {999: s('Non Spacecraft'), 1023: s('Non Spacecraft')}
    do('spacecraftName', lambda x: table(x, {**{k: s(v) for k, v in NAMES.items()}, **none}, s('unknown')))

    def byname(x):
        r = C(-1)
        for k, v in NAMES.items():
            r = ite(deq(P(atom('call', 'compare', x, s(v), integer=True)), C(0)), C(k), r)
        return r
    do('spacecraftID', byname)
    do('sensorName', lambda x: on_msg(x, s('Seviri'), s('unknown')))
    do('channelName', lambda x, c: on_msg(x, table(c, {k: s(v) for k, v in enumerate(CHANNELS)}, s('unknown')), s('unknown')))
    do('channelUnit', lambda x, c: on_msg(x, table(c, {k: s(v) for k, v in enumerate(UNITS)}, s('unknown')), s('unknown')))
    do('channelLevel', lambda x, c: on_msg(x, table(c, {k: s('1.5') for k in range(13)}, s('')), s('')))
    do('channel_central_wavelength', lambda x, c: on_msg(x, table(c, {k: C(v) for k, v in enumerate(WAVE) if v}, THROW), THROW))
    do('channel_central_wave_number', lambda x, c: 1000000 / P(atom('call', 'channel_central_wavelength', x, c)))
    do('channel_from_central_wavelength', lambda x, w: on_msg(x, table(dfun('round', 10 * w), {round(10 * v): C(k) for k, v in enumerate(WAVE) if v}, THROW), THROW))
    do('channel_from_central_wave_number', lambda x, w: P(atom('call', 'channel_from_central_wavelength', x, 1000000 / w, integer=True)))
    nan = f('NaN')
    do('defaultPackedMissing', lambda c: table(c, {k: C(0) for k in range(13)}, nan))
    do('defaultScaledMissing', lambda c: table(c, {k: C(v) for k, v in enumerate(SCALED)}, nan))
    do('significantDigitsForChannel', lambda c: table(c, {k: C(v) for k, v in enumerate(DIGITS)}, C(0)))
    # round trips, on what the functions themselves return
    for a, b, keys in (('spacecraftIDFromHRIT', 'spacecraftIDToHRIT', HRIT), ('spacecraftIDToHRIT', 'spacecraftIDFromHRIT', list(HRIT.values()))):
        if a in E and b in E:
            ra, rb = E[a].ret(), E[b].ret()
            xa, xb = E[a].val('a0').key, E[b].val('a0').key
            for k in keys:
                y = subst(ra, {xa: C(k)})
                oblige(ctx, '%s(%s(%d))' % (b, a, k), subst(rb, {xb: y}), C(k), fn=E[b].fn, text='round trip')
    a, b = 'channel_central_wavelength', 'channel_from_central_wavelength'
    if a in E and b in E:
        for sat in MSG:
            for k in range(1, 13):
                y = subst(E[a].ret(), {E[a].val('a0').key: C(sat), E[a].val('a1').key: C(k)})
                oblige(ctx, '%s(%s(%d,%d))' % (b, a, sat, k), subst(E[b].ret(), {E[b].val('a0').key: C(sat), E[b].val('a1').key: y}), C(k), fn=E[b].fn, text='round trip')
