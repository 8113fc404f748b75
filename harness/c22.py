"""C22: time units have one canonical spelling, and every other word is refused"""
import numpy as np
NORM = CT.normalize_time_unit
UNITS = ['ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y']
NAMES = {'year': 'Y', 'week': 'W', 'day': 'D', 'date': 'D', 'hour': 'h', 'second': 's',
         'millisecond': 'ms', 'microsecond': 'us', 'nanosecond': 'ns'}
WORDS = sorted(UNITS) + sorted(NAMES)
BEYOND = ((9, 10), (32, 126), (160, 383), (880, 1023), (8192, 8303), (65280, 65519))


def unit_of(u):
    """the unit a word stands for, or None: a unit, its name, either in the plural"""
    for n in range(len(u), 0, -1):
        if n < len(u) and (u[n] != 's' or n < 2):
            return None
        if u[:n] in UNITS:
            return u[:n]
        if u[:n] in NAMES:
            return NAMES[u[:n]]
    return None


def loose(w):
    """only blanks before a final s keep the word from being a unit"""
    while len(w) > 2 and w[-1] == 's':
        w = w[:-1].strip()
        if unit_of(w) is not None:
            return True
    return False


def verdict(h, u):
    w = u.strip()
    want = unit_of(w)
    out = []
    e = raised(lambda: out.append(NORM(u)), ValueError)
    if want is None and loose(w):
        return None                     # unspecified: blanks before the s of a plural
    if want is None:
        h.check(e is not None, 'a word that is no unit', 'refused')
        h.check(raised(lambda: CT.TimeDelta(u), ValueError) is not None, 'a word that is no unit',
                'refused')
        h.reach('refused')
        return None
    h.check(e is None, 'a unit is refused', 'accepted')
    h.check(lambda: out[0] == want, 'the canonical spelling', 'canonical')
    h.check(lambda: NORM(out[0]) == want, 'normalised again', 'idempotent')
    t = CT.TimeDelta(u)
    h.check(lambda: same(t, CT.TimeDelta(want)) and t == CT.TimeDelta(want) and
            hash(t) == hash(CT.TimeDelta(want)), 'spellings of one unit differ', 'spelling')
    h.check(t.unit in UNITS, 'a unit', 'canonical')
    h.reach('accepted')
    return t


def any_text(h):
    """any text of up to four characters"""
    u = h.text('u', 0, h.bound(3, 4), h.bound(((9, 10), (32, 126), (0x7f, 0x2ff)), UNICODE))
    verdict(h, u)


def near_units(h):
    """units and names with any one character changed, and with endings"""
    w = h.pick('w', WORDS)
    k = h.choice('k', len(w) + 1)
    if k < len(w):
        w = h.join([w[:k], h.char('c', BEYOND), w[k + 1:]])
    w = h.join([w, h.pick('end', ['', 's', 'ss', ' ', 's ', 'd', 'S', '\n'])])
    if h.bool('lead'):
        w = h.join([' ', w])
    verdict(h, w)


def as_type(h):
    """the type of a time difference is printed, parsed and converted with its unit"""
    w = h.pick('w', WORDS)
    u = w + h.pick('end', ['', 's'])
    h.assume(unit_of(u) is not None)
    t = verdict(h, u)
    h.check(lambda: same(ds.dshape(str(t)), t), 'printed and parsed')
    h.check(lambda: same(ds.dshape("timedelta[unit='%s']" % u), t), 'spelled out')
    h.check(lambda: same(ds.dshape("timedelta['%s']" % u), t), 'spelled out')
    dt = t.to_numpy_dtype()
    h.check(dt == np.dtype('m8[%s]' % t.unit), 'NumPy type')
    h.check(lambda: same(CT.CType.from_numpy_dtype(dt), t), 'and back')
    h.check(same(CT.TimeDelta(), CT.TimeDelta('us')), 'microseconds by default')


any_text.reach = near_units.reach = ['accepted', 'refused']
as_type.reach = ['accepted']
HARNESSES = [any_text, near_units, as_type]
