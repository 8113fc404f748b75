"""C28: the message of a failed comparison leads to the difference, in both operands"""
import re
A = ds.util.testing.assert_dshape_equal
STEP = re.compile(r"""\.([a-z]+)|\[([0-9]+)\]|\[('[^']*'|"[^"]*")\]""")
ASPECT = {'encoding': 'check_str_encoding', 'fixlen': 'check_str_fixlen', 'tz': 'check_tz',
          'unit': 'check_timedelta_unit', 'shape': 'check_dim'}


def follow(x, path):
    """the part that a path leads to; None where it leads nowhere"""
    i = 0
    steps = []
    while i < len(path):
        m = STEP.match(path, i)
        if m is None:
            return None, steps
        i = m.end()
        if m.group(1):
            if not hasattr(x, m.group(1)):
                return None, steps
            x = getattr(x, m.group(1))
            steps.append(m.group(1))
        elif m.group(2):
            if not isinstance(x, (tuple, list)) or int(m.group(2)) >= len(x):
                return None, steps
            x = x[int(m.group(2))]
            steps.append(int(m.group(2)))
        else:
            if not isinstance(x, CT.Record) or m.group(3)[1:-1] not in x.names:
                return None, steps
            x = x[m.group(3)[1:-1]]
            steps.append(m.group(3)[1:-1])
    return x, steps


def innermost(p, q, fl):
    """do the parts differ themselves, rather than some part of theirs"""
    if type(p) is not type(q):
        return True
    if isinstance(p, CT.DataShape):
        return len(p.shape) != len(q.shape)
    if isinstance(p, CT.Record):
        names = [n for n in p.names], [n for n in q.names]
        return (names[0] != names[1] if fl['check_record_order'] else
                sorted(names[0]) != sorted(names[1]))
    if isinstance(p, CT.Tuple):
        return len(p.dshapes) != len(q.dshapes)
    if isinstance(p, CT.Function):
        return len(p.parameters) != len(q.parameters)
    return not isinstance(p, (CT.Option, CT.Map, CT.Units, CT.Categorical))


def message(h, a, b, fl):
    """compare a and b both ways and follow the path of the message"""
    kw = dict((k, v) for k, v in fl.items() if not v)
    differ = False
    for x, y in ((a, b), (b, a)):
        e = raised(lambda: A(x, y, **kw), AssertionError)
        if e is None:
            continue
        differ = True
        text = str(e)
        at = text.rfind('\n')
        last = h.pin(text[at + 1:])
        h.check(at > 0 and (last == '' or last[:7] == 'path: _'), 'a message ends with the path',
                'form')
        path = last[7:]
        p, s = follow(x, path)
        q, t = follow(y, path)
        h.check(s == t and (p is not None or q is not None), 'the path leads nowhere', 'nowhere')
        if isinstance(p, CT.Mono) and isinstance(q, CT.Mono):
            h.check(not agree(p, q, fl), 'the path leads to equal parts', 'equal')
            h.check(innermost(p, q, fl) or s[-2:-1] == ['shape'],
                    'the path stops before the difference', 'short')
        else:
            h.check(not isinstance(p, CT.Mono) and not isinstance(q, CT.Mono) and p != q,
                    'the path leads to equal parts', 'equal')
            k = ASPECT.get(s[-1])
            up = follow(x, path[:path.rfind('.')])[0]
            h.check(k is None or fl[k] or isinstance(up, CT.Units),
                    'the path leads to an aspect that is ignored', 'ignored')
    h.reach('different' if differ else 'equal')


def leaf(h, p, k=None):
    if k is None:
        k = h.choice(p, 10)
    if k == 0:
        return CT.DataShape(CT.String(h.int(p + 'l', 0, 9), h.pick(p + 'e', ['U8', 'A'])))
    if k == 1:
        return CT.DataShape(CT.DateTime(h.char(p + 'tz', ((97, 99),))))
    if k == 2:
        return CT.DataShape(CT.TimeDelta(h.pick(p + 'u', ['us', 'ns'])))
    if k == 3:
        return CT.DataShape(CT.Fixed(h.int(p + 'm', 0, 3)), CT.Var(),
                            CT.Fixed(h.int(p + 'n', 0, 3)), CT.int32)
    if k == 4:
        return CT.DataShape(CT.Fixed(h.int(p + 'n', 0, 9)), CT.string)
    if k == 5:
        return CT.DataShape(CT.Units(h.char(p + 'un', ((97, 99),)),
                                     CT.DataShape(CT.Fixed(h.int(p + 'n', 0, 3)), CT.float64)))
    if k == 6:
        return CT.DataShape(CT.Categorical([h.int(p + 'n', 0, 3)], CT.int8, h.bool(p + 'o')))
    if k == 7:
        return CT.DataShape(CT.Decimal(h.int(p + 'n', 1, 9), h.int(p + 's', 0, 3)))
    if k == 8:
        return CT.DataShape(CT.TypeVar(h.char(p + 'tv', ((65, 67),))))
    return CT.DataShape(CT.Time())


def flags(h):
    fl = dict((f, True) for f in FLAGS)
    k = h.choice('flag', len(FLAGS) + 1)
    if k:
        fl[FLAGS[k - 1]] = False
    return fl


NAMES = ['a', 'x y', "it's", 'Z', '']


def wrap(n, kind, x):
    d = CT.DataShape(CT.int8)
    if kind == 'option':
        return CT.DataShape(CT.Option(x))
    if kind == 'record':
        return CT.DataShape(CT.Record([('k', d), (n, x), ('m', d)]))
    if kind == 'rows':
        return CT.DataShape(CT.Var(), CT.Record([('k', x)]))
    if kind == 'tuple':
        return CT.DataShape(CT.Tuple([d, x, d]))
    if kind == 'argument':
        return CT.DataShape(CT.Function(d, x, d))
    if kind == 'result':
        return CT.DataShape(CT.Function(d, x))
    if kind == 'key':
        return CT.DataShape(CT.Map(x, d))
    return CT.DataShape(CT.Map(d, x))


WRAPS = ['option', 'record', 'rows', 'tuple', 'argument', 'result', 'key', 'value']


def leaves(h):
    """every pair of element types"""
    message(h, leaf(h, 'a'), leaf(h, 'b'), flags(h))


def nested(h):
    """a difference inside composite types"""
    k = h.choice('k', 10)
    a = leaf(h, 'a', k)
    b = leaf(h, 'b', k) if k else leaf(h, 'b', h.pick('other', [0, 4, 8]))
    fl = dict((f, True) for f in FLAGS)
    if h.bool('flag'):
        fl[['check_str_fixlen', 'check_tz', 'check_timedelta_unit', 'check_dim', 'check_dim',
            'check_dim'][k] if k < 6 else 'check_record_order'] = False
    for i in range(1 + h.choice('depth', h.bound(2, 3))):
        w = h.pick('w%d' % i, WRAPS)
        n = h.pick('name%d' % i, NAMES[:h.bound(3, 5)]) if w == 'record' else ''
        a, b = wrap(n, w, a), wrap(n, w, b)
    message(h, a, b, fl)


def siblings(h):
    """the first of several differences, in whatever component it is"""
    def mk(p, kind):
        ls = [CT.DataShape(CT.Fixed(h.int('%s%d' % (p, i), 0, 2)), CT.int8) if i != 1 else
              CT.DataShape(CT.String(h.int('%s%d' % (p, i), 0, 2)))
              for i in range(2 + h.choice(p + 'n', 2))]
        if kind == 0:
            names = h.pick(p + 'names', [['a', 'b', 'c'], ['b', 'a', 'c'], ['a', 'c', 'b']])
            return CT.DataShape(CT.Record(list(zip(names, ls))))
        if kind == 1:
            return CT.DataShape(CT.Tuple(ls))
        return CT.DataShape(CT.Function(*ls))
    k = h.choice('k', 3)
    a, b = mk('a', k), mk('b', k)
    if h.bool('deep'):
        a, b = CT.DataShape(CT.Option(a)), CT.DataShape(CT.Option(b))
    message(h, a, b, flags(h))


leaves.reach = nested.reach = siblings.reach = ['equal', 'different']


def many(h):
    """a difference in one of many parts or levels"""
    k, dims, j, x = long_type(h, 'x', dims='sv')
    fl = flags(h)
    d = gen_dim(h, 'y', 'sv')
    if k == 'record' and h.bool('names'):
        # long names with characters of any kind
        ns = ['the %d. name, a long one%s' % (i, h.pick('c', ['', ' ', '"', ']', '.ty', '[0]', '\xe9']) if i == j else '')
              for i in range(len(dims))]
        a, b = [CT.Record([(q, CT.DataShape(e, CT.int8)) for q, e in zip(ns, z)])
                for z in (dims, dims[:j] + [d] + dims[j + 1:])]
        message(h, CT.DataShape(a), CT.DataShape(b), fl)
        return
    message(h, x, build_long(k, dims[:j] + [d] + dims[j + 1:]), fl)
    message(h, x, build_long(k, dims[:j] + [None] + dims[j + 1:]), fl)
    if k in ('record', 'tuple', 'function'):
        message(h, x, build_long(k, dims[:j] + dims[j + 1:]), fl)


many.reach = ['equal', 'different']


HARNESSES = [leaves, nested, siblings, many]
