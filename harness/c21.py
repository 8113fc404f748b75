"""C21: the graph helpers order, group and close any small graph correctly"""
I = ds.internal_utils
D = ds.discovery


def graph(h, n, loops):
    """adjacency of an arbitrary directed graph: adj[i][j] means i -> j"""
    return [[h.bool('e%d%d' % (i, j)) if loops or i != j else False for j in range(n)]
            for i in range(n)]


def closure(adj):
    n = len(adj)
    r = [[adj[i][j] or i == j for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if r[i][k] and r[k][j]:
                    r[i][j] = True
    return r


def cyclic(adj):
    r = closure(adj)
    n = len(adj)
    for i in range(n):
        for j in range(n):
            if adj[i][j] and r[j][i]:
                return True
    return False


def toposort(h):
    """any graph of up to four nodes: an order of all nodes, or a refusal of cycles"""
    n = 1 + h.choice('n', h.bound(3, 4))
    adj = graph(h, n, True)
    names = [(7 * i + 3) % 10 for i in range(n)]       # any node names
    edges = dict((names[i], tuple([names[j] for j in range(n) if adj[i][j]])) for i in range(n))
    bad = cyclic(adj)
    out = []
    e = raised(lambda: out.append(I._toposort(edges)), ValueError)
    h.check((e is not None) == bad, 'cycles are refused, other graphs are not')
    if bad:
        h.reach('cyclic')
        return
    order = out[0]
    h.check(sorted(order) == sorted(names), 'every node once')
    for i in range(n):
        for j in range(n):
            if adj[i][j]:
                h.check(order.index(names[i]) < order.index(names[j]), 'an edge points back')
    h.reach('ordered')


def toposort_sinks(h):
    """nodes without an entry of their own are part of the order"""
    n = 1 + h.choice('n', h.bound(2, 3))
    to = [[h.bool('e%d%d' % (i, j)) for j in range(3)] for i in range(n)]
    edges = dict(('s%d' % i, set('t%d' % j for j in range(3) if to[i][j])) for i in range(n))
    order = I._toposort(edges)
    sinks = ['t%d' % j for j in range(3) if any(to[i][j] for i in range(n))]
    h.check(sorted(order) == sorted(list(edges) + sinks), 'every node once')
    for i in range(n):
        for j in range(3):
            if to[i][j]:
                h.check(order.index('s%d' % i) < order.index('t%d' % j), 'an edge points back')
    r = I.reverse_dict(edges) if hasattr(I, 'reverse_dict') else {}
    h.check(not hasattr(I, 'reverse_dict') or sorted(r) == sorted(sinks), 'reversed edges')
    for j in range(3):
        if 't%d' % j in r:
            h.check(sorted(r['t%d' % j]) == ['s%d' % i for i in range(n) if to[i][j]],
                    'reversed edges')
    h.check(sorted(edges) == ['s%d' % i for i in range(n)], 'the graph is changed')
    h.reach('done')


def descendents(h):
    """exactly the nodes that can be reached, also in graphs with cycles"""
    n = 1 + h.choice('n', h.bound(3, 4))
    adj = graph(h, n, h.tier == 'quick')
    d = dict((i, set(j for j in range(n) if adj[i][j])) for i in range(n) if any(adj[i]))
    x = h.choice('x', n)
    r = closure(adj)
    got = D.descendents(d, x)
    h.check(sorted(got) == [j for j in range(n) if r[x][j]], 'reachable nodes')
    h.check(sorted(D.descendents(d, 99)) == [99], 'an unknown node')
    h.reach('cyclic' if cyclic(adj) else 'acyclic')


def groups(h):
    """items are grouped by key, in order, none lost"""
    n = h.choice('n', h.bound(4, 5))
    xs = [h.int('x%d' % i, -50, 50) for i in range(n)]
    m = h.pick('m', [2, 3])
    g = I.groupby(lambda x: x % m, xs)
    got = []
    for k in g:
        h.check(lambda: 0 <= k < m and len(g[k]) > 0, 'a key')
        want = [x for x in xs if x % m == k]
        h.check(lambda: g[k] == want, 'items of a key, in order')
        got.extend(g[k])
    h.check(len(got) == n, 'items are lost')
    if hasattr(I, 'remove'):
        left = list(I.remove(lambda x: x > 0, xs))
        h.check(lambda: left == [x for x in xs if not x > 0], 'remove')
    f = I.IndexCallable(lambda x: x + 1)
    y = h.int('y', -50, 50)
    h.check(lambda: f[y] == y + 1, 'index syntax')
    h.reach('done')


toposort.reach = ['cyclic', 'ordered']
descendents.reach = ['cyclic', 'acyclic']
toposort_sinks.reach = groups.reach = ['done']


def long_graphs(h):
    """a longer chain of nodes in any numbering with any one edge more, also one that closes a
    cycle"""
    n = h.bound(5, 4) + h.choice('n', h.bound(3, 6))
    r = h.choice('r', n)
    names = [(3 * i + r) % n if n % 3 else (i + r) % n for i in range(n)]
    if h.bool('reverse'):
        names.reverse()
    to = [[names[i + 1]] if i + 1 < n else [] for i in range(n)]
    a, b = h.choice('a', n), h.choice('b', n)
    if names[b] not in to[a]:
        to[a].append(names[b])
    cut = h.choice('cut', n)
    if cut + 1 < n:
        to[cut].remove(names[cut + 1])
    pos = dict((names[i], i) for i in range(n))
    adj = [[names[j] in to[i] for j in range(n)] for i in range(n)]
    bad = cyclic(adj)
    own = h.bool('own')                 # sinks have an entry of their own
    edges = dict((names[i], tuple(to[i])) for i in range(n) if to[i] or own)
    out = []
    e = raised(lambda: out.append(I._toposort(edges)), ValueError)
    h.check((e is not None) == bad, 'cycles are refused, other graphs are not')
    if not bad:
        order = out[0]
        h.check(len(set(order)) == len(order), 'every node once')
        for i in range(n):
            for m in to[i]:
                h.check(order.index(names[i]) < order.index(m), 'an edge points back')
    reach = closure(adj)
    for x in range(n):
        got = D.descendents(dict((k, set(edges[k])) for k in edges), names[x])
        h.check(sorted(got) == sorted(names[j] for j in range(n) if reach[x][j]), 'reachable nodes')
    if hasattr(I, 'reverse_dict'):
        back = I.reverse_dict(dict((k, set(edges[k])) for k in edges))
        h.check(sorted((k, sorted(back[k])) for k in back) ==
                sorted((names[j], sorted(names[i] for i in range(n) if adj[i][j]))
                       for j in range(n) if any(adj[i][j] for i in range(n))), 'reversed edges')
    h.reach('cyclic' if bad else 'ordered')


def long_groups(h):
    """more items under more keys of any kind: in the order of the items, none lost or doubled"""
    n = 3 + h.choice('n', h.bound(5, 8))
    m = 1 + h.choice('m', h.bound(4, 6))
    kind = h.pick('kind', ['number', 'text', 'pair', 'none'])
    odd = h.int('x', 0, 9)
    i = h.choice('i', n)
    xs = [(q * q + 1) % m for q in range(n)]
    xs[i] = odd

    def key(x):
        r = x % m
        return {'number': r, 'text': 'k' * r, 'pair': (r, None)}.get(kind) if kind != 'none' or r else None
    distinct = h.bool('distinct')
    items = [(x, q if distinct else 0) for q, x in enumerate(xs)]
    g = I.groupby(lambda p: key(p[0]), iter(items) if h.bool('iter') else items)
    keys = []
    for x in xs:
        k = key(x)
        if k not in keys:
            keys.append(k)
    h.check(lambda: len(g) == len(keys) and all(k in g for k in keys), 'the keys')
    for k in keys:
        h.check(lambda: g[k] == [p for p in items if key(p[0]) == k], 'items of a key, in order')
    h.reach('done')


long_graphs.reach = ['cyclic', 'ordered']
long_groups.reach = ['done']


HARNESSES = [toposort, toposort_sinks, descendents, groups, long_graphs, long_groups]
