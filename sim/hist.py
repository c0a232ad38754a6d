"""Seeded generation of histories: which documents there are, how they are
delivered and which operations an application performs on them."""
from .corpus import Gen
from .tables import jref
from .world import KINDS, FAILING

REF_KINDS = {
    'A': ('Schema', 'Parameter', 'ParameterDef', 'Response', 'ResponseDef', 'PathItem'),
    'C': ('Schema', 'Parameter', 'Response', 'PathItem', 'Example', 'RequestBody',
          'Header', 'SecurityScheme', 'Link', 'Callback'),
}


def scheme_of(transport, rng):
    if transport == 'file':
        return 'file'
    return rng.choice(['http', 'http', 'https'])


def scenario(rng, prop, mode, knobs=None, transport=None, fmt='json'):
    """(scenario without operations, generator)"""
    transport = transport or 'getter'
    k = {'scheme': scheme_of(transport, rng)}
    k['slashes'] = transport in ('getter', 'dict', 'http') and prop != 'C17'
    k.update(knobs or {})
    g = Gen(rng, mode, k).build()
    st = g.styles(fmt)
    sc = {'prop': prop, 'mode': mode, 'root': g.root, 'transport': transport,
          'locale': 'utf-8',
          'docs': {u: {'doc': g.docs[u], 'style': st[u], 'kind': g.meta[u]}
                   for u in g.docs}, 'ops': []}
    if rng.random() < 0.3:
        sc['plain'] = True
    if transport == 'dict' and rng.random() < 0.5:
        sc['iterators'] = True
    if transport in ('getter', 'dict') and rng.random() < 0.2:
        sc['behind'] = True
    if g.hot:
        sc['hot'] = g.hot
    return sc, g


def b_target(g, n):
    """kind under which a 2.0 location may be asked for at 3.0.0, or None"""
    loc, kind = n[0], n[1]
    url, toks = loc
    raw = g.raw(loc)
    if g.meta[url] == 'full':
        if kind == 'Schema':
            return 'Schema'
        if kind == 'ParameterDef':
            return 'ParameterDef'
        if kind in ('ResponseDef', 'SecurityScheme'):
            return kind
        if kind == 'PathItem' and toks[0] == 'paths':
            return kind
        if kind == 'Parameter' and toks[0] == 'paths' and toks[-2] == 'parameters':
            # a body moves into every operation: no single element to name
            while isinstance(raw.get('$ref'), str):
                return kind if param_final(g, loc).get('in') not in ('body', 'formData') else None
            return kind if raw.get('in') not in ('body', 'formData') else None
        return None
    if kind == 'Schema':
        return kind if g.b_schema_ok(loc) else None
    if kind == 'PathItem':
        return kind
    return None


def param_final(g, loc):
    from .model import Model
    m = Model(g.docs, g.version)
    f = m.final(loc, 'Parameter')
    return m.raw(f) if f else {}


def targets(g, mode):
    """[(loc, kind)] which may be asked for explicitly"""
    out = []
    for n in g.nodes:
        if mode == 'B':
            k = b_target(g, n)
            # external full documents are only asked for once they are open
            if k and (n[0][0] == g.root or g.meta[n[0][0]] != 'full' or k == 'Schema'):
                out.append((n[0], k))
        elif n[1] in REF_KINDS[mode]:
            out.append((n[0], n[1]))
    return out


def resolve_op(loc, kind, **kw):
    op = {'op': 'resolve', 'url': loc[0], 'toks': list(loc[1]), 'kind': kind}
    op.update(kw)
    return op


def needed(g, url):
    from .model import Model
    from .session import ROOTKIND
    return Model(g.docs, g.version).docs_needed([((url, ()), ROOTKIND[g.version])])


def miss_op(rng, g, loc, kind):
    """a pointer which leaves the document somewhere on the way to one that exists"""
    url, toks = loc
    at = rng.randint(0, len(toks))
    name = 'no-such-name'
    if rng.random() < .5:
        # or an array ends before
        lists = []
        cur = g.docs[url]
        for n, tok in enumerate(toks):
            if isinstance(cur, list):
                lists.append((n, str(len(cur) + rng.choice([0, 0, 1, 1000]))))
            cur = cur[int(tok)] if isinstance(cur, list) else cur[tok]
        if lists:
            at, name = rng.choice(lists)
            toks = toks[:at] + toks[at + 1:]
    toks = toks[:at] + (name,) + toks[at + rng.choice([0, 0, 1]):]
    return resolve_op((url, toks), kind, op='miss')


def history(rng, sc, g, n=None, gc=True, rd=0.0, drop=0.0, split=0.3,
            repeat=0.15, opens=True, tail=True, again=0.06, via=0.15, at2=0.25, miss=0.06, first=0.12):
    """append a random history to the scenario"""
    mode, root = sc['mode'], sc['root']
    ts = targets(g, mode)
    # bias towards locations that are referenced by someone
    used = set(getattr(g, 'used', ()))
    hot = [t for t in ts if t[0] in used]
    fulls = [u for u in g.docs if g.meta[u] == 'full' and u != root]
    ops = []
    pend = []

    direct = [(x[0], x[1]) for x in g.nodes if x[1] in REF_KINDS['A']] \
        if mode == 'B' and rng.random() < at2 else []
    via = via if sc['transport'] in ('getter', 'dict') and rng.random() < 0.4 else 0
    short = rng.choice([0, 0, 0.3])
    parts = rng.choice([0, 0, 0.15, 0.4])

    def flag(op):
        if rd and rng.random() < rd:
            op['rd'] = True
        if via and op['op'] in ('open', 'load') and rng.random() < 3 * via:
            op['via'] = rng.choice(['dict', 'dict', 'class', 'simple'])
        if op['op'] == 'resolve' and op['url'] == root and op['toks'] and rng.random() < short:
            # the root document may be left out
            op['jref'] = jref('', op['toks'])
        if op['op'] == 'resolve' and rng.random() < 0.15:
            op['np'] = True
        if op['op'] == 'resolve' and 'jref' not in op and rng.random() < parts:
            op['direct'] = True
        return op

    n = rng.choice([0, 1, 2, 3, 4, 6]) if n is None else n
    pre = 0
    if mode != 'B' and rng.random() < split:
        ops.append(flag({'op': 'load', 'url': root}))
        pend.append(root)
        pre = rng.randint(0, n)
    else:
        ops.append(flag({'op': 'open', 'url': root}))
    opened = {root}
    past = []
    if opens and fulls and first and rng.random() < first:
        # another document comes first
        u = rng.choice(fulls)
        if mode != 'B' or root not in needed(g, u):
            opened.add(u)
            ops.insert(0, flag({'op': 'open', 'url': u, 'first': True}))
            if mode != 'B' and rng.random() < 0.5:
                for _ in range(rng.choice([0, 1, 2, 3])):
                    if ts:
                        at = [t for t in ts if t[0][0] == u]
                        ops.insert(1, flag(resolve_op(*rng.choice(at if at and rng.random() < 0.5 else ts))))
    for i in range(n):
        if pend and i >= pre and root in pend:
            ops.append({'op': 'migrate', 'url': root})
            pend.remove(root)
        x = rng.random()
        if gc and x < 0.1:
            ops.append({'op': 'gc'})
            continue
        if drop and x < 0.1 + drop:
            ops.append({'op': 'drop'})
            continue
        rest = [u for u in fulls if u not in opened]
        if opens and rest and rng.random() < 0.3:
            u = rng.choice(rest)
            opened.add(u)
            if mode != 'B' and rng.random() < split:
                ops.append(flag({'op': 'load', 'url': u}))
                pend.append(u)
            else:
                ops.append(flag({'op': 'open', 'url': u}))
            continue
        if past and rng.random() < repeat:
            ops.append(dict(rng.choice(past)))
            if rng.random() < 0.5:
                ops[-1]['np'] = True
            continue
        if ts and rng.random() < miss:
            ops.append(miss_op(rng, g, *rng.choice(ts)))
            continue
        if rng.random() < again:
            done = sorted(u for u in opened if u not in pend)
            if done:
                op = {'op': 'migrate', 'url': rng.choice(done)}
                x = rng.random()
                if x < 0.4:
                    op['done'] = True
                elif x < 0.6 and mode != 'B':
                    op = flag(dict(op, op='open'))
                ops.append(op)
                continue
        if direct and rng.random() < 0.3:
            ops.append(resolve_op(*rng.choice(direct), to='2.0'))
            continue
        if not ts:
            continue
        loc, kind = rng.choice(hot if hot and rng.random() < 0.6 else ts)
        op = flag(resolve_op(loc, kind))
        ops.append(op)
        past.append(op)
    if tail:
        for u in pend:
            ops.append({'op': 'migrate', 'url': u})
    if g.wide:
        # lots of them, and then the first ones again
        some = rng.sample(g.wide, rng.choice([len(g.wide), len(g.wide) * 3 // 4]))
        for loc in some + [loc for loc in rng.sample(g.wide2, min(len(g.wide2), 5))]:
            ops.append(resolve_op(loc, 'Schema'))
        if rng.random() < 0.5:
            ops.append({'op': 'gc'})
        for loc in rng.sample(some, min(len(some), 4)):
            ops.append(resolve_op(loc, 'Schema', np=True))
    if root.startswith('file://') and rng.random() < 0.3:
        # the way people name a local file
        for op in ops:
            if op['op'] in ('open', 'load', 'migrate', 'resolve') and 'jref' not in op and rng.random() < 0.6:
                op['plain'] = True
    sc['ops'] = ops
    return sc


def arm(rng, sc, prob=0.5, kinds=None, prepare=0.0, steps=0.0, maxn=6):
    """arm faults on some operations of the history"""
    avail = kinds or KINDS[sc['transport']]
    k = rng.sample(avail, min(len(avail), rng.choice([1, 2, 3, len(avail)])))
    urls = list(sc['docs'])
    for op in sc['ops']:
        if op['op'] not in ('open', 'load', 'migrate', 'resolve'):
            continue
        if rng.random() >= prob:
            continue
        fs = op['faults'] = []
        x = rng.random()
        if x < prepare:
            fs.append({'at': 'prepare', 'n': rng.choice([0, 0, 1, 2, 3, 5]),
                       'kind': rng.choice(['error', 'interrupt', 'memory'])})
            continue
        if x < prepare + steps:
            fs.append({'at': 'step', 'n': int(10 ** rng.uniform(0, 4.3)),
                       'kind': rng.choice(['interrupt', 'memory'])})
            if rng.random() < 0.3:
                # when one more function is entered for the first time
                fs[-1].update(n=rng.randint(1, 130), fn=True)
            continue
        for _ in range(rng.choice([1, 1, 2])):
            # cut somewhere, or just before the end
            frac = rng.random() if rng.random() < 0.5 else 1 - 10 ** rng.uniform(-3, -1)
            f = {'kind': rng.choice(k), 'frac': round(frac, 4), 'v': rng.randrange(10)}
            if rng.random() < 0.6:
                f.update(at='fetch', n=rng.choice([0, 0, 1, 1, 2, 3, maxn]))
            else:
                f.update(at='url', url=sc['hot'] if sc.get('hot') and rng.random() < 0.6 else rng.choice(urls))
            if f['kind'] == 'torn' and rng.random() < 0.5:
                f['silent'] = True
            fs.append(f)
    return sc
