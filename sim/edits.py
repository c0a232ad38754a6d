"""Edits an application may perform on what it was given."""
from .model import real


def alive(x):
    try:
        return real(x)
    except ReferenceError:
        return None


def reach(roots, limit=400):
    """library objects reachable from the given ones, in a fixed order"""
    out, seen, todo = [], set(), [r for r in map(alive, roots) if r is not None]
    while todo and len(out) < limit:
        x = todo.pop(0)
        if id(x) in seen:
            continue
        seen.add(id(x))
        out.append(x)
        kids = []
        if hasattr(x, 'get_attrs'):
            for name in sorted(type(x).__children__):
                kids.append(getattr(x, name))
            at = x.get_attrs('migration')
            if at is not None:
                kids += [getattr(at, 'ref_obj', None), getattr(at, 'final_obj', None)]
        elif hasattr(x, 'keys'):
            kids = [x[k] for k in sorted(x.keys(), key=str)]
        else:
            kids = list(x)
        for k in kids:
            try:
                if hasattr(k, 'get_children'):
                    todo.append(real(k))
            except ReferenceError:
                pass        # cut off by an earlier edit
    return out


def scribble(roots, rng, share=0.5):
    """change a good part of everything reachable; returns how many changes"""
    n = 0
    for x in reach(roots):
        if rng.random() > share:
            continue
        if hasattr(x, 'get_attrs'):
            spec = x.spec
            for k in sorted(spec, key=str):
                v = spec[k]
                y = rng.random()
                if y < 0.3:
                    continue
                # in place, inside whatever the field holds
                if isinstance(v, list) and k not in type(x).__children__:
                    v.append('scribble')
                    n += 1
                elif isinstance(v, dict) and k not in type(x).__children__:
                    v['scribble'] = 'x'
                    n += 1
                elif isinstance(v, str) and k not in ('$ref',):
                    spec[k] = v + ' scribbled'
                    n += 1
                elif isinstance(v, (dict, list)) and y < 0.6:
                    # raw data below a child
                    if isinstance(v, dict):
                        v['scribble'] = {'description': 'x'}
                    else:
                        v.append('scribble')
                    n += 1
            if getattr(x, 'ref', None) and rng.random() < 0.3:
                try:
                    x.ref = 'http://scribble.sim/x.json#/nowhere'
                    n += 1
                except AttributeError:
                    x.spec['$ref'] = 'http://scribble.sim/x.json#/nowhere'
                    n += 1
            names = sorted(type(x).__children__)
            have = [nm for nm in names if getattr(x, nm) is not None]
            if len(have) > 1 and rng.random() < 0.2:
                a, b = (alive(getattr(x, nm)) for nm in rng.sample(have, 2))
                if a is not None and type(a) is type(b):
                    setattr(x, next(nm for nm in have if alive(getattr(x, nm)) is a), b)
                    n += 1
        elif hasattr(x, 'keys'):
            ks = sorted(x.keys(), key=str)
            if ks:
                x['scribbled'] = x[rng.choice(ks)]
                if rng.random() < 0.5:
                    x[ks[0]] = x[rng.choice(ks)]
                n += 1
        elif len(x):
            x.append(x[0])
            n += 1
    return n
