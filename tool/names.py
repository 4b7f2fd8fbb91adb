"""Private names are not behaviour. The rules speak of functions, fields, arguments and types by the names they have in the tree the
rules were written for (names.json, written by mknames.py). When one of these is missing in the tree at hand, the item that took its
place (same owner, same signature or shape, most similar use of other items) is given the old name before the rules see the program.
Only lookups are affected: what an item does is always taken from the current source."""
import json, os, re
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))


def callees(b):
    c = Counter()
    for blk in b['blocks']:
        t = blk['t']
        if t and t[0] == 'call' and isinstance(t[1], dict):
            k = t[1].get('k')
            if k and 'fn' in k:
                c[k['fn']['p']] += 1
    return c


def summary(facts):
    fns, adts = [], {}
    kids = {}
    for b in facts['bodies']:
        if b['kind'] in ('coroutine', 'closure'):
            kids.setdefault(b['parent'], []).append(b)
    for b in facts['bodies']:
        if b['kind'] != 'fn' or b.get('trait'):
            continue
        c = callees(b)
        todo = list(kids.get(b['id'], ()))
        while todo:
            x = todo.pop()
            c += callees(x)
            todo += kids.get(x['id'], ())
        fns.append({'id': b['id'], 'path': b['path'], 'file': b['file'], 'ty': (b.get('self_ty') or '').split('<')[0], 'name': b['name'], 'line': b['line'],
                    'sig': [l[0] for l in b['locals'][1:b['argc'] + 1]] + [b['locals'][0][0]],
                    'args': [l[1] for l in b['locals'][1:b['argc'] + 1]], 'calls': dict(c)})
    for n, a in facts['adts'].items():
        if a.get('local'):
            adts[n] = {'kind': a['kind'], 'variants': [[v['name'], [[f[0], f[1]] for f in v['fields']]] for v in a['variants']]}
    ups = {}
    for b in facts['bodies']:
        if b['kind'] in ('coroutine', 'closure') and b.get('upvars'):
            ups[b['id']] = {'upvars': b['upvars'], 'calls': dict(callees(b))}
    return {'fns': fns, 'adts': adts, 'captured': ups}


def similar(a, b):
    a, b = Counter(a), Counter(b)
    u = sum((a | b).values())
    return sum((a & b).values()) / u if u else 1.0


def rename_types(base, facts, text):
    """types that are missing and types that are new, with the same fields"""
    cur = {n: a for n, a in facts['adts'].items() if a.get('local')}
    gone = [n for n in base['adts'] if n not in cur]
    new = [n for n in cur if n not in base['adts']]
    if not gone or not new:
        return {}
    out = {}

    def shape(vs, own):
        return [[(f[0], re.sub(r'\b%s\b' % re.escape(own.split('::')[-1]), '@', f[1])) for f in v[1]] for v in vs]

    for g in gone:
        gs = shape(base['adts'][g]['variants'], g)
        best = []
        for n in new:
            a = cur[n]
            ns = shape([[v['name'], v['fields']] for v in a['variants']], n)
            if a['kind'] != base['adts'][g]['kind'] or len(ns) != len(gs):
                continue
            k = sum(len(v) for v in gs) or 1
            same = sum(1 for v, w in zip(gs, ns) for x in v if x[0] in {y[0] for y in w}) / k
            vn = sum(1 for v, w in zip(base['adts'][g]['variants'], a['variants']) if v[0] == w['name'] or v[0] == g.split('::')[-1])
            if g.rsplit('::', 1)[0] == n.rsplit('::', 1)[0] or g.rsplit('::', 1)[1] == n.rsplit('::', 1)[1]:
                same += 0.2
            best.append((same + (0.5 * vn / max(1, len(gs))), n))
        best.sort(reverse=True)
        if best and best[0][0] >= 0.8 and (len(best) == 1 or best[0][0] > best[1][0]) and best[0][1] not in out:
            out[best[0][1]] = g
    return out


def canon(facts, text):
    """facts with the names of the base; the list of what was renamed"""
    p = os.path.join(HERE, 'names.json')
    if not os.path.exists(p):
        return facts, []
    with open(p) as f:
        base = json.load(f)
    done = []
    ts = rename_types(base, facts, text)
    if ts:
        for n, g in sorted(ts.items(), key=lambda x: -len(x[0])):
            text = re.sub(r'(?<![\w:])%s(?!\w)' % re.escape(n), lambda m: g, text)
            # variants of a struct carry its name
            done.append('type %s is %s' % (n, g))
        facts = json.loads(text)
        for n, g in ts.items():
            a = facts['adts'].get(g)
            if a and a['kind'] == 'struct':
                for v in a['variants']:
                    if v['name'] == n.split('::')[-1]:
                        v['name'] = g.split('::')[-1]
            s, d = n.split('::')[-1], g.split('::')[-1]
            if s != d:
                facts['impls'] = json.loads(json.dumps(facts['impls']))
    # fields
    fmap = {}
    vmap = {}
    for n, a in facts['adts'].items():
        b = base['adts'].get(n)
        if not b or not a.get('local') or len(b['variants']) != len(a['variants']):
            continue
        for bv, av in zip(b['variants'], a['variants']):
            if bv[0] != av['name'] and a['kind'] == 'enum' and bv[0] not in [v['name'] for v in a['variants']] and av['name'] not in [v[0] for v in b['variants']]:
                vmap[(n, av['name'])] = bv[0]
        for av in a['variants']:
            nm = vmap.get((n, av['name']), av['name'])
            bv = next((v for v in b['variants'] if v[0] == nm), b['variants'][0] if a['kind'] == 'struct' else None)
            if bv is None:
                continue
            have = {f[0] for f in av['fields']}
            old = {f[0] for f in bv[1]}
            gone = [f for f in bv[1] if f[0] not in have]
            new = [f for f in av['fields'] if f[0] not in old]
            for t in {f[1] for f in gone}:
                gs = [f for f in gone if f[1] == t]
                ns = [f for f in new if f[1] == t]
                if len(gs) == len(ns):
                    for x, y in zip(gs, ns):
                        fmap[(n, av['name'], y[0])] = x[0]
                        done.append('field %s of %s is %s' % (y[0], n, x[0]))
    fm2 = {}
    for (n, v, y), x in fmap.items():
        fm2[(n, y)] = x
    if fmap or vmap:
        for n, a in facts['adts'].items():
            for v in a['variants']:
                for f in v['fields']:
                    f[0] = fmap.get((n, v['name'], f[0]), f[0])
                if (n, v['name']) in vmap:
                    done.append('variant %s of %s is %s' % (v['name'], n, vmap[(n, v['name'])]))
                    v['name'] = vmap[(n, v['name'])]

        def fix(x):
            if isinstance(x, list):
                if len(x) >= 4 and x[0] == 'f' and isinstance(x[3], str):
                    o = x[3].split('<')[0]
                    if (o, x[2]) in fm2:
                        x[2] = fm2[(o, x[2])]
                elif len(x) >= 6 and x[0] == 'agg' and x[1] == 'adt' and isinstance(x[2], str):
                    o = x[2].split('<')[0]
                    x[4] = [fmap.get((o, x[3], f), f) for f in x[4]]
                    x[3] = vmap.get((o, x[3]), x[3])
                for y in x:
                    fix(y)
            elif isinstance(x, dict):
                for y in x.values():
                    fix(y)
        for b in facts['bodies']:
            fix(b['blocks'])
        if vmap:
            alln = {k[1] for k in vmap}

            def fixv(x):
                # downcasts name the variant only
                if isinstance(x, list):
                    if len(x) >= 3 and x[0] == 'v' and x[2] in alln:
                        c = {d for (n, v), d in vmap.items() if v == x[2]}
                        if len(c) == 1:
                            x[2] = next(iter(c))
                    for y in x:
                        fixv(y)
                elif isinstance(x, dict):
                    for y in x.values():
                        fixv(y)
            for b in facts['bodies']:
                fixv(b['blocks'])
    # functions
    cur = summary(facts)['fns']
    key = lambda f: (f['ty'], f['name'], f['file'] if not f['ty'] else '')
    bk = {key(f): f for f in base['fns']}
    ck = {key(f): f for f in cur}
    gone = [f for f in base['fns'] if key(f) not in ck]
    new = [f for f in cur if key(f) not in bk]
    gone_p = {f['path'] for f in gone}
    new_p = {f['path'] for f in new}

    def stable(c, drop):
        return {k: v for k, v in c.items() if k not in drop}
    pairs = []
    for i, g in enumerate(gone):
        for j, n in enumerate(new):
            if g['ty'] != n['ty'] or g['file'] != n['file'] and not g['ty']:
                continue
            anon = lambda s, f: [re.sub(r'\{[^}]*\}', '{}', re.sub(r"'\w+", "'_", x)).replace('::' + f['name'] + '(', '::@(') for x in s]
            ss = anon(g['sig'], g) == anon(n['sig'], n)
            if not ss and sorted(anon(g['sig'], g)[:-1]) != sorted(anon(n['sig'], n)[:-1]):
                continue
            s = similar(stable(g['calls'], gone_p), stable(n['calls'], new_p))
            pos = abs(i / max(1, len(gone)) - j / max(1, len(new)))
            pairs.append((-(s + (1 if ss else 0) + (0.2 if g['args'] == n['args'] else 0)) + pos * 0.01, i, j, s))
    pairs.sort()
    gi, nj, ren = set(), set(), []
    for sc, i, j, s in pairs:
        if i in gi or j in nj or s < 0.34:
            continue
        gi.add(i)
        nj.add(j)
        ren.append((new[j], gone[i]))
    if ren:
        paths = {n['path']: (n, g) for n, g in ren}
        ids = {n['id']: (n, g) for n, g in ren}
        for n, g in ren:
            done.append('function %s is %s' % (n['path'], g['name']))
        seg = lambda s, n, g: s[:len(s) - len(n['name'])] + g['name'] if s.endswith(n['name']) else s
        pm = {p: seg(p, n, g) for p, (n, g) in paths.items()}
        im = {p: seg(p, n, g) for p, (n, g) in ids.items()}
        order = sorted(list(pm) + list(im), key=len, reverse=True)
        allm = dict(pm)
        allm.update(im)
        rx = re.compile('|'.join(re.escape(x) for x in order))
        names_ = {n['name'] for n, g in ren}

        def fixs(x):
            if isinstance(x, list):
                return [fixs(y) for y in x]
            if isinstance(x, dict):
                return {fixs(k): fixs(v) for k, v in x.items()}
            if isinstance(x, str) and any(m in x for m in names_):
                return rx.sub(lambda m: allm[m.group(0)] if not re.match(r'\w', x[m.end():m.end() + 1]) and not re.search(r'\w$', x[:m.start()]) else m.group(0), x)
            return x
        bynew = {im[n['id']]: g['name'] for n, g in ren}
        facts = fixs(facts)
        for b in facts['bodies']:
            i = re.sub(r'#\d+$', '', b['id'])
            if i in bynew and b.get('name'):
                b['name'] = bynew[i]
    # arguments
    um = {}
    kids = {}
    for b in facts['bodies']:
        if b.get('parent'):
            kids.setdefault(b['parent'], []).append(b)
    norm = lambda s: [re.sub(r"'\w+", "'_", x) for x in s]
    for b in facts['bodies']:
        if b['kind'] != 'fn' or b.get('trait'):
            continue
        g = bk.get(((b.get('self_ty') or '').split('<')[0], b['name'], b['file'] if not b.get('self_ty') else ''))
        if not g:
            continue
        sig = [l[0] for l in b['locals'][1:b['argc'] + 1]]
        args = [l[1] for l in b['locals'][1:b['argc'] + 1]]
        if norm(sig) != norm(g['sig'][:-1]) or args == g['args']:
            continue
        if any(x not in args and x in g['args'] and x is None for x in g['args']):
            continue
        if set(args) == set(g['args']):
            continue        # the same names in another order: names tell, not places
        m = {x: y for x, y in zip(args, g['args']) if x and y and x != y and y not in args}
        if not m:
            continue
        done += ['argument %s of %s is %s' % (x, b['path'], y) for x, y in m.items()]
        for n, l in enumerate(b['locals']):
            if l[1] in m and 1 <= n <= b['argc']:
                l[1] = m[l[1]]
        todo = list(kids.get(b['id'], ()))
        while todo:
            x = todo.pop()
            for y in x.get('upvars') or ():
                pre = y[:6] if y.startswith('_ref__') else ''
                if y[len(pre):] in m:
                    um.setdefault(x['id'], {})[y] = pre + m[y[len(pre):]]
            todo += kids.get(x['id'], ())
    # captured variables
    for b in facts['bodies']:
        g = base['captured'].get(b['id'])
        if not g or b['kind'] not in ('closure', 'coroutine') or not b.get('upvars'):
            continue
        have = [um.get(b['id'], {}).get(u, u) for u in b['upvars']]
        if have == g['upvars'] or len(have) != len(g['upvars']) or similar(callees(b), g['calls']) < 0.5:
            continue
        gone = [x for x in g['upvars'] if x not in have]
        new = [x for x in b['upvars'] if um.get(b['id'], {}).get(x, x) not in g['upvars']]
        if len(gone) == len(new):
            um.setdefault(b['id'], {}).update(zip(new, gone))
            done += ['captured %s in %s is %s' % (x, b['path'], y) for x, y in zip(new, gone)]
    if um:
        def up(y):
            if isinstance(y, list):
                if len(y) >= 4 and y[0] == 'f' and isinstance(y[3], str) and y[3].startswith('(closure)'):
                    y[2] = um.get(y[3][9:], {}).get(y[2], y[2])
                elif len(y) >= 5 and y[0] == 'agg' and y[1] in ('closure', 'coroutine') and y[2] in um:
                    y[4] = [um[y[2]].get(z, z) for z in y[4]]
                for z in y:
                    up(z)
            elif isinstance(y, dict):
                for z in y.values():
                    up(z)
        for b in facts['bodies']:
            m = um.get(b['id'])
            if m:
                b['upvars'] = [m.get(u, u) for u in b['upvars']]
                for l in b['locals']:
                    l[1] = m.get(l[1], l[1])
            up(b['blocks'])
    return facts, done
