""" what is signed here is what is verified here """
from rules_adnl import *
import rules_proto
import engine as E
from engine import walk, mentions, short, mk, last

SAME = {'as_boxed', 'as_equivalent_ref', 'as_equivalent_owned', 'as_slice', 'as_ref', 'deref', 'clone', 'to_vec', 'into', 'borrow', 'as_bytes', 'to_owned', 'copied', 'cloned',
        'as_deref', 'into_boxed_slice', 'as_mut_slice', 'into_owned', 'as_mut', 'deref_mut', 'into_inner'}
EMPTY = ('empty',)


def canon(v, memo=None):
    """ a value in a form in which equal bytes of the protocol look the same: no call sites, no borrowing, ids by the key they belong to """
    memo = {} if memo is None else memo
    if not isinstance(v, tuple) or not v:
        return v
    k = id(v)
    if k in memo:
        return memo[k][1]
    r = canon_(v, memo)
    memo[k] = (v, r)
    return r


def canon_(v, memo):
    c = lambda x: canon(x, memo)
    t = v[0]
    if t == 'const':
        return ('const', int(v[1]) if isinstance(v[1], (bool, int)) else v[1])
    if t in ('arg', 'phi', 'str'):
        return tuple(v[:3])
    if t == 'field':
        x, f = c(v[1]), v[2][1]
        return proj(x, f)
    if t == 'with':
        base = c(v[1])
        ch = {f[1]: c(x) for f, x in v[2]}
        if base[0] == 'agg':
            return ('agg', base[1], base[2], tuple((f, ch.get(f, x)) for f, x in base[3]))
        ch = {f: x for f, x in ch.items() if x != proj(base, f)}
        return ('with', base, tuple(sorted(ch.items(), key=repr))) if ch else base
    if t == 'agg':
        name = (v[2] or '').split('::')[-1]
        if name.endswith('Owned'):
            name = name[:-5]
        fs = tuple((f, c(x)) for f, x in v[4])
        if v[1] == 'array' and not fs:
            return EMPTY
        if name in ('NodeIdShort', 'IdShort') and len(fs) == 1:
            return fs[0][1]
        if name == 'NodeIdFull' and len(fs) == 1:
            return fs[0][1]
        return ('agg', name if v[1] == 'adt' else v[1], v[3], fs)
    if t == 'mut':
        if v[1].endswith('mem::take'):
            return EMPTY
        if v[1].endswith('mem::replace') and v[4]:
            return c(v[4][-1])
        return ('mut', last(v[1]), c(v[2]), tuple(c(x) for x in (v[4] or ())))
    if t == 'call':
        n = last(v[1])
        a = [c(x) for x in v[2]]
        if n in ('default', 'new', 'empty') and not a and not v[1].endswith('Digest>::new'):
            return EMPTY
        if n in ('take', 'replace') and 'mem' in v[1] and a:
            return a[0]
        if n in SAME and len(a) == 1:
            return a[0]
        if n == 'from' and len(a) == 1 and re.search(r'IdShort|IdFull|Bytes|Vec|Cow', v[1]):
            return a[0]
        if n == 'full_id' and len(a) == 1:
            return ('full', a[0])
        if n == 'id' and len(a) == 1 and 'Key' in v[1]:
            return ('short', a[0])
        if n == 'as_tl' and len(a) == 1:
            return ('pub', a[0])
        if n == 'try_from' and len(a) == 1 and a[0][0] == 'pub':
            return ('ok', a[0][1])
        if n == 'compute_short_id' and len(a) == 1 and a[0][0] == 'full':
            return ('short', a[0][1])
        if n == 'decompress' and len(a) == 1 and a[0][0] == 'mut' and a[0][1] == 'compress':
            return ('some', a[0][2])
        if n in ('deref', 'index') and len(a) == 2 and a[1][0] == 'agg' and a[1][1] == 'RangeFull':
            return a[0]
        return ('call', n) + tuple(a)
    if t == 'await':
        return ('await', c(v[1]))
    if t in ('bin', 'un', 'cast'):
        out = (t, v[1]) + tuple(c(x) for x in v[2:])
        if t == 'bin' and all(isinstance(x, tuple) and x[:1] == ('const',) and isinstance(x[1], int) for x in out[2:4]):
            f = {'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'Eq': lambda p, q: int(p == q), 'Ne': lambda p, q: int(p != q), 'Lt': lambda p, q: int(p < q)}.get(out[1])
            if f:
                return ('const', f(out[2][1], out[3][1]))
        return out
    return tuple(c(x) if isinstance(x, tuple) else x for x in v)


def proj(x, f):
    if x[0] == 'agg':
        for g, y in x[3]:
            if g == f:
                return y
    if x[0] == 'with':
        for g, y in x[2]:
            if g == f:
                return y
        return proj(x[1], f)
    if x[0] == 'ok' and f == 'Ok.0':
        return x[1]
    if x[0] == 'some' and f == 'Some.0':
        return x[1]
    if f == 'full_id':
        return ('full', x)
    if f == 'short_id':
        return ('short', x)
    if f == '0' and x[0] in ('full', 'short'):
        return x
    return ('field', x, f)


def path(v):
    """ (root, names) of a chain of fields """
    out = []
    while v[0] == 'field' or v[0] == 'call' and (last(v[1]) in SAME or last(v[1]) == 'take') and len(v[2]) >= 1:
        if v[0] == 'field':
            out.append(v[2][1])
            v = v[1]
        else:
            v = v[2][0]
    return v, tuple(reversed(out))


class Deal(E.Observer):
    """ collects what is signed, what is verified and the objects that carry the signatures """
    maydepth = 7
    part_cap = 60
    inline_spawn = False
    cancel = False
    deep_mut = 14

    def __init__(self):
        self.signed, self.carriers, self.checked = {}, set(), {}
        self.seen = set()

    def relevant(self, f):
        return True

    def inline(self, e, b):
        return not b.file.endswith(('node_id.rs', 'keystore.rs')) and b.file.startswith(('src/overlay', 'src/dht', 'src/proto', 'src/util')) and \
            not b.name.startswith(('distribute', 'send_custom', 'query', 'get_random', 'add_peer', 'write_to', 'read_from', 'max_size_hint', 'encode'))

    def look(self, v):
        if v in self.seen:
            return
        self.seen.add(v)
        for x in walk(v):
            if x[0] == 'agg' and x[1] == 'adt' and any(f == 'signature' for f, y in x[4]):
                s = canon(dict(x[4])['signature'])
                if s[0] == 'call' and s[1] == 'sign':
                    self.carriers.add(x)

    def call(self, e, ctx, st, ev):
        if ev.id and ev.name == 'sign' and 'Key' in ev.p and len(ev.args) == 2:
            self.signed.setdefault((ev.args[0], ev.args[1]), src(e, ctx, ev.line))
        elif ev.id and ev.name == 'verify' and 'NodeIdFull' in ev.p and len(ev.args) == 3:
            facts = tuple(sorted(((k, v) for k, v in st.facts.items() if k[0] in ('bin', 'is')), key=repr))
            heap = tuple(sorted(((k, v) for k, v in st.heap.items() if k[0] == 'field'), key=repr))
            self.checked.setdefault((tuple(ev.args), facts, heap), (src(e, ctx, ev.line), (ctx.body.id, ev.line)))
        for a in ev.args:
            self.look(a)

    def exit(self, e, ctx, st, kind, val):
        if val is not None:
            self.look(val)


def direct(prog, ty, name):
    ids = {b.id for b in methods_of(prog, ty) if b.name == name}
    return [b for b in prog.bodies.values() if b.kind in ('fn', 'coroutine', 'closure') and not b.file.startswith('src/adnl') and any(i in ids or r in ids for p, r, i, t in body_calls(b))]


def overlay_on(w, root, heap):
    """ the object w with the fields that were changed behind its reference """
    for h, v in heap:
        p = []
        x = h
        while x[0] == 'field' and x != root:
            p.append(x[2])
            x = x[1]
        if x == root and p:
            w = put(w, list(reversed(p)), v)
    return w


def put(w, fs, v):
    if not fs:
        return v
    inner = ('field', w, fs[0])
    return ('with', w, ((fs[0], put(inner, fs[1:], v)),))


def try_checks(prog, R):
    """ verifications of received objects: (site, root object, key, data, signature, facts, heap) """
    out, open_ = [], []
    todo, done = [(b, 0) for b in direct(prog, 'NodeIdFull', 'verify')], set()
    while todo:
        b, d = todo.pop()
        if b.id in done:
            continue
        done.add(b.id)
        o = Deal()
        R.run(o, b)
        for (args, facts, heap), (w, site) in sorted(o.checked.items(), key=lambda x: x[1][0]):
            key, data, sig = args
            ks = [x for x in walk(key) if x[0] == 'call' and last(x[1]) == 'try_from']
            sr, sn = path(sig)
            ok = ks and sr[0] == 'arg' and sn and sn[-1] == 'signature'
            if ok:
                kr, kn = path(ks[0][2][0])
                ok = kr == sr and kn[:len(sn) - 1] == sn[:-1]
            if ok:
                root = sr
                for f in sn[:-1]:
                    root = mk('field', root, ('f', f))
                # values that were compared with a field of the received object are that field
                for k, v in sorted(facts, key=repr):
                    if k[:2] == ('bin', 'Eq') and v is True:
                        for a, c in ((k[2], k[3]), (k[3], k[2])):
                            if mentions(a, lambda x: x == root) and not mentions(c, lambda x: x == root) and c[0] != 'const':
                                data = replace(data, c, a)
                out.append((site, w, root, key, data, sig, facts, heap))
            elif d < 3 and sr[0] == 'arg' or not ks and mentions(key, lambda x: x[0] == 'arg'):
                ups = [prog.bodies[i] for i in callers(prog, b.id) if i in prog.bodies and prog.bodies[i].kind != 'promoted']
                todo += [(u, d + 1) for u in ups]
    return out


@rule('P04', 'what this node signs is what its own checks verify: the signed value equals the verified one with the sent object in place of the received one',
      'symbolic comparison of signed and verified values by substitution, provenance of ids and keys',
      'For every object that is signed and sent (overlay and DHT node records, DHT keys and values, broadcasts and their parts) the value handed to the signature, and the value a receiver computes from '
      'the object carrying the signature, are computed symbolically from the source; with the fields of the sent object in place of the received ones they must be the same expression, under the key of the same '
      'identity. A key states the ids of its own secret, signs what it is given, and a signature is accepted exactly when it is valid for the given data.')
def p04(R):
    prog = R.prog
    # identities

    class I(E.Observer):
        maydepth = 5
        part_cap = 50

        def inline(self, e, b):
            return b.file.endswith(('node_id.rs', 'keystore.rs'))

        def relevant(self, f):
            return True

    def plain(v):
        """ NodeIdShort / NodeIdFull / PublicKey conversions removed """
        while True:
            if v[0] == 'agg' and v[1] == 'adt' and v[2].endswith(('NodeIdShort', 'NodeIdFull')) and len(v[4]) == 1:
                v = v[4][0][1]
            elif v[0] == 'call' and last(v[1]) in SAME | {'from'} and len(v[2]) == 1:
                v = v[2][0]
            elif v[0] == 'field' and v[2][1] == '0':
                v = v[1]
            else:
                return v

    def hashed(v):
        v = plain(v)
        if v[0] == 'call' and last(v[1]) == 'hash' and 'tl_proto' in v[1] and v[2]:
            x = v[2][0]
            if x[0] == 'call' and last(x[1]) == 'as_tl':
                return nosites(plain(x[2][0]))
        return None

    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind != 'fn' or not b.file.startswith('src/adnl/'):
            continue
        rt = ret_ty(b)
        short_ = re.search(r'NodeIdShort$', rt) and b.name == 'compute_short_id'
        both = re.match(r'\((.*NodeIdFull), (.*NodeIdShort)\)$', rt)
        key = builds(prog, b, 'Key') and b.file.endswith('keystore.rs')
        if not (short_ or both or key):
            continue
        R.count('functions that state an id')

        class X(I):
            def exit(self, e, ctx, st, kind, val):
                if val is None or kind != 'return':
                    return
                w = one_line(ctx, b.line)
                if short_:
                    R.ob('id/short', hashed(val) == nosites(plain(mk('arg', 1, 'self'))), 'the short id is the hash of the full id (%s)' % short(val)[:120], w)
                    return
                for x in walk(val):
                    if x[0] == 'agg' and (x[1] == 'tuple' and both or x[1] == 'adt' and x[2].endswith('keystore::Key')):
                        d = dict(x[4])
                        full, sh, sec = d.get('full_id', d.get('0')), d.get('short_id', d.get('1')), d.get('secret_key')
                        if full is None or sh is None:
                            continue
                        h = hashed(sh)
                        if h is None and sh[0] == 'call' and last(sh[1]) == 'compute_short_id':
                            h = nosites(plain(sh[2][0]))
                        ok = h is not None and h == nosites(plain(full))
                        f = [y[1] for y in (full, sh) if y[0] == 'field']
                        if not ok and len(f) == 2 and f[0] == f[1] and f[0][0] == 'call' and last(f[0][1]) == 'compute_node_ids':
                            ok = full[2][1] == '0' and sh[2][1] == '1'
                        R.ob('id/pair', ok, 'the short id is the hash of the full id beside it (%s)' % short(x)[:160], w)
                        if sec is not None:
                            u = lambda v: {y for y in walk(v) if y[0] == 'arg'}
                            R.ob('id/secret', bool(u(sec)) and u(sec) == u(full) == u(sh), 'the ids of a key are those of its secret', w)
        R.run(X(), b)
    R.floor('functions that state an id', R.counts.get('functions that state an id', 0), 2)
    for b in methods_of(prog, 'Key'):
        if b.name == 'sign':
            class S(I):
                def exit(self, e, ctx, st, kind, val):
                    if val is None:
                        return
                    v = plain(val)
                    ok = v[0] == 'call' and last(v[1]) == 'sign' and len(v[2]) == 3 and isfield(v[2][0], 'secret_key') and v[2][1] == mk('arg', 2, argnames(b)[1]) and isfield(plain(v[2][2]), 'full_id')
                    R.ob('sign/key', ok, 'a key signs exactly what it is given, with its secret and its public key (%s)' % short(val)[:150], one_line(ctx, b.line))
                    R.count('signing functions')
            R.run(S(), b)
    for b in methods_of(prog, 'NodeIdFull'):
        if b.name == 'verify':
            class W(I):
                def learned(self, e, st, k, v):
                    if k[0] == 'call' and last(k[1]) == 'verify' and len(k[2]) == 3:
                        R.count('verifying functions')
                        d, s = k[2][1], k[2][2]
                        R.ob('verify/what', isfield(k[2][0], '0') and d == mk('arg', 2, argnames(b)[1]) and {y for y in walk(s) if y[0] == 'arg'} == {mk('arg', 3, argnames(b)[2])},
                             'a signature is checked over exactly the given data by the given key')
                        return ['valid' if v is True else 'invalid']

                def exit(self, e, ctx, st, kind, val):
                    if val is not None and val[0] == 'agg' and val[3] in ('Ok', 'Err'):
                        R.ob('verify/%s' % val[3], ('valid' in st.marks) == (val[3] == 'Ok'), 'a signature is accepted exactly when it is valid', one_line(ctx, b.line))
            R.run(W(), b)
    R.floor('signing functions', R.counts.get('signing functions', 0), 1)
    R.floor('verifying functions', R.counts.get('verifying functions', 0), 1)
    # signed and verified values
    checks = try_checks(prog, R)
    signs = {}
    todo, done = [(b, 0) for b in direct(prog, 'Key', 'sign')], set()
    while todo:
        b, d = todo.pop()
        if b.id in done:
            continue
        done.add(b.id)
        o = Deal()
        R.run(o, b)
        for (k, data), w in sorted(o.signed.items(), key=lambda x: repr(x)):
            me = ('call', 'sign', canon(k), canon(data))
            ws = [x for x in o.carriers if canon(dict(x[4])['signature']) == me]
            if ws:
                for x in ws:
                    signs.setdefault((k, data, x), w)
            elif d < 3:
                todo += [(prog.bodies[i], d + 1) for i in callers(prog, b.id) if i in prog.bodies and prog.bodies[i].kind != 'promoted']
    R.floor('signed objects', len({canon(x[2])[1] for x in signs}), 4)
    accepted = set()
    by_sign = {}
    shape = {}
    for (k, data, obj), w in sorted(signs.items(), key=repr):
        want = canon(data)
        kk = ('full', canon(k))
        hit = False
        for c in checks:
            site, cw, root, ckey, cdata, csig, facts, heap = c
            if canon(replace(ckey, root, obj)) != kk:
                continue
            if not possible(facts, root, obj):
                continue
            o2 = overlay_on(obj, root, [(h, replace(v, root, obj)) for h, v in heap])
            if canon(replace(cdata, root, o2)) == want:
                hit = True
                accepted.add(site)
                shape.setdefault(site, {f for f, x in obj[4]})
        o = canon(obj)
        by_sign[(w, o[1], o)] = by_sign.get((w, o[1], o), False) or hit
    for (w, t, o), hit in sorted(by_sign.items(), key=repr):
        if not hit and any(h and x[:2] == (w, t) for x, h in by_sign.items()) and any(x[:1] == ('phi',) for x in inside(o)):
            continue        # a join of objects that are compared on their own
        R.count('signed objects compared')
        R.ob('signed/%s' % t, hit, 'what is signed for %s is what the receiver of it verifies' % t, w)
    for site, w in sorted({(c[0], c[1]) for c in checks}):
        R.count('verifications compared')
        R.ob('verified/%s' % fnm(prog, site[0]), site in accepted, 'the verified value is the one that is signed for the objects this node sends', w)
    S = rules_proto.scheme()
    for c in checks:
        if c[0] in shape:
            layout(R, c, S, shape[c[0]])
    R.floor('hashed descriptions compared', R.counts.get('hashed descriptions compared', 0), 3)
    R.floor('verifications compared', len({c[0] for c in checks}), 4)


def fnm(prog, bid):
    b = prog.bodies[bid]
    return b.name or owner_name(prog, b)


def possible(facts, old, new):
    """ can these branch outcomes occur with new in place of old """
    for k, v in facts:
        x = replace(k, old, new)
        if x == k:
            continue
        r = canon(x[1] if k[0] == 'is' else x)
        if r[0] == 'const' and isinstance(r[1], int):
            if k[0] == 'is':
                v = v[1] if isinstance(v, tuple) else v
                if isinstance(v, int) and int(v) != r[1]:
                    return False
            elif bool(r[1]) != v:
                return False
    return True


# fields of the received object that the parts of a hashed description are made of
PARTS = {'overlay.broadcast.id': {'src': 'src', 'data_hash': 'data', 'flags': 'flags'},
         'overlay.broadcastFec.id': {'src': 'src', 'type': 'fec', 'data_hash': 'data_hash', 'size': 'data_size', 'flags': 'flags'},
         'overlay.broadcastFec.partId': {'broadcast_hash': None, 'data_hash': 'data', 'seqno': 'seqno'}}


def inside(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from inside(x)


def chains(v):
    """ hashes that are fed piece by piece: lists of pieces """
    out = []

    def go(x):
        if not isinstance(x, tuple):
            return
        if x[:2] == ('call', 'finalize') and len(x) == 3:
            ps, y = [], x[2]
            while y[:2] in (('mut', 'update'), ('call', 'chain_update')):
                ps.append((y[3][-1] if y[3] else None) if y[0] == 'mut' else y[3])
                y = y[2]
            out.append(list(reversed(ps)))
        for y in x:
            go(y)
    go(v)
    return out


def of_root(v, root):
    """ names of the fields of root a value is made of; nested hashes are looked at on their own """
    out = set()

    def go(x, top):
        if not isinstance(x, tuple):
            return
        if x[:2] == ('call', 'finalize') and not top:
            return
        if x and x[0] == 'field' and x[1] == root:
            out.add(x[2])
            return
        if x == root:
            out.add('*')
            return
        for y in x:
            go(y, False)
    go(v, False)
    return out


def uses(v, root):
    out = set()

    def go(x):
        if not isinstance(x, tuple):
            return
        if x and x[0] == 'field' and x[1] == root:
            out.add(x[2])
        elif x == root:
            out.add('*')
        else:
            for y in x:
                go(y)
    go(v)
    return out


def layout(R, c, S, fields):
    """ pieces of the hashes of one verification against the protocol scheme, and the fields it covers """
    site, w, root, key, data, sig, facts, heap = c
    cr, cd = canon(root), canon(data)
    flags = mk('field', root, ('f', 'flags'))
    for ps in chains(cd):
        con = None
        if ps and ps[0] and ps[0][:2] == ('call', 'to_le_bytes') and ps[0][2][0] == 'const':
            con = next((x for x in S.values() if x.id == ps[0][2][1]), None)
        if con is None or con.name not in PARTS:
            R.ob('hash/constructor', False, 'a hashed description starts with the constructor of the protocol scheme (%s)' % (ps[:1],), w)
            continue
        R.count('hashed descriptions compared')
        R.ob('hash/%s/fields' % con.name, len(ps) == 1 + len(con.fields), 'the description %s has %d fields, %d pieces are hashed' % (con.name, len(con.fields), len(ps) - 1), w)
        for (f, ty, bit), a in zip(con.fields, ps[1:]):
            us = of_root(a, cr)
            want = PARTS[con.name][f]
            num = a[:2] == ('call', 'to_le_bytes')
            ok = (ty == 'int') == num
            if want is None:
                ok = ok and a[:2] == ('call', 'finalize')
            elif f == 'src':
                mine = us == {'src'} and a[0] == 'call' and a[1] == 'compute_short_id'
                zero = not us and 'repeat' in str(a) and "('const', 0)" in str(a)
                ok = ok and (mine and not possible(facts, flags, mk('const', 1, 'u32')) or zero and not possible(facts, flags, mk('const', 0, 'u32')))
            elif f == 'flags':
                ok = ok and (us == {want} or a == ('call', 'to_le_bytes', ('const', 1)))
            else:
                ok = ok and us == {want}
            if any(x[:1] == ('call',) and x[1] in ('index', 'get', 'split_at', 'get_unchecked', 'take', 'chunks') and len(x) > 3 for x in inside(a)):
                ok = False
            R.ob('hash/%s/%s' % (con.name, f), ok, 'piece %s of the hashed description %s (%s)' % (f, con.name, str(a)[:160]), w)
    used = uses(cd, cr)
    for k, v in facts:
        used |= uses(canon(k[1] if k[0] == 'is' else k), cr)
    kn = path([x for x in walk(key) if x[0] == 'call' and last(x[1]) == 'try_from'][0][2][0])[1]
    miss = set() if '*' in used else fields - used - {'signature', 'certificate', kn[-1]}
    R.ob('covered/%s' % fnm(R.prog, site[0]), not miss, 'the signature covers every field of the received object (not covered: %s)' % sorted(miss), w)
