"""Rules for the DHT layer."""
import re
from lib import *
import engine as E
from engine import mk
from rules_adnl import (nosites, table_op, marks_of, spawned, callee, unsome, root_of, replace, walk_phi, builds, argnames, is_now, has_arg_any)
from rules_rldp import task_of, direct_callers, fname_of, public_roots
from rules_overlay import vm, closure_true, Nodes, has_cbarg, origins, isf, cnt, sets, handler

DHT = 'src/dht/'
OWN = ('as_equivalent_owned', 'as_equivalent_ref', 'to_owned', 'clone', 'to_vec', 'into', 'from', 'as_boxed', 'into_boxed', 'deref', 'borrow', 'as_ref', 'as_slice',
       'to_vec_in', 'into_boxed_slice', 'copied', 'cloned', 'into_vec', 'as_deref')
VALUE = ('key', 'value', 'ttl')
KEYDESC = ('key', 'id', 'update_rule')
NODE = ('id', 'addr_list', 'version')


def canon(e, v, memo=None):
    """a value without component updates that change nothing"""
    memo = {} if memo is None else memo
    if not isinstance(v, tuple) or not v:
        return v
    r = memo.get(v)
    if r is not None:
        return r
    t = v[0]
    if t == 'with':
        base = canon(e, v[1], memo)
        ov = []
        for p, x in v[2]:
            y = canon(e, x, memo)
            if y != canon(e, e.project(base, p), memo):
                ov.append((p, y))
        r = mk('with', base, tuple(sorted(ov, key=str))) if ov else base
    elif t == 'call':
        r = mk('call', v[1], tuple(canon(e, x, memo) for x in v[2]), *v[3:])
    elif t == 'mut':
        r = mk('mut', v[1], canon(e, v[2], memo), v[3], tuple(canon(e, x, memo) for x in v[4]))
    elif t == 'agg':
        r = mk('agg', v[1], v[2], v[3], tuple((f, canon(e, x, memo)) for f, x in v[4]))
        # a record rebuilt from all fields of another one
        ws = {x[1] for f, x in r[4] if x[0] == 'field' and x[2] == ('f', f)}
        if v[1] == 'adt' and len(ws) == 1 and len(r[4]) > 1 and all(x[0] == 'field' and x[2] == ('f', f) for f, x in r[4]):
            r = ws.pop()
    elif t == 'field':
        b = canon(e, v[1], memo)
        r = e.project(b, v[2]) if b[0] in ('with', 'agg') else mk('field', b, v[2])
        if r[0] != 'field':
            r = canon(e, r, memo)
    else:
        r = mk(*(canon(e, x, memo) if isinstance(x, E.V) else x for x in v)) if t in ('bin', 'un', 'cast', 'discr', 'await', 'poll') else v
    memo[v] = r
    return r


def peel(v):
    """a value behind conversions that keep its content"""
    d = 0
    while d < 20:
        d += 1
        if v[0] == 'call' and last(v[1]) in OWN and v[2]:
            v = v[2][0]
        elif v[0] == 'agg' and last(v[2] or '') == 'BoxedWrapper' and len(v[4]) == 1:
            v = v[4][0][1]
        elif v[0] == 'cast':
            v = v[2]
        else:
            break
    return v


def empty_sig(v):
    v = peel(v)
    return iscall(v, 'default', 'new', 'empty') and not v[2] or v[0] in ('const', 'str') and v[1] in ('', '[]', b'', '""', '&[]', 0) or v[0] == 'agg' and not v[4]


def covers(e, m, x, fields):
    """m is the record x with an empty signature"""
    if not empty_sig(canon(e, e.project(m, ('f', 'signature')))):
        return False
    return all(canon(e, peel(canon(e, e.project(m, ('f', f))))) == canon(e, fld(x, f)) for f in fields)


def pair(a, b):
    return mk('agg', 'tuple', '', '', (('0', a), ('1', b)))


def fst(p):
    return p[4][0][1]


def snd(p):
    return p[4][1][1]


def fld(x, *fs):
    for f in fs:
        x = mk('field', x, ('f', f))
    return x


def is_hash(v, x):
    """v is the hash of x"""
    v = peel(v)
    return v[0] == 'call' and last(v[1]) in ('hash', 'hash_as_boxed', 'compute_short_id') and v[2] and peel(v[2][0]) == x


GATE = ('signed', 'mine', 'live', 'dead')


class Vals(Nodes):
    """marks what was established about a DHT value, a DHT node record or the records of an overlay list"""
    maydepth = 8
    part_cap = 400
    files = (DHT, 'src/overlay/overlay_id.rs')

    def __init__(self):
        self.gates = {}         # closure -> what holds of every element it lets through
        self.ungates = {}       # ... of every element it does not
        self.pushes = {}

    def inline(self, e, b):
        return b.file.startswith(self.files)

    def ret(self, e, ctx, st, ev):
        b = ctx.body
        if b.kind == 'closure' and ctx.site and ctx.site[0] == 'cb':
            r = ev.result
            for pol in (True, False):
                cand = set(st.marks)
                if r[0] in ('bin', 'un', 'call'):
                    # the result is a comparison: what it says when it has this outcome
                    x, q = r, pol
                    while x[0] == 'un' and x[1] == 'Not':
                        x, q = x[2], not q
                    cand |= set(self.learned(e, st, x, q) or ())
                elif pol != (closure_true(r) and not (r[0] == 'agg' and r[3] == 'Err')):
                    continue
                ms = {m[1] for m in cand if isinstance(m, tuple) and m[0] == 'v' and m[1] in GATE and has_cbarg(m[2])}
                h = (self.gates if pol else self.ungates).setdefault(b.id, set(GATE))
                h &= ms

    def call(self, e, ctx, st, ev):
        if ev.name in ('push', 'push_back') and 'Vec' in ev.p:
            good = {t for t in ('signed', 'mine') if any(mentions(ev.args[1], lambda y: y == x) for x in vm(st, t))}
            self.pushes.setdefault(ev.site, {'signed', 'mine'}).intersection_update(good)

    def iterated(self, e, ctx, st, it, some):
        """a loop over all records, each verified"""
        ns = [y for y in walk_phi(e, it) if isfield(y, 'nodes')]
        if not ns or has_call(it, 'filter', 'filter_map', 'skip', 'take', 'step_by', 'skip_while', 'take_while', 'map_while'):
            return
        m = st.marks
        if 'pending' in m and 'verified element' not in m:
            m = m | {'skipped'}
        m = m - {'pending', 'verified element'}
        if some:
            return m | {'pending'}
        if 'skipped' not in m:
            m = m | {('v', 'all', canon(e, y)) for y in ns}
        return m - {'skipped'}

    def gate(self, x):
        """a filter which lets only verified records through"""
        args = x[4] if x[0] == 'mut' else x[2][1:]
        return any(a[0] == 'agg' and a[1] == 'closure' and self.gates.get(a[2], set()) >= {'signed', 'mine'} for a in args)

    def unverified(self, e, v, stop):
        """what stop() picks among the origins of v that are not behind a filter or a check"""
        seen, st, out = set(), [v], []
        while st:
            x = st.pop()
            if not isinstance(x, tuple) or x in seen:
                continue
            seen.add(x)
            if x and isinstance(x[0], str):
                if x[0] == 'mut' and last(x[1]) in ('retain', 'retain_mut') and self.gate(x) or \
                        x[0] == 'call' and last(x[1]) in ('filter', 'filter_map', 'extract_if') and self.gate(x):
                    continue
                if x[0] == 'mut' and last(x[1]) in ('push', 'push_back') and self.pushes.get(x[3]) == {'signed', 'mine'}:
                    st.append(x[2])
                    continue
                if stop(x):
                    out.append(x)
                    continue
                if x[0] == 'phi' and e.phi_src.get(x):
                    st.extend(e.phi_src[x])
                    continue
            st.extend(y for y in x if isinstance(y, tuple))
        return out

    def learned(self, e, st, k, v):
        ms = [m for m in Nodes.learned(self, e, st, k, v) or () if m != 'bad']
        if k[0] == 'var' and v == 'Ok' and k[1][0] == 'call' and last(k[1][1]) in ('verify', 'verify_raw') and len(k[1][2]) == 3:
            key, what, sig = k[1][2]
            s = canon(e, sig)
            s = peel(s)
            if isfield(s, 'signature'):
                x = s[1]
                m = peel(what)
                kf = {canon(e, y) for y in walk(key) if isfield(y, 'id')}
                if fld(x, 'id') in kf and (covers(e, m, x, KEYDESC) or covers(e, m, x, NODE)) or fld(x, 'key', 'id') in kf and covers(e, m, x, VALUE):
                    ms.append(('v', 'signed', x))
        if k[0] == 'var' and isinstance(v, str):
            x = canon(e, k[1])
            if isfield(x, 'update_rule') and isfield(x[1], 'key'):
                ms.append(('v', 'rule ' + v, x[1][1]))
            if isfield(x, 'update_rule'):
                ms.append(('v', 'krule ' + v, x[1]))
            if isfield(x, 'id') and isfield(x[1], 'key') and v == 'Overlay':
                ms.append(('v', 'overlay key', x[1][1]))
            if v == 'Ok' and k[1][0] == 'call' and last(k[1][1]) == 'parse_address_list':
                a = canon(e, peel(k[1][2][0]))
                if isfield(a, 'addr_list'):
                    ms.append(('v', 'address', a[1]))
            it = k[1]
            if v == 'Ok' and iscall(it, 'try_for_each', 'try_fold') and self.gate(it):
                for y in walk_phi(e, it):
                    if isfield(y, 'nodes'):
                        ms.append(('v', 'all', canon(e, y)))
        if k[0] == 'call' and v is True and last(k[1]) == 'all' and self.gate(k) or k[0] == 'call' and v is False and last(k[1]) == 'any' and False:
            for y in walk_phi(e, k):
                if isfield(y, 'nodes'):
                    ms.append(('v', 'all', canon(e, y)))
        if k[0] == 'call' and v is True and last(k[1]) == 'contains' and k[2][0][0] in ('call', 'agg', 'phi'):
            r, y = canon(e, k[2][0]), canon(e, peel(k[2][1]))
            if iscall(y, 'len') and isfield(peel(y[2][0]), 'name') and any(isfield(z, 'max_key_name_len') for z in walk(r)):
                ms.append(('v', 'name', peel(y[2][0])[1]))
        if k[0] == 'call' and v is True and last(k[1]) == 'is_empty':
            x = canon(e, peel(k[2][0]))
            if isfield(x, 'signature'):
                ms.append(('v', 'unsigned', x[1]))
        for op, a, c in [r for k1, v1 in origins(e, k, v) for r in rels(k1, v1)]:
            a, c = canon(e, uncast(a)), canon(e, uncast(c))
            if op == '<' and is_now(a) and isfield(c, 'ttl'):
                ms.append(('v', 'live', c[1]))
            if op == '<=' and is_now(c) and isfield(a, 'ttl'):
                ms.append(('v', 'dead', a[1]))
            if op in ('<', '<='):
                if iscall(a, 'len') and isfield(peel(a[2][0]), 'name') and isfield(c, 'max_key_name_len'):
                    ms.append(('v', 'name', peel(a[2][0])[1]))
                if isfield(a, 'idx') and isfield(c, 'max_key_index'):
                    ms.append(('v', 'idx', a[1]))
            if op == '==':
                for x, y in ((a, c), (c, a)):
                    x, y = peel(x), peel(y)
                    if isfield(x, 'id') and isfield(x[1], 'key') and isfield(x[1][1], 'key') and is_hash(y, fld(x[1][1], 'id')):
                        ms.append(('v', 'owner', x[1][1][1]))
                    if iscall(x, 'len') and y[0] == 'const' and not y[1] and isfield(peel(x[2][0]), 'signature'):
                        ms.append(('v', 'unsigned', peel(x[2][0])[1]))
                    if isfield(x, 'key') and isfield(x[1], 'key') and y[0] == 'agg':
                        d = dict(y[4])
                        if 'name' in d and is_nodes(d['name']) and d.get('idx', ('', 1))[0] == 'const' and not d['idx'][1]:
                            ms.append(('v', 'list key', x[1][1]))
                    if isfield(x, 'name') and is_nodes(y) and isfield(x[1], 'key') and isfield(x[1][1], 'key'):
                        ms.append(('v', 'list name', x[1][1][1]))
                    if isfield(x, 'idx') and y[0] == 'const' and not y[1] and isfield(x[1], 'key') and isfield(x[1][1], 'key'):
                        ms.append(('v', 'list idx', x[1][1][1]))
                    if isfield(x, 'update_rule') and y[0] == 'agg' and y[3]:
                        if isfield(x[1], 'key'):
                            ms.append(('v', 'rule ' + y[3], x[1][1]))
                        ms.append(('v', 'krule ' + y[3], x[1]))
                    if x[0] == 'call' and last(x[1]) in ('hash_as_boxed', 'hash') and isfield(peel(x[2][0]), 'key') and isfield(peel(x[2][0])[1], 'key'):
                        ms.append(('v', 'asked', pair(peel(x[2][0])[1][1], y)))
        both = [set(vm(st, t)) | {m[2] for m in ms if isinstance(m, tuple) and m[:2] == ('v', t)} for t in ('signed', 'mine')]
        if 'pending' in st.marks and both[0] & both[1]:
            ms.append('verified element')
        return self.extra(e, st, k, v, ms)

    def extra(self, e, st, k, v, ms):
        return tuple(ms) or None


def is_nodes(v):
    v = peel(v)
    return v[0] in ('str', 'const') and isinstance(v[1], str) and v[1].strip('"') == 'nodes'


def storage_maps(R):
    """names of the table fields of the storage"""
    for n, a in R.prog.adts.items():
        if n.endswith('storage::Storage'):
            return [f for f, t in a['variants'][0]['fields'] if 'DashMap' in t or 'HashMap' in t]
    raise Missing('dht::storage::Storage not found')


def storage_roots(R, ops):
    """bodies that change the table of values, as entry points callable from elsewhere"""
    prog = R.prog
    ms = storage_maps(R)
    st = [b for b in prog.bodies.values() if b.kind != 'promoted' and b.file.endswith('dht/storage.rs')]
    direct = set()
    for b in st:
        if any('dashmap' in p.lower() and last(p) in ops for p, r, i, t in body_calls(b)):
            direct.add(b.id)
    ids = {b.id for b in st}
    roots, seen, todo = set(), set(), list(direct)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        cs = [c for c in callers(prog, x) if c in ids]
        if prog.bodies[x].kind == 'closure' or cs:
            todo += cs
        if not cs or prog.bodies[x].kind == 'fn' and [c for c in callers(prog, x) if c not in ids]:
            if prog.bodies[x].kind == 'fn':
                roots.add(x)
    return [prog.bodies[x] for x in sorted(roots)]


def storage_op(ev, maps):
    if 'dashmap' not in ev.p.lower():
        return None
    op = table_op(ev)
    if op and (op[1] in maps or any(isf(x, *maps) for x in walk(ev.args[0]))):
        return op
    return None


RULE_NAMES = ('Signature', 'OverlayNodes', 'Anybody')


@rule('D01', 'every insertion into the storage lies behind the expiry, name, index and owner checks of the value it stores and the check of its update rule',
      'guard facts per value (marks) at every change of the table, provenance of the stored record, gate analysis of filtering closures',
      'Every function that can add to the table of DHT values is followed from its entry points. At each insertion the record stored is the value '
      'handed in, field by field, under the hash of its key, and on that path its expiry is later than now, the length of its name and its index '
      'are within the configured limits, its key id is the hash of its owner, and: for the signature rule the signatures of both the key and the value were '
      'verified with the key of the owner over the record with an empty signature; for overlay lists both signatures are empty, the owner is an overlay, '
      'the key is the one of member lists, and every record that goes into the stored list passed a filter that verifies it; for open values nothing is stored.')
def d01(R):
    maps = storage_maps(R)
    roots = storage_roots(R, ('insert', 'entry', 'or_insert', 'or_insert_with', 'alter', 'get_mut', 'iter_mut', 'try_entry', 'insert_entry', 'or_default'))
    R.floor('entry points that add values', len(roots), 1)

    class O(Vals):
        def call(self, e, ctx, st, ev):
            r = Vals.call(self, e, ctx, st, ev)
            if r is not None:
                return r
            w = src(e, ctx, ev.line)
            op = storage_op(ev, maps)
            if 'dashmap' in ev.p.lower() and ev.name in ('alter', 'alter_all', 'iter_mut', 'clear', 'get_mut') and ev.args and isf(root_of(ev.args[0]), *maps):
                R.fail('store/%s' % ev.name, 'stored values are changed in place without a check', w)
            if not op or op[0] != 'insert' or op[3] is None:
                return
            R.count('insertions')
            s = peel(op[3])
            t = peel(canon(e, e.project(s, ('f', 'ttl'))))
            if not R.ob('store/ttl', isfield(t, 'ttl') and not has_call(t[1], 'get', 'entry'), 'the expiry stored is that of the value, got %s' % short(t)[:80], w):
                return
            b = t[1]

            def known(tag, x):
                return any(y == x for y in vm(st, tag))
            for tag, x, m in (('live', b, 'a value is stored only while its expiry is later than now'), ('name', fld(b, 'key', 'key'), 'the length of the key name is within the limit'),
                              ('idx', fld(b, 'key', 'key'), 'the index is within the limit'), ('owner', b, 'the key id is the hash of the owner of the value')):
                R.ob('store/%s' % tag, known(tag, x), m, w)
            R.ob('store/under', op[2] is not None and is_hash(canon(e, op[2]), fld(b, 'key', 'key')), 'a value is stored under the hash of its own key, got %s' % short(op[2])[:60], w)
            for f in ('key', 'signature'):
                R.ob('store/field %s' % f, peel(canon(e, peel(e.project(s, ('f', f))))) == fld(b, f), 'the %s stored is the one that was checked' % f, w)
            rules = [r for r in RULE_NAMES if known('rule ' + r, b)]
            R.ob('store/rule', rules in (['Signature'], ['OverlayNodes']), 'a value is stored only under an update rule that can be checked, got %s' % rules, w)
            val = peel(canon(e, peel(e.project(s, ('f', 'value')))))
            if rules == ['Signature']:
                R.ob('signed/key', known('signed', fld(b, 'key')), 'the signature of the key description was verified with the key of its owner', w)
                R.ob('signed/value', known('signed', b), 'the signature of the value was verified with the key of its owner', w)
                R.ob('signed/field value', val == fld(b, 'value'), 'the data stored is the data that was signed', w)
                R.count('signed insertions')
            if rules == ['OverlayNodes']:
                R.ob('list/unsigned', known('unsigned', b) and known('unsigned', fld(b, 'key')), 'a member list carries no signatures', w)
                R.ob('list/owner', known('overlay key', b), 'a member list belongs to an overlay', w)
                R.ob('list/key', known('list key', b) or known('list name', b) and known('list idx', b), 'a member list is stored under the name and index of member lists', w)
                v0 = e.project(s, ('f', 'value'))
                if any(y == canon(e, z) for y in vm(st, 'all') for z in walk_phi(e, v0)):
                    bad = []
                elif val == fld(b, 'value'):
                    bad = [] if any(mentions(y, lambda z: z == fld(b, 'value')) for y in vm(st, 'all')) else [val]
                else:
                    bad = self.unverified(e, v0, lambda x: x[0] == 'call' and last(x[1]) in ('deserialize', 'deserialize_as_boxed', 'read_from') and
                                          any(canon(e, y) == fld(b, 'value') for a in x[2] for y in walk_phi(e, a)) or x[0] == 'field' and x[2] == ('f', 'value') and canon(e, x) == fld(b, 'value'))
                lists.append((w, e, v0, bad))
                R.count('list insertions')
    lists = []
    for r in roots:
        o = O()
        R.run(o, r)
    for w, e, v0, bad in lists:
        R.ob('list/members', not bad, 'every record of a stored member list was verified for its overlay, unverified: %s' % [short(x)[:60] for x in bad], w)
    for x, n in (('insertions', 2), ('signed insertions', 1), ('list insertions', 1)):
        R.floor(x, R.counts.get(x, 0), n)


@rule('D03', 'a stored value is replaced through its entry only, behind the fact that the new one expires later',
      'guard facts at every replacement, atomicity of entry operations',
      'Every change of the table of DHT values goes through an entry that is held while it is read and written. A signed value replaces the '
      'occupant of that same entry only with the fact that the expiry of the occupant is earlier than that of the new value; a member list only when '
      'its expiry is not earlier, or the occupant has expired. Merging member lists keeps the record with the later version.')
def d03(R):
    merged = {}
    maps = storage_maps(R)
    roots = storage_roots(R, ('insert', 'entry', 'or_insert', 'or_insert_with', 'alter', 'get_mut', 'iter_mut', 'try_entry', 'insert_entry', 'or_default', 'remove', 'clear'))

    class O(Vals):
        def extra(self, e, st, k, v, ms):
            for op, a, c in [r for k1, v1 in origins(e, k, v) for r in rels(k1, v1)]:
                a, c = uncast(a), uncast(c)
                if op in ('<', '<='):
                    if isfield(a, 'ttl') and iscall(a[1], 'get', 'get_mut', 'value', 'deref') and isfield(c, 'ttl'):
                        ms.append(('v', 'older' if op == '<' else 'not newer', pair(a[1], canon(e, c[1]))))
                    if isfield(a, 'ttl') and is_now(c) and iscall(a[1], 'get', 'get_mut', 'value', 'deref'):
                        ms.append(('v', 'expired', a[1]))
                    if isfield(a, 'version') and isfield(c, 'version'):
                        ms.append(('v', 'version', pair(a[1], c[1])))
            if k[0] == 'var' and v in ('Vacant', 'Occupied') and iscall(k[1], 'entry', 'try_entry'):
                ms.append(('v', v, k[1]))
            return tuple(ms) or None

        def carried(self, e, st, v):
            return st.marks | {('v', 'carried', y) for y in walk_phi(e, v) if iscall(y, 'deserialize_as_boxed', 'deserialize', 'read_from') and has_call(y, 'entry', 'try_entry')}

        def iterated(self, e, ctx, st, it, some):
            m = Vals.iterated(self, e, ctx, st, it, some)
            return (m if m is not None else st.marks) | self.carried(e, st, it)

        def call(self, e, ctx, st, ev):
            r = Vals.call(self, e, ctx, st, ev)
            if r is not None:
                return r
            w = src(e, ctx, ev.line)
            if ev.name in ('collect', 'from_iter', 'extend', 'for_each', 'append', 'chain') and ev.args:
                m = self.carried(e, st, ev.args[-1])
                if m != st.marks:
                    return m
            op = storage_op(ev, maps)
            if op and op[0] == 'insert':
                ent = [x for x in walk(ev.args[0]) if iscall(x, 'entry', 'try_entry')]
                R.ob('atomic', bool(ent), 'values are stored through an entry, so that comparison and replacement are one step', w)
                if not ent:
                    return
                R.count('stores')
                if 'vacant' in ev.p.lower() or ev.name.startswith('or_'):
                    R.count('stores into vacant places')
                    return
                s = peel(op[3])
                t = peel(canon(e, e.project(s, ('f', 'ttl'))))
                b = t[1] if isfield(t, 'ttl') else None

                def cmp(tag):
                    return any(mentions(fst(y), lambda z: z == ent[0]) and snd(y) == b for y in vm(st, tag))
                signed = any(y == b for y in vm(st, 'rule Signature'))
                if signed:
                    R.ob('signed/newer', cmp('older'), 'a signed value replaces the stored one only when it expires strictly later', w)
                    R.count('replacements of signed values')
                else:
                    ok = cmp('older') or cmp('not newer') or any(mentions(y, lambda z: z == ent[0]) for y in vm(st, 'expired'))
                    parts = list(walk_phi(e, op[3]))
                    if not any(mentions(y, lambda z: z == ent[0]) for y in vm(st, 'expired')):
                        old = [y for y in parts if iscall(y, 'deserialize_as_boxed', 'deserialize', 'read_from') and mentions(y, lambda z: z == ent[0])]
                        cut = [y for y in parts if y[0] in ('call', 'mut') and last(y[1]) in ('take', 'skip', 'step_by', 'truncate', 'pop', 'swap_remove', 'clear', 'nth', 'last') and any(mentions(y, lambda z: z == o) for o in old)]
                        seen_ = any(mentions(m[2], lambda z: z == ent[0]) for m in st.marks if isinstance(m, tuple) and m[:2] == ('v', 'carried'))
                        R.ob('merge/old kept', not cut and seen_, 'the records of the stored list that has not expired are carried over', w)
                        merged[w] = merged.get(w, False) or any(m[2] in old for m in st.marks if isinstance(m, tuple) and m[:2] == ('v', 'carried'))
                    R.ob('list/not older', ok, 'a member list never replaces one that expires later', w)
                    R.count('replacements of lists')
            elif op and op[0] == 'remove':
                R.fail('remove', 'a stored value is removed on a path that stores', w)
            elif 'dashmap' in ev.p.lower() and ev.name in ('alter', 'alter_all', 'iter_mut', 'clear', 'get_mut') and ev.args and isf(root_of(ev.args[0]), *maps):
                R.fail('store/%s' % ev.name, 'stored values are changed in place without a comparison', w)
            elif ev.name == 'insert' and 'hash_map' in ev.p and 'ccupied' in ev.p and len(ev.args) == 2:
                x, y = ev.args[0], peel(ev.args[1])
                ok = any(mentions(fst(z), lambda q: q == x) and snd(z) == y for z in vm(st, 'version'))
                R.ob('merge/version', ok, 'of two records of one member the later version is kept', w)
                R.count('merges of member records')
            elif ev.name == 'insert' and 'HashMap' in ev.p and len(ev.args) == 3 and ev.args[2][0] != 'const' and any(iscall(x, 'deserialize_as_boxed', 'deserialize') for a in ev.args for x in walk_phi(e, a)):
                if all(has_call(x, 'entry', 'try_entry') for a in ev.args for x in walk_phi(e, a) if iscall(x, 'deserialize_as_boxed', 'deserialize')):
                    return          # only records of the stored list so far
                R.fail('merge/overwrite', 'a member record is overwritten without comparing versions', w)
    for r in roots:
        R.run(O(), r)
    for w, ok in merged.items():
        R.ob('merge/old used', ok, 'the records of the stored list that has not expired are carried over', w)
    for x, n in (('stores', 3), ('replacements of signed values', 1), ('replacements of lists', 1)):
        R.floor(x, R.counts.get(x, 0), n)


def climb(prog, b, stop, files=DHT):
    """closest callers of b, or b itself, that satisfy stop, through callers in the layer"""
    out, seen, todo = set(), set(), [b.id]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        y = prog.bodies[x]
        cs = [c for c in callers(prog, x) if c in prog.bodies and prog.bodies[c].kind != 'promoted' and prog.bodies[c].file.startswith(files)]
        if y.kind == 'coroutine':
            cs = []
        if stop(y) or not cs:
            out.add(x)
        else:
            todo += cs
    return [prog.bodies[x] for x in sorted(out)]


SCALAR = re.compile(r'^(std::result::Result<)?(std::option::Option<)?(usize|bool|u\d+|\(\))\b')


@rule('D02', 'stored values are handed out only behind the fact that they expire later than now; clean-up removes exactly the expired ones',
      'guard facts per value at every exit that returns a stored value, outcome analysis of the clean-up closure',
      'The table of values is private to its module. Every function of the module that reads the table and does not return a plain number or truth value '
      'is explored: what it returns of the table is returned with the fact that the expiry of that very entry is later than now. Values leave the table only through '
      'a closure that keeps an entry exactly when its expiry is later than now; a spawned task performs this clean-up. When member lists are merged, the stored one is '
      'used only if it has not expired.')
def d02(R):
    prog = R.prog
    maps = storage_maps(R)
    bs = [b for b in prog.bodies.values() if b.kind == 'fn' and b.file.endswith('dht/storage.rs')]

    def reads(b):
        ids = {b.id} | {c.id for c in prog.bodies.values() if c.id.startswith(b.id + '::')}
        return any('dashmap' in p.lower() and last(p) in ('get', 'iter', 'view', 'try_get', 'into_iter', 'get_mut', 'iter_mut', 'shards', 'entry')
                   for i in ids for p, r, _, t in body_calls(prog.bodies[i]) if prog.bodies[i].kind != 'promoted')
    n = 0

    class O(Vals):
        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or val is None:
                return
            got = {x for x in walk_phi(e, val) if x[0] == 'call' and last(x[1]) in ('get', 'try_get', 'get_mut', 'iter', 'view', 'entry', 'elem') and x[2] and isf(root_of(x[2][0]), *maps)}
            if not got or val[0] == 'agg' and val[3] == 'Err' or SCALAR.match(ret_ty(ctx.body).replace('anyhow::', '')):
                return
            w = src(e, ctx, ctx.body.line)
            ok = any(mentions(y, lambda z: z in got) for y in vm(st, 'live'))
            if not ok:
                for x in walk_phi(e, val):
                    if x[0] == 'call' and last(x[1]) in ('filter', 'filter_map', 'view') and any(a[0] == 'agg' and a[1] == 'closure' and 'live' in self.gates.get(a[2], ()) for a in x[2][1:]):
                        ok = True
            R.ob('read/%s' % fname_of(ctx.body), ok, 'a stored value is returned only while its expiry is later than now', w)
            R.count('exits that return stored values')

        def call(self, e, ctx, st, ev):
            r = Vals.call(self, e, ctx, st, ev)
            if r is not None:
                return r
            w = src(e, ctx, ev.line)
            if ev.name in ('deserialize_as_boxed', 'deserialize', 'read_from') and ev.args and any(iscall(x, 'get') and has_call(x, 'entry') for x in walk(ev.args[0])):
                ent = [x for x in walk(ev.args[0]) if iscall(x, 'entry')]
                ok = any(mentions(y, lambda z: z in ent) for y in vm(st, 'still good')) or any(mentions(y, lambda z: z in ent) for y in vm(st, 'live'))
                R.ob('merge/expired', ok, 'an expired member list is not carried over into a new one', w)
                R.count('merges with stored lists')

        def extra(self, e, st, k, v, ms):
            for op, a, c in [r for k1, v1 in origins(e, k, v) for r in rels(k1, v1)]:
                a, c = uncast(a), uncast(c)
                if op in ('<', '<=') and is_now(a) and isfield(c, 'ttl'):
                    ms.append(('v', 'still good', c[1]))
            return tuple(ms) or None
    for b in bs:
        if reads(b):
            n += 1
            plain = SCALAR.match(ret_ty(b).replace('anyhow::', ''))
            o = O()
            if plain and not any(last(p) == 'entry' for p, r, i, t in body_calls(b)):
                continue
            R.run(o, b)
    R.floor('functions that read the table', n, 2)
    R.floor('exits that return stored values', R.counts.get('exits that return stored values', 0), 1)

    # removals
    for b in prog.bodies.values():
        if b.kind == 'promoted' or not b.file.endswith('dht/storage.rs') or not any('dashmap' in p.lower() and last(p) in ('retain', 'remove', 'remove_if', 'clear', 'remove_entry', 'drain') for p, r, i, t in body_calls(b)):
            continue

        class G(Vals):
            def call(self, e, ctx, st, ev):
                r = Vals.call(self, e, ctx, st, ev)
                if r is not None:
                    return r
                if 'dashmap' not in ev.p.lower() or ev.name not in ('retain', 'remove', 'remove_if', 'clear', 'remove_entry', 'drain') or not ev.args or not isf(root_of(ev.args[0]), *maps):
                    return
                cs = [a[2] for a in ev.args[1:] if a[0] == 'agg' and a[1] == 'closure']
                seen.append((ev.name, cs[0] if cs else None, src(e, ctx, ev.line), self))
        seen = []
        R.run(G(), b)
        for name, c, w, o in seen:
            keep, drop = (o.gates.get(c), o.ungates.get(c)) if name == 'retain' else (o.ungates.get(c), o.gates.get(c)) if name == 'remove_if' else (None, set())
            R.ob('gc/removes', drop is None and name in ('retain', 'remove_if') and c is not None or 'dead' in (drop or ()), 'only values that have expired are removed (%s)' % name, w)
            R.ob('gc/keeps', name == 'remove_if' or keep is not None and 'live' in keep, 'every value that has expired is removed (%s)' % name, w)
            R.count('removals from the table')
    R.floor('removals from the table', R.counts.get('removals from the table', 0), 1)
    gcs = [b.id for b in prog.bodies.values() if b.file.endswith('dht/storage.rs') and b.kind == 'fn' and any('dashmap' in p.lower() and last(p) in ('retain', 'remove_if') for p, r, i, t in body_calls(b))]
    tasks = [c for c in spawned(prog) if set(gcs) & reach(prog, [c[0] if isinstance(c, tuple) else c])]
    R.ob('gc/task', bool(tasks), 'a task performs the clean-up')


@rule('D04', 'a lookup returns a value only if its key is the one asked for and its update rule was verified; an address only from a signed list of the peer asked for',
      'guard facts per value (marks) at every exit that returns a received value, provenance of the requested key',
      'Every function that decodes an answer to a value query is followed from the coroutines that ask. Wherever something of a received value is returned, these facts hold of '
      'that value on the path: the hash of its key equals the key that was sent in the query, its key id is the hash of its owner, and, by its update rule: both signatures '
      'were verified (signature), that of the key was verified and the value has none (open), or it has no signatures and every one of its member records was verified for '
      'the overlay that owns it (lists). The key description and the data returned are those of that value. The address lookup asks for the address of the given peer, and returns an '
      'address and key only from a value with the signature rule, both from the same value.')
def d04(R):
    prog = R.prog
    dec = [b for b in prog.bodies.values() if b.kind != 'promoted' and b.file.startswith(DHT) and any('dht::ValueResult<' in l[0] for l in b.locals) and
           any(last(p) in ('deserialize', 'read_from', 'deserialize_as_boxed') for p, r, i, t in body_calls(b))]
    R.floor('decoders of answers', len(dec), 1)
    roots = {}
    for d in dec:
        for r in climb(prog, d, lambda b: b.kind == 'coroutine'):
            roots[r.id] = r
    R.floor('coroutines that ask for values', len(roots), 2)
    captured = {}

    class O(Vals):
        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or val is None or val[0] == 'agg' and val[3] in ('Err', 'None'):
                return
            v = canon(e, val)
            bases = {}
            for x in walk_phi(e, v):
                if (isfield(x, 'key') or isfield(x, 'value')) and 'ValueFound.0' in fpath(x) or (isfield(x, 'key') or isfield(x, 'value')) and any(z[2][1] == 'ValueFound.0' for z in walk(x[1]) if z[0] == 'field' and z[2][0] == 'f'):
                    if not any(isfield(z, 'key') or isfield(z, 'value') for z in chain(x[1])):
                        bases.setdefault(x[1], set()).add(x[2][1])
            if not bases:
                return
            w = src(e, ctx, ctx.body.line)
            R.ob('one value', len(bases) == 1, 'what is returned comes from one value', w)
            for b in bases:
                def known(tag, x):
                    return any(y == x for y in vm(st, tag))
                asks = [snd(y) for y in vm(st, 'asked') if fst(y) == b]
                sent = [x for x in walk_phi(e, b) if x[0] == 'agg' and last(x[2] or '') == 'DhtFindValue']
                ok = False
                for y in asks:
                    y = peel(y)
                    if any(canon(e, peel(dict(q[4]).get('key', ('', '')))) == y for q in sent):
                        ok = True
                    elif y[0] == 'field' and y[1][0] == 'arg' and ctx.body.kind == 'coroutine':
                        captured.setdefault(ctx.body.id, set()).add(y[2][1])
                        ok = True
                R.ob('asked', ok, 'the key of a returned value is the one that was asked for', w)
                R.ob('owner', known('owner', b), 'the key id of a returned value is the hash of its owner', w)
                rules = [r for r in RULE_NAMES if known('rule ' + r, b)]
                R.ob('rule', len(rules) == 1, 'a returned value satisfies its own update rule', w)
                if rules == ['Signature']:
                    R.ob('signed/key', known('signed', fld(b, 'key')), 'the signature of the key was verified', w)
                    R.ob('signed/value', known('signed', b), 'the signature of the value was verified', w)
                if rules == ['Anybody']:
                    R.ob('open/key', known('signed', fld(b, 'key')), 'the signature of the key of an open value was verified', w)
                    R.ob('open/value', known('unsigned', b), 'an open value carries no signature', w)
                if rules == ['OverlayNodes']:
                    R.ob('list/unsigned', known('unsigned', b) and known('unsigned', fld(b, 'key')), 'a member list carries no signatures', w)
                    R.ob('list/owner', known('overlay key', b), 'a member list belongs to an overlay', w)
                    R.ob('list/members', any(mentions(y, lambda z: z == fld(b, 'value')) for y in vm(st, 'all')), 'every record of a returned member list was verified for its overlay', w)
                for r in rules:
                    R.count('exits with %s values' % r)
    for r in roots.values():
        R.run(O(), r)
    for r in RULE_NAMES:
        R.floor('exits with %s values' % r, R.counts.get('exits with %s values' % r, 0), 2)
    # a key held across the query is the one sent
    for cid, fs in captured.items():
        d04_captured(R, cid, fs)

    d04_address(R)


def chain(v):
    """the values a value is a component of"""
    while v[0] == 'field':
        yield v
        v = v[1]


def d04_captured(R, cid, fs):
    prog = R.prog
    par = prog.bodies.get(cid.rsplit('::', 1)[0])
    got = []

    class P(E.Observer):
        maydepth = 2
        part_cap = 50

        def inline(self, e, b):
            return False

        def relevant(self, f):
            return True

        def call(self, e, ctx, st, ev):
            for a in ev.args:
                for x in walk(a):
                    if x[0] == 'agg' and x[1] == 'coroutine' and x[2] == cid:
                        got.append((dict(x[4]), src(e, ctx, ev.line)))
    R.run(P(), par)
    names = prog.bodies[cid].upvars if hasattr(prog.bodies[cid], 'upvars') else None
    R.floor('places that start the captured query', len(got), 1)
    pairs = set()
    for d, w in got:
        ks = [peel(x) for f, x in d.items() if f in fs]
        qs = [peel(x) for f, x in d.items() if 'query' in f] or [peel(x) for f, x in d.items()]
        for k in ks:
            for q in qs:
                if k[0] == 'field' and q[0] == 'field' and k[1] == q[1] and k != q:
                    pairs.add((k[2][1], q[2][1]))
    # the two fields are set together from one key
    for kf, qf in sorted(pairs):
        ok = n = 0
        for b in prog.bodies.values():
            if b.kind != 'fn' or not b.file.startswith(DHT) or not builds(prog, b, 'DhtValuesStream'):
                continue

            class C(E.Observer):
                maydepth = 2

                def inline(self, e, b2):
                    return b2.file.startswith(DHT + 'streams')

                def exit(self, e, ctx, st, kind, val):
                    nonlocal ok, n
                    for x in walk(val) if val else ():
                        if x[0] == 'agg' and last(x[2] or '') == 'DhtValuesStream':
                            d = dict(x[4])
                            if kf in d and qf in d:
                                n += 1
                                k = peel(d[kf])
                                sent = [y for y in walk_phi(e, d[qf]) if y[0] == 'agg' and last(y[2] or '') == 'DhtFindValue']
                                r = bool(sent) and all(peel(dict(y[4])['key']) == k for y in sent) and iscall(k, 'hash_as_boxed', 'hash')
                                if not (d[kf][0] == 'field' and has_arg_any(d[kf])):
                                    ok += bool(r)
                                    R.ob('stream/key', r, 'the key a stream compares answers with is the one it asks for', src(e, ctx, b.line))
            R.run(C(), b)
        if ok:
            R.count('streams built with key and query of one key')
    R.floor('streams built with key and query of one key', R.counts.get('streams built with key and query of one key', 0), 1)


def d04_address(R):
    root = R.async_body(R.method('dht::node::Node', 'find_address'))

    class A(Vals):
        def inline(self, e, b):
            return b.file.startswith((DHT + 'node', DHT + 'entry'))

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or val is None or val[0] == 'agg' and val[3] == 'Err':
                return
            w = src(e, ctx, root.line)
            for v in spread(e, val):
                v = canon(e, v)
                ids = [x for x in walk_phi(e, v) if isfield(x, 'id') and has_call(x, 'next', 'poll_next') and 'address' not in fpath(x)]
                if not ids and not has_call(v, 'next'):
                    continue
                R.count('addresses returned')
                ks = {x[1] for x in ids}
                R.ob('address/signed', bool(ks) and all(any(y == k for y in vm(st, 'krule Signature')) for k in ks), 'an address is returned only from a value with the signature rule', w)
                pa = [x for x in walk_phi(e, v) if x[0] == 'call' and last(x[1]) == 'parse_address_list'] or [x for x in walk_phi(e, v) if isfield(x, 'address')]
                R.ob('address/parsed', bool(pa) or iscall(v, 'parse_address_list'), 'the address returned is that of the list in the value', w)
                for k in ks:
                    pr = k[1] if k[0] == 'field' else k
                    R.ob('address/same value', not pa or all(mentions(x, lambda z: z == pr) for x in pa), 'address and key are of the same value', w)
                keys = [x for x in walk_phi(e, v) if x[0] == 'agg' and last(x[2] or '') == 'Key']
                ok = bool(keys) and all(is_peer(dict(x[4]).get('id')) and str(peel(dict(x[4])['name'])[1]).strip('"') == 'address' for x in keys)
                R.ob('address/asked', ok, 'the address asked for is that of the given peer, got %s' % [short(x)[:60] for x in keys][:2], w)

    def is_peer(v):
        v = peel(v)
        return v[0] == 'field' and v[1][0] == 'arg' and v[2][1] == 'peer_id' or v[0] == 'arg' or v[0] == 'field' and v[2][1] in ('0',) and is_peer(v[1])
    R.run(A(), root)
    R.floor('addresses returned', R.counts.get('addresses returned', 0), 1)


class Peers(Vals):
    """records of DHT nodes: signed by their own key, with a usable address, admitted by the transport"""

    def extra(self, e, st, k, v, ms):
        x = k[1] if k[0] == 'var' else k
        if v is True and x[0] == 'field' and x[1][0] == 'call':
            for i, (pid, addr, full) in admits(e.prog).items():
                if last(x[1][1]) == last(i) and len(x[1][2]) == e.prog.bodies[i].argc:
                    ms.append(('v', 'admitted', canon(e, peel(x[1][2][pid]))))
        for op, a, c in rels(k, v):
            a, c = uncast(a), uncast(c)
            if op == '<' and isfield(a, 'version') and isfield(c, 'version'):
                ms.append(('v', 'older', pair(a[1], canon(e, c[1]))))
        return tuple(ms) or None


def record_of(e, st, v):
    """records signed by their own key from whose key v is derived"""
    v = canon(e, v)
    return [b for b in vm(st, 'signed') if mentions(v, lambda y: y == fld(b, 'id'))]


def adders(prog):
    """methods of the peer set that can add to it"""
    out = set()
    for b in prog.bodies.values():
        if b.kind == 'fn' and b.file.endswith('adnl/peers_set.rs') and last(b.id) != 'with_capacity':
            for i in reach(prog, [b.id]):
                if i in prog.bodies and any(last(p) in ('write', 'try_write', 'upgradable_read', 'get_mut') and 'RwLock' in p for p, r, _, t in body_calls(prog.bodies[i])):
                    out.add(last(b.id))
    return out


@rule('D05', 'a DHT node enters the transport, the known peers and the buckets only from a record signed by its own key with a usable address',
      'guard facts per record (marks) at every change of the routing state, provenance of ids, addresses and stored records',
      'Every call in the DHT layer that adds a peer to the transport, to the known peers or to a bucket is followed from the functions and coroutines through which records '
      'arrive. On each path there is one record such that: its signature was verified with its own key over all of its other fields; its address list was accepted; '
      'the id added is the hash of that same key and the address that of that same list. The known peers and the buckets change only after the '
      'transport reported the peer as admitted (which excludes the own id, rule N11), a bucket stores that record unchanged under that id, and a bucket entry is '
      'replaced only by a later version.')
def d05(R):
    prog = R.prog
    add = adders(prog)
    R.floor('methods that add to a peer set', len(add), 1)
    adm = admits(prog)
    admit_names = {last(i) for i in adm}
    R.floor('functions that admit a peer', len(adm), 1)

    def kind(ev_p, name, tys=()):
        if name in admit_names and 'adnl::node' in ev_p:
            return 'transport'
        if 'PeersSet' in ev_p and name in add:
            return 'known'
        if 'dashmap' in ev_p.lower() and name in ('insert', 'entry', 'get_mut', 'alter', 'iter_mut', 'or_insert', 'or_insert_with'):
            return 'bucket'
        return None
    direct = {}
    for b in prog.bodies.values():
        if b.kind == 'promoted' or not b.file.startswith(DHT) or b.file.endswith('storage.rs'):
            continue
        for p, r, i, t in body_calls(b):
            k = kind(r or p, last(p)) or kind(p, last(p))
            if k and (k != 'bucket' or b.file.endswith('buckets.rs') or 'buckets' in str(b.id)):
                direct.setdefault(b.id, set()).add(k)
    R.floor('functions that add DHT peers', len(direct), 2)
    roots = {}
    for d in direct:
        for r in climb(prog, prog.bodies[d], lambda b: b.kind == 'coroutine'):
            roots[r.id] = r
    m = R.method('dht::node::Node', 'add_dht_peer')
    if m is not None:
        roots[m.id] = m
    R.floor('entry points of records', len(roots), 3)
    met = set()
    near = Near(prog, calls=('verify', 'verify_raw', 'parse_address_list', 'compute_short_id'), small=40)
    near.set |= set(direct)
    todo = list(direct)
    while todo:
        for c in callers(prog, todo.pop()):
            if c not in near.set:
                near.set.add(c)
                todo.append(c)

    class O(Peers):
        def inline(self, e, b):
            return b.file.startswith(DHT) and not b.file.endswith('storage.rs') and near(e, b)

        def call(self, e, ctx, st, ev):
            r = Vals.call(self, e, ctx, st, ev)
            if r is not None:
                return r
            w = src(e, ctx, ev.line)
            k = kind(ev.r or ev.p, ev.name) or kind(ev.p, ev.name)
            if not k or not ctx.body.file.startswith(DHT):
                return
            if k == 'transport' and ev.id in adm:
                met.add(ctx.body.id)
                R.count('additions to the transport')
                pid, addr, full = (canon(e, ev.args[n]) for n in adm[ev.id])
                recs = record_of(e, st, full)
                if not R.ob('transport/signed', bool(recs), 'a peer is added to the transport only after the signature of its record was verified with its own key', w):
                    return
                R.ob('transport/id', any(mentions(pid, lambda y: iscall(y, 'compute_short_id')) and mentions(pid, lambda y: y == fld(b, 'id')) for b in recs),
                     'the id added is the hash of the key in the record, got %s' % short(pid)[:60], w)
                R.ob('transport/address', any(b in vm(st, 'address') and mentions(addr, lambda y: y == fld(b, 'addr_list')) for b in recs), 'the address added is that of the verified record', w)
            elif k == 'known':
                if not any(isf(x, 'known_peers') for x in walk(ev.args[0])):
                    return
                met.add(ctx.body.id)
                R.count('additions to the known peers')
                x = canon(e, peel(ev.args[1])) if len(ev.args) > 1 else None
                recs = record_of(e, st, x) if x is not None and ev.name == 'insert' else []
                R.ob('known/signed', bool(recs), 'a peer becomes known only after the signature of its record was verified with its own key', w)
                R.ob('known/admitted', x is not None and x in vm(st, 'admitted'), 'a peer becomes known only after the transport admitted it', w)
            elif k == 'bucket' and ev.args and any(isf(x, 'buckets') for x in walk_phi(e, ev.args[0])):
                met.add(ctx.body.id)
                op = table_op(ev)
                if ev.name in ('get_mut', 'alter', 'iter_mut'):
                    R.fail('bucket/%s' % ev.name, 'a bucket entry is changed in place', w)
                if not op or op[0] != 'insert' or op[3] is None:
                    return
                R.count('additions to buckets')
                x = canon(e, peel(op[2])) if op[2] is not None else None
                rec = canon(e, peel(op[3]))
                ok = rec in vm(st, 'signed') or any(all(peel(canon(e, e.project(op[3], ('f', f)))) == fld(b, f) for f in NODE) for b in vm(st, 'signed'))
                R.ob('bucket/signed', ok, 'a bucket stores only a record whose signature was verified', w)
                if x is not None:
                    R.ob('bucket/id', x in vm(st, 'admitted') and bool(record_of(e, st, x)), 'a record is stored under the id of its own key, after the transport admitted it', w)
                if 'ccupied' in ev.p:
                    ent = [y for y in walk(ev.args[0]) if iscall(y, 'entry', 'try_entry')]
                    ok = any(mentions(fst(y), lambda z: z in ent) and snd(y) in (rec, peel(op[3])) for y in vm(st, 'older'))
                    R.ob('bucket/newer', ok, 'a bucket entry is replaced only by a later version of the record', w)
                elif ev.name == 'insert' and 'Vacant' not in ev.p and 'acant' not in ev.p:
                    R.ob('bucket/atomic', False, 'a bucket entry is replaced without comparing versions', w)
    for r in roots.values():
        R.run(O(), r)
    for d in sorted(direct):
        R.ob('followed/%s' % fname_of(prog.bodies[d]), d in met or prog.bodies[d].id in met, 'an addition of DHT peers is reached from a known entry point')
    for n in ('additions to the transport', 'additions to the known peers', 'additions to buckets'):
        R.floor(n, R.counts.get(n, 0), 1)

    # never the node itself
    class Self_(Vals):
        def inline(self, e, b):
            return b.file.startswith((DHT, 'src/adnl/node/')) and not b.file.endswith('storage.rs') and near2(e, b)

        def relevant(self, f):
            return True

        def learned(self, e, st, k, v):
            ms = []
            for op, a, c in [r for k1, v1 in origins(e, k, v) for r in rels(k1, v1)]:
                if op == '!=':
                    a, c = canon(e, peel(uncast(a))), canon(e, peel(uncast(c)))
                    ms += [('v', 'differs', pair(a, c)), ('v', 'differs', pair(c, a))]
            return tuple(ms) or None

        def call(self, e, ctx, st, ev):
            k = kind(ev.r or ev.p, ev.name) or kind(ev.p, ev.name)
            if k == 'known' and ctx.body.file.startswith(DHT) and len(ev.args) > 1 and any(isf(x, 'known_peers') for x in walk(ev.args[0])):
                x = canon(e, peel(ev.args[1]))
                ok = any(fst(y) == x and (iscall(snd(y), 'id', 'compute_short_id') and any(isfield(z, 'key') for z in walk(snd(y))) or isfield(snd(y), 'local_id')) for y in vm(st, 'differs'))
                R.count('additions compared with the own id')
                R.ob('known/other', ok, 'a peer becomes known only if its id is not the own one, got %s' % short(x)[:60], src(e, ctx, ev.line))
    near2 = Near(prog, calls=('verify', 'verify_raw', 'parse_address_list', 'compute_short_id'), small=40)
    near2.set |= set(near.set) | admission(prog)
    if m is not None:
        R.run(Self_(), m)
    R.floor('additions compared with the own id', R.counts.get('additions compared with the own id', 0), 1)


def penalty_of(v):
    """the peer whose entry of the penalty table v is (part of)"""
    for x in walk(v):
        if x[0] == 'call' and last(x[1]) in ('get', 'get_mut', 'entry', 'try_get', 'try_get_mut') and len(x[2]) > 1 and isf(root_of(x[2][0]), 'penalties'):
            return x[2][1]
    return None


class Pen(Vals):
    """outcomes of queries and changes of the penalty table"""
    files = (DHT,)

    def learned(self, e, st, k, v):
        ms = []
        if k[0] == 'var' and v == 'Some' and k[1][0] == 'field' and k[1][2][1] == 'Ok.0':
            x = k[1][1]
            while x[0] in ('await', 'field', 'cast'):
                x = x[1]
            if x in [m[2] for m in st.marks if isinstance(m, tuple) and m[:2] == ('v', 'asked')]:
                ms.append(('v', 'answered', x))
        if k[0] == 'var' and v == 'None':
            p = penalty_of(k[1])
            if p is not None and iscall(k[1], 'get', 'get_mut', 'try_get'):
                ms.append(('v', 'clean', peel(p)))
        for op, a, c in rels(k, v):
            a, c = uncast(a), uncast(c)
            p = penalty_of(a)
            if op in ('<', '<=') and p is not None and linear(c)[0] is not None and isfield(uncast(linear(c)[0]), 'bad_peer_threshold') and linear(c)[1] <= 0:
                ms.append(('v', 'clean', peel(p)))
            if op == '==' and p is not None and any(y[0] == 'const' and y[1] == 0 for y in (a, c)):
                ms.append(('v', 'zero', peel(p)))
            q = penalty_of(c)
            if q is not None and a[0] == 'const' and isinstance(a[1], int) and (op == '<' and a[1] >= 0 or op == '<=' and a[1] > 0 or op == '!=' and a[1] == 0) or \
                    p is not None and op == '!=' and c[0] == 'const' and not c[1]:
                ms.append(('v', 'nonzero', peel(q if q is not None else p)))
        return tuple(ms) or None

    def call(self, e, ctx, st, ev):
        op = table_op(ev) if 'dashmap' in ev.p.lower() else None
        if op and (op[1] == 'penalties' or any(isf(x, 'penalties') for x in walk(ev.args[0]))):
            p = op[2] if op[2] is not None else penalty_of(ev.args[0])
            if p is None:
                return
            if op[0] == 'remove':
                return st.marks | {('v', 'good', peel(p))}
            if op[0] == 'insert' and op[3] is not None:
                n = op[3]
                if n[0] == 'const' and isinstance(n[1], int) and n[1] > 0:
                    return st.marks | {('v', 'bad', peel(p))}

    def write(self, e, ctx, st, loc, val, line):
        p = penalty_of(loc) if isinstance(loc, tuple) else None
        if p is None:
            return
        p = peel(p)
        v = uncast(val)
        if v[0] == 'bin' and v[1] in ('Add', 'AddUnchecked') and any(y[0] == 'const' and isinstance(y[1], int) and y[1] > 0 for y in v[2:4]) or \
                iscall(v, 'saturating_add', 'wrapping_add') and v[2][1][0] == 'const' and v[2][1][1] > 0:
            return st.marks | {('v', 'bad', p)}
        if v[0] == 'bin' and v[1] == 'Sub' and p in vm(st, 'nonzero') or iscall(v, 'saturating_sub') and v[2][1][0] == 'const' and v[2][1][1] > 0 or v[0] == 'const' and v[1] == 0:
            return st.marks | {('v', 'good', p)}
        return st.marks | {('v', 'odd', p)}


@rule('D06', 'every query coroutine ends with the outcome recorded for the queried peer; a candidate is taken only without or with few penalties',
      'outcome facts against changes of the penalty table at every exit of the query coroutines, guard facts at every selection of a candidate',
      'Every coroutine of the DHT layer that sends a query through the transport is followed to its returns: where the result is known to be an answer, the penalty '
      'of that same peer was lowered (or it has none) and not raised, on every other return it was raised. If a coroutine leaves this to its callers, all of them must do it. '
      'An id enters the candidate list of a search only with the fact that its peer has no penalty entry or one not above the configured threshold. When a known '
      'peer is added again its penalty is lowered.')
def d06(R):
    prog = R.prog
    roots = [b for b in prog.bodies.values() if b.kind in ('coroutine', 'fn', 'closure') and b.file.startswith(DHT) and
             any(re.match(r'query', last(p)) and 'adnl::node' in (r or p) and ('Node' in p) and 'dht' not in p for p, r, i, t in body_calls(b))]
    R.floor('functions that query through the transport', len(roots), 1)

    def run(S, body):
        class O(Pen):
            def inline(self, e, b):
                return b.file.startswith(DHT) and not b.file.endswith(('storage.rs', 'streams.rs', 'futures.rs'))

            def relevant(self, f):
                return True

            def call(self, e, ctx, st, ev):
                if ev.name.startswith('query') and 'adnl::node' in (ev.r or ev.p) and len(ev.args) >= 3:
                    return st.marks | {('v', 'asked', mk('call', ev.p, tuple(ev.args), ev.site)), ('v', 'peer', peel(ev.args[2])), ('where', fname(ctx))}
                return Pen.call(self, e, ctx, st, ev)

            def exit(self, e, ctx, st, kind, val):
                if kind != 'return' or val is not None and val[0] == 'agg' and val[3] == 'Pending':
                    return
                ps = vm(st, 'peer')
                if not ps:
                    return
                w = src(e, ctx, ctx.body.line)
                n = fname_of(body)
                where = '+'.join(sorted({m[1] for m in st.marks if isinstance(m, tuple) and m[0] == 'where'}))
                for p in ps:
                    ups, downs = p in vm(st, 'bad'), p in vm(st, 'good') or p in vm(st, 'clean')
                    if vm(st, 'answered'):
                        S.ob('answered in %s/%s' % (where, n), downs and not ups, 'a query that was answered counts in favour of the peer', w)
                    else:
                        S.ob('failed in %s/%s' % (where, n), ups and p not in vm(st, 'good'), 'a query that failed or timed out counts against the peer', w)
                    S.count('query outcomes')
        S.run(O(), body)
    escalate(R, roots, run)
    R.floor('query outcomes', R.counts.get('query outcomes', 0), 6)

    # candidates
    pb = [b for b in prog.bodies.values() if b.kind == 'fn' and b.file.startswith(DHT) and
          any(any(x.endswith('PeersIter') for x in [t]) for t in [re.sub(r'^&(mut )?', '', b.locals[1][0]) if len(b.locals) > 1 and b.argc else ''])]
    R.floor('methods of the candidate list', len(pb), 1)

    class C(Pen):
        def relevant(self, f):
            return True

        def inline(self, e, b):
            return b.file.startswith(DHT) and not b.file.endswith('storage.rs')

        def call(self, e, ctx, st, ev):
            if ev.name in ('push', 'insert', 'push_back', 'extend', 'append', 'extend_from_slice') and ev.args and isf(root_of(ev.args[0]), 'peer_ids'):
                w = src(e, ctx, ev.line)
                if ev.name not in ('push', 'insert', 'push_back'):
                    R.fail('candidate/%s' % ev.name, 'candidates are added together without a look at their penalties', w)
                    return
                x = ev.args[-1]
                ok = any(mentions(x, lambda y: y == p) for p in vm(st, 'clean'))
                R.ob('candidate/clean', ok, 'a peer becomes a candidate only if its penalty does not exceed the threshold, got %s' % short(x)[:60], w)
                R.count('candidates added')
            return Pen.call(self, e, ctx, st, ev)
    ids = {b.id for b in pb}
    for b in pb:
        if not [c for c in callers(prog, b.id) if c in ids]:
            R.run(C(), b)
    R.floor('candidates added', R.counts.get('candidates added', 0), 1)

    # seen again
    m = R.method('dht::node::Node', 'add_dht_peer')

    class A(Pen):
        def relevant(self, f):
            return True

        def inline(self, e, b):
            return b.file.startswith(DHT) and not b.file.endswith('storage.rs')

        def learned(self, e, st, k, v):
            ms = list(Pen.learned(self, e, st, k, v) or ())
            if k[0] == 'call' and last(k[1]) == 'insert' and 'PeersSet' in k[1] and v is False:
                ms.append(('v', 'again', peel(k[2][1])))
            return tuple(ms) or None

        def exit(self, e, ctx, st, kind, val):
            if kind == 'return':
                for p in vm(st, 'again'):
                    R.count('exits after a known peer was added again')
                    R.ob('again', p in vm(st, 'good') or p in vm(st, 'clean'), 'a known peer that is added again is rehabilitated', src(e, ctx, ctx.body.line))
    R.run(A(), m)
    R.floor('exits after a known peer was added again', R.counts.get('exits after a known peer was added again', 0), 1)


@rule('D07', 'the candidate list reads each slot of the peer set once and hands out each candidate once; every candidate is asked by one query; the stream ends with its queries',
      'typestate (marks) of slot index, candidates, spawned queries and the query counter over all paths of the candidate list and of the value stream',
      'In the candidate list: between two reads of the peer set the slot index is advanced, it is never set back, a peer read is added at most once and only if its penalty '
      'does not exceed the threshold, and an id is handed out by removing it from the list. In the value stream: the list is never replaced, each id taken from it is captured by exactly one '
      'future, whose coroutine sends one query, the number of running queries follows every start and every completion, and the stream ends exactly when the set of running '
      'queries is empty after the candidates ran out or the limit was reached.')
def d07(R):
    prog = R.prog
    file = DHT + 'peers_iter.rs'
    pb = {b.id: b for b in prog.bodies.values() if b.kind == 'fn' and len(b.locals) > 1 and b.argc and re.sub(r'^&(mut )?', '', b.locals[1][0]).endswith('PeersIter')}
    R.floor('methods of the candidate list', len(pb), 1)

    def getter(ev):
        return 'PeersSet' in (ev.r or ev.p) and ev.name == 'get'

    class It(Pen):
        def relevant(self, f):
            return True

        def inline(self, e, b):
            return b.file.startswith((DHT + 'peers_iter', DHT + 'node.rs')) and (b.id in pb or b.file == file or len(b.blocks) <= 60)

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            if getter(ev):
                R.count('reads of the peer set')
                a = uncast(ev.args[1])
                # the slot is the current content of the index field (a local copy is not followed)
                own = any(isfield(x, 'index') and e.hread(st, x) == a for x in walk_phi(e, a))
                if own:
                    R.ob('slot/advanced', 'fetched' not in st.marks, 'the slot index is advanced between two reads of the peer set', w)
                return frozenset(m for m in st.marks if m not in ('pushed', 'fetched') and not (isinstance(m, tuple) and m[:2] in (('v', 'clean'), ('v', 'zero')))) | ({'fetched'} if own else set())
            if ev.name in ('push', 'insert', 'push_back', 'extend', 'append', 'extend_from_slice') and ev.args and isf(root_of(ev.args[0]), 'peer_ids'):
                x = ev.args[-1]
                if ev.name not in ('push', 'insert', 'push_back'):
                    R.fail('candidate/%s' % ev.name, 'candidates are added together without a look at their penalties', w)
                    return
                R.count('candidates added')
                got = [y for y in walk_phi(e, x) if y[0] == 'call' and last(y[1]) == 'get' and 'PeersSet' in y[1]]
                R.ob('candidate/from the set', bool(got), 'a candidate is a peer read from the set, got %s' % short(x)[:60], w)
                R.ob('candidate/once', 'pushed' not in st.marks, 'a peer read from the set is added to the candidates once', w)
                R.ob('candidate/clean', any(mentions(x, lambda y: y == p) for p in vm(st, 'clean')), 'a peer becomes a candidate only if its penalty does not exceed the threshold, got %s' % short(x)[:60], w)
                return st.marks | {'pushed'}
            return Pen.call(self, e, ctx, st, ev)

        def learned(self, e, st, k, v):
            ms = list(Pen.learned(self, e, st, k, v) or ())
            if k[0] == 'var' and v == 'None' and iscall(k[1], 'get') and 'PeersSet' in k[1][1]:
                ms.append('ended')
            return tuple(ms) or None

        def write(self, e, ctx, st, loc, val, line):
            if isinstance(loc, tuple) and isf(root_of(loc), 'index') and ctx.body.file == file:
                R.count('changes of the slot index')
                alts = [uncast(x) for x in spread(e, val)]
                ok = all(x[0] == 'bin' and x[1] in ('Add', 'AddUnchecked') and any(y[0] == 'const' and isinstance(y[1], int) and y[1] > 0 for y in x[2:4]) or
                         iscall(x, 'saturating_add', 'wrapping_add') and x[2][1][0] == 'const' and x[2][1][1] > 0 or x[0] == 'phi' for x in alts)
                R.ob('slot/forward', ok, 'the slot index only moves forward, got %s' % short(val)[:60], src(e, ctx, line))
                return st.marks - {'fetched'}
            return Pen.write(self, e, ctx, st, loc, val, line)

        def exit(self, e, ctx, st, kind, val):
            if kind == 'return':
                R.ob('slot/left', 'fetched' not in st.marks or 'ended' in st.marks, 'the slot index is advanced past the last peer read', src(e, ctx, ctx.body.line))
                if val is not None and 'fetched' not in st.marks:
                    self.handed(e, ctx, val)

        def handed(self, e, ctx, val):
            if val[0] == 'agg' and val[3] == 'Some':
                taken = [y for y in walk_phi(e, val) if isfield(y, 'peer_ids')]
                if taken:
                    R.count('candidates handed out')
                    ok = any(y[0] == 'call' and last(y[1]) in ('pop', 'remove', 'swap_remove', 'next', 'pop_front', 'pop_back', 'split_off') and
                             (last(y[1]) != 'next' or has_call(y, 'drain', 'into_iter')) and has_field(y, 'peer_ids') for y in walk_phi(e, val))
                    R.ob('candidate/removed', ok, 'a candidate is handed out by removing it from the list, got %s' % short(val)[:60], src(e, ctx, ctx.body.line))
    for i, b in pb.items():
        if not [c for c in callers(prog, i) if c in pb]:
            R.run(It(), b)
    for n in ('reads of the peer set', 'candidates added', 'changes of the slot index', 'candidates handed out'):
        R.floor(n, R.counts.get(n, 0), 1)

    # the stream
    ids = {i for i, b in pb.items()}
    polls = [b for b in prog.bodies.values() if b.kind == 'fn' and b.name == 'poll_next' and b.file.startswith(DHT)]
    R.floor('streams over candidates', len(polls), 1)
    cors = set()

    class S(Pen):
        inline_spawn = False

        def relevant(self, f):
            return False

        def inline(self, e, b):
            return b.file.startswith(DHT) and b.kind != 'coroutine' and not b.file.endswith(('storage.rs', 'node.rs', 'peers_iter.rs'))

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            it = ev.args and 'PeersIter' in (ev.r or ev.p)
            if it and ev.name == 'next':
                R.ob('query/every candidate', 'taken' not in st.marks, 'a candidate taken from the list is asked before the next one is taken', w)
                return st.marks - {'spent', 'exhausted'}
            if it and ev.name == 'fill':
                return st.marks - {'exhausted'}
            if it and ev.name in ('with_key_id', 'new', 'default') and ctx.body.name != 'new':
                R.fail('list/replaced', 'the candidate list of a running search is created anew', w)
            if ev.name in ('replace', 'take', 'swap') and 'mem' in ev.p and any(isf(root_of(x), 'peers_iter') for x in ev.args):
                R.fail('list/replaced', 'the candidate list of a running search is replaced', w)
            if ev.name in ('push', 'push_back') and 'Futures' in ev.p:
                R.count('queries started')
                x = ev.args[1]
                co = [y for y in walk_phi(e, x) if y[0] == 'agg' and y[1] == 'coroutine']
                for y in co:
                    cors.add(y[2])
                    src_ = [z for f, z in y[4] if any(isinstance(u, tuple) and u and iscall(u, 'next') and 'PeersIter' in u[1] for u in walk_phi(e, z))]
                    R.ob('query/of a candidate', bool(src_), 'a query is started for a candidate taken from the list', w)
                R.ob('query/once', 'spent' not in st.marks, 'a candidate taken from the list is asked once', w)
                return st.marks - {'taken', 'raised'} | {'spent'} | (set() if 'raised' in st.marks else {'started'})
            if ev.name in ('poll_next_unpin', 'poll_next') and 'tream' in ev.p and ev.args and any(isfield(y, 'futures') for y in walk(ev.args[0])):
                R.ob('stream/fused', 'ended' not in st.marks, 'an ended set of queries is not polled again', w)
                R.ob('count/start', not st.marks & {'started', 'raised'} or not counted, 'the number of running queries is raised with every start', w)
                R.ob('count/completion', 'completed' not in st.marks or not counted, 'the number of running queries is lowered with every completion', w)
            return None

        def learned(self, e, st, k, v):
            ms = []
            if k[0] == 'var' and iscall(k[1], 'next') and 'PeersIter' in k[1][1]:
                ms.append('taken' if v == 'Some' else 'exhausted')
            if k[0] == 'var' and k[1][0] == 'field' and iscall(k[1][1], 'poll_next_unpin', 'poll_next') and any(isfield(y, 'futures') for y in walk(k[1][1])):
                ms.append('ended' if v == 'None' else 'completed')
            for op, a, c in rels(k, v):
                if op in ('<', '<=') and a[0] == 'const' and any(isfield(y, 'future_count') for y in walk_phi(e, c)):
                    ms.append('full')
            return tuple(ms) or None

        def write(self, e, ctx, st, loc, val, line):
            if not isinstance(loc, tuple):
                return
            if isf(root_of(loc), 'peers_iter') and loc == root_of(loc) and val[0] != 'with' and ctx.body.name != 'new':
                R.fail('list/replaced', 'the candidate list of a running search is replaced', src(e, ctx, line))
            if isf(root_of(loc), 'future_count'):
                alts = [uncast(x) for x in spread(e, val)]
                one = lambda x, ops: x[0] == 'bin' and x[1] in ops or iscall(x, *('saturating_' + o.lower() for o in ops))
                if all(one(x, ('Add',)) for x in alts):
                    return st.marks - {'started'} if 'started' in st.marks else st.marks | {'raised'}
                if all(one(x, ('Sub',)) for x in alts):
                    return st.marks - {'completed', 'full'}

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or val is None:
                return
            w = src(e, ctx, ctx.body.line)
            R.count('returns of the stream')
            if val[0] == 'agg' and val[3] == 'Ready' and val[4] and val[4][0][1][0] == 'agg' and val[4][0][1][3] == 'None':
                R.ob('stream/end', 'ended' in st.marks, 'the stream ends only when no query is running', w)
                R.ob('stream/exhausted', 'exhausted' in st.marks or 'full' in st.marks or not counted, 'the stream ends only when there are no more candidates', w)
            else:
                R.ob('stream/ends', 'ended' not in st.marks, 'the stream ends when no query is running', w)
                R.ob('count/at return', not counted or 'completed' not in st.marks, 'the number of running queries is lowered with every completion', w)
    for b in polls:
        counted = any(n.startswith('dht::streams') and any(f[0] == 'future_count' for v in a['variants'] for f in v['fields']) for n, a in prog.adts.items())
        R.notes.append('queries are counted' if counted else 'queries are not counted')
        R.run(S(), b)
    for n in ('queries started', 'returns of the stream'):
        R.floor(n, R.counts.get(n, 0), 1)

    # one query per future
    class Q(Pen):
        def relevant(self, f):
            return False

        def inline(self, e, b):
            return b.file.startswith(DHT) and not b.file.endswith('storage.rs')

        def call(self, e, ctx, st, ev):
            if ev.name.startswith('query') and 'adnl::node' in (ev.r or ev.p) and len(ev.args) >= 3:
                R.count('queries sent by the futures')
                R.ob('future/one query', 'sent' not in st.marks, 'a future sends one query to its candidate', src(e, ctx, ev.line))
                return st.marks | {'sent'}
    for c in sorted(cors):
        b = prog.bodies.get(c)
        if b is not None:
            R.run(Q(), b)
    R.floor('queries sent by the futures', R.counts.get('queries sent by the futures', 0), 1)
    d07_repeated(R)


def d07_repeated(R):
    """a search that is started again"""
    prog = R.prog

    # a stored search is started where there is none, and never given up for another
    holders = {(n, f[0]) for n, a in prog.adts.items() if n.startswith('dht::') for v in a['variants'] for f in v['fields'] if re.match(r'(std|core)::option::Option<.*DhtValuesStream<', f[1])}
    fields = {f for n, f in holders}
    R.notes.append('searches kept by: %s' % ', '.join('%s.%s' % x for x in sorted(holders)))

    class H(Vals):
        def relevant(self, f):
            return True

        def inline(self, e, b):
            return b.kind != 'coroutine' and b.file.endswith('dht/futures.rs')

        def learned(self, e, st, k, v):
            if k[0] == 'var' and v == 'None' and any(isf(y, *fields) for y in walk_phi(e, k[1])):
                return ('absent',)

        def write(self, e, ctx, st, loc, val, line):
            if isinstance(loc, tuple) and isf(loc, *fields):
                return self.set(e, ctx, st, val, line)

        def stored(self, e, ctx, st, path, val, line):
            if path[-1][0] == 'f' and path[-1][1] in fields:
                return self.set(e, ctx, st, val, line)

        def set(self, e, ctx, st, val, line):
            w = src(e, ctx, line)
            for x in spread(e, val):
                if x[0] == 'agg' and x[3] == 'None':
                    R.fail('search/given up', 'a search that was started is not given up for another one', w)
                elif x[0] == 'agg' and x[3] == 'Some':
                    R.ob('search/once', 'absent' in st.marks, 'a search is started once', w)
                    R.count('searches started by futures')
            return st.marks - {'absent'}
    if fields:
        for b in list(prog.bodies.values()):
            if b.kind == 'fn' and b.name == 'poll' and b.file.startswith(DHT) and any(n + '<' in b.locals[1][0] or b.locals[1][0].endswith(n + '>') for n, f in holders):
                R.run(H(), b)
        R.floor('searches started by futures', R.counts.get('searches started by futures', 0), 1)

    # a coroutine that searches in a loop goes on only while there is somebody it has not asked yet
    def starts(dty, argtys):
        return 'DhtValuesStream<' in dty and not any('DhtValuesStream<' in a for a in argtys)

    class L(Vals):
        def relevant(self, f):
            return False

        def inline(self, e, b):
            return b.kind != 'coroutine' and b.file.endswith('dht/node.rs') and not b.pub

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            if starts(ev.dty, ev.argtys) and '{closure' not in ev.dty:
                R.count('searches started by coroutines')
                R.ob('round/new candidates', 'round' not in st.marks or 'asked' in st.marks, 'another round of a search is started only if the last one found somebody who was not asked yet', w)
                return st.marks - {'asked'} | {'round'}
            if 'round' in st.marks and 'HashSet' in ev.dty and not any('HashSet' in a for a in ev.argtys):
                return st.marks | {('made in a round', ev.site)}
            if ev.name in ('push', 'push_back') and 'Futures' in ev.p:
                co = [y for y in walk_phi(e, ev.args[1]) if y[0] == 'agg' and y[1] == 'coroutine']
                if 'round' in st.marks:
                    R.count('resolutions started')
                    R.ob('round/asked once', any(fresh in [z for y in co for z in walk_phi(e, y)] for fresh in vm(st, 'fresh')), 'an address is looked up only for a peer that is new to the search', w)
                return st.marks | {'asked'}

        def learned(self, e, st, k, v):
            ms = []
            for k1, v1 in origins(e, k, v):
                if k1[0] == 'call' and last(k1[1]) == 'insert' and 'Set' in k1[1] and v1 and len(k1[2]) == 2 and not any(y[0] == 'call' and ('made in a round', y[3]) in st.marks for y in walk_phi(e, k1[2][0])):
                    ms.append(('v', 'fresh', k1[2][1]))
                if k1[0] == 'call' and last(k1[1]) == 'is_empty' and 'Futures' in k1[1] and not v1:
                    ms.append('asked')
                if k1[0] == 'var' and v1 == 'Some' and any(iscall(y, 'next', 'poll_next_unpin', 'try_next') and any('Futures' in z[1] for z in walk_phi(e, y) if z[0] == 'call') for y in walk(k1[1])):
                    ms.append('asked')
            for op, a, c in [r for k1, v1 in origins(e, k, v) for r in rels(k1, v1)]:
                if op in ('<', '!=') and a[0] == 'const' and not a[1] and iscall(c, 'len') and has_call(c, 'new', 'default'):
                    ms.append('asked')
            return tuple(ms) or None
    n = 0
    for b in list(prog.bodies.values()):
        if b.kind == 'coroutine' and b.file.startswith(DHT) and any(starts(t[7], t[6]) for p, r, i, t in body_calls(b)):
            n += 1
            R.run(L(), b)
    R.floor('coroutines that search', n, 1)
    R.floor('searches started by coroutines', R.counts.get('searches started by coroutines', 0), 2)

