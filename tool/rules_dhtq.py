"""Rules for the answers of a DHT node and for storing values with a check."""
from lib import *
import engine as E
from engine import mk
from rules_adnl import is_now, walk_phi
from rules_rldp import direct_callers, variant_of
from rules_overlay import vm, isf, from_wire, origins
from rules_dht import canon, peel, fld

WIRE = ('read_from', 'deserialize', 'deserialize_as_boxed')


def got(v):
    """the call a successful outcome belongs to"""
    while v[0] == 'field' and v[2][1] in ('Ok.0', 'Some.0', 'Continue.0', 'Ready.0'):
        v = v[1]
    return v


def said(v, name):
    """the field of the received query itself, behind conversions that keep its content"""
    v = peel(uncast(v))
    return v[0] == 'field' and v[2] == ('f', name) and got(v[1])[0] == 'call' and last(got(v[1])[1]) in WIRE


def within_k(e, v):
    """at most the k asked for"""
    v = uncast(v)
    return said(v, 'k') or v[0] == 'bin' and v[1] == 'Sub' and within_k(e, v[2]) or iscall(v, 'saturating_sub') and within_k(e, v[2][0]) or \
        iscall(v, 'min') and any(within_k(e, x) for x in v[2]) or v[0] == 'phi' and all(within_k(e, x) for x in expand_phi(e, v) if x[0] != 'phi') and bool(expand_phi(e, v))


def of_table(v):
    """the value was taken from a bucket"""
    return has_field(v, 'buckets') and any(iscall(x, 'elem', 'get', 'value', 'next', 'iter', 'pair', 'into_iter') for x in walk(v))


def consts_of(prog, ty):
    return {v for k, v in prog.consts.items() if k.endswith('TL_ID') and re.search(r'rpc::%s\b' % ty, k)}


KINDS = ('DhtPing', 'DhtFindNode', 'DhtFindValue', 'DhtGetSignedAddressList', 'DhtStore', 'DhtQuery', 'AdnlPing')


@rule('D08', 'each query is answered by the value built from its own fields: the same ping id, the stored value of the key, at most k records of the buckets, "stored" only after storing',
      'path-sensitive symbolic dataflow per kind of query, guard facts at every answer and at every record added to an answer',
      'The handlers of the DHT node and of the ping subscriber are explored per constructor. A pong carries the received number. A value is answered only from the storage '
      'entry of the key asked for, unchanged, and records of other nodes only when the storage had none. Records in an answer come from the buckets, and another one is added only with '
      'the fact that the answer has fewer than k. "Stored" is answered only with the success of storing the received value. A value query is answered only with 0 < k and k within the limit. '
      'A prefixed query is passed on with the constructor read at the offset where the rest starts, and its own answer is passed back. A query of a known kind is never rejected as foreign.')
def d08(R):
    prog = R.prog
    node = R.tmethod('QuerySubscriber', 'dht::node::NodeState', 'try_consume_query')
    ping = R.tmethod('QuerySubscriber', 'PingSubscriber', 'try_consume_query')
    kinds = {c: k for k in KINDS for c in consts_of(prog, k)}
    R.need('constructors of the queries', [k for k in KINDS if k in kinds.values()])
    done = {}

    class O(E.Observer):
        maydepth = 9
        part_cap = 200
        known = ()

        def inline(self, e, b):
            return b.file.startswith(('src/dht/', 'src/adnl/ping', 'src/subscriber')) and not b.file.endswith('storage.rs') and \
                not (b.kind == 'fn' and b.pub and last(b.id) == 'try_consume_query') and 'verify' not in b.id

        def kind(self, st):
            return next((m[1] for m in st.marks if isinstance(m, tuple) and m[0] == 'kind'), None)

        def learned(self, e, st, k, v):
            ms = []
            for op, a, c in [r for k1, v1 in origins(e, k, v) for r in rels(k1, v1)]:
                a, c = uncast(a), uncast(c)
                if op == '==':
                    for x, y in ((a, c), (c, a)):
                        if isfield(x, 'constructor') and y[0] == 'const' and y[1] in kinds:
                            ms.append(('kind', kinds[y[1]]))
                if op == '!=':
                    for x, y in ((a, c), (c, a)):
                        if said(x, 'k') and y[0] == 'const' and not y[1]:
                            ms.append('some')
                if op in ('<', '<='):
                    if said(c, 'k') and op == '<' and all(iscall(uncast(x), 'len') for x in expand_phi(e, a)):
                        ms.append('room')
                    if said(a, 'k') and isf(c, 'max_allowed_k'):
                        ms.append('within')
                    if a[0] == 'const' and said(c, 'k') and (not a[1] and op == '<' or a[1] == 1 and op == '<='):
                        ms.append('some')
            if k[0] == 'is' and isfield(k[1], 'constructor') and v in kinds:
                ms.append(('kind', kinds[v]))
            if k[0] == 'is' and said(uncast(k[1]), 'k') and v:
                ms.append('some')
            if k[0] == 'isnot' and said(uncast(k[1]), 'k') and not v:
                ms.append('some')
            if k[0] == 'call' and last(k[1]) == 'contains' and v is True and len(k[2]) == 2 and said(k[2][1], 'k'):
                g = k[2][0]
                f = dict(g[4]) if g[0] == 'agg' else {}
                lo, hi = f.get('start'), f.get('end')
                if iscall(g, 'new') and len(g[2]) == 2:
                    lo, hi = g[2]
                if lo and lo[0] == 'const' and lo[1]:
                    ms.append('some')
                if hi and isf(uncast(hi), 'max_allowed_k'):
                    ms.append('within')
            if k[0] == 'var' and k[1][0] == 'call' and last(k[1][1]) in ('get_ref', 'get') and isf(k[1][2][0], 'storage') and said(k[1][2][1], 'key'):
                ms.append('absent' if v == 'None' else 'present')
            if k[0] == 'var' and v == 'Ok' and iscall(k[1], 'insert') and isf(k[1][2][0], 'storage') and said(k[1][2][1], 'value'):
                ms.append('inserted')
            return tuple(ms) or None

        def call(self, e, ctx, st, ev):
            n = ev.name
            w = (ev.line, ctx.body.id)
            kd = self.kind(st)
            if n in ('push', 'insert', 'extend', 'append', 'push_back', 'extend_from_slice') and kd in ('DhtFindNode', 'DhtFindValue') and 'Vec' in (ev.argtys or [''])[0] + ev.p:
                x = ev.args[-1]
                if not of_table(x) and not any(of_table(y) for y in walk_phi(e, x)):
                    return None
                w = src(e, ctx, ev.line)
                if n == 'push':
                    R.ob('record/%s/%s' % (fname(ctx), one_line(ctx, ev.line)), 'full' not in st.marks or 'room' in st.marks,
                         'a record is added to the answer without the fact that it has fewer than the k records asked for', w)
                    R.count('records')
                    return (st.marks - {'room'}) | {'full'}
                if n in ('extend', 'append', 'extend_from_slice'):
                    bound = all(any(iscall(y, 'take') and within_k(e, y[2][1]) for y in walk_phi(e, z)) for z in expand_phi(e, x))
                    R.ob('record/%s/%s' % (fname(ctx), one_line(ctx, ev.line)), bound, 'records are added to the answer in bulk without the bound asked for, got %s' % short(x)[:160], w)
                    R.count('records')
            if n == 'consume' and ev.args:
                self.answer(e, ctx, st, ev.args[0], src(e, ctx, ev.line), ev.line)
            if n == 'try_consume_query' and kd == 'DhtQuery':
                self.nested(e, ctx, st, ev)
            return None

        def nested(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            c, q = ev.args[2], ev.args[3]
            c = got(uncast(c))
            done.setdefault('DhtQuery', []).append(w)
            offs = [x[2][1] for x in walk(q) if iscall(x, 'index', 'get') and len(x[2]) == 2]
            offs = [dict(o[4]).get('start') for o in offs if o[0] == 'agg' and 'RangeFrom' in o[2]]
            offs += [x[2][1] for x in walk(q) if iscall(x, 'split_at') and len(x[2]) == 2]
            ok = iscall(c, 'read_from') and len(c[2]) == 2 and len(offs) == 1 and offs[0] is not None and offs[0] == c[2][1] and iscall(offs[0], 'read_from') | (offs[0][0] == 'mut')
            R.ob('prefix/rest', bool(ok), 'the rest of a prefixed query starts where its constructor was read, got constructor %s and rest %s' % (short(c)[:120], short(q)[:120]), w)
            good = rel_false(e, st, c, consts_of(prog, 'DhtQuery'))
            R.ob('prefix/once', good, 'a prefixed query is passed on without the fact that it is not prefixed again', w)

        def answer(self, e, ctx, st, x, w, line):
            kd = self.kind(st)
            if kd is None:
                R.ob('answer/kind', False, 'a query is answered before its kind is known, with %s' % short(x)[:160], w)
                return
            done.setdefault(kd, []).append(w)
            for y in expand_phi(e, x):
                y = peel(canon(e, y))
                key = 'answer/%s' % kd
                if kd in ('DhtPing', 'AdnlPing'):
                    f = 'random_id' if kd == 'DhtPing' else 'value'
                    v = dict(y[4]).get(f) if y[0] == 'agg' else None
                    R.ob(key, v is not None and said(v, f), 'a pong carries the number of the ping, got %s' % short(y)[:160], w)
                elif kd == 'DhtStore':
                    R.ob(key, 'inserted' in st.marks, '"stored" is answered without the success of storing the received value', w)
                elif kd in ('DhtFindNode', 'DhtFindValue'):
                    self.found(e, st, kd, y, w)
                elif kd == 'DhtGetSignedAddressList':
                    f = dict(y[4]) if y[0] == 'agg' else {}
                    own = 'addr_list' in f and has_call(f['addr_list'], 'build_address_list') and 'id' in f and has_field(f['id'], 'key')
                    R.ob(key, own, 'the address list in an answer is the own one under the own key, got %s' % short(y)[:160], w)

        def found(self, e, st, kd, y, w):
            key = 'answer/%s' % kd
            if kd == 'DhtFindValue':
                R.ob(key + '/limit', 'some' in st.marks and 'within' in st.marks, 'a value query is answered without the facts that k is not zero and within the limit', w)
                if y[0] == 'agg' and y[3] == 'ValueFound':
                    v = peel(y[4][0][1])
                    c = got(v)
                    R.ob(key + '/value', iscall(c, 'get_ref', 'get') and isf(c[2][0], 'storage') and said(c[2][1], 'key') and v[0] == 'field' and v[2] == ('f', 'Some.0'),
                         'the value in an answer is the stored one of the key asked for, unchanged, got %s' % short(v)[:160], w)
                    R.count('values')
                    return
                if y[0] == 'agg' and y[3] == 'ValueNotFound':
                    R.ob(key + '/absent', 'absent' in st.marks, 'a value query is answered with records without the fact that the storage has no value of this key', w)
                    y = peel(y[4][0][1])
            ls = dict(y[4]).get('nodes') if y[0] == 'agg' else None
            if ls is None:
                R.ob(key + '/records', False, 'the answer is neither the stored value nor a list of records, got %s' % short(y)[:160], w)
                return
            for z in walk(ls):
                if iscall(z, 'collect', 'from_iter') and of_table(z):
                    R.ob(key + '/bounded', any(iscall(t, 'take') and within_k(e, t[2][1]) for t in walk(ls)),
                         'the records of an answer are collected without the bound asked for, got %s' % short(ls)[:160], w)
                    R.count('records')
            foreign = [z for z in walk(ls) if z[0] == 'field' and z[2][1] in ('known_peers', 'penalties', 'neighbours')]
            R.ob(key + '/buckets', not foreign, 'the records of an answer come from the buckets, got %s' % short(ls)[:160], w)

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or val is None:
                return
            kd = self.kind(st)
            w = src(e, ctx, ctx.body.line)
            for v in expand_phi(e, val):
                if v[0] == 'agg' and v[3] == 'Ok':
                    r = v[4][0][1]
                    for y in expand_phi(e, r):
                        if y[0] == 'agg' and y[3] == 'Rejected' and kd in self.known:
                            R.ob('known/%s' % kd, False, 'a query of a known kind is rejected as foreign', w)
                        if y[0] == 'agg' and y[3] == 'Consumed' and kd != 'DhtQuery':
                            for a in expand_phi(e, y[4][0][1]):
                                if a[0] == 'agg' and a[3] == 'None':
                                    R.ob('answer/%s' % kd, False, 'a query of a known kind gets no answer', w)
                                for z in expand_phi(e, a[4][0][1]) if a[0] == 'agg' and a[3] == 'Some' else ():
                                    if iscall(z, 'serialize', 'serialize_as_boxed'):
                                        self.answer(e, ctx, st, z[2][0], w, ctx.body.line)
                        if y[0] == 'agg' and y[3] == 'Consumed' and kd == 'DhtQuery':
                            a = y[4][0][1]
                            R.ob('prefix/answer', mentions(a, lambda z: z[0] == 'await') or has_call(a, 'try_consume_query'), 'the answer to a prefixed query is the one of its rest, got %s' % short(a)[:160], w)
                            R.count('prefixed')

    O.known = KINDS[:6]
    R.run(O(), R.async_body(node))
    O.known = KINDS[6:]
    R.run(O(), R.async_body(ping))
    for k in KINDS:
        R.ob('answered/%s' % k, bool(done.get(k)), 'queries of this kind are answered', done.get(k, [''])[0])
    R.floor('records', R.counts.get('records', 0), 1)
    R.floor('values', R.counts.get('values', 0), 1)
    R.floor('prefixed', R.counts.get('prefixed', 0), 1)


def rel_false(e, st, c, ids):
    """on this path c is known not to be one of ids"""
    for op, a, b in all_rels(st):
        for x, y in ((a, b), (b, a)):
            if op == '!=' and got(uncast(x)) == c and y[0] == 'const' and y[1] in ids:
                return True
    for k, v in st.facts.items():
        if k[0] == 'isnot' and got(uncast(k[1])) == c and (v in ids or isinstance(v, (set, frozenset, tuple)) and ids & set(v)):
            return True
        if k[0] == 'is' and got(uncast(k[1])) == c and v not in ids:
            return True
    return False


def parts(v):
    return dict(v[4]) if v[0] == 'agg' else {}


def polled(e, v):
    """an item yielded by the stream"""
    return any(iscall(x, 'poll_next_unpin', 'poll_next') for x in walk_phi(e, v))


@rule('D09', 'a store reports success only for a value read back from the network and accepted by its predicate, which compares the whole of what was stored; what is sent is what is stored locally',
      'path-sensitive dataflow with guard facts at every result of the future, outcome analysis of the predicates',
      'The constructor of a store puts the value into the local storage first, fails with it, and serialises that very value for the query; the key searched afterwards is the key of this value. '
      'The store asks each known peer once, when polled first, and is finished only when its queries are. The search starts only after that. The checked store yields true only with the fact that the predicate accepted '
      'a value yielded by the search, and false only when the search has ended. The predicates of the node accept only with the equality of the whole stored record or address and the given one. '
      'A record is built from the key, data and expiry given to its builder, or now plus the configured time to live, under the full id of the signing key.')
def d09(R):
    prog = R.prog
    new = R.method('StoreValue', 'new')
    d09_new(R, new)
    d09_store(R, R.tmethod('Future', 'StoreValue', 'poll'))
    d09_check(R, R.tmethod('Future', 'DhtStoreValueWithCheck', 'poll'))
    d09_predicates(R)
    d09_values(R)


def d09_new(R, new):
    class O(E.Observer):
        maydepth = 6
        part_cap = 100

        def inline(self, e, b):
            return b.file.startswith('src/dht/') and not b.file.endswith('storage.rs')

        def learned(self, e, st, k, v):
            if k[0] == 'var' and v == 'Ok' and iscall(k[1], 'insert') and has_field(k[1][2][0], 'storage'):
                return [('v', 'stored', k[1][2][1])]

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or val is None:
                return
            w = src(e, ctx, ctx.body.line)
            for v in expand_phi(e, val):
                if v[0] == 'agg' and v[3] == 'Err' or v[0] == 'call' and 'from_residual' in v[1]:
                    continue
                v = got(v[4][0][1]) if v[0] == 'agg' and v[3] == 'Ok' else v
                f = parts(v)
                kept_in = [peel(x) for x in vm(st, 'stored')]
                R.ob('new/local', len(kept_in) == 1, 'a store is created without the success of storing the value locally', w)
                q = [x for n in f for x in walk(f[n]) if iscall(x, 'serialize', 'serialize_as_boxed', 'serialize_into')]
                sent = [parts(y).get('value') for x in q for y in walk(x) if y[0] == 'agg' and last(y[2] or '') == 'DhtStore']
                R.ob('new/query', len(sent) == 1 and sent[0] is not None and kept_in and canon(e, peel(sent[0])) == canon(e, kept_in[0]),
                     'the value sent is the one stored locally, got %s' % [short(s)[:120] for s in sent if s], w)
                key = f.get('key')
                ok = key is not None and kept_in and canon(e, peel(key)) == canon(e, fld(kept_in[0], 'key', 'key'))
                R.ob('new/key', bool(ok), 'the key searched afterwards is the one of the value, got %s' % (short(key)[:120] if key else None), w)
                started = f.get('started')
                R.ob('new/started', started is not None and started[0] == 'const' and not started[1], 'a new store has not been started', w)
                R.count('constructed')
    R.run(O(), new)
    R.floor('constructed', R.counts.get('constructed', 0), 1)


def d09_store(R, poll):
    class O(E.Observer):
        maydepth = 6
        part_cap = 200

        def inline(self, e, b):
            return b.file.startswith('src/dht/') and not b.file.endswith('storage.rs')

        def relevant(self, f):
            return True

        def learned(self, e, st, k, v):
            ms = []
            if isfield(k, 'started') or k[0] == 'is' and isfield(k[1], 'started'):
                ms.append('idle' if not v else 'begun')
            if k[0] == 'var' and v == 'None' and polled(e, k[1]):
                ms.append('ended')
            if k[0] == 'var' and v == 'Some' and polled(e, k[1]):
                ms.append(('v', 'one', k[1]))
            return tuple(ms) or None

        def stored(self, e, ctx, st, path, val, line):
            if path and path[-1] == ('f', 'started') and val[0] == 'const':
                if val[1]:
                    return st.marks | {'begun'}
                R.ob('store/restart', False, 'a store that has begun is marked as new', src(e, ctx, line))
            return None

        def call(self, e, ctx, st, ev):
            if ev.name in ('push', 'extend', 'collect', 'from_iter') and any(isf(a, 'futures') or has_field(a, 'futures') for a in ev.args[:1]):
                w = src(e, ctx, ev.line)
                peers = [x for a in ev.args[1:] for x in walk(a) if has_field(x, 'known_peers')]
                R.ob('store/once', 'idle' in st.marks, 'queries of a store are created without the fact that it has not begun', w)
                R.ob('store/peers', bool(peers), 'the queries of a store go to the known peers, got %s' % [short(a)[:160] for a in ev.args[1:]], w)
                R.count('spawned')
                return st.marks | {'asked'}
            if ev.name == 'query_raw' and 'dht' in ev.p:
                q = ev.args[2]
                R.ob('store/query', isf(peel(canon(e, q)), 'query'), 'a peer is asked to store the value given, got %s' % short(q)[:120], src(e, ctx, ev.line))
                R.count('asked')
            return None

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or val is None:
                return
            for v in expand_phi(e, val):
                w = src(e, ctx, ctx.body.line)
                if v[0] == 'agg' and v[3] == 'Ready':
                    R.ob('store/ready', 'ended' in st.marks, 'a store is finished without the end of its queries', w)
                    R.count('finished')
                    R.ob('store/begun', 'begun' in st.marks, 'a store is finished although it has not begun', w)
                elif v[0] == 'agg' and v[3] == 'Pending':
                    R.ob('store/begun', 'begun' in st.marks, 'a store that has begun is not marked so: its queries are sent again', w)
                else:
                    R.ob('store/result', False, 'a store ends with something unknown: %s' % short(v)[:120], w)
    R.run(O(), poll)
    for n in ('spawned', 'asked', 'finished'):
        R.floor(n, R.counts.get(n, 0), 1)


def d09_check(R, poll):
    class O(E.Observer):
        maydepth = 5
        part_cap = 300

        def inline(self, e, b):
            return b.file.startswith('src/dht/') and not b.file.endswith(('storage.rs', 'node.rs', 'peers_iter.rs')) and \
                not (b.kind == 'fn' and last(b.id) == 'poll' and b.id != poll.id) and not (last(b.id) == 'new' and 'streams' in b.file)

        def relevant(self, f):
            return True

        def learned(self, e, st, k, v):
            ms = []
            for k1, v1 in [(k, v)]:
                if k1[0] == 'field' and got(k1) != k1 and iscall(got(k1), 'call_mut', 'call', 'call_once') and has_field(got(k1), 'check_value') and v1 is True:
                    if any(polled(e, a) for a in got(k1)[2][1:]):
                        ms.append('accepted')
                if k1[0] == 'var' and v1 == 'None' and polled(e, k1[1]):
                    ms.append('ended')
                if k1[0] == 'var' and v1 == 'Ready' and iscall(k1[1], 'poll_unpin', 'poll') and any(has_field(a, 'store_value') for a in k1[1][2][:1]):
                    ms.append('sent')
                if k1[0] == 'var' and v1 == 'Some' and has_field(k1[1], 'find_value') and not polled(e, k1[1]):
                    ms.append('sent')
            for k1, v1 in origins(e, k, v):
                for x in expand_phi(e, k1):
                    if v1 is True and iscall(got(x), 'call_mut', 'call') and has_field(got(x), 'check_value') and \
                            all(any(has_call(z, 'poll_next_unpin', 'poll_next') for a in got(x)[2][1:] for z in walk_phi(e, a)) for _ in (0,)):
                        ms.append('accepted')
            if k[0] == 'var' and v == 'Err' and any(iscall(x, 'call_mut', 'call') and has_field(x, 'check_value') for x in expand_phi(e, k[1])):
                ms.append('failed')
            return tuple(ms) or None

        def call(self, e, ctx, st, ev):
            if ev.name in ('call_mut', 'call') and any(has_field(a, 'check_value') for a in ev.args[:1]):
                return st.marks - {'accepted', 'failed'}
            if ev.name == 'new' and 'DhtValuesStream' in ev.p:
                w = src(e, ctx, ev.line)
                R.ob('check/after', 'sent' in st.marks, 'the search starts without the end of the store', w)
                R.ob('check/key', has_field(ev.args[1], 'key') and has_field(ev.args[1], 'store_value'), 'the search is for the key that was stored, got %s' % short(ev.args[1])[:120], w)
                R.count('searches')
            return None

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or val is None:
                return
            w = src(e, ctx, ctx.body.line)
            for v in expand_phi(e, val):
                if v[0] == 'agg' and v[3] == 'Pending':
                    continue
                r = v[4][0][1] if v[0] == 'agg' and v[3] == 'Ready' else v
                for y in expand_phi(e, r):
                    if y[0] == 'agg' and y[3] == 'Err':
                        continue
                    x = y[4][0][1] if y[0] == 'agg' and y[3] == 'Ok' else y
                    x = E.settled(st, x)
                    if x[0] != 'const' and st.facts.get(x) in (True, False):
                        x = mk('const', int(st.facts[x]), 'bool')
                    if x[0] == 'const' and x[1]:
                        R.ob('check/true', 'accepted' in st.marks, 'a store is reported as found without the fact that the predicate accepted a value of the search', w)
                        R.count('accepted')
                    elif x[0] == 'const':
                        R.ob('check/false', 'ended' in st.marks, 'a store is reported as not found before the search has ended', w)
                        R.count('rejected')
                    elif iscall(got(x), 'call_mut', 'call') and ('accepted' in st.marks or 'failed' in st.marks and got(x) == x):
                        R.count('accepted')
                    elif iscall(got(x), 'call_mut', 'call'):
                        R.ob('check/false', False, 'a store is reported as not found before the search has ended: the outcome of one predicate is returned', w)
                    else:
                        R.ob('check/result', False, 'the outcome of a store is unknown: %s' % short(x)[:120], w)
    R.run(O(), poll)
    for n in ('searches', 'accepted', 'rejected'):
        R.floor(n, R.counts.get(n, 0), 1)


def d09_predicates(R):
    """closures handed to then_check accept only what was stored"""
    prog = R.prog
    bs = []
    for b in prog.bodies.values():
        if b.kind == 'promoted' or not b.file.startswith('src/dht/'):
            continue
        for p, r, i, t in body_calls(b):
            if last(p) == 'then_check' and b not in bs:
                bs.append(b)
    seen = set()

    class P(E.Observer):
        """the closure itself"""
        maydepth = 5
        part_cap = 200

        def inline(self, e, b):
            return b.file.startswith('src/dht/')

        def relevant(self, f):
            return True

        def same(self, a, c):
            """one side is the whole of what was read back, the other a captured variable"""
            for x, y in ((a, c), (c, a)):
                x, y = peel(x), peel(y)
                g = got(x)
                whole = iscall(g, 'elem') or iscall(g, 'parse_address_list') or isf(g, 'address')
                if whole and y[0] == 'field' and y[1] == ('arg', 1, None) or whole and y[0] == 'field' and y[1][0] in ('arg', 'deref') and y[1][:2] == ('arg', 1):
                    return True
            return False

        def learned(self, e, st, k, v):
            ms = []
            for k1, v1 in origins(e, k, v):
                for op, a, c in rels(k1, v1):
                    if op == '==' and self.same(a, c):
                        ms.append('same')
                if k1[0] == 'call' and v1 is True and last(k1[1]) in ('eq', 'contains') and len(k1[2]) == 2 and self.same(k1[2][0], k1[2][1]):
                    ms.append('same')
                if k1[0] == 'call' and v1 is True and last(k1[1]) == 'any' and closure_same(R, e, k1[2], self):
                    ms.append('same')
            return tuple(ms) or None

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or val is None:
                return
            w = src(e, ctx, ctx.body.line)
            for v in expand_phi(e, val):
                if v[0] == 'agg' and v[3] == 'Err' or v[0] == 'call' and 'from_residual' in v[1]:
                    continue
                x = v[4][0][1] if v[0] == 'agg' and v[3] == 'Ok' else v
                x = E.settled(st, x)
                if x[0] == 'const' and not x[1]:
                    continue
                ok = 'same' in st.marks or x[0] == 'bin' and any(op == '==' and self.same(a, c) for op, a, c in rels(x, True)) or \
                    iscall(x, 'any') and closure_same(R, e, x[2], self)
                R.ob('accept/%s' % ctx.body.id.split('::')[-2 if '{' in ctx.body.id.split('::')[-1] else -1] + '/' + short_id(ctx.body.id), bool(ok),
                     'a value read back is accepted without the equality of the whole record with the one stored, got %s' % short(x)[:160], w)
                R.count('predicates')

    for b in bs:
        class O(E.Observer):
            maydepth = 0

            def call(self, e, ctx, st, ev):
                if ev.name == 'then_check':
                    for a in ev.args[1:]:
                        for x in walk(a):
                            if x[0] == 'agg' and x[1] == 'closure' and x[2] in prog.bodies:
                                seen.add(x[2])
                return None
        R.run(O(), b)
    for i in sorted(seen):
        R.run(P(), prog.bodies[i])
    R.floor('predicates', R.counts.get('predicates', 0), 2)


def short_id(i):
    return '::'.join(x for x in i.split('::') if '{' not in x)[-40:]


def closure_same(R, e, args, obs):
    """the closure of any(..) compares the whole element with something captured"""
    for a in args[1:]:
        for x in walk(a):
            if x[0] == 'agg' and x[1] == 'closure' and x[2] in R.prog.bodies:
                ok = []

                class Q(E.Observer):
                    maydepth = 3

                    def inline(self, e2, b):
                        return b.file.startswith('src/dht/')

                    def exit(self, e2, ctx, st, kind, val):
                        if kind == 'return' and val is not None:
                            for v in expand_phi(e2, val):
                                v = E.settled(st, v)
                                if v[0] == 'const' and not v[1]:
                                    continue
                                r = [(a1, c1) for op, a1, c1 in rels(v, True) if op == '=='] or ([tuple(v[2])] if iscall(v, 'eq') and len(v[2]) == 2 else [])
                                ok.append(any(peel(p)[0] == 'arg' and peel(q)[0] == 'field' and peel(q)[1][:2] == ('arg', 1) or
                                              peel(q)[0] == 'arg' and peel(p)[0] == 'field' and peel(p)[1][:2] == ('arg', 1) for p, q in r))
                R.run(Q(), R.prog.bodies[x[2]])
                return bool(ok) and all(ok)
    return False


def d09_values(R):
    """records are built from what the builder was given"""
    prog = R.prog
    roots = [R.method('EntryWithData', 'sign'), R.method('EntryWithData', 'sign_and_store')]
    roots += [R.async_body(R.method('dht::node::Node', 'store_overlay_node'))]

    class O(E.Observer):
        maydepth = 6
        part_cap = 200
        signed = False

        def inline(self, e, b):
            return b.file.startswith('src/dht/') and not b.file.endswith(('storage.rs', 'streams.rs')) and last(b.id) not in ('poll', 'then_check') and \
                not ('futures' in b.file and last(b.id) == 'new')

        def learned(self, e, st, k, v):
            if k[0] == 'var' and v in ('Some', 'None') and isf(k[1], 'expire_at'):
                return ['given' if v == 'Some' else 'default']

        def value(self, e, ctx, st, x, w):
            x = canon(e, x)
            x = peel(x)
            key, data, ttl = (canon(e, e.project(x, ('f', n))) for n in VALUE3)
            desc = {n: canon(e, e.project(key, ('f', n))) for n in ('key', 'id', 'update_rule', 'signature')}
            nm = 'signed' if self.signed else 'overlay'
            rule = desc['update_rule']
            if self.signed:
                R.ob(nm + '/rule', rule[0] == 'agg' and rule[3] == 'Signature', 'a signed record states the signature rule, got %s' % short(rule)[:80], w)
                R.ob(nm + '/owner', iscall(peel(desc['id']), 'as_tl', 'full_id') and has_arg(desc['id'], 'key'), 'a signed record names the full id of the signing key, got %s' % short(desc['id'])[:120], w)
                k = desc['key']
                fields = {n: peel(canon(e, e.project(k, ('f', n)))) for n in ('id', 'name', 'idx')}
                good = isf(fields['id'], 'id') and (isf(fields['name'], 'name') or iscall(fields['name'], 'as_bytes') and isf(fields['name'][2][0], 'name')) and isf(fields['idx'], 'key_index')
                R.ob(nm + '/key', good, 'a signed record has the id, name and index of its entry, got %s' % short(k)[:160], w)
                R.ob(nm + '/data', isf(peel(data), 'data'), 'a signed record has the data given, got %s' % short(data)[:120], w)
                for t in expand_phi(e, ttl):
                    t = peel(t)
                    own = got(t) != t and isf(got(t), 'expire_at')
                    dflt = t[0] == 'bin' and t[1] == 'Add' and any(is_now(a) for a in t[2:4]) and any(isf(a, 'value_ttl_sec') for a in t[2:4]) or \
                        iscall(t, 'saturating_add') and any(is_now(a) for a in t[2]) and any(isf(a, 'value_ttl_sec') for a in t[2])
                    both = iscall(t, 'unwrap_or', 'unwrap_or_else') and isf(t[2][0], 'expire_at')
                    R.ob(nm + '/expiry', own or dflt or both, 'a signed record expires when given, or after the configured time, got %s' % short(t)[:160], w)
                    if dflt and not both:
                        R.ob(nm + '/expiry-given', 'given' not in st.marks, 'the expiry given is not used', w)
            else:
                R.ob(nm + '/rule', rule[0] == 'agg' and rule[3] == 'OverlayNodes', 'a member list states its rule, got %s' % short(rule)[:80], w)
                R.ob(nm + '/node', any(has_arg_in(z, 'node') for z in walk_phi(e, data)), 'the member list has the node given, got %s' % short(data)[:120], w)
                t = peel(ttl)
                R.ob(nm + '/expiry', any(is_now(y) for y in walk(t)) and has_field(t, 'value_ttl_sec') and not (t[0] == 'bin' and t[1] == 'Sub'),
                     'a member list expires after the configured time, got %s' % short(t)[:120], w)
                k = desc['key']
                R.ob(nm + '/key', has_call(e.project(k, ('f', 'id')), 'compute_short_id') and has_field(e.project(k, ('f', 'id')), 'overlay_id_full'),
                     'a member list is stored under the id of its overlay, got %s' % short(k)[:120], w)
            R.count('built-' + nm)

        def call(self, e, ctx, st, ev):
            if ev.name == 'new' and 'StoreValue' in ev.p:
                self.value(e, ctx, st, ev.args[1], src(e, ctx, ev.line))
            return None

        def exit(self, e, ctx, st, kind, val):
            if kind == 'return' and val is not None and last(ctx.body.id) == 'sign':
                self.value(e, ctx, st, val, src(e, ctx, ctx.body.line))
    for b in roots:
        o = O()
        o.signed = 'Entry' in (b.id + str(b.locals[1:2])) or 'entry' in b.file
        R.run(o, b)
    for name, arg in (('with_ttl', 'ttl'), ('expire_at', 'timestamp')):
        class B(E.Observer):
            maydepth = 3

            def exit(self, e, ctx, st, kind, val):
                if kind == 'return' and val is not None:
                    v = canon(e, e.project(val, ('f', 'expire_at')))
                    t = v[4][0][1] if v[0] == 'agg' and v[3] == 'Some' else None
                    ok = t is not None and (t[0] == 'arg' if name == 'expire_at' else has_op(t, 'Add', 'saturating_add') and any(is_now(y) for y in walk(t)) and any(y[0] == 'arg' for y in walk(t)))
                    R.ob('builder/%s' % name, bool(ok), 'the builder keeps the expiry given, got %s' % short(v)[:120], src(e, ctx, ctx.body.line))
                    R.count('builders')
        R.run(B(), R.method('EntryWithData', name))
    for n in ('built-signed', 'built-overlay', 'builders'):
        R.floor(n, R.counts.get(n, 0), 1)


def has_op(v, op, fn):
    return v[0] == 'bin' and v[1] == op or iscall(v, fn)


def has_arg_in(v, name):
    return any(x[0] == 'arg' and x[2] == name or x[0] == 'field' and x[2] == ('f', name) for x in walk(v))


VALUE3 = ('key', 'value', 'ttl')


# ------------------------------------------------------------------------------------------------- D10
@rule('D10', 'the failure of one peer, or of one record, never leads out of the loop over the others',
      'path-sensitive exploration of every loop over peers, records and answers; typestate "one has failed" that only the next round ends',
      'In every function of the DHT and of the overlays that handles several peers, records or answers in a row, the outcomes of operations on one of them (those from which a signature check, '
      'the reading of an address list, or a message to a peer is reachable) and of the answers that arrive are followed. After a failure the next one must be asked for: '
      'no exit of the function may be reached in between, neither with the error nor in another way. All-or-nothing checks of one value, which only return success, are left out.')
def d10(R):
    prog = R.prog
    asks = reaching(prog, lambda p, r: last(p or '') in ('verify', 'verify_raw', 'parse_address_list', 'send_to', 'try_send', 'send') or last(r or '') in ('parse_address_list', 'verify'))
    n = 0

    def loops(b):
        return any(last(p or '') in ('next', 'poll_next', 'poll_next_unpin') for p, r, _, _ in body_calls(b))
    for b in sorted(prog.bodies.values(), key=lambda b: b.id):
        if b.kind not in ('fn', 'coroutine') or not re.match(r'src/(dht|overlay)/', b.file) or '::tests::' in b.id:
            continue
        rt = ret_ty(b)
        if re.search(r'Result<\(\)(,.*)?>$', rt):
            continue
        if not loops(b):
            continue
        hits = {}

        class O(E.Observer):
            maydepth = 2
            part_cap = 100

            def inline(self, e, b2):
                # parts split off from this function
                return b2.kind == 'closure' or not b2.pub and b2.file == b.file and len(callers(prog, b2.id)) <= 3 and len(b2.blocks) < 120 and not loops(b2)

            def relevant(self, f):
                return True

            def of_one(self, v):
                return mentions(v, lambda y: iscall(y, 'elem', 'next', 'poll_next'))

            def learned(self, e, st, k, v):
                if k[0] != 'var' or v not in ('Err', 'Break') or not self.of_one(k[1]):
                    return None
                c = k[1]
                while c[0] == 'call' and last(c[1]) in ('branch', 'map_err', 'context', 'with_context') and c[2]:
                    c = c[2][0]
                x = got(c)
                if x[0] == 'call' and last(x[1]) not in ('elem', 'next', 'poll_next'):
                    tgt = [y for y, _ in hits.get(('site', x[3]), ())]
                    if not tgt:
                        return None
                    what = last(x[1])
                else:
                    what = 'an answer'
                R.count('failures of one of several')
                return ('failed:%s' % what,)

            def call(self, e, ctx, st, ev):
                if ev.name in ('next', 'poll_next', 'poll_next_unpin'):
                    return frozenset(m for m in st.marks if not str(m).startswith('failed:'))
                if any(self.of_one(a) for a in ev.args) and ev.id in asks:
                    hits.setdefault(('site', ev.site), set()).add((ev.id, ev.line))

            def iterated(self, e, ctx, st, it, some):
                return frozenset(m for m in st.marks if not str(m).startswith('failed:'))

            def exit(self, e, ctx, st, kind, val):
                for m in sorted(str(m) for m in st.marks if str(m).startswith('failed:')):
                    R.ob('%s/%s' % (b.parent and fn_name(b) or b.name, m[7:]), kind != 'return', 'after the failure of %s for one of several the function is left, without a look at the others' % m[7:], one_line(ctx, b.line))
        R.run(O(), b)
        if hits:
            n += 1
            for (_, s), t in sorted(hits.items(), key=str):
                for i, l in sorted(t):
                    R.ob('loop/%s/%s' % (fn_name(b), i.split('::')[-1]), True, 'an operation on one of several', '%s:%s' % (b.file, l))
    R.floor('functions with a loop over peers or records', n, 2)


def fn_name(b):
    x = b
    return re.sub(r'::\{closure#\d+\}', '', b.id).split('::')[-1]
