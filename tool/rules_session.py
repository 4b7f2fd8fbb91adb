""" sessions with peers: when a session is torn down and when an address is taken over """
from rules_adnl import *
import engine as E
from engine import walk, mentions, short, mk, last


def is_drop(ev):
    """ an atomic operation on the deadline of a channel """
    return 'atomic' in ev.p and ev.args and isfield(ev.args[0], 'drop')


def mutates(prog, b, fields, ty):
    """ a body which performs an atomic write on one of the fields """
    seen = []

    class W(E.Observer):
        maydepth = 0

        def inline(self, e, b2):
            return False

        def call(self, e, ctx, st, ev):
            if 'atomic' in ev.p and ev.name != 'load' and ev.name != 'new' and ev.args and any(isfield(ev.args[0], f) for f in fields):
                seen.append(ev)
    if any('atomic' in p and last(p) not in ('load', 'new', 'default') for p, r, i, t in body_calls(b)):
        E.run(prog, W(), b)
    return bool(seen)


def renewing(prog):
    """ methods of the peer entry which replace the channel key """
    out = set()
    for b in methods_of(prog, 'Peer'):
        if b.kind == 'fn' and b.argc and b.locals[1][0].startswith('&mut'):
            for blk in b.blocks:
                for s in blk['s']:
                    if s[0] == '=' and 'channel_key' in str(s[1]):
                        out.add(b.id)
            if any(has for has in [('channel_key' in str(blk['t'])) and blk['t'][0] == 'call' and 'channel_key' in str(blk['t'][3]) for blk in b.blocks]):
                out.add(b.id)
    return out


def above(prog, ids):
    """ ids and everything that can reach them """
    out, todo = set(), list(ids)
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += callers(prog, x)
    return out


def up(prog, ids, stop):
    """ all call edges upwards from ids to the bodies in stop: (caller, callee) """
    edges, todo, seen = set(), list(ids), set()
    while todo:
        x = todo.pop()
        if x in seen or x in stop:
            continue
        seen.add(x)
        for c in callers(prog, x):
            if c in prog.bodies and prog.bodies[c].kind != 'promoted':
                edges.add((c, x))
                todo.append(c)
    return edges


@rule('N17', 'a session is reset only by an unanswered query after the deadline of the channel in use, together with exactly this channel',
      'path-sensitive MIR dataflow: marks of guard outcomes at every reset, enumeration of the writers of the deadline over the call graph',
      'Every call of a method that renews a peer entry is reached only where the deadline of a channel was read as set and passed, where this very channel (compared by '
      'identity) was just removed from the table of its peer, and on paths that return no answer. The deadline is armed only from zero, by an unanswered query, as now plus the '
      'configured time; it is cleared only by a packet that was decrypted with this very channel, before any message of it takes effect. No other code writes it.')
def n17(R):
    prog = R.prog
    ren = renewing(prog)
    R.floor('methods that renew a peer entry', len(ren), 1)
    dropw = {b.id for b in prog.bodies.values() if b.kind != 'promoted' and mutates(prog, b, ('drop',), 'Channel')}
    R.floor('writers of the deadline', len(dropw), 2)
    recv = recv_body(R)
    touch = above(prog, ren | dropw)
    roots = set()
    todo, seen = list(ren), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        b = prog.bodies[x]
        cs = [c for c in callers(prog, x) if c in prog.bodies and prog.bodies[c].kind != 'promoted']
        if b.kind == 'coroutine' and x not in ren and any('tokio::time::' in p for p, r, i, t in body_calls(b)) or not cs:
            roots.add(x)
        else:
            todo += cs
    R.floor('functions that reset a session', len(roots), 1)
    visited = set()

    class Base(E.Observer):
        maydepth = 8
        part_cap = 300
        inline_spawn = False

        def relevant(self, f):
            return True

        def small(self, e, b):
            if b.kind == 'closure' and b.file.startswith('src/adnl'):
                return True
            return b.file.startswith('src/adnl') and b.id not in ren and (b.id in touch or b.kind == 'fn' and len(b.blocks) < 30)

        def note(self, ctx, ev):
            if ev.id:
                visited.add((ctx.body.id, ev.id))

    for rid in sorted(roots):
        gates = {}
        root = prog.bodies[rid]

        class O(Base):
            def inline(self, e, b):
                return self.small(e, b)

            def learned(self, e, st, k, v):
                out = []
                for op, a, b in rels(k, v):
                    for side, other in ((a, b), (b, a)):
                        ch = {base_chan(y[2][0]) for y in walk(side) if y[0] == 'call' and y[2] and isfield(y[2][0], 'drop')}
                        if not ch or any(y[0] == 'call' and y[2] and isfield(y[2][0], 'drop') for y in walk(other)):
                            continue
                        zero = other[0] == 'const' and other[1] in (0, False)
                        if zero and (op == '!=' or op == '<' and side is b):
                            out += [('v', 'set', c) for c in ch]
                        if op in ('<', '<=') and side is a and is_now(other):
                            out += [('v', 'past', c) for c in ch]
                if k[0] == 'var' and v == 'Some' and k[1][0] == 'call' and last(k[1][1]) in ('remove_if', 'remove_if_mut') and root_field(k[1][2][0]) == 'channels_by_peers':
                    for c in k[1][2][1:]:
                        for x in walk(c):
                            if x[0] == 'agg' and x[1] == 'closure':
                                out += [('gone', g) for g in gates.get(x[2], ())]
                if v is True and same_object(k):
                    a, b = same_object(k)
                    for x, y in ((a, b), (b, a)):
                        if root_field(x) == 'channels_by_peers' and has_call(x, 'entry'):
                            out.append(('same', base_chan(y)))
                if v is False and same_object(k):
                    out.append('notsame')
                return out

            def ret(self, e, ctx, st, ev):
                if ctx.body.kind == 'closure' and ctx.site and ctx.site[0] == 'cb':
                    v = ev.result
                    s = set()
                    if v == E.FALSE:
                        return
                    for x in conj(v) if v is not None else ():
                        so = same_object(x)
                        if so and any(has_cbarg_(y) for y in so):
                            s |= {base_chan(y) for y in so if not has_cbarg_(y)}
                    for mk_ in st.marks:
                        if v == E.TRUE and isinstance(mk_, tuple) and mk_[0] == 'same':
                            s.add(mk_[1])
                    gates[ctx.body.id] = gates[ctx.body.id] & s if ctx.body.id in gates else s

            def call(self, e, ctx, st, ev):
                self.note(ctx, ev)
                m = st.marks
                w = src(e, ctx, ev.line)
                if is_drop(ev):
                    if ev.name == 'load':
                        return
                    self.arm(e, ctx, st, ev, w)
                    return
                if ev.name in ('remove', 'remove_entry') and 'ntry' in ev.p and ev.args and root_field(ev.args[0]) == 'channels_by_peers':
                    return m | {('gone', x[1]) for x in m if isinstance(x, tuple) and x[0] == 'same'}
                if ev.id in ren:
                    R.count('resets')
                    past = {x[2] for x in m if isinstance(x, tuple) and x[:2] == ('v', 'past')}
                    sets = {x[2] for x in m if isinstance(x, tuple) and x[:2] == ('v', 'set')}
                    gone = {x[1] for x in m if isinstance(x, tuple) and x[0] == 'gone'}
                    nm = fname(ctx)
                    R.ob('reset/deadline passed in %s' % nm, bool(past), 'a session is reset only after a deadline lies before now', w)
                    R.ob('reset/deadline set in %s' % nm, bool(past & sets), 'a session is reset only when the deadline was set (zero means none)', w)
                    R.ob('reset/channel removed in %s' % nm, bool(gone), 'a session is reset only together with its channel, which was in use until now', w)
                    R.ob('reset/same channel in %s' % nm, bool(gone & past) or not gone or not past, 'the removed channel is the silent one (a newer channel of this peer stays)', w)
                    pk = {p[1:] for a in ev.args[:1] for p in pair_of(a) if p[0] == 'peer'}
                    ck = {ids_of(f[1][2][1]) for f, v in st.facts.items() if f[0] == 'var' and v == 'Some' and f[1][0] == 'call' and last(f[1][1]) in ('remove_if', 'remove_if_mut', 'entry')
                          and root_field(f[1]) == 'channels_by_peers'}
                    R.ob('reset/same peer in %s' % nm, not pk or not ck or bool(pk & ck), 'the reset entry is the one of the peer whose channel was removed', w)
                    return m | {'torn'}

            def arm(self, e, ctx, st, ev, w):
                R.count('deadline armed')
                new = ev.args[2] if ev.name in ('compare_exchange', 'compare_exchange_weak') else ev.args[1]
                ok0 = ev.name in ('compare_exchange', 'compare_exchange_weak') and ev.args[1][0] == 'const' and ev.args[1][1] == 0
                if ev.name in ('store', 'swap'):
                    c = base_chan(ev.args[0])
                    ok0 = any(op == '==' and any(isfield(x[2][0], 'drop') and base_chan(x[2][0]) == c for x in (a, b) if x[0] == 'call' and x[2]) and any(x[0] == 'const' and not x[1] for x in (a, b))
                              for op, a, b in all_rels(st))
                R.ob('arm/once', ok0, 'the deadline is set only where none is set, so that it runs from the first unanswered query', w)
                t = [x for x in expand_phi(e, new)]
                ok = all(x[0] in ('bin',) and x[1] == 'Add' and any(is_now(y) for y in x[2:4]) and any(has_field(y, 'channel_reset_timeout_sec') for y in x[2:4])
                         or x[0] == 'call' and last(x[1]) in ('saturating_add', 'wrapping_add') and any(is_now(y) for y in x[2]) and any(has_field(y, 'channel_reset_timeout_sec') for y in x[2]) for x in t)
                R.ob('arm/value', ok, 'the deadline is now plus the configured time (%s)' % short(new)[:120], w)
                st.marks |= {'armed'}

            def exit(self, e, ctx, st, kind, val):
                if ctx.depth or kind != 'return' or e.known_variant(st, val) == 'Err':
                    return
                p = e.payload(st, val, 'Ok') if e.known_variant(st, val) == 'Ok' else val
                if e.known_variant(st, p) == 'None':
                    found = any(f[0] == 'var' and v == 'Some' and f[1][0] == 'call' and last(f[1][1]) == 'get' and root_field(f[1]) == 'channels_by_peers' for f, v in st.facts.items())
                    absent = any(f[0] == 'var' and v == 'None' and f[1][0] == 'call' and last(f[1][1]) in ('remove_if', 'remove_if_mut', 'entry', 'get') and root_field(f[1]) == 'channels_by_peers'
                                 for f, v in st.facts.items()) or 'notsame' in st.marks
                    R.ob('silence/noticed', not found or 'armed' in st.marks, 'every unanswered query to a peer with a channel starts the deadline', one_line(ctx, ctx.body.line))
                    past = {x[2] for x in st.marks if isinstance(x, tuple) and x[:2] == ('v', 'past')} & {x[2] for x in st.marks if isinstance(x, tuple) and x[:2] == ('v', 'set')}
                    R.ob('silence/reset', not past or 'torn' in st.marks or absent, 'the session is reset when the deadline of its channel passed', one_line(ctx, ctx.body.line))
                for tag, what in (('torn', 'a session is reset'), ('armed', 'a deadline is set')):
                    if tag in st.marks:
                        R.ob('answer/%s' % tag, e.known_variant(st, p) == 'None', '%s only by a query which returns no answer (returns %s)' % (what, short(p)[:100]), one_line(ctx, ctx.body.line))
        R.run(O(), root)
    R.floor('resets', R.counts.get('resets', 0), 1)
    R.floor('deadline armed', R.counts.get('deadline armed', 0), 1)
    # the receive path
    near = recv_near(R, {'decrypt', 'store', 'swap'})
    dl = {b.id for b in deliver_fns(R)}
    dec = R.method('Channel', 'decrypt')

    class V(E.Observer):
        maydepth = 16
        part_cap = 300
        inline_spawn = False

        def inline(self, e, b):
            return b.id not in dl and b.id != dec.id and b.name not in ('check_packet', 'add_part') and (near(e, b) or b.id in dropw)

        def learned(self, e, st, k, v):
            if k[0] == 'var' and v == 'Ok' and k[1][0] == 'call' and last(k[1][1]) == 'decrypt':
                return (('v', 'dec', base_chan(k[1][2][0])),)

        def call(self, e, ctx, st, ev):
            if ev.id:
                visited.add((ctx.body.id, ev.id))
            m = st.marks
            w = src(e, ctx, ev.line)
            if is_drop(ev) and ev.name != 'load':
                R.count('deadline cleared')
                ch = base_chan(ev.args[0])
                R.ob('clear/value', ev.name in ('store', 'swap') and ev.args[1][0] == 'const' and ev.args[1][1] == 0, 'a received packet clears the deadline', w)
                R.ob('clear/decrypted', any(isinstance(x, tuple) and x[:2] == ('v', 'dec') and x[2] == ch for x in m),
                     'the deadline of a channel is cleared only by a packet decrypted with this channel (anybody can send its id)', w)
                return m | {('v', 'clear', ch)}
            if ev.name == 'next' and ev.args and of_messages(e, ev.args[0]) or message_effect(mutation(ev)):
                d = {x[2] for x in m if isinstance(x, tuple) and x[:2] == ('v', 'dec')}
                c = {x[2] for x in m if isinstance(x, tuple) and x[:2] == ('v', 'clear')}
                if d:
                    R.count('messages of channel packets')
                    R.ob('clear/heard', d <= c, 'the messages of a packet that came through a channel are handled only after its deadline was cleared', w)
    R.run(V(), recv)
    R.floor('deadline cleared', R.counts.get('deadline cleared', 0), 1)
    R.floor('messages of channel packets', R.counts.get('messages of channel packets', 0), 1)
    # no other way to the writers
    n = 0
    for c, x in sorted(up(prog, dropw | ren, roots | {recv.id})):
        n += 1
        R.ob('ways/%s to %s' % (prog.bodies[c].name, prog.bodies[x].name), (c, x) in visited or prog.bodies[x].kind in ('coroutine', 'closure'),
             'deadlines and sessions change only while a packet is received or after a query', '%s:%s' % (prog.bodies[c].file, prog.bodies[c].line))
    R.floor('call edges to writers of deadlines and sessions', n, 2)


@rule('N18', 'the address of a peer follows its newest announcement, taken only from address lists which are valid now',
      'path-sensitive MIR dataflow from the receive path and from the admission of DHT records down to the writes of the address',
      'Where a signed address list (of a packet or of a DHT record) changes the address of a known peer, the version of this very list was compared with the recorded version of '
      'this entry and is not older, and becomes the recorded one, both under exclusive access to the entry; a new entry records it as well. A socket address is made of a received '
      'address list only where the list was found unexpired and not from the future, with the ip and the port of the same address.')
def n18(R):
    prog = R.prog
    adm = set(admits(prog)) | admission(prog)
    pm = {b.id for b in methods_of(prog, 'Peer')}
    near = recv_near(R, {'parse_address_list'})
    dl = {b.id for b in deliver_fns(R)}
    dht = R.method('dht::node::Node', 'add_dht_peer')
    added, fields = [], set()
    between = set()
    for b in prog.bodies.values():
        if b.kind != 'promoted' and (b.file.startswith('src/adnl') or b.file.startswith('src/dht')):
            if any(i in adm for p, r, i, t in body_calls(b)):
                between.add(b.id)
    up_ = above(prog, between)

    def addr_write(ev):
        return 'atomic' in ev.p and ev.name not in ('load', 'new') and ev.args and isfield(ev.args[0], 'addr')

    for what, root in (('packet', recv_body(R)), ('DHT record', dht)):
        class O(E.Observer):
            maydepth = 16
            part_cap = 300
            inline_spawn = False

            def inline(self, e, b):
                if b.id in dl or b.name in ('process_message', 'add_part', 'decrypt', 'parse_address_list', 'pack_socket_addr'):
                    return False
                return b.id in adm or b.id in pm and len(b.blocks) < 40 or b.id in up_ and near(e, b) or b.id in up_ and what != 'packet' or near(e, b) and len(b.blocks) < 30 and what == 'packet'

            def relevant(self, f):
                f = fact_val(f)
                return not names(f).isdisjoint({'version', 'addr_version'})

            def learned(self, e, st, k, v):
                out = []
                for op, a, b in rels(k, v):
                    if op in ('<', '<='):
                        a, b = uncast(a), uncast(b)
                        if isfield(b, 'version'):
                            out.append(('v', 'newer', mk('pair', a, b)))
                return out

            def write(self, e, ctx, st, loc, v, line):
                v = uncast(v)
                if isfield(v, 'version') and loc[0] == 'field':
                    return st.marks - {('v', 'owed', mk('pair', loc, v))} | {('v', 'recorded', mk('pair', loc, v))}

            def call(self, e, ctx, st, ev):
                m = st.marks
                w = src(e, ctx, ev.line)
                if 'atomic' in ev.p and ev.name in ('fetch_max', 'store', 'swap') and ev.args and isfield(uncast(ev.args[1]), 'version'):
                    x = mk('pair', ev.args[0], uncast(ev.args[1]))
                    return m - {('v', 'owed', x)} | {('v', 'recorded', x)}
                if addr_write(ev):
                    R.count('addresses changed by a %s' % what)
                    ent, val = ev.args[0], nosites(ev.args[1])
                    good = [x[2] for x in m if isinstance(x, tuple) and x[:2] == ('v', 'newer') and base(x[2][1])[0] == ent[1]]
                    own = [x for x in good if mentions(val, lambda y: y == nosites(x[2][1]))]
                    R.ob('change/compared by a %s' % what, bool(good), 'the address of a known peer changes only where the version of the list was found not older than the recorded one', w)
                    R.ob('change/own version by a %s' % what, bool(own) or not good, 'the compared version is the one of the list the address is taken from', w)
                    R.ob('change/exclusive by a %s' % what, not own or any(exclusive(x[1]) for x in own), 'the recorded version is compared and replaced under exclusive access', w)
                    for x in own:
                        fields.add(base(x[1])[1])
                        if not any(y[2][1] == base(x[1])[2] and y[2][2] == x[2] for y in m if isinstance(y, tuple) and y[:2] == ('v', 'recorded')) and not fmax(x[1]):
                            return m | {('v', 'owed', mk('pair', base(x[1])[2], x[2]))}
                if ('dashmap' in ev.p or 'DashMap' in ev.p) and ev.name in ('insert', 'or_insert', 'insert_entry') and ev.argtys and PEER_MAP.search(str(ev.argtys[0])):
                    R.count('entries added by a %s' % what)
                    added.append((what, ev.args[-1], [(op, a, b) for op, a, b in all_rels(st)], w))

            def exit(self, e, ctx, st, kind, val):
                if ctx.depth == 0 and kind == 'return':
                    R.ob('change/recorded by a %s' % what, not any(isinstance(x, tuple) and x[:2] == ('v', 'owed') for x in st.marks),
                         'the version of the list an address is taken from becomes the recorded one', one_line(ctx, ctx.body.line))
        R.run(O(), root)
        R.floor('addresses changed by a %s' % what, R.counts.get('addresses changed by a %s' % what, 0), 1)
        R.floor('entries added by a %s' % what, R.counts.get('entries added by a %s' % what, 0), 1)
    for what, v, rl, w in added:
        p = [x for x in walk(v) if x[0] == 'agg' and (x[2] or '').endswith('peer::Peer')]
        if not R.ob('new/built by a %s' % what, bool(p), 'the added entry is a new one', w):
            continue
        d = dict(p[0][4])
        addr = nosites(d['addr'])
        for f in sorted(fields):
            x = uncast(atomic_of(d.get(f, E.FALSE)))
            ok = isfield(x, 'version') and mentions(addr, lambda y: y == nosites(x[1]))
            # a version below zero does not exist
            void = any(op == '<' and isfield(uncast(a), 'version') and uncast(b)[:2] == ('const', 0) for op, a, b in rl)
            R.ob('new/recorded by a %s' % what, ok or void, 'a new entry records the version of the list its address is taken from (%s)' % short(x)[:80], w)
    valid_lists(R)


def base(a):
    """ (entry, name of the field, field) of a recorded version, read directly or through an atomic """
    if a[0] == 'call' and a[2]:
        a = a[2][0]
    return (a[1], a[2][1], a) if a[0] == 'field' else (None, None, a)


def fmax(a):
    return a[0] == 'call' and last(a[1]) == 'fetch_max'


def exclusive(a):
    return fmax(a) or any(x[0] == 'call' and last(x[1]) in ('entry', 'get_mut') and 'ashMap' in x[1] for x in walk(a))


def valid_lists(R):
    prog = R.prog

    def run(S, body):
        class P(E.Observer):
            part_cap = 200
            maydepth = 4
            inline_spawn = False

            def inline(self, e, b):
                return len(b.blocks) < 40 and b.name != 'now'

            def relevant(self, f):
                return not names(fact_val(f)).isdisjoint({'expire_at', 'reinit_date'})

            def learned(self, e, st, k, v):
                out = []
                for op, a, b in rels(k, v):
                    a, b = uncast(a), uncast(b)
                    if op == '==':
                        for x, y in ((a, b), (b, a)):
                            if isfield(x, 'expire_at') and y[:2] == ('const', 0):
                                out.append(('v', 'fresh', x[1]))
                    if op == '<=' and isfield(a, 'expire_at') and b[:2] == ('const', 0) or op == '<' and isfield(a, 'expire_at') and b[:2] == ('const', 1):
                        out.append(('v', 'fresh', a[1]))
                    if op in ('<', '<=') and isfield(b, 'expire_at') and now_only(a):
                        out.append(('v', 'fresh', b[1]))
                    if op in ('<', '<=') and isfield(a, 'reinit_date') and mentions(b, lambda y: y[0] == 'call' and last(y[1]) == 'now'):
                        out.append(('v', 'dated', a[1]))
                return out

            def call(self, e, ctx, st, ev):
                if not re.search(r'net::.*SocketAddr(V4)?(::|>::).*new$|SocketAddrV4::new$', ev.p) or ev.name != 'new':
                    return
                f = {x[2][1]: x for a in ev.args for x in walk(a) if x[0] == 'field' and x[2][1] in ('ip', 'port')}
                if not f:
                    return
                w = src(e, ctx, ev.line)
                S.count('socket addresses made of received ones')
                S.ob('list/ip', any(x[0] == 'field' and x[2][1] == 'ip' for x in walk(ev.args[0])), 'the ip of the socket address is the received one', w)
                S.ob('list/port', any(x[0] == 'field' and x[2][1] == 'port' for x in walk(ev.args[1])), 'the port of the socket address is the received one', w)
                S.ob('list/one', len({x[1] for x in f.values()}) == 1, 'ip and port are of the same address', w)
                ls = {x[1] for v in f.values() for x in walk(v) if x[0] == 'field' and x[2][1] == 'address'}
                # a cut-down value keeps no checks of the list it came from: the address is made here, the checks may follow before it is handed out
                st.marks = st.marks | {('v', 'made', l) for l in ls} | ({'unknown'} if not ls else set())

            def exit(self, e, ctx, st, kind, val):
                if kind != 'return' or ctx.depth or e.known_variant(st, val) in ('Err', 'None'):
                    return
                made = {x[2] for x in st.marks if isinstance(x, tuple) and x[:2] == ('v', 'made')}
                fresh = {x[2] for x in st.marks if isinstance(x, tuple) and x[:2] == ('v', 'fresh')}
                dated = {x[2] for x in st.marks if isinstance(x, tuple) and x[:2] == ('v', 'dated')}
                w = one_line(ctx, body.line)
                if not made and 'unknown' in st.marks:
                    if body.id not in makers:       # a conversion of an address: the list is known to its callers
                        makers.add(body.id)
                        todo.extend(prog.bodies[c] for c in callers(prog, body.id) if c in prog.bodies and prog.bodies[c].kind != 'promoted')
                elif made:
                    S.ob('list/unexpired in %s' % body.name, made <= fresh and bool(made), 'an address is handed out only of a list which has not expired', w)
                    S.ob('list/dated in %s' % body.name, made <= dated and bool(made), 'an address is handed out only of a list whose reinit date is not in the future', w)
        S.run(P(), body)
    makers, seen = set(), set()
    todo = [b for b in prog.bodies.values() if b.kind in ('fn', 'closure', 'coroutine') and any(last(p) == 'new' and 'SocketAddr' in p for p, r, i, t in body_calls(b))]
    while todo:
        b = todo.pop()
        if b.id not in seen:
            seen.add(b.id)
            escalate(R, [b], run)
    R.floor('socket addresses made of received ones', R.counts.get('socket addresses made of received ones', 0), 1)


def now_only(v):
    """ the current time, not shifted """
    v = uncast(v)
    return v[0] == 'call' and last(v[1]) == 'now'


def pair_of(v, e=None):
    """ (local id, peer id) under which an entry was found, from a table of peers or from the table of channels """
    out = set()
    for x in walk_phi(e, v) if e else walk(v):
        if x[0] == 'call' and len(x[2]) > 1 and 'ashMap' in x[1] and last(x[1]) in ('get', 'get_mut', 'entry', 'remove', 'remove_if', 'try_get'):
            if root_field(x[2][0]) == 'channels_by_peers':
                out.add(('channel',) + ids_of(x[2][1]))
            elif x[2][0][0] != 'arg':
                t = [y for y in walk(x[2][0]) if y[0] == 'call' and last(y[1]) == 'get' and len(y[2]) > 1 and isfield(y[2][0], 'peers')]
                if t:
                    out.add(('peer', nosites(t[0][2][1]), nosites(x[2][1])))
    return out


def ids_of(k):
    """ the two ids of a key of the channel table """
    k = nosites(k)
    if k[0] == 'agg' and len(k[4]) == 2:
        return tuple(x for _, x in k[4])
    return (None, k)


@rule('N19', 'what is sent under a local identity goes out under this identity: peer entry, channel, signing key, address and context belong to the same two ids',
      'MIR dataflow with provenance of table entries from the functions that touch the tables, on the send and on the receive path',
      'Every operation on the table of channels uses both ids, those of the peer entry the same code uses. On the send path the channel or the signing key, the peer entry whose counters '
      'are used and the address the packet is sent to are found under the same two ids. A channel is put in the table under the two ids it is created for, with the key of that very peer entry. On the receive '
      'path the subscribers are told the ids under which the packet was checked: those of the channel it was decrypted with, or the own key it was encrypted for and the verified sender.')
def n19(R):
    prog = R.prog
    holders = {b.id for b in prog.bodies.values() if b.kind != 'promoted' and b.file.startswith('src/adnl') and "'channels_by_peers'" in str(b.blocks)}
    R.floor('functions that use the table of channels', len(holders), 5)
    new = R.method('Channel', 'new')
    roots = [prog.bodies[h] for h in sorted(holders)]
    place = channel_ids(R, new)

    def run(S, body):
        pairs, uses, made = set(), [], []

        class O(E.Observer):
            maydepth = 6
            part_cap = 60
            inline_spawn = False

            def inline(self, e, b):
                return b.id in holders or b.file.startswith('src/adnl') and b.id != new.id and len(b.blocks) < 25

            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if ev.id == new.id:
                    made.append((ids_given(place, new, ev), w))
                if 'ashMap' not in ev.p or not ev.args or len(ev.args) < 2 and ev.name not in ('iter', 'iter_mut'):
                    return
                f = root_field(ev.args[0])
                if f == 'channels_by_peers' and ev.name in ('iter', 'iter_mut', 'retain'):
                    S.ob('ids/%s in %s' % (ev.name, body.name or owner_name(prog, body)), False, 'a channel is searched among those of all ids', w)
                elif f == 'channels_by_peers' and 'Entry' not in ev.p:
                    uses.append((ev.name, ids_of(ev.args[1]), w))
                elif ev.argtys and PEER_MAP.search(str(ev.argtys[0])) and 'FastHashMap' not in str(ev.argtys[0])[:40]:
                    t = [y for y in walk(ev.args[0]) if y[0] == 'call' and last(y[1]) == 'get' and len(y[2]) > 1 and isfield(y[2][0], 'peers')]
                    if t:
                        pairs.add((nosites(t[0][2][1]), nosites(ev.args[1])))
        S.run(O(), body)
        for n, k, w in uses:
            S.ob('ids/%s in %s' % (n, body.name or owner_name(prog, body)), k[0] is not None and k in pairs, 'a channel is looked up, added or removed under both ids of the peer entry in use (%s)' %
                 ', '.join('none' if x is None else short(x)[:60] for x in k), w)
            S.count('operations on the table of channels')
        for d, w in made:
            k = (nosites(d['local_id']), nosites(d['peer_id']))
            S.ob('made/ids', any(u[1] == k for u in uses), 'a channel is put in the table under the ids it is created for', w)
            S.ob('made/key', pair_of(d['channel_key']) == {('peer',) + k}, 'a channel is made with the key of the peer entry of these ids', w)
            S.count('channels made')
    escalate(R, roots, run)
    R.floor('operations on the table of channels', R.counts.get('operations on the table of channels', 0), 5)
    R.floor('channels made', R.counts.get('channels made', 0), 1)
    # the send path
    send = R.entry('Node', 'send_message', ('Node', 'send_custom_message'))

    class S(E.Observer):
        maydepth = 6
        part_cap = 400
        inline_spawn = False

        def inline(self, e, b):
            return b.file.startswith('src/adnl/node') and (encrypts(prog, b.id) or len(b.blocks) < 25) and b.name not in ('build_handshake_packet',)

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            if ev.name == 'sign' and len(ev.args) > 1 and 'Key' in str(ev.argtys[0]):
                keys = [{nosites(x[2][1]) for x in walk(a) if x[0] == 'call' and last(x[1]) in ('get', 'key_by_id') and len(x[2]) > 1 and (isfield(x[2][0], 'keys') or isfield(x[2][0], 'keystore'))}
                        for a in ev.args[:2]]
                R.count('packets signed')
                R.ob('sent/own key', bool(keys[0]), 'a packet is signed with a key found under the local id', w)
                R.ob('sent/stated key', keys[1] <= keys[0], 'a packet states the key it is signed with', w)
                return frozenset(x for x in st.marks if not (isinstance(x, tuple) and x[0] == 'key')) | {('key', k) for k in keys[0]}
            if ev.id and encrypts(prog, ev.id) and not ctx.body.file.endswith('channel.rs') and not self.inline(e, prog.bodies[ev.id]):
                ps = set()
                for a in ev.args:
                    ps |= pair_of(a)
                ids = {p[1:] for p in ps}
                R.count('packets encrypted')
                R.ob('sent/one', len(ids) == 1, 'the channel or key a packet is encrypted with and the peer entry it states belong to the same two ids (%d pairs)' % len(ids), w)
                keys = {x[1] for x in st.marks if isinstance(x, tuple) and x[0] == 'key'}
                R.ob('sent/key', keys <= {i[0] for i in ids}, 'a packet is signed with the key of the local id it is sent under', w)
                return frozenset(x for x in st.marks if not (isinstance(x, tuple) and x[0] == 'ids')) | {('ids', i) for i in ids}
            if ev.name == 'send' and ev.args and any('SocketAddr' in str(t) or 'PacketToSend' in str(t) for t in ev.argtys[1:]):
                ids = {x[1] for x in st.marks if isinstance(x, tuple) and x[0] == 'ids'}
                dst = {p[1:] for a in ev.args[1:] for x in walk_phi(e, a) if isfield(x, 'addr') or iscall(x, 'addr') for p in pair_of(x, e) if p[0] == 'peer'}
                R.count('packets queued')
                R.ob('sent/to', bool(dst) and dst == ids, 'a packet is sent to the address of the peer entry it was made for', w)
    R.run(S(), send)
    R.floor('packets encrypted', R.counts.get('packets encrypted', 0), 2)
    R.floor('packets queued', R.counts.get('packets queued', 0), 1)
    R.floor('packets signed', R.counts.get('packets signed', 0), 1)
    received_ids(R, place)


def channel_ids(R, new):
    """ {field: argument} for the ids of a new channel """
    out = {}

    class O(E.Observer):
        def exit(self, e, ctx, st, kind, val):
            if kind == 'return' and not ctx.depth:
                for x in expand_phi(e, val):
                    if x[0] == 'agg':
                        for f, y in x[4]:
                            f = f.split('.')[-1]
                            if f in ('local_id', 'peer_id') and y[0] == 'arg':
                                out[f] = y[1] - 1
    R.run(O(), new)
    R.need('constructor of a channel that keeps both ids', len(out) == 2 and out['local_id'] != out['peer_id'])
    return out


def ids_given(place, new, ev):
    d = dict(zip(argnames(new), ev.args))
    d.update((f, ev.args[i]) for f, i in place.items())
    return d


def received_ids(R, place):
    """ the ids subscribers and new channels are given are those the packet was checked under """
    prog = R.prog
    near = recv_near(R)
    dl = {b.id for b in deliver_fns(R)}
    new = R.method('Channel', 'new')

    class O(E.Observer):
        maydepth = 16
        part_cap = 300
        inline_spawn = False

        def inline(self, e, b):
            return b.id not in dl and b.name not in ('add_part', 'decrypt') and near(e, b)

        def learned(self, e, st, k, v):
            if k[0] == 'var' and v == 'Ok' and k[1][0] == 'call' and last(k[1][1]) == 'decrypt' and k[1][2] and 'hannel' in k[1][1]:
                return (('v', 'dec', base_chan(k[1][2][0])),)
            if k[0] == 'call' and v is True and last(k[1]) in ('verify_raw', 'verify', 'verify_tl'):
                return (('v', 'ver', k[2][0]),)
            if k[0] == 'var' and v in ('Some', 'Ok') and k[1][0] == 'call' and len(k[1][2]) > 1 and (isfield(k[1][2][0], 'keys') or isfield(k[1][2][0], 'keystore')):
                return (('own', k[1][2][1]),)
            m = packet_marks(k, v)
            return tuple(x for x in m if isinstance(x, str)) if m else None

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            got = []
            if ev.id == new.id:
                d = ids_given(place, new, ev)
                got.append(('channel', d['local_id'], d['peer_id']))
            elif ev.name in HANDLERS:
                for a in ev.args:
                    for x in walk(a):
                        if x[0] == 'agg' and (x[2] or '').endswith('SubscriberContext'):
                            d = {f.split('.')[-1]: y for f, y in x[4]}
                            got.append(('subscriber', d['local_id'], d['peer_id']))
            for what, l, p in got:
                R.count('ids handed on')
                dec = [x[2] for x in st.marks if isinstance(x, tuple) and x[:2] == ('v', 'dec')]
                if dec:
                    for f, x in (('local_id', l), ('peer_id', p)):
                        R.ob('%s/%s of the channel' % (what, f), any(isfield(x, f) and base_chan(x) == c for c in dec), 'a packet from a channel is handed on under the %s of this channel (%s)' % (f, short(x)[:80]), w)
                    continue
                own = {x[1] for x in st.marks if isinstance(x, tuple) and x[0] == 'own'}
                leaves = list(spread(e, l))
                R.ob('%s/own id of a handshake' % what, bool(own) and all(isfield(x, 'local_id') and root_field(x) == 'channels_by_id' or any(y in own for y in walk_phi(e, x)) for x in leaves),
                     'a handshake is handed on under the own id whose key it was encrypted for (%s)' % ', '.join(short(x)[:60] for x in leaves)[:200], w)
                ver = [x[2] for x in st.marks if isinstance(x, tuple) and x[:2] == ('v', 'ver')]
                if not ver and 'unsigned' in st.marks and 'notreq' in st.marks:
                    continue
                ok = False
                for k in ver:
                    ks = [k] + [x[1] for x in walk(k) if x[0] == 'field']
                    named = any(mentions(p, lambda y: y == z) for z in ks if z[0] != 'arg') and mentions(p, lambda y: y[0] == 'call' and last(y[1]) in ('hash', 'compute_short_id'))
                    entry = any(x[0] == 'call' and last(x[1]) in ('get', 'get_mut') and len(x[2]) > 1 and x[2][1] == p for x in walk(k))
                    ok = ok or named or entry
                R.ob('%s/sender of a handshake' % what, ok, 'a handshake is handed on under the id whose key verified its signature (%s)' % short(p)[:80], w)
    R.run(O(), recv_body(R))
    R.floor('ids handed on', R.counts.get('ids handed on', 0), 8)
