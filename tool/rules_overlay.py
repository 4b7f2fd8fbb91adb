"""Rules for the overlay layer."""
import re
from lib import *
import engine as E
from rules_adnl import (nosites, table_op, absent_fact, marks_of, spawned, callee, unsome, root_of, replace, walk_phi, builds, argnames, is_now)
from rules_rldp import task_of, variant_of, wide, elems, direct_callers, fname_of, public_roots

OV = 'src/overlay/'
SEEN = 'owned_broadcasts'          # table of seen broadcasts
DONE = 'finished_broadcasts'       # removal queue


def vm(st, tag):
    """values carried by the marks of a kind"""
    return [m[2] for m in st.marks if isinstance(m, tuple) and m[:2] == ('v', tag)]


def from_wire(v):
    """the value was read from the received message"""
    return has_call(v, 'read_from', 'deserialize', 'deserialize_as_boxed') or has_arg(v, 'broadcast')


def bc(v, f):
    return isfield(v, f) and from_wire(v)


def leaves(e, v):
    """fields of the received broadcast a value is made of"""
    out = set()
    for x in walk_phi(e, v):
        if x[0] == 'field' and isinstance(x[2][1], str) and from_wire(x):
            n = x[2][1]
            if '.' not in n and not n.isdigit():
                out.add(n)
    return out


def handler(R):
    return R.async_body(R.tmethod('MessageSubscriber', 'overlay::node::NodeState', 'try_consume_custom'))


BC_FIELDS = ('src', 'date', 'data_hash', 'data_size', 'data', 'seqno', 'fec', 'flags', 'signature', 'certificate')


def effect(ev):
    """what a call does with a broadcast: deliver, forward, remember, feed or update, or None"""
    if ev.name == 'push' and 'Queue' in ev.p and any('received_broadcasts' in str(a) for a in ev.args[:1]):
        return 'deliver'
    if ev.name in ('send_custom_message', 'send_message', 'query_with_prefix', 'query_raw'):
        return 'forward'
    op = table_op(ev)
    if op and op[0] in ('insert', 'remove', 'bulk') and (op[1] == SEEN or SEEN in str(ev.args[0])):
        return 'remember'
    if ev.name == 'send' and 'Sender' in ev.p:
        return 'feed'
    if ev.name in ('deliver_packet', 'refresh') or 'atomic' in ev.p and ATOMIC_MUT.match(ev.name) and has_field(ev.args[0], 'completed'):
        return 'update'
    if ev.name == 'push' and DONE in str(ev.args[0]):
        return 'finish'
    return None


class Recv(E.Observer):
    """follows a received broadcast through the layer; marks: verified(call), fresh, claimed(entry), new(seqno)"""
    maydepth = 7
    part_cap = 400

    def inline(self, e, b):
        return b.file.startswith(OV) and not b.file.endswith('overlay_id.rs')

    def learned(self, e, st, k, v):
        if k[0] == 'var' and v == 'Ok' and k[1][0] == 'call' and last(k[1][1]) in ('verify', 'verify_raw', 'verify_tl'):
            if any(bc(x, 'src') for x in walk_phi(e, k[1][2][0])) and any(bc(x, 'signature') for a in k[1][2][1:] for x in walk_phi(e, a)):
                return ('v', 'verified', k[1]),
        if k[0] == 'call' and v is True and last(k[1]) in ('verify', 'verify_raw', 'verify_tl'):
            if any(bc(x, 'src') for x in walk_phi(e, k[2][0])) and any(bc(x, 'signature') for a in k[2][1:] for x in walk_phi(e, a)):
                return ('v', 'verified', k),
        if k[0] == 'var' and v == 'Vacant' and has_field(k[1], SEEN):
            return ('v', 'vacant', k[1]),
        if k[0] == 'call' and v is True and last(k[1]) == 'deliver_packet' and mentions(k[2][1], lambda x: bc(x, 'seqno')):
            return ('new piece',)
        for op, a, c in rels(k, v):
            if op in ('<', '<='):
                if any(is_now(x) for x in walk(a)) and bad_age(a, c) is None and any(bc(x, 'date') for x in walk(c)):
                    return ('fresh',)
                if any(is_now(x) for x in walk(a)) and any(bc(x, 'date') for x in walk(a)) and bad_age(a, c) is None:
                    return ('fresh',)
            if op == '==':
                for p, q in ((a, c), (c, a)):
                    if isfield(p, 'source') and has_field(p, SEEN) | True and has_call(q, 'compute_short_id') and any(bc(x, 'src') for x in walk_phi(e, q)):
                        return ('same source',)


def bad_age(a, c):
    """why an age comparison does not hold for every date, or None: now <= date + timeout, or now - date <= timeout"""
    for s in (a, c):
        for x in walk(s):
            if x[0] == 'call' and last(x[1]) in ('wrapping_add', 'wrapping_sub', 'overflowing_add', 'overflowing_sub', 'unchecked_add', 'unchecked_sub') and any(bc(y, 'date') or is_now(y) for y in walk(x)):
                return 'wraps'
            if x[0] == 'bin' and x[1] in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked') and any(bc(y, 'date') for y in (x[2], x[3])):
                return 'overflows'
    if not any(isfield(y, 'broadcast_timeout_sec') for y in list(walk(a)) + list(walk(c))):
        return 'not the configured timeout'
    for x in list(walk(a)) + list(walk(c)):
        if x[0] == 'bin' and x[1] not in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked') or x[0] == 'call' and last(x[1]).endswith(('_mul', '_div', '_rem', '_shl', '_shr', '_pow')):
            return 'not the configured timeout'
        if x[0] == 'cast' and any(isinstance(y, str) and re.match(r'^(u8|u16|i8|i16|i32)$', y) for y in x[1:]):
            return 'truncated'
    if any(bc(y, 'date') for y in walk(c)):
        # now <= date (+ timeout)
        t = [y for y in walk(c) if isfield(y, 'broadcast_timeout_sec')]
        if not t or any(x[0] == 'call' and last(x[1]).endswith('_sub') for x in walk(c)):
            return 'direction'
        m = uncast(c)
        if m[0] == 'call' and last(m[1]) in ('saturating_mul', 'max'):
            return 'shape'
        return None
    if any(bc(y, 'date') for y in walk(a)):
        m = [x for x in walk(a) if x[0] == 'call' and last(x[1]) in ('saturating_sub', 'checked_sub') and is_now(uncast(x[2][0])) and bc(uncast(x[2][1]), 'date') or x[0] == 'bin' and x[1] == 'Sub' and is_now(uncast(x[2])) and bc(uncast(x[3]), 'date')]
        return None if m else 'shape'
    return 'shape'


def signed_of(call):
    """(key, what is signed) of a verification"""
    return call[2][0], call[2][1:]


def covered(e, call, field):
    """every alternative of the signed value depends on a field of the received broadcast"""
    alts = alternatives(e, call[2][1])
    return all(any(bc(x, field) for x in walk_phi(e, a)) for a in alts)


def alternatives(e, v, d=0):
    """a value with the choices inside its own fields expanded (small products only)"""
    out = [v]
    for ph in [x for x in walk(v) if x[0] == 'phi' and e.phi_src.get(x)][:3]:
        srcs = [s for s in e.phi_src[ph] if s != ph]
        if 1 < len(srcs) <= 4 and d < 3:
            out = [replace(o, ph, s) for o in out for s in srcs]
    if d < 2 and len(out) > 1 and len(out) < 16:
        out = [y for o in out for y in alternatives(e, o, d + 1)]
    return out[:32]


@rule('O01', 'a broadcast acts only after its signature was verified with the key of its source, over everything that is used',
      'guard facts (path-sensitive marks) at every effect, provenance of the signed value',
      'The message handler of the overlay node is followed through the layer, spawned tasks included. Every effect a broadcast can have - '
      'delivery, forwarding, the table of seen broadcasts, feeding a decoder, history and timers of its transfer - lies on paths where the '
      'signature of this broadcast was verified under the key in it. Every field of the broadcast that is stored, decoded or delivered, and '
      'its date, enters the verified value, and delivered data is the data that was hashed; the sender reported is the verified key.')
def o01(R):
    n = {}

    class O(Recv):
        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            k = effect(ev)
            if k is None:
                return
            ver = [m[2] for m in st.marks if isinstance(m, tuple) and m[:2] == ('v', 'verified')]
            R.ob('%s/verified' % k, bool(ver), 'a broadcast leads to "%s" only after its signature was verified (%s)' % (k, ev.name), w)
            n[k] = n.get(k, 0) + 1
            R.count('effects: %s' % k)
            if not ver:
                return
            R.ob('%s/date signed' % k, all(covered(e, c, 'date') for c in ver), 'the date that was checked is part of what was signed', w)
            if task_of(ctx) is None and k in ('feed', 'remember') and not ev.name == 'remove':
                for a in ev.args[1:]:
                    if a[0] == 'agg' and a[4]:
                        vals = a[4]
                    else:
                        vals = [('', a)]
                    for f, x in vals:
                        for l in leaves(e, x) & set(BC_FIELDS) - {'src', 'signature'}:
                            R.ob('%s/%s signed' % (k, l), any(covered(e, c, l) for c in ver), 'field %s of a broadcast is used only if the signature covers it' % l, w)
            if k == 'deliver' and task_of(ctx) is None:
                for a in ev.args[1:]:
                    if a[0] != 'agg':
                        continue
                    d = {f.split('.')[-1]: x for f, x in a[4]}
                    if 'data' in d:
                        for x in spread(e, d['data']):
                            ok = any(any(hashed(y, x) for y in walk_phi(e, c[2][1])) for c in ver)
                            R.ob('deliver/data signed', ok, 'the data delivered is the data whose hash was signed, got %s' % short(x)[:80], w)
                    if 'from' in d:
                        for x in spread(e, d['from']):
                            key = [y for y in walk_phi(e, x) if iscall(y, 'compute_short_id')]
                            ok = not key or any(nosites(y[2][0]) == nosites(c[2][0]) for y in key for c in ver)
                            R.ob('deliver/sender', bool(key) and ok, 'the sender reported is the one whose signature was verified', w)
    R.run(O(), handler(R))
    for k, least in (('deliver', 2), ('forward', 2), ('remember', 2), ('feed', 1)):
        R.floor('effects: %s' % k, R.counts.get('effects: %s' % k, 0), least)


def hashed(y, x):
    """y hashes exactly the value x"""
    return iscall(y, 'digest', 'hash', 'hash_raw', 'update', 'chain') and any(nosites(a) == nosites(x) for a in y[2]) or \
        y[0] == 'mut' and last(y[1]) == 'update' and len(y) > 4 and any(nosites(a) == nosites(x) for a in y[4])


@rule('O02', 'a broadcast is claimed atomically under the hash of what was verified before it is delivered or forwarded, once; records leave the table only by age',
      'typestate of the claim (entry vacancy) at every effect, provenance of the key, who-may-change analysis of the table',
      'On every path of the message handler, delivery and forwarding lie behind the insertion into a vacant entry of the table of seen '
      'broadcasts (for a piece of a large broadcast: behind the fact that its number is new in the history of that transfer), the key is the '
      'hash of the value that was verified, a path delivers at most once, and the task that assembles a large broadcast takes no further piece '
      'after it delivered. Own broadcasts claim the same key before the first packet is sent. The table is otherwise only shortened, by ids taken '
      'from the queue of finished broadcasts while it is longer than configured, and ids enter that queue only after a wait of the broadcast timeout.')
def o02(R):
    class O(Recv):
        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            k = effect(ev)
            task = task_of(ctx)
            if ev.name == 'recv' and task is not None:
                R.ob('deliver/once in task', 'delivered' not in st.marks, 'the assembling task ends after it delivered', w)
            if k is None:
                return
            cl = [m for m in st.marks if isinstance(m, tuple) and m[:2] == ('v', 'claimed')]
            ver = [m[2] for m in st.marks if isinstance(m, tuple) and m[:2] == ('v', 'verified')]
            if k == 'remember':
                op = table_op(ev)
                if op[0] == 'insert':
                    vac = vm(st, 'vacant')
                    ent = [x for x in walk(ev.args[0]) if iscall(x, 'entry')]
                    ok = bool(ent) and ('vacant' in ev.p.lower() or ev.name.startswith('or_insert')) and any(nosites(x) == nosites(y) for x in ent for y in vac)
                    R.ob('claim/vacant', ok, 'a broadcast is recorded only through a vacant entry, so that one arrival wins', w)
                    R.ob('claim/key', any(key_of_signed(e, op[2], c) for c in ver), 'the id recorded is the hash of what was verified, got %s' % short(op[2])[:80], w)
                    R.count('claims by received broadcasts')
                    return (st.marks | {('v', 'claimed', ent[0])} if ent else st.marks)
                return
            if k == 'deliver':
                R.ob('deliver/claimed', bool(cl), 'a broadcast is delivered only by the path that recorded it as new', w)
                R.ob('deliver/once', 'delivered' not in st.marks, 'a path delivers at most one broadcast', w)
                R.count('deliveries')
                return st.marks | {'delivered'}
            if k == 'forward' and task is None:
                R.ob('forward/claimed', bool(cl) or 'new piece' in st.marks, 'a broadcast or piece is forwarded only when it is new', w)
                R.count('forwards')
            if k == 'feed':
                R.ob('feed/new', 'new piece' in st.marks, 'a piece is decoded only when its number is new in this transfer', w)

        def learned(self, e, st, k, v):
            if k[0] == 'call' and v is True and last(k[1]) == 'deliver_packet':
                f = [x for x in walk_phi(e, k[2][0])]
                if not any(isfield(x, 'history') for x in f) or not any(has_field(x, SEEN) or has_call(x, 'entry') for x in f):
                    return None
            return Recv.learned(self, e, st, k, v)
    R.run(O(), handler(R))
    for x, m in (('claims by received broadcasts', 2), ('deliveries', 2), ('forwards', 2)):
        R.floor(x, R.counts.get(x, 0), m)
    o02_own(R)
    o02_table(R)


def key_of_signed(e, key, call):
    """the key is computed from the value that was verified, or is a field which that value contains"""
    k = nosites(key)
    s = nosites(call[2][1])
    for x in walk_phi(e, key):
        if iscall(x, 'hash', 'digest', 'compute_broadcast_id') and any(nosites(a) == s for a in x[2]):
            return True
    if any(bc(x, 'data_hash') for x in walk(key)) and not has_call(key, 'digest'):
        return covered(e, call, 'data_hash')
    return False


def o02_own(R):
    prog = R.prog
    root = R.method('Overlay', 'broadcast')

    class O(E.Observer):
        maydepth = 7
        part_cap = 300

        def inline(self, e, b):
            return b.file.startswith(OV) and not b.file.endswith('overlay_id.rs')

        def learned(self, e, st, k, v):
            if k[0] == 'var' and v == 'Vacant' and has_field(k[1], SEEN):
                return ('v', 'vacant', k[1]),

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            k = effect(ev)
            if k == 'remember':
                op = table_op(ev)
                if op[0] == 'insert':
                    ent = [x for x in walk(ev.args[0]) if iscall(x, 'entry')]
                    ok = bool(ent) and any(nosites(x) == nosites(y) for x in ent for y in vm(st, 'vacant'))
                    R.ob('own/vacant', ok, 'an own broadcast is recorded through a vacant entry', w)
                    if ent:
                        return st.marks | {('v', 'claimed', ent[0])}
            if k == 'forward':
                cl = [m[2] for m in st.marks if isinstance(m, tuple) and m[:2] == ('v', 'claimed')]
                R.ob('own/claimed', bool(cl), 'an own broadcast is sent only after it was recorded as seen', w)
                R.count('sends of own broadcasts')
                if cl:
                    key = nosites(cl[0][2][1])
                    ok = False
                    for x in walk_phi(e, ev.args[-1]):
                        x = nosites(x)
                        if x == key or iscall(x, 'sign') and any(iscall(y, 'hash', 'compute_broadcast_id') and len(x[2]) > 1 and x[2][1] in y[2] for y in walk(key)):
                            ok = True
                            break
                    if ok or any(iscall(x, 'sign') for x in walk_phi(e, ev.args[-1])):
                        R.ob('own/key', ok, 'the id recorded for an own broadcast is the one its receivers compute', w)
            if k == 'deliver':
                R.fail('own/delivered', 'an own broadcast is delivered back', w)
    R.run(O(), root)
    R.floor('sends of own broadcasts', R.counts.get('sends of own broadcasts', 0), 2)


def o02_table(R):
    prog = R.prog

    def touches(b):
        return b.kind != 'promoted' and b.file.startswith(OV) and any(
            ('dashmap' in p.lower() or 'Queue' in p) for p, r, i, t in body_calls(b))
    # functions that work on the queue for a task that waits
    helpers = {b.id for b in prog.bodies.values() if touches(b) and b.kind == 'fn' and callers(prog, b.id) and any('Queue' in p for p, r, i, t in body_calls(b))}
    roots = {b.id for b in prog.bodies.values() if touches(b)} - helpers
    seen, todo = set(), list(helpers)
    while todo:
        x = todo.pop()
        for y in set(callers(prog, x)) - seen:
            seen.add(y)
            if y in helpers:
                todo.append(y)
            else:
                roots.add(y)
    for b in [prog.bodies[i] for i in sorted(roots)]:
        class T(E.Observer):
            maydepth = 1 + len(helpers)
            part_cap = 100

            def inline(self, e, b2):
                return b2.id.startswith(b.id) or b2.id in helpers

            def exit(self, e, ctx, st, kind, val):
                R.ob('gc/raised', not {'counted', 'uncounted'} & st.marks, 'a broadcast is counted as finished exactly when it is queued', '%s' % fname_of(b))

            def relevant(self, f):
                return True

            def learned(self, e, st, k, v):
                if k[0] == 'var' and v == 'Some' and iscall(k[1], 'pop') and has_field(k[1], DONE):
                    return ('v', 'popped', k[1]), 'owed'
                for op, x, y in rels(k, v):
                    if op == '<' and has_field(y, 'finished_broadcast_count') and 'max_broadcast_log' in str(x) or op == '<' and has_call(y, 'len') and has_field(y, DONE) and 'max_broadcast_log' in str(x):
                        return ('over',)

            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                op = table_op(ev)
                if op and (op[1] == SEEN or ev.args and has_field(ev.args[0], SEEN)):
                    if op[0] == 'remove':
                        p = vm(st, 'popped')
                        ok = any(mentions(op[2], lambda x: x == y) for y in p)
                        R.ob('gc/source', ok, 'a record leaves the table of seen broadcasts only through the queue of finished ones', w)
                        R.ob('gc/over', 'over' in st.marks, 'records are removed only while more than the configured number of broadcasts are finished', w)
                        R.count('removals of records')
                        return st.marks - {'over'}
                    elif op[0] == 'bulk':
                        R.fail('gc/%s' % ev.name, 'records of seen broadcasts are removed in bulk', w)
                    elif op[0] == 'insert' and 'vacant' not in ev.p.lower() and not ev.name.startswith('or_insert'):
                        R.fail('claim/overwrite in %s' % fname_of(b), 'a record of a seen broadcast is overwritten', w)
                if 'tomic' in ev.p and ev.args and has_field(ev.args[0], 'finished_broadcast_count') and ATOMIC_MUT.match(ev.name):
                    if ev.name == 'fetch_sub':
                        R.ob('gc/counter', ev.args[1][0] == 'const' and ev.args[1][1] == 1, 'the number of finished broadcasts is lowered by one for each that is taken from the queue', w)
                        return st.marks - {'owed'}
                    R.ob('gc/counter', ev.name == 'fetch_add' and ev.args[1][0] == 'const' and ev.args[1][1] == 1, 'the number of finished broadcasts is raised by one for each that is queued', w)
                    R.ob('gc/raised', 'counted' not in st.marks, 'a broadcast is counted as finished exactly when it is queued', w)
                    return st.marks - {'uncounted'} if 'uncounted' in st.marks else st.marks | {'counted'}
                if iscall_ev(ev, 'pop') and has_field(ev.args[0], DONE):
                    R.ob('gc/lowered', 'owed' not in st.marks, 'the number of finished broadcasts is lowered for each that is taken from the queue', w)
                    return frozenset(m for m in st.marks if not (isinstance(m, tuple) and m[:2] == ('v', 'popped')))
                if ev.name == 'push' and has_field(ev.args[0], DONE):
                    ok = any(m[2] for m in st.marks if isinstance(m, tuple) and m[0] == 'slept')
                    R.ob('gc/after timeout', ok, 'a broadcast counts as finished only after a wait of the broadcast timeout', w)
                    R.count('places that finish a broadcast')
                    R.ob('gc/raised', 'uncounted' not in st.marks, 'a broadcast is counted as finished exactly when it is queued', w)
                    return st.marks - {'counted'} if 'counted' in st.marks else st.marks | {'uncounted'}
                if ev.name == 'poll':
                    for x in walk_phi(e, ev.args[0]):
                        if iscall(x, 'sleep', 'sleep_until'):
                            good = mentions(x, lambda y: isfield(y, 'broadcast_timeout_sec')) and has_call(x, 'from_secs', 'from_millis')
                            ms = [y for y in walk(x) if iscall(y, 'from_millis')]
                            if ms:
                                z = ms[0][2][0]
                                good = good and (z[0] == 'bin' and z[1] == 'Mul' and any(c[0] == 'const' and isinstance(c[1], int) and c[1] >= 1000 for c in z[2:4]) or has_call(z, 'saturating_mul'))
                            return st.marks | {('slept', 1, good)}
        R.run(T(), b)
    R.floor('removals of records', R.counts.get('removals of records', 0), 1)
    R.floor('places that finish a broadcast', R.counts.get('places that finish a broadcast', 0), 1)


def iscall_ev(ev, *ns):
    return ev.name in ns


@rule('O03', 'every effect of a broadcast lies behind an age check that holds for every date',
      'guard facts at every effect, arithmetic shape of the comparison',
      'On every path of the message handler the effects of a broadcast, and the verification of its signature, lie behind the fact that now '
      'does not exceed its date plus the configured timeout (or an equivalent form), computed without an addition or subtraction that could '
      'wrap or fail for a date chosen by the sender.')
def o03(R):
    class O(Recv):
        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            k = effect(ev)
            if k is None and ev.name in ('verify', 'verify_raw') and any(bc(x, 'src') for x in walk_phi(e, ev.args[0])):
                k = 'verify'
            if k is None or task_of(ctx) is not None:
                return
            R.ob('%s/fresh' % k, 'fresh' in st.marks, 'an outdated broadcast leads to nothing, not to "%s"' % k, w)
            R.count('effects and verifications')

        def asserted(self, e, ctx, st, *a):
            pass

        def learned(self, e, st, k, v):
            for op, a, c in rels(k, v):
                if any(is_now(x) for s in (a, c) for x in walk(s)) and any(bc(x, 'date') for s in (a, c) for x in walk(s)):
                    why = bad_age(a, c) or bad_age(c, a)
                    if why in ('wraps', 'overflows'):
                        R.fail('age/%s' % why, 'the age check %s for an extreme date' % why, '')
                    R.count('age comparisons')
            return Recv.learned(self, e, st, k, v)
    R.run(O(), handler(R))
    R.floor('effects and verifications', R.counts.get('effects and verifications', 0), 6)
    R.floor('age comparisons', R.counts.get('age comparisons', 0), 1)


@rule('O04', 'one item, one permit: queueing an item is followed by exactly one wake-up, and a cancelled wait keeps nothing',
      'typestate over producer and consumer, cancellation edges of every suspension point included',
      'Every function that queues a received broadcast releases one permit for it, after it was queued, on every path. In the consumer a wait '
      'is on a primitive that hands back its permit when it is dropped; between giving up the permit or taking the item and returning it there '
      'is no suspension point, so a cancelled consumer cannot hold either; everything it registered in shared state before a wait is undone by '
      'destructors on the cancellation edge; and what it returns is the item it took.')
def o04(R):
    prog = R.prog
    root = R.async_body(R.method('Overlay', 'wait_for_broadcast'))
    queues, waits = set(), set()

    def fl(v):
        v = root_of(nosites(v))
        return v[2][1].split('.')[-1] if v[0] == 'field' else v[-1] if v[0] == 'arg' else short(v)[-30:]

    class C(E.Observer):
        maydepth = 6
        cancel = True
        part_cap = 300

        def inline(self, e, b):
            return b.file.startswith(OV)

        def relevant(self, f):
            return True

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            if not ev.args:
                return
            a = ev.args[0]
            if ev.name == 'pop' and 'Queue' in ev.p:
                queues.add(fl(a))
                return frozenset(m for m in st.marks if m not in ('slot', 'item'))
            if ev.name == 'poll':
                for x in walk(a):
                    if x[0] == 'call' and ('tokio' in x[1] or 'futures' in x[1]) and last(x[1]) not in ('into_future', 'new_unchecked'):
                        waits.add(x[1])
                        ok = 'Semaphore' in x[1] and last(x[1]) == 'acquire'
                        R.ob('consumer/wait', ok, 'a consumer waits for %s, which gives back the wake-up of a cancelled wait' % x[1][-40:], w)
                        R.ob('consumer/permit kept', 'permit' not in st.marks, 'a permit is consumed before the next wait, otherwise waiting is a busy loop', w)
            if ev.name == 'forget' and 'Permit' in ev.p:
                return st.marks - {'permit'} | {'slot'}
            if 'tomic' in ev.p and ATOMIC_MUT.match(ev.name) and ev.name in ('fetch_add', 'fetch_sub') and ev.args[1][0] == 'const':
                f = fl(a)
                n = sum(m[2] for m in st.marks if isinstance(m, tuple) and m[0] == 'net' and m[1] == f)
                n += ev.args[1][1] if ev.name == 'fetch_add' else -ev.args[1][1]
                ms = frozenset(m for m in st.marks if not (isinstance(m, tuple) and m[0] == 'net' and m[1] == f))
                return ms | {('net', f, n)} if n and abs(n) < 4 else ms
            if ev.name in ('push', 'push_back', 'insert', 'push_front') and has_arg_self(a):
                R.fail('consumer/registers', 'a waiting consumer registers itself in shared state that outlives it (%s)' % ev.p[-40:], w)

        def learned(self, e, st, k, v):
            if k[0] == 'var' and v in ('Ok', 'Some') and has_call(k[1], 'acquire', 'try_acquire') and not has_call(k[1], 'pop') and 'slot' not in st.marks:
                return ('permit',)
            if k[0] == 'var' and v == 'Some' and iscall(k[1], 'pop'):
                return ('item',)

        def yielded(self, e, ctx, st, line):
            w = src(e, ctx, line)
            R.ob('consumer/item', 'item' not in st.marks, 'no suspension point lies between taking an item and returning it', w)
            R.ob('consumer/slot', 'slot' not in st.marks, 'no suspension point lies between giving up a permit and taking its item', w)
            R.count('suspension points')

        def exit(self, e, ctx, st, kind, val):
            if kind == 'panic':
                return
            net = sorted((m[1], m[2]) for m in st.marks if isinstance(m, tuple) and m[0] == 'net')
            R.ob('consumer/trace on %s' % kind, not net, 'counters a consumer changed are restored when its wait ends, left: %s' % net, src(e, ctx, root.line))
            if kind == 'return':
                R.ob('consumer/returns', isfield(val, 'Some.0') and any(iscall(x, 'pop') for x in walk(val)) or any(iscall(x, 'pop') for x in walk(val)),
                     'a consumer returns the item it took, got %s' % short(val)[:60], src(e, ctx, root.line))
                R.ob('consumer/permit used', 'permit' not in st.marks, 'a consumer that took an item gives up the permit of it', src(e, ctx, root.line))
            R.count('exits: %s' % kind)
    R.run(C(), root)
    R.floor('suspension points', R.counts.get('suspension points', 0), 1)
    R.need('queues the consumer takes from', sorted(queues))
    if not any('Semaphore' in x for x in waits):
        R.fail('consumer/wait', 'a consumer waits for nothing that a producer signals')

    # producers: every body that pushes onto such a queue (through whatever wrapper)
    prods = [b for b in prog.bodies.values() if b.kind != 'promoted' and b.file.startswith(OV) and
             any(last(p) == 'push' and 'Queue' in p for p, r, i, t in body_calls(b))]
    for b in prods:
        class P(E.Observer):
            maydepth = 3
            part_cap = 100

            def inline(self, e, b2):
                return b2.file.startswith(OV)

            def relevant(self, f):
                return True

            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if ev.name == 'push' and 'Queue' in ev.p and fl(ev.args[0]) in queues:
                    R.count('pushes')
                    n = cnt(st, 'q')
                    return sets(st, 'q', n + 1)
                if ev.name in ('add_permits', 'notify_one') and ev.args:
                    n = cnt(st, 'p')
                    k = ev.args[1][1] if len(ev.args) > 1 and ev.args[1][0] == 'const' else 1 if ev.name == 'notify_one' else 99
                    R.ob('producer/order', n + k <= cnt(st, 'q'), 'a permit is released after its item was queued', w)
                    return sets(st, 'p', n + k)

            def exit(self, e, ctx, st, kind, val):
                if kind == 'return' and (cnt(st, 'q') or cnt(st, 'p')):
                    R.ob('producer/one permit', cnt(st, 'q') == cnt(st, 'p'), 'one permit is released for each queued item (%d items, %d permits)' % (cnt(st, 'q'), cnt(st, 'p')), src(e, ctx, b.line))

        outer = [prog.bodies[c] for c in callers(prog, b.id)] if not any(last(p) in ('add_permits', 'notify_one') for p, r, i, t in body_calls(b)) else []
        for r in outer or [b]:
            R.run(P(), r)
    R.floor('pushes', R.counts.get('pushes', 0), 1)
    # nothing else takes items
    for b in prog.bodies.values():
        if b.kind != 'promoted' and b.file.startswith(OV) and any(last(p) in ('pop', 'take', 'clear') and 'Queue' in p for p, r, i, t in body_calls(b)):
            R.count('bodies that take items')
    return


def cnt(st, tag):
    return sum(m[1] for m in st.marks if isinstance(m, tuple) and m[0] == tag)


def sets(st, tag, n):
    return frozenset(m for m in st.marks if not (isinstance(m, tuple) and m[0] == tag)) | {(tag, min(n, 3))}


def has_arg_self(v):
    return any(x[0] == 'arg' or x[0] == 'field' and x[2][1] == 'self' for x in walk(v))


def node_bases(v, memo=None):
    """records a value was computed from: x in x.id / x.signature / x.overlay, and whole record parameters"""
    return {y[1] for y in walk(v) if y[0] == 'field' and y[2][1] in ('id', 'signature', 'overlay', 'version')}


def closure_true(v):
    """what a gate closure lets through: True/False/unknown for its result"""
    if v[0] == 'const':
        return bool(v[1])
    if v[0] == 'agg' and v[3] in ('None', 'Some'):
        return v[3] == 'Some'
    return True


class Nodes(E.Observer):
    """marks records whose signature, overlay and foreignness were checked"""
    maydepth = 7
    part_cap = 300
    files = (OV,)

    def inline(self, e, b):
        return b.file.startswith(OV) or 'adnl/node' in b.file and b.id in admission(e.prog)

    def relevant(self, f):
        return True

    def learned(self, e, st, k, v):
        ms = []
        if k[0] == 'var' and v == 'Ok' and k[1][0] == 'call' and last(k[1][1]) in ('verify', 'verify_raw') and len(k[1][2]) == 3 or \
                k[0] == 'call' and v is True and last(k[1]) in ('verify', 'verify_raw') and len(k[2]) == 3:
            key, what, sig = k[1][2] if k[0] == 'var' else k[2]
            for n in {y[1] for y in walk(sig) if isfield(y, 'signature')}:
                fs = {y[2][1] for y in walk(key) if y[0] == 'field' and y[1] == n}
                cov = {y[2][1] for x in walk_phi(e, what) for y in [x] if y[0] == 'field' and y[1] == n}
                if 'id' in fs and {'id', 'version'} <= cov:
                    ms.append(('v', 'signed', n))
        for op, a, c in rels(k, v):
            for x, y in ((a, c), (c, a)):
                if op == '==':
                    for n in [z[1] for z in walk(x) if isfield(z, 'overlay')]:
                        if has_field(y, 'id') and not has_field(y, 'overlay'):
                            ms.append(('v', 'mine', n))
                if op == '!=':
                    if has_field(y, 'node_key') or has_call(y, 'overlay_key', 'key_id') or has_field(y, 'local_id'):
                        for n in [z[1] for z in walk(x) if isfield(z, 'id')]:
                            ms.append(('v', 'foreign', n))
        if k[0] == 'var' and v == 'Err' and k[1][0] == 'call' and last(k[1][1]) in ('verify', 'verify_raw', 'try_from', 'verify_overlay_node'):
            if node_bases(k[1]) - set(vm(st, 'signed')):
                ms.append('bad')
        for op, a, c in rels(k, v):
            if op == '!=' and any(isfield(z, 'overlay') for z in list(walk(a)) + list(walk(c))):
                ms.append('bad')
        return tuple(ms) or None


def isf(v, *ns):
    return any(isfield(v, n) for n in ns)


@rule('O05', 'a record enters the peer tables only if signed for this overlay by its own foreign key; removed peers return only when added again',
      'guard facts per record value (marks), gate analysis of filtering closures, who-may-change analysis of the ignore list',
      'Every value that enters the tables of the overlay, is handed to the transport, or is returned from a peer exchange comes from a record '
      'for which, on that path or in the predicate that filtered its collection, the signature was verified with the key of the record over its id, '
      'overlay and version, the overlay equals the own one, and the key differs from the own one. A failed record ends neither the loop nor the call. '
      'Peers are drawn from the known and neighbour sets only with the ignore list as exclusion, which only an explicit addition shortens.')
def o05(R):
    prog = R.prog
    roots = [('add_public_peer', R.method('Overlay', 'add_public_peer')), ('add_public_peers', R.method('Overlay', 'add_public_peers')),
             ('query', R.async_body(R.tmethod('QuerySubscriber', 'overlay::node::NodeState', 'try_consume_query'))),
             ('exchange', R.async_body(R.method('Overlay', 'exchange_random_peers_ext')))]
    roots = [r for r in roots if r[1] is not None and r[1].file.startswith('src/')]
    R.floor('entry points that learn of peers', len(roots), 4)
    adm = admits(prog)
    gates = {}      # closure id -> {property: holds whenever it lets an element through}
    pushes = {}     # site of a push -> properties of the record pushed
    sinks = []
    NEED = ('signed', 'mine', 'foreign')

    def origin(e, v):
        """(wire records, gate closures, pushes) a value depends on"""
        ns, gs, ps = set(), set(), set()
        for x in walk_phi(e, v):
            if x[0] == 'field' and x[2][1] in ('id', 'signature', 'version', 'overlay'):
                ns.add(x[1])
            if x[0] == 'mut' and last(x[1]) in ('retain', 'retain_mut') or x[0] == 'call' and last(x[1]) in ('filter', 'filter_map', 'take_while', 'extract_if', 'drain_filter'):
                for a in (x[4] if x[0] == 'mut' else x[2][1:]):
                    if a[0] == 'agg' and a[1] == 'closure':
                        gs.add(a[2])
            if x[0] == 'mut' and last(x[1]) in ('push', 'push_back', 'insert'):
                ps.add(x[3])
        return ns, gs, ps

    class O(Nodes):
        def ret(self, e, ctx, st, ev):
            b = ctx.body
            if b.kind == 'closure' and ctx.site and ctx.site[0] == 'cb':
                if closure_true(ev.result):
                    h = gates.setdefault(b.id, {})
                    have = {}
                    for m in st.marks:
                        if isinstance(m, tuple) and m[0] == 'v' and m[1] in NEED and has_cbarg(m[2]):
                            have[m[1]] = True
                    for p in NEED:
                        h[p] = h.get(p, True) and p in have

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            if not ev.args:
                return
            if ev.name == 'next' and name_self.startswith('add_public'):
                return st.marks - {'bad'} | {'loop'}
            if ev.name in ('push', 'push_back') and ('Vec' in ev.p):
                ns = node_bases(ev.args[1]) | {ev.args[1]}
                pushes.setdefault(ev.site, set(NEED)).intersection_update({p for p in NEED if any(n in vm(st, p) for n in ns)})
            kind = None
            if ev.id in adm:
                kind, v = 'transport', ev.args[adm[ev.id][2]]
            elif ev.name in ('insert', 'extend') and 'PeersSet' in ev.p and len(ev.args) == 2 and isf(ev.args[0], 'known_peers', 'neighbours'):
                kind, v = root_of(ev.args[0])[2][1], ev.args[1]
                if kind == 'neighbours':
                    R.ob('neighbours/allowed', any(nosites(x) == nosites(ev.args[1]) for x in vm(st, 'unignored')),
                         'a peer becomes a neighbour directly only when it was taken off the ignore list', w)
            else:
                op = table_op(ev)
                if op and op[0] == 'insert' and (op[1] in ('nodes', 'received_peers') or any(isf(x, 'nodes', 'received_peers') for x in walk(ev.args[0]))):
                    kind = op[1] if op[1] in ('nodes', 'received_peers') else next(x[2][1] for x in walk(ev.args[0]) if isf(x, 'nodes', 'received_peers'))
                    v = ('agg', 'tuple', '', '', (('0', op[2]), ('1', op[3])) if op[3] is not None else (('0', op[2]),))
            if ev.name in ('remove', 'clear', 'retain', 'take', 'remove_if') and isf(ev.args[0], 'ignored_peers'):
                R.count('places that shorten the ignore list')
                if ev.name == 'remove':
                    ns = origin(e, ev.args[1])[0]
                    ok = any(all(n in vm(st, p) for p in ('signed', 'mine')) for n in ns)
                    R.ob('ignore/remove', ok and name_self.startswith('add_'), 'a peer leaves the ignore list only when a verified record of it is added explicitly', w)
                    if kind is None:
                        return st.marks | {('v', 'unignored', ev.args[1])}
            if kind:
                R.count('sinks: %s' % kind)
                sinks.append((name_self, kind, origin(e, v), {p: frozenset(vm(st, p)) for p in NEED}, w, short(v)[:80]))

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return':
                return
            w = src(e, ctx, ctx.body.line)
            if name_self == 'add_public_peers':
                R.ob('skip', not ('bad' in st.marks and 'loop' in st.marks), 'an invalid record is skipped and the next ones are processed', w)
            if name_self == 'exchange' and val is not None and any(isinstance(x, tuple) and x[0] == 'call' and last(x[1]) in ('deserialize', 'deserialize_as_boxed') for x in walk_phi(e, val)) \
                    and val[0] == 'agg' and val[3] == 'Ok':
                sinks.append((name_self, 'answer', origin(e, val), {p: frozenset(vm(st, p)) for p in NEED}, w, short(val)[:80]))
                R.count('sinks: answer')

    for name_self, root in roots:
        if name_self == 'query':
            root = root
        R.run(O(), root)
    seen = set()
    for rt, kind, (ns, gs, ps), marks, w, what in sinks:
        k = (rt, kind, frozenset(ns), frozenset(gs), frozenset(ps), tuple(sorted((p, m) for p, m in marks.items() if m)) if 0 else tuple(marks[p] for p in NEED))
        if k in seen:
            continue
        seen.add(k)
        for p in NEED:
            if p == 'foreign' and kind == 'transport':
                continue        # the transport itself compares with the local id (N06)
            ok = any(n in marks[p] for n in ns) or any(gates.get(g, {}).get(p) for g in gs) or \
                bool(ps) and all(p in pushes.get(s, ()) for s in ps if s in pushes) and any(s in pushes for s in ps)
            R.ob('%s/%s/%s' % (rt, kind, p), ok, {'signed': 'the record was verified with the key in it over its id and version',
                                                  'mine': 'the record is for this overlay', 'foreign': 'the record is not the own one'}[p] + ' before it is used (%s), got %s' % (kind, what), w)
    for x in ('transport', 'known_peers', 'nodes', 'received_peers', 'answer'):
        R.floor('sinks: %s' % x, R.counts.get('sinks: %s' % x, 0), 1)
    o05_ignored(R)


def has_cbarg(v):
    return any(x[0] == 'call' and x[1].startswith('cbarg:') for x in walk(v))


def o05_ignored(R):
    """peers are drawn from the sets of the overlay only without the ignored ones"""
    prog = R.prog
    n = 0
    for b in prog.bodies.values():
        if b.kind == 'promoted' or not b.file.startswith(OV + 'overlay.rs') or not any(last(p) in ('randomly_fill_from', 'clone_inner', 'iter', 'get') and 'PeersSet' in p for p, r, i, t in body_calls(b)):
            continue

        class D(E.Observer):
            maydepth = 0

            def inline(self, e, b2):
                return b2.id.startswith(b.id)

            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if ev.name == 'randomly_fill_from' and isf(ev.args[1], 'known_peers', 'neighbours'):
                    R.count('draws from the peer sets')
                    ok = has_field(ev.args[3], 'ignored_peers')
                    R.ob('draw/%s in %s' % (root_of(ev.args[1])[2][1], fname_of(b)), ok, 'removed peers are excluded when peers are chosen or offered', w)
        R.run(D(), b)
    R.floor('draws from the peer sets', R.counts.get('draws from the peer sets', 0), 3)
    for b in prog.bodies.values():
        if b.kind == 'promoted' or not b.file.startswith(OV) or not any(last(p) in ('remove', 'clear', 'retain', 'remove_if', 'take') and 'DashSet' in p for p, r, i, t in body_calls(b)):
            continue

        class G(E.Observer):
            maydepth = 0

            def inline(self, e, b2):
                return False

            def call(self, e, ctx, st, ev):
                if ev.name in ('remove', 'clear', 'retain', 'remove_if', 'take') and ev.args and isf(ev.args[0], 'ignored_peers'):
                    rs = sorted({fname_of(x) for x in public_roots(prog, b, lambda c: c.file.startswith('src/overlay/'))})
                    R.ob('ignore/shortened by %s' % fname_of(b), ev.name == 'remove' and all(r.startswith('add_') for r in rs),
                         'the ignore list is shortened only by explicit additions, got %s reached from %s' % (ev.name, rs), src(e, ctx, ev.line))
        R.run(G(), b)
    rem = R.method('Overlay', 'remove_public_peer')

    class I(E.Observer):
        maydepth = 4

        def inline(self, e, b):
            return b.file.startswith(OV)

        def call(self, e, ctx, st, ev):
            if ev.name == 'insert' and ev.args and isf(ev.args[0], 'ignored_peers'):
                return st.marks | {'ignored'}
            if ev.name == 'randomly_fill_from' and 'PeersSet' in ev.p:
                R.ob('remove/drawn after', 'ignored' in st.marks, 'the peers that take the place of a removed one are drawn only after it was put on the ignore list', src(e, ctx, ev.line))

        def exit(self, e, ctx, st, kind, val):
            if kind == 'return' and not (val[0] == 'const' and not val[1]):
                R.ob('remove', 'ignored' in st.marks, 'a removed peer is put on the ignore list', src(e, ctx, rem.line))
    R.run(I(), rem)


TABLES = ('overlays', 'subscribers')


def prefix_id(v):
    """the value is the overlay id read right after the constructor of the prefix"""
    rs = [x for x in walk(v) if x[0] == 'call' and last(x[1]) == 'read_from']
    if not rs:
        # a slice of the message at the fixed place
        return False
    x = rs[0]
    return len(rs) == 1 and (has_arg(x[2][0], 'data') or has_arg(x[2][0], 'query') or has_field(x[2][0], 'data', 'query')) and not any(y[0] == 'bin' for y in walk(v)) and \
        any(c[0] == 'const' and c[1] == 4 for c in walk(x[2][1])) and not any(y[0] == 'mut' for y in walk(x[2][1]))


@rule('O06', 'overlay traffic is looked up by the id in its own prefix, never by anything else, and an unknown id ends with an error and no effect',
      'provenance of lookup keys, guard facts at every effect, who-may-change analysis of the routing tables',
      'In both handlers of the overlay node every access to the tables of overlays and subscribers is a lookup keyed by the id read from the '
      'prefix of the message being handled; every effect, and every call of a subscriber, uses what that lookup found, in a path with the fact that '
      'it was found; when nothing is found the handler ends with an error. Entries are added only into vacant places, an overlay under its own id, '
      'and the prefixes it puts on its own messages are made from that id.')
def o06(R):
    prog = R.prog
    hs = [('message', handler(R)), ('query', R.async_body(R.tmethod('QuerySubscriber', 'overlay::node::NodeState', 'try_consume_query')))]
    for what, root in hs:
        class O(E.Observer):
            maydepth = 6
            part_cap = 200

            def inline(self, e, b):
                return b.file.startswith(OV)

            def relevant(self, f):
                return True

            def learned(self, e, st, k, v):
                if k[0] == 'var' and v in ('None', 'Some') and any(iscall(x, 'get') and any(isf(y, *TABLES) for y in walk(x[2][0])) for x in [k[1]]):
                    return ('unknown' if v == 'None' else 'found',)

            def call(self, e, ctx, st, ev):
                if task_of(ctx) is not None:
                    return
                w = src(e, ctx, ev.line)
                if ev.args and root_of(ev.args[0])[0] == 'field' and isf(root_of(ev.args[0]), *TABLES) and has_arg_self(ev.args[0]) and 'dashmap' in ev.p.lower():
                    ok = ev.name in ('get', 'contains_key', 'get_mut', 'view', 'entry', 'try_get') and len(ev.args) > 1
                    R.ob('%s/lookup' % what, ok, 'the %s table is only consulted for one id, got %s' % (root_of(ev.args[0])[2][1], ev.name), w)
                    if ok:
                        R.ob('%s/key of %s' % (what, root_of(ev.args[0])[2][1]), prefix_id(ev.args[1]), 'the table is consulted with the overlay id read from this message, got %s' % short(ev.args[1])[:80], w)
                    R.count('lookups in %s' % what)
                    return
                k = effect(ev)
                if k is None and ev.name in ('try_consume_query', 'try_consume_custom', 'handle_query', 'process_get_random_peers'):
                    k = 'handler'
                op = table_op(ev)
                if k is None and op and op[0] in ('insert', 'remove', 'bulk'):
                    k = 'change of a table'
                if k:
                    R.ob('%s/found before %s' % (what, k), 'found' in st.marks and 'unknown' not in st.marks, 'a message has an effect (%s) only for a known overlay' % k, w)
                    R.count('effects in %s' % what)
                    if k == 'handler':
                        R.ob('%s/receiver' % what, any(iscall(x, 'get') and any(isf(y, *TABLES) for y in walk(x[2][0])) and prefix_id(x[2][1]) for x in walk_phi(e, ev.args[0])),
                             'what handles a query is what was found under its overlay id, got %s' % short(ev.args[0])[:80], w)

            def exit(self, e, ctx, st, kind, val):
                if kind == 'return' and 'unknown' in st.marks and 'found' not in st.marks:
                    ok = val[0] == 'agg' and val[3] == 'Err' or not (val[0] == 'agg')
                    R.ob('%s/unknown' % what, ok, 'a message for an unknown overlay is rejected with an error', src(e, ctx, ctx.body.line))
                    R.count('rejections in %s' % what)
        R.run(O(), root)
        for x in ('lookups', 'effects', 'rejections'):
            R.floor('%s in %s' % (x, what), R.counts.get('%s in %s' % (x, what), 0), 1)

    # registrations
    for b in prog.bodies.values():
        if b.kind == 'promoted' or not b.file.startswith(OV) or 'receiver' in b.file or not any('dashmap' in p.lower() and last(p) in (
                'insert', 'remove', 'entry', 'clear', 'retain', 'or_insert', 'or_insert_with', 'remove_if', 'get_mut', 'iter_mut', 'alter', 'or_default', 'or_try_insert_with') for p, r, i, t in body_calls(b)):
            continue

        class G(E.Observer):
            maydepth = 3

            def inline(self, e, b2):
                return b2.file.startswith(OV) and b2.name in ('new', 'new_impl') or b2.id.startswith(b.id)

            def call(self, e, ctx, st, ev):
                op = table_op(ev)
                if not op or not (op[1] in TABLES or any(isf(x, *TABLES) for x in walk(ev.args[0]))):
                    return
                w = src(e, ctx, ev.line)
                t = op[1] if op[1] in TABLES else next(x[2][1] for x in walk(ev.args[0]) if isf(x, *TABLES))
                if op[0] == 'insert':
                    ok = 'vacant' in ev.p.lower() or ev.name.startswith('or_')
                    R.ob('register/%s' % t, ok, 'a registration never replaces the handler of an overlay', w)
                    R.count('registrations')
                    if t == 'overlays' and op[3] is not None:
                        ags = [x for x in walk(op[3]) if x[0] == 'agg' and last(x[2] or '') == 'Overlay']
                        for a in ags:
                            d = {f.split('.')[-1]: x for f, x in a[4]}
                            if 'id' in d and op[2] is not None:
                                R.ob('register/own id', nosites(d['id']) == nosites(op[2]) or root_arg(d['id']) == root_arg(op[2]) is not None, 'an overlay is registered under its own id', w)
                                R.count('overlays with a known id')
                                for f in ('query_prefix', 'message_prefix'):
                                    if f in d:
                                        R.ob('register/%s' % f, any(nosites(x) == nosites(d['id']) or root_arg(x) == root_arg(d['id']) is not None for x in walk_phi(e, d[f])),
                                             'the prefix of own messages carries the id of the overlay', w)
        R.run(G(), b)
    R.floor('registrations', R.counts.get('registrations', 0), 1)


def root_arg(v):
    for x in walk(v):
        if x[0] == 'arg':
            return x[-1]
    return None


def origins(e, k, v):
    """an outcome, and for a joined condition the outcomes it stands for (each is about its own values)"""
    out = [(k, v)]
    if k[0] == 'phi' and v in (True, False):
        srcs = [x for x in e.phi_src.get(k, ()) if x != k]
        if not any(x[0] == 'const' and bool(x[1]) == v for x in srcs):
            for x in srcs:
                p = v
                while x[0] == 'un' and x[1] == 'Not':
                    x, p = x[2], not p
                if x[0] in ('bin', 'call'):
                    out.append((x, p))
    return out


@rule('O07', 'reassembled data is delivered only with the announced length and hash, from pieces of the same description and source',
      'guard facts per value (marks) at decoding, feeding and delivery, provenance of what is fed',
      'The message handler is followed into the task that assembles a large broadcast. A piece reaches the decoder only behind the facts that '
      'its parameters equal those of the decoder and its announced size equals the size in them; the decoder is opened with the parameters of the '
      'piece that opened the broadcast; a piece is fed only with the fact that its source is that of the broadcast, each field of it from the field '
      'of the same meaning; data is delivered only behind the facts that the decoded length equals the announced size and that the hash of exactly '
      'the delivered value equals the announced one.')
def o07(R):
    def from_queue(x):
        return has_call(x, 'recv', 'try_recv', 'blocking_recv')

    class O(Recv):
        part_cap = 500

        def learned(self, e, st, k, v):
            ms = list(Recv.learned(self, e, st, k, v) or ())
            for op, a, c in [r for k1, v1 in origins(e, k, v) for r in rels(k1, v1)]:
                if op != '==':
                    continue
                for x0, y0 in ((a, c), (c, a)):
                    for x in spread(e, uncast(x0)):
                        for y in spread(e, uncast(y0)):
                            x, y = uncast(x), uncast(y)
                            if isf(x, 'fec_type', 'fec') and (has_call(y, 'params') or isf(y, 'params')):
                                ms.append(('v', 'params', x[1]))
                            if isf(x, 'data_size') and isf(y, 'total_len'):
                                ms.append(('v', 'size', x[1]))
                            if iscall(x, 'len') and isf(y, 'data_size', 'total_len'):
                                ms.append(('v', 'len', x[2][0]))
                            if (isf(y, 'data_hash') or isf(y, 'broadcast_id') or bc(y, 'data_hash')) and x[0] == 'call' and last(x[1]) in ('digest', 'hash', 'finalize'):
                                ms += [('v', 'hash', z) for z in x[2]]
            return tuple(ms) or None

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            t = task_of(ctx)
            if ev.name == 'decode' and 'Decoder' in ev.p and len(ev.args) == 3:
                xs = [x[1] for x in spread(e, ev.args[2]) if isfield(x, 'data')]
                for tag, m in (('params', 'a piece is decoded only when its parameters are those of the decoder'), ('size', 'a piece is decoded only when its announced size is the one in its parameters')):
                    ok = bool(xs) and all(any(nosites(x) == nosites(y) for y in vm(st, tag)) for x in xs)
                    R.ob('decode/%s' % tag, ok, m, w)
                R.count('decoder calls')
            if ev.name == 'with_params' and 'Decoder' in ev.p:
                R.ob('open/params', any(bc(x, 'fec') for x in walk_phi(e, ev.args[0])), 'the decoder of a broadcast is opened with the parameters of the piece that opened it', w)
                R.count('decoders opened')
            k = effect(ev)
            if k == 'feed' and t is None:
                R.ob('feed/source', 'same source' in st.marks or opened_here(e, st), 'a piece is fed only to the broadcast of its own source', w)
                for a in ev.args[1:]:
                    if a[0] == 'agg':
                        for f, x in a[4]:
                            n = {'fec_type': 'fec', 'id': 'data_hash', 'broadcast_id': 'data_hash', 'params': 'fec'}.get(f.split('.')[-1], f.split('.')[-1])
                            if n in BC_FIELDS:
                                R.ob('feed/%s' % n, n in leaves(e, x), 'field %s of a piece is the one that was received' % n, w)
                R.count('feeds')
            if k == 'deliver' and t is not None:
                for a in ev.args[1:]:
                    d = {f.split('.')[-1]: x for f, x in a[4]} if a[0] == 'agg' else {}
                    for x in spread(e, d['data']) if 'data' in d else [a]:
                        nx = nosites(x)
                        R.ob('deliver/hash', any(same_or_joined(e, y, x) for y in vm(st, 'hash')), 'data is delivered only when its own hash is the announced one, got %s' % short(x)[:60], w)
                        R.ob('deliver/len', any(mentions(nx, lambda z: z == nosites(y)) or any(z[0] == 'call' and same_or_joined(e, y, z) for z in walk(x)) for y in vm(st, 'len')), 'data is delivered only when the decoded length is the announced one', w)
                    if 'from' in d:
                        R.ob('deliver/from', any(iscall(x, 'compute_short_id') for x in walk_phi(e, d['from'])) and any(bc(x, 'src') for x in walk_phi(e, d['from'])) or isf(d['from'], 'source'),
                             'the sender reported for a large broadcast is the source that was verified', w)
                R.count('deliveries of large broadcasts')

    def same_or_joined(e, y, x):
        """x is y, or y stands for several results of the same function, x being one of them"""
        nx = nosites(x)
        if nosites(y) == nx:
            return True
        alts = [unwrap(z) for z in spread(e, y)]
        return len({z[1] if z[0] == 'call' else z[0] for z in alts + [unwrap(x)]}) == 1 and any(nosites(z) == nosites(unwrap(x)) for z in alts)

    def unwrap(v):
        while v[0] == 'field' and v[2][1] in ('Some.0', 'Ok.0'):
            v = v[1]
        return v

    def opened_here(e, st):
        return False
    R.run(O(), handler(R))
    for x in ('decoder calls', 'decoders opened', 'feeds', 'deliveries of large broadcasts'):
        R.floor(x, R.counts.get(x, 0), 1)


def followed(e, st, v):
    """all parts of what v may stand for, borrowed places included"""
    seen, todo = set(), [v]
    while todo:
        for y in walk_phi(e, todo.pop()):
            if y in seen:
                continue
            seen.add(y)
            yield y
            if y[0] == 'ref' and isinstance(y[1], tuple) and y[1][0] in ('L', 'V'):
                todo.append(e.read(st, y[1]))


def pointees(e, st, v, d=0):
    """what v may stand for, borrowed places resolved"""
    out = set()
    for x in spread(e, v):
        if x[0] == 'ref' and isinstance(x[1], tuple) and x[1][0] in ('L', 'V') and d < 6:
            out |= pointees(e, st, e.read(st, x[1]), d + 1)
        else:
            out.add(x)
    return out


TAKES = ('take', 'truncate')
KEEPS = ('filter', 'filter_map', 'retain', 'extract_if')


def layers(v):
    """the adaptors between a value and the random choice it was drawn from, outermost first, and the choice; None without one"""
    out = []
    for _ in range(40):
        v = uncast(v)
        if v[0] == 'field' and isinstance(v[1], tuple):
            v = v[1]
        elif v[0] == 'mut':
            out.append((last(v[1]), tuple(v[4])))
            v = v[2]
        elif v[0] == 'agg' and len(v[4]) == 1:
            v = v[4][0][1]
        elif v[0] == 'call' and v[1] == 'elem' or v[0] == 'call' and v[1].startswith('cbarg:'):
            v = v[2][0]
        elif v[0] == 'call' and last(v[1]) in ('choose_multiple', 'choose_multiple_weighted', 'partial_shuffle', 'choose', 'sample'):
            return out, v
        elif v[0] == 'call' and v[2]:
            out.append((last(v[1]), tuple(v[2][1:])))
            v = v[2][0]
        else:
            return out, None
    return out, None


@rule('O08', 'a broadcast is passed on as it was received, to drawn neighbours other than the one it came from',
      'provenance of the arguments of every forwarding call, contract of the random draw (filter, limit, size of the sample) on its paths',
      'Every message that the handler of received broadcasts sends carries the received bytes unchanged and goes to a peer that was drawn from the '
      'neighbours with the sender left out. Every draw leaves out what it is told to leave out: each peer handed back was compared with it, by a '
      'filter over the sample or a check in the loop. No draw hands back more than the amount asked for, the sample is large enough that leaving '
      'peers out does not cost others their place, and the limit is applied after the filter.')
def o08(R):
    prog = R.prog
    PS = 'adnl/peers_set.rs'
    ins = R.method('PeersSetState', 'insert')
    nsink = 0
    for b in prog.bodies.values():
        if b.kind != 'fn' or not b.file.endswith(PS) or not b.pub:
            continue
        if not any(last(p) == 'choose_multiple' for i in reach(prog, [b.id]) if i in prog.bodies and prog.bodies[i].file.endswith(PS) for p, r, i2, t in body_calls(prog.bodies[i])):
            continue
        args = [(i, b.locals[i][0], b.locals[i][1]) for i in range(1, b.argc + 1)]
        amount = [mk('arg', i, n) for i, t, n in args if t in ('u32', 'usize')]
        exc = [(mk('arg', i, n), t) for i, t, n in args if 'Option<' in t]
        if len(amount) != 1:
            continue
        amount = amount[0]
        exc, ety = exc[0] if exc else (None, '')
        many = 'Dash' in ety or 'Set' in ety or 'Hash' in ety
        fn = fname_of(b)
        R.count('draws')

        def about(v):
            return mentions(v, lambda x: x == exc)

        def left_out(k, q, item):
            """an element (item) is not what was to be left out"""
            for op, a, c in rels(k, q):
                if op == '!=' and (item(a) and about(c) or item(c) and about(a)):
                    return True
            return k[0] == 'call' and last(k[1]) in ('contains', 'contains_key') and q is False and about(k[2][0]) and item(k[2][1])

        class P(E.Observer):
            maydepth = 4
            part_cap = 100
            gates = {}

            def relevant(self, f):
                return True

            def inline(self, e, b2):
                return b2.file.endswith(PS) and b2.id != ins.id

            def learned(self, e, st, k, v):
                out = []
                if k[0] == 'var' and k[1] == exc and v in ('Some', 'None'):
                    out.append('to leave out' if v == 'Some' else 'none to leave out')
                if exc and left_out(k, v, lambda x: has_call(x, 'elem') and has_call(x, 'choose_multiple')):
                    out.append('other')
                return out

            def iterated(self, e, ctx, st, it, some):
                return st.marks - {'other'}

            def ret(self, e, ctx, st, ev):
                if ctx.body.kind == 'closure' and ctx.site and ctx.site[0] == 'cb':
                    r, q = ev.result, True
                    while r[0] == 'un' and r[1] == 'Not':
                        r, q = r[2], not q
                    if 'none to leave out' in st.marks or st.facts.get(mk('var', exc)) == 'None':
                        return
                    ok = exc is not None and left_out(r, q, has_cbarg)
                    if r[0] == 'const' and not r[1] or r[0] == 'agg' and r[3] == 'None':
                        return
                    if not ok and (closure_true(ev.result)):
                        ok = any(left_out(k, v, has_cbarg) for k, v in st.facts.items())
                    self.gates[ctx.body.id] = self.gates.get(ctx.body.id, True) and ok

            def sink(self, e, ctx, st, v, line):
                ls, ch = layers(v)
                if ch is None:
                    return
                nonlocal nsink
                nsink += 1
                w = src(e, ctx, line)
                keep = [i for i, (n, a) in enumerate(ls) if n in KEEPS and any(x[0] == 'agg' and x[1] == 'closure' and self.gates.get(x[2]) for x in a)]
                take = [i for i, (n, a) in enumerate(ls) if n in TAKES]
                full = 'none to leave out' not in st.marks and exc is not None
                n = ch[2][2] if len(ch[2]) > 2 else None
                k, off = linear(n) if n is not None else (None, 0)
                if k is not None and k != amount and k[0] == 'bin' and k[1] == 'Add':
                    parts = [linear(k[2])[0], linear(k[3])[0]]
                else:
                    parts = [k]
                if full:
                    R.ob('%s/left out' % fn, bool(keep) or 'other' in st.marks, 'what is handed back was compared with what is to be left out', w)
                    R.ob('%s/sample' % fn, amount in parts and (any(p and p != amount and has_call(p, 'len') and about(p) for p in parts) if many else off >= 1),
                         'the sample is larger than the amount by what may be left out of it', w)
                    R.ob('%s/limit first' % fn, not take or not keep or min(keep) > max(take), 'the limit applies to what is left after the filter', w)
                else:
                    R.ob('%s/sample' % fn, amount in parts and off >= 0, 'the sample has the size asked for', w)
                lim = [i for i in take if linear(ls[i][1][0]) == (amount, 0)] if take else []
                R.ob('%s/limit' % fn, bool(lim) or any(op == '<' and linear(c) == (amount, 0) for op, a, c in all_rels(st)) or parts == [amount] and off <= 0, 'no more than the amount asked for is handed back', w)
                R.ob('%s/whole' % fn, not any(n in ('skip', 'step_by', 'skip_while', 'take_while', 'map_while', 'nth') for n, a in ls), 'no other part of the sample is dropped', w)

            def call(self, e, ctx, st, ev):
                if ev.id == ins.id or ev.name in ('push', 'push_back', 'extend', 'insert', 'append') and ev.args:
                    for a in ev.args[1:]:
                        self.sink(e, ctx, st, a, ev.line)

            def exit(self, e, ctx, st, kind, val):
                if kind == 'return':
                    self.sink(e, ctx, st, val, b.line)
        R.run(P(), b)
    R.floor('draws', R.counts.get('draws', 0), 2)
    R.floor('peers handed back by a draw', nsink, 2)

    rb = handler(R)

    def from_peer(v):
        return mentions(v, lambda x: isfield(x, 'peer_id') and has_field(x, 'ctx'))

    class O(Recv):
        def learned(self, e, st, k, v):
            out = list(Recv.learned(self, e, st, k, v) or ())
            for op, a, c in rels(k, v):
                if op == '!=':
                    for p, q in ((a, c), (c, a)):
                        if from_peer(p) and has_call(q, 'elem'):
                            out.append(('v', 'not the sender', q))
            return out

        def call(self, e, ctx, st, ev):
            if effect(ev) != 'forward' or task_of(ctx) is not None:
                return
            w = src(e, ctx, ev.line)
            R.count('forwards of received broadcasts')
            peers = [nosites(x) for x in pointees(e, st, ev.args[2])]
            for p in peers:
                d = [x for x in walk(p) if x[0] == 'call' and last(x[1]) in ('get_random_peers',)]
                R.ob('forward/to a neighbour', any(isf(x[2][0], 'neighbours') for x in d), 'a received broadcast goes on to drawn neighbours, got %s' % short(p)[:120], w)
                ok = any(len(x[2]) > 2 and x[2][2][0] == 'agg' and x[2][2][3] == 'Some' and from_peer(x[2][2]) for x in d)
                R.ob('forward/not back', ok or any(nosites(x) == p for x in vm(st, 'not the sender')), 'a broadcast is not sent back to the peer it came from', w)
            for x in spread(e, ev.args[3]):
                while x[0] == 'call' and last(x[1]) in ('index', 'as_slice', 'as_ref', 'deref') and all(a[0] == 'agg' and a[2].endswith('RangeFull') for a in x[2][1:]):
                    x = x[2][0]
                R.ob('forward/as received', x[0] == 'field' and x[1][0] == 'arg' and isf(x, 'data'), 'a broadcast is passed on byte for byte as it was received, got %s' % short(x)[:120], w)
    R.run(O(), rb)
    R.floor('forwards of received broadcasts', R.counts.get('forwards of received broadcasts', 0), 1)

    class B(E.Observer):
        maydepth = 7
        part_cap = 300

        def inline(self, e, b):
            return b.file.startswith(OV)

        def learned(self, e, st, k, v):
            if k[0] == 'var' and k[1][0] == 'arg' and v in ('Explicit', 'RandomNeighbours'):
                return (v,)

        def call(self, e, ctx, st, ev):
            if effect(ev) != 'forward':
                return
            w = src(e, ctx, ev.line)
            R.count('sends of own broadcasts')
            v = ev.args[2]
            vs = list(followed(e, st, v))
            given = any(x[0] == 'field' and isinstance(x[2][1], str) and x[2][1].startswith('Explicit') and x[1][0] == 'arg' for x in vs)
            draws = [x for x in vs if x[0] == 'call' and last(x[1]) == 'get_random_peers']
            drawn = any(isf(x[2][0], 'neighbours') and isf(x[2][1], 'broadcast_target_count') for x in draws)
            exact = not any(x[0] in ('phi', 'ref') for x in walk(v))
            if 'Explicit' in st.marks:
                R.ob('own/given peers', given and not (exact and draws), 'a broadcast with stated targets goes to these', w)
            else:
                R.ob('own/drawn peers', drawn and not (exact and given), 'a broadcast without stated targets goes to drawn neighbours, as many as configured', w)
    R.run(B(), R.method('Overlay', 'broadcast'))
    R.floor('sends of own broadcasts', R.counts.get('sends of own broadcasts', 0), 1)
