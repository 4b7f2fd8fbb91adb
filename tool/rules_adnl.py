"""Rules for the ADNL layer."""
import re
from lib import *
import engine as E


DIGEST = ('digest', 'finalize', 'compute_packet_data_hash', 'finalize_fixed', 'hash')


def recv_body(R):
    return R.async_body(R.entry('Node', 'handle_received_data', ('Node', 'start')))


SLICING = ('index', 'index_mut', 'get', 'split_at', 'split_at_mut', 'first_chunk', 'get_unchecked', 'try_into', 'chunks')


def part_of_digest(v):
    """the value is only a part (a slice, one byte) of a digest"""
    if v[0] == 'call':
        if last(v[1]) in DIGEST:
            return False
        if last(v[1]) in SLICING[:-2] + ('chunks', 'first', 'last', 'iter', 'take') and v[2] and has_call(v[2][0], *DIGEST):
            return not any(x[0] == 'agg' and 'RangeFull' in str(x[2]) for a in v[2][1:] for x in walk(a))
        return any(part_of_digest(a) for a in v[2])
    if v[0] == 'field':
        return has_call(v[1], *DIGEST) and v[2][0] in ('idx', 'sub') or part_of_digest(v[1])
    if v[0] in ('cast', 'ref', 'deref'):
        return any(part_of_digest(x) for x in v[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))
    return False


def is_checksum_fact(k, v):
    """a digest was compared with bytes taken from a buffer, and they were equal"""
    if v is True and k[0] == 'bin' and k[1] == 'Eq':
        for x, y in ((k[2], k[3]), (k[3], k[2])):
            if has_call(x, *DIGEST) and not part_of_digest(x) and not has_call(y, *DIGEST) and (has_call(y, *SLICING) or mentions(y, lambda z: z[0] == 'field' and z[2][0] in ('idx', 'sub'))):
                return True
    return False


def packet_marks(k, v):
    """guard facts of the receive path"""
    if is_checksum_fact(k, v):
        return ('cs',)
    if k[0] == 'call' and v is True and last(k[1]) in ('verify_raw', 'verify', 'verify_tl'):
        return (('ver', k[2][0]),)
    if k[0] == 'var' and v == 'None' and isfield(k[1], 'signature'):
        return ('unsigned',)
    if v is False and isfield(k, 'packet_signature_required'):
        return ('notreq',)
    if k[0] == 'var' and v == 'Some' and k[1][0] == 'call' and last(k[1][1]) == 'get' and root_field(k[1]) == 'channels_by_id':
        return ('chan',)
    return None


def base_of(v):
    while v[0] == 'field':
        v = v[1]
    return v


@rule('N01', 'checksum and signature facts dominate every effect of a received packet',
      'path-sensitive MIR dataflow: guard facts at effect sites',
      'Every path of the receive procedure is followed through all crate-local callees; at each change of a shared table, of a peer '
      'counter or history, and at each handler call the outcome of the checksum comparison over the decrypted bytes and of the '
      'signature check (or: no signature, and either a channel packet or signatures not required) must be established, and the '
      'verified key must belong to the peer id handed on.')
def n01(R):
    near = Near(R.prog, MAP_MUT | HANDLERS | {'verify_raw', 'apply_keystream', 'digest', 'store', 'fetch_max', 'fetch_or', 'fetch_add',
                                             'compare_exchange', 'add_peer', 'send'}, deny=('send_message', 'send_packet'))
    sendish = reaching(R.prog, lambda p, r: last(p) == 'send' and 'mpsc' in p)

    class O(E.Observer):
        maydepth = 16
        part_cap = 400
        def learned(self, e, st, k, v):
            return packet_marks(k, v)

        def inline(self, e, b):
            return near(e, b)

        def call(self, e, ctx, st, ev):
            lab = mutation(ev)
            if lab is None and ev.id in sendish and last(ev.p) in near.deny:
                lab = 'reply'
            if lab is None:
                return
            key = '%s in %s' % (lab, fname(ctx))
            w = src(e, ctx, ev.line)
            R.ob('checksum/' + key, 'cs' in st.marks,
                 'effect "%s" of a received packet %s the checksum of the decrypted bytes was compared' % (
                     lab, 'only after' if 'cs' in st.marks else 'without a path condition showing that'), w)
            if lab in ('atomic ready', 'atomic drop'):
                return
            kvs = [m[1] for m in st.marks if isinstance(m, tuple) and m[0] == 'ver']
            if kvs:
                ok, msg = True, 'signature verified'
            elif 'unsigned' in st.marks:
                ok = 'notreq' in st.marks or 'chan' in st.marks
                msg = 'no signature in the packet, and %s' % (
                    'it came through a channel or signatures are not required' if ok else
                    'nothing shows that it came through a channel or that signatures are not required')
            else:
                ok, msg = False, 'the packet may carry a signature which was not verified before effect "%s"; known: %s' % (lab, fmt_facts(st))
            R.ob('signature/' + key, ok, msg, w)
            if lab.startswith('handler') and kvs:
                kv = kvs[0]
                P = None
                c = ev.args[1]
                if c[0] == 'agg':
                    for f, x in c[4]:
                        if f == 'peer_id':
                            P = x
                ok = P is not None and (mentions(kv, lambda y: y == P) or mentions(P, lambda y: y == base_of(kv)))
                R.ob('identity/' + key, ok, 'peer id given to the handler %s the verified key (peer id %s, key %s)' % (
                    'belongs to' if ok else 'is not tied to', short(P)[:200] if P else None, short(kv)[:200]), w)
            R.count('effect visits')
    R.run(O(), recv_body(R))
    eff = {k.split('/', 1)[1] for k in R.obs if k.startswith('signature/')}
    R.floor('distinct effects of a received packet', len(eff), 12)
    R.floor('handler calls tied to the verified key', len([k for k in R.obs if k.startswith('identity/')]), 2)


# ---------------------------------------------------------------------------------------------- receive path
RECV_CALLS = MAP_MUT | HANDLERS | {'verify_raw', 'digest', 'store', 'fetch_max', 'fetch_or', 'fetch_add', 'compare_exchange', 'send'}
SENDISH = ('send_message', 'send_packet')


def recv_near(R, extra=(), deny=()):
    return Near(R.prog, RECV_CALLS | set(extra), deny=SENDISH + tuple(deny))


def message_effect(lab):
    """effects of the messages of a packet (after the packet itself was accepted)"""
    if lab is None:
        return False
    return lab.startswith('handler') or lab in ('table incoming_transfers', 'table channels_by_peers', 'table queries', 'table cache')


def deliver_fns(R):
    """methods of PacketsHistory that decide whether a sequence number is new"""
    return R.need('a bool method of PacketsHistory', [b for b in methods_of(R.prog, 'PacketsHistory') if ret_ty(b) == 'bool'])


def hist_class(v):
    """(side, class) of a history value reached through a peer"""
    p = fpath(v)
    side = 'receiver' if 'receiver_state' in p else 'sender' if 'sender_state' in p else None
    cl = 'priority' if 'priority_history' in p else 'ordinary' if 'ordinary_history' in p else None
    return side, cl


def chan_class(k, v):
    if k[0] == 'var' and isinstance(v, str) and v in ('Priority', 'Ordinary') and root_field(k[1]) == 'channels_by_id':
        return (('class', v.lower()),)
    return None


@rule('N02', 'history verdict dominates message effects; the history records and advances on every accepting path',
      'path-sensitive MIR dataflow: guard facts at effect sites, must-pass inside the history',
      'Receive path: every effect of a message is preceded by a positive verdict of the packet history of that peer and class for '
      'the sequence number of the packet (or history is disabled, or the packet has no number). History: each path that returns '
      'true for a receiving history has taken the index lock, has excluded numbers behind the window, has recorded the bit of '
      'this number in the half of the window it belongs to, knows that the bit was not set before or has cleared and advanced the '
      'window, and has updated the largest number.')
def n02(R):
    dl = deliver_fns(R)
    ids = {b.id for b in dl}
    near = recv_near(R)

    class O(E.Observer):
        maydepth = 16
        part_cap = 400

        def inline(self, e, b):
            return b.id not in ids and near(e, b)

        def learned(self, e, st, k, v):
            if v is False and isfield(k, 'packet_history_enabled'):
                return ('off',)
            if k[0] == 'var' and v == 'None' and isfield(k[1], 'seqno'):
                return ('noseq',)
            if k[0] == 'call' and v is True and last(k[1]) in {b.name for b in dl} and len(k[2]) == 2:
                side, cl = hist_class(k[2][0])
                return (('dlv', side, cl, 'seqno' in fpath(k[2][1])),)
            return chan_class(k, v)

        def call(self, e, ctx, st, ev):
            lab = mutation(ev)
            if not message_effect(lab):
                return
            w = src(e, ctx, ev.line)
            key = '%s in %s' % (lab, fname(ctx))
            d = [m for m in st.marks if isinstance(m, tuple) and m[0] == 'dlv']
            ok = 'off' in st.marks or 'noseq' in st.marks or bool(d)
            R.ob('guard/' + key, ok, '"%s" %s' % (lab, 'follows the verdict of the packet history' if ok else
                                                 'is reachable without asking the packet history about the number of the packet'), w)
            cls = [m[1] for m in st.marks if isinstance(m, tuple) and m[0] == 'class']
            want = cls[0] if cls else 'ordinary'
            for m in d:
                R.ob('class/' + key, m[1] == 'receiver' and m[2] in (want, None) and m[3],
                     'a %s packet was checked with the %s history of the %s side%s' % (
                         want, m[2], m[1], '' if m[3] else ', but not with the number of the packet'), w)
    R.run(O(), recv_body(R))
    R.floor('message effects guarded by the history', len([k for k in R.obs if k.startswith('guard/')]), 2)
    for b in dl:
        n02_history(R, b)
    n02_masks(R)


def n02_masks(R):
    """ every history a peer entry receives with records what it has seen """
    prog = R.prog

    def look(S, v, w):
        for x in walk(v):
            if x[0] == 'agg' and x[1] == 'adt' and (x[2] or '').endswith('PacketsHistory'):
                m = dict(x[4]).get('mask')
                S.ob('recording/%s' % w.split(':')[0], m is not None and m[0] == 'agg' and m[3] == 'Some', 'a history used for receiving keeps the window of what was received', w)
                S.count('receiving histories made')
            elif x[0] == 'call' and 'PacketsHistory' in x[1]:
                S.ob('recording/%s' % w.split(':')[0], False, 'a history used for receiving is made in a way that is not understood', w)

    for b in prog.bodies.values():
        if b.kind not in ('fn', 'closure') or not b.file.startswith('src/adnl') or not (builds(prog, b, 'adnl::peer::Peer') or mutates_field(b, 'receiver_state')):
            continue

        class M(E.Observer):
            maydepth = 5

            def inline(self, e, b2):
                return len(b2.blocks) < 25

            def write(self, e, ctx, st, loc, v, line):
                if isfield(loc, 'receiver_state'):
                    look(R, v, src(e, ctx, line))

            def exit(self, e, ctx, st, kind, val):
                if kind == 'return' and not ctx.depth and val is not None:
                    for x in walk(val):
                        if x[0] == 'agg' and x[1] == 'adt' and (x[2] or '').endswith('::Peer'):
                            look(R, dict(x[4]).get('receiver_state', val), one_line(ctx, b.line))
        R.run(M(), b)
    R.floor('receiving histories made', R.counts.get('receiving histories made', 0), 2)


def reads_field(b, f):
    """ a place of the body goes through this field """
    def go(x):
        if isinstance(x, list):
            return len(x) > 2 and x[0] == 'f' and x[2] == f or any(go(y) for y in x)
        return isinstance(x, dict) and any(go(y) for y in x.values())
    return any(go(blk['s']) or go(blk['t']) for blk in b.blocks)


def mutates_field(b, f):
    """ the body assigns this field """
    return any(s[0] == '=' and len(s[1]) > 1 and any(p[0] == 'f' and len(p) > 2 and p[2] == f for p in s[1][1:]) for blk in b.blocks for s in blk['s'])


MAXC = 0xFFFFFFFFFFFFFFFF


def bit_index_range(e, ctx, st, loc):
    """word range of the bits array an element location covers: (lo, hi) or None"""
    if loc[0] == 'call' and last(loc[1]) == 'elem':
        x = loc[2][0]
        if x[0] == 'call' and last(x[1]) in ('index', 'index_mut') and len(x[2]) == 2 and 'bits' in fpath(x[2][0]):
            return const_range(x[2][1])
        if x[0] == 'field' and isfield(x, 'bits'):
            return (0, None)
        return None
    if loc[0] == 'field' and loc[2][0] == 'idx' and 'bits' in fpath(loc[1]):
        i = loc[2][1]
        base, off = linear(i) if not isinstance(i, int) else (None, i)
        if base is None:
            return (off, off + 1)
        if base[0] == 'call' and last(base[1]) == 'elem':
            r = const_range(base[2][0])
            if r and r[0] is not None and r[1] is not None:
                return (r[0] + off, r[1] + off)
        if base[0] == 'phi':
            lo = None
            for s in expand_phi(e, base):
                if s[0] == 'const':
                    lo = s[1] if lo is None else min(lo, s[1])
            hi = None
            for op, a, b in all_rels(st):
                if op == '<' and a == base and b[0] == 'const':
                    hi = b[1] if hi is None else min(hi, b[1])
            if lo is not None and hi is not None:
                return (lo + off, hi + off)
    return None


def loop_var(loc):
    """site of the iterator that yields the index of an element"""
    for x in walk(loc):
        if x[0] == 'call' and last(x[1]) == 'elem':
            return x[3]
    return None


def n02_history(R, body):
    ty = {b.id for b in methods_of(R.prog, 'PacketsHistory')}
    here = body.file

    def is_index(v):
        return mentions(v, lambda x: x[0] == 'call' and last(x[1]) == 'load' and isfield(x[2][0], 'index'))

    def is_seq(v):
        return mentions(v, lambda x: x[0] == 'arg' and x[1] == 2)

    def behind_bound(k, v):
        """upper bound on (window start - number) established by a branch"""
        for op, a, b in rels(k, v):
            la, ca = linear(a)
            lb, cb = linear(b)
            if op == '!=' or op == '==':
                continue
            # diff <= C or diff < C
            if la is not None and lb is None and is_index(a) and is_seq(a) and has_call(a, 'saturating_sub', 'wrapping_sub') | mentions(a, lambda x: x[0] == 'bin' and x[1] == 'Sub'):
                return cb - ca - (1 if op == '<' else 0)
            # index < number + C
            if la is not None and lb is not None and is_index(a) and not is_seq(a) and is_seq(b) and not is_index(b):
                return cb - ca - (1 if op == '<' else 0)
        return None

    class O(E.Observer):
        maydepth = 6
        part_cap = 400

        def relevant(self, f):
            f = fact_val(f)
            return is_index(f) or is_seq(f)

        def inline(self, e, b):
            return b.id in ty or b.kind == 'closure' or b.file == here

        def nonempty(self, e, ctx, it):
            return True

        def learned(self, e, st, k, v):
            out = []
            if k[0] == 'var' and v == 'None' and isfield(k[1], 'mask'):
                out.append('nomask')
            if k[0] == 'var' and v == 'Ok' and k[1][0] == 'call' and last(k[1][1]).startswith('compare_exchange') and isfield(k[1][2][0], 'index') \
                    and k[1][2][2][0] == 'const' and k[1][2][2][1] == MAXC:
                out.append(('v', 'locked', k[1]))
            b = behind_bound(k, v)
            if b is not None and 0 <= b:
                out.append(('v', ('behind', b), k))
            for op, a, b in rels(k, v):
                for x, y, sw in ((a, b, False), (b, a, True)):
                    if is_index(x) and not is_seq(x) and is_seq(y) and not is_index(y) and linear(x)[1] == 0 and linear(y)[1] == 0:
                        o = op
                        if op in ('<', '<='):
                            o = {'<': '>', '<=': '>='}[op] if sw else op
                        out.append(('v', ('ord', o), k))
                    if op == '==' and is_index(x) and not is_seq(x) and is_seq(y) and not is_index(y) and linear(x)[1] - linear(y)[1] == 256:
                        out.append(('v', 'adjacent', k))
            if v is True and k[0] == 'bin' and k[1] == 'Eq':
                for x, y in ((k[2], k[3]), (k[3], k[2])):
                    if y[0] == 'const' and y[1] == 0 and x[0] == 'bin' and x[1] == 'BitAnd' and has_call(x, 'fetch_or'):
                        out.append(('v', 'fresh', x))
                    elif y[0] == 'const' and y[1] == 0 and x[0] == 'bin' and x[1] == 'BitAnd' and any(iscall(z, 'load') and ('held', z[3]) in st.marks for z in x[2:4]):
                        out.append(('v', 'unset', x))
            if v is False and k[0] == 'bin' and k[1] == 'Eq':
                # (bits & bit) == bit is false
                for x, y in ((k[2], k[3]), (k[3], k[2])):
                    if x[0] == 'bin' and x[1] == 'BitAnd' and y in x[2:4] and any(iscall(z, 'load') and ('held', z[3]) in st.marks for z in x[2:4]):
                        out.append(('v', 'unset', x))
            for op, a, b in rels(k, v):
                if op in ('<=', '==') and a[0] == 'arg' and mentions(b, lambda x: x[0] == 'call' and last(x[1]) == 'load' and isfield(x[2][0], 'seqno')):
                    out.append('max')
            return out

        def order(self, st):
            s = {m[1][1] for m in st.marks if isinstance(m, tuple) and m[0] == 'v' and isinstance(m[1], tuple) and m[1][0] == 'ord'}
            # window start compared with the start of the number's block
            if '<' in s:
                return 'ahead'
            if '==' in s or ('<=' in s and '>=' in s):
                return 'same'
            if '>' in s or ('>=' in s and '!=' in s):
                return 'below'
            return None

        def call(self, e, ctx, st, ev):
            if 'atomic' not in ev.p or not ev.args:
                return
            if ev.name == 'load' and 'bits' in fpath(ev.args[0]):
                # words read after they were cleared; a loop that clears word f(i) clears another word in each round
                r = bit_index_range(e, ctx, st, ev.args[0])
                it = loop_var(ev.args[0])
                if r and r[0] is not None:
                    for x in st.marks:
                        if isinstance(x, tuple) and x[0] == 'clr' and x[1] == 'zero' and (
                                x[2] is None or x[2] < (r[1] if r[1] is not None else 8) and r[0] < (x[3] if x[3] is not None else 8)):
                            if it is None or x[4] != it or ('v', 'clr-now', ev.args[0]) in st.marks:
                                return st.marks | {('late', ev.site)}
                if any(isinstance(m, tuple) and m[0] == 'v' and m[1] == 'locked' for m in st.marks):
                    return st.marks | {('held', ev.site)}
                return
            if not ATOMIC_MUT.match(ev.name):
                return
            loc = ev.args[0]
            w = src(e, ctx, ev.line)
            path = fpath(loc)
            locked = any(isinstance(m, tuple) and m[0] == 'v' and m[1] == 'locked' for m in st.marks)
            if 'bits' in path:
                R.ob('lock/%s bits in %s' % (ev.name, fname(ctx)), locked,
                     'the bits of the history are changed only while the index lock is held', w)
                o = self.order(st)
                if ev.name == 'fetch_or' or (ev.name == 'store' and is_seq(ev.args[1])):
                    m = st.marks | {'bit'}
                    R.ob('behind/' + str(o), any(isinstance(x, tuple) and x[0] == 'v' and isinstance(x[1], tuple) and x[1][0] == 'behind' and x[1][1] < 512
                                                 for x in st.marks) or o in ('ahead', 'same'),
                         'numbers more than one window behind are excluded before a bit is recorded', w)
                    R.ob('value/' + fname(ctx), is_seq(ev.args[1]) and is_seq(loc), 'the recorded bit and its word depend on the number', w)
                    for x in st.marks:
                        if isinstance(x, tuple) and x[:2] == ('v', 'unset') and any(nosites(y[2][0]) == nosites(loc) and nosites(z) == nosites(ev.args[1]) for y, z in (x[2][2:4], x[2][3:1:-1]) if iscall(y, 'load')):
                            m = m | {('v', 'fresh', x[2])}
                    i = loc[2][1] if loc[0] == 'field' and loc[2][0] == 'idx' else None
                    if i is not None and not isinstance(i, int):
                        base, off = linear(i)
                        part = loc[1]
                        if part[0] == 'field' and part[2][1] == '1' and iscall(part[1], 'split_at', 'split_at_mut') and part[1][2][1][0] == 'const':
                            off += part[1][2][1][1]
                        if base is not None and base[0] != 'phi':
                            for s in [base]:
                                if s[0] == 'bin' and s[1] in ('Div', 'Shr'):
                                    want = {'ahead': 4, 'same': 4, 'below': 0}.get(o)
                                    if want is not None:
                                        R.ob('half/%s' % o, off == want, 'a number %s the window start belongs to word offset %s, the code uses %s' % (
                                            {'ahead': 'ahead of', 'same': 'inside', 'below': 'below'}[o], want, off), w)
                    if o == 'ahead':
                        z = [x for x in st.marks if isinstance(x, tuple) and x[0] == 'clr']
                        full = {'zero': set(), 'any': set()}
                        unknown = False
                        for _, kind, lo, hi, _it in z:
                            if lo is None:
                                unknown = True
                                continue
                            for q in range(lo, hi if hi is not None else 8):
                                full['any'].add(q)
                                if kind == 'zero':
                                    full['zero'].add(q)
                        ok = unknown or (full['any'] >= set(range(8)) and full['zero'] >= {4, 5, 6, 7})
                        R.ob('window/cleared', ok, 'before a larger number is recorded both halves of the window are replaced and the upper half is cleared; '
                             'replaced words %s, cleared words %s' % (sorted(full['any']), sorted(full['zero'])), w)
                        R.ob('window/kept only when adjacent', ('clr-copy' not in st.marks) or
                             any(isinstance(x, tuple) and x[0] == 'v' and x[1] == 'adjacent' for x in st.marks),
                             'old bits are kept only when the window moves by exactly one half', w)
                        m = m | {'moved'}
                    return m
                if ev.name == 'store':
                    r = bit_index_range(e, ctx, st, loc)
                    lo, hi = r if r and r[0] is not None else (None, None)
                    val = ev.args[1]
                    if val[0] == 'const' and val[1] == 0:
                        return st.marks | {('clr', 'zero', lo, hi, loop_var(loc)), ('v', 'clr-now', loc)}
                    if has_call(val, 'load') and 'bits' in fpath(val):
                        if lo is not None:
                            sidx = val[2][0]
                            sr = bit_index_range(e, ctx, st, sidx)
                            if sr and sr[0] is not None:
                                R.ob('window/shift source', sr[0] == lo + 4, 'the lower half takes over the upper half (word %s takes word %s)' % (lo, sr[0]), w)
                            late = ('late', val[3]) in st.marks
                            R.ob('window/shift order', not late, 'the upper half is moved down before it is cleared', w)
                        return st.marks | {('clr', 'copy', lo, hi, loop_var(loc)), 'clr-copy'}
                return
            if path and path[0] == 'index':
                if ev.name in ('store', 'swap') or (ev.name.startswith('compare_exchange') and ev.args[1][0] == 'const' and ev.args[1][1] == MAXC):
                    val = ev.args[1] if ev.name in ('store', 'swap') else ev.args[2]
                    if val[0] == 'const' and val[1] == MAXC:
                        return
                    if 'bit' in st.marks and ev.name != 'store':
                        # an operand that is a join of both outcomes is looked at per path
                        o = self.order(st)
                        vs = expand_phi(e, val)
                        want = 'moved' in st.marks
                        if want:
                            R.ob('window/advance', is_seq(val), 'after a number ahead of the window the window start is set from this number', w)
                        elif o in ('same', 'below'):
                            R.ob('window/stay', not is_seq(val), 'a number inside the window does not move it', w)
                    return (st.marks | {'unlocked'}) - {m for m in st.marks if isinstance(m, tuple) and (m[0] == 'v' and m[1] in ('locked', 'unset') or m[0] == 'held')}
                return
            if path and path[0] == 'seqno' and ev.name in ('store', 'fetch_max') and is_seq(ev.args[1]):
                return st.marks | {'max'}

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or 'nomask' in st.marks:
                return
            if val == E.FALSE:
                R.ob('reject/index unlocked', not any(isinstance(m, tuple) and m[0] == 'v' and m[1] == 'locked' for m in st.marks),
                     'a rejecting path does not leave the history locked')
                return
            f = [m[1] for m in st.marks if isinstance(m, tuple) and m[0] == 'v']
            R.ob('accept/recorded', 'bit' in st.marks, 'every accepting path records the bit of the number')
            R.ob('accept/new', 'fresh' in f or 'moved' in st.marks, 'every accepting path knows that the bit was not set before')
            R.ob('accept/largest', 'max' in st.marks, 'every accepting path keeps the largest number up to date')
            R.ob('accept/unlocked', 'unlocked' in st.marks and 'locked' not in f, 'every accepting path releases the index lock')
    R.run(O(), body)
    R.floor('obligations of accepting paths', len([k for k in R.obs if k.startswith('accept/')]), 2)


def marks_of(st, tag):
    return [m for m in st.marks if isinstance(m, tuple) and m[0] == tag]


def is_now(v):
    return has_call(v, 'as_secs', 'now', 'duration_since', 'elapsed')


def ancestry(ctx):
    c = ctx.parent
    while c is not None:
        yield c
        c = c.parent


def own_date(v):
    """ the date of this node's session with a peer: the one recorded in the receiver state of the peer, or the start time of the node """
    if isfield(v, 'start_time'):
        return True
    return v[0] == 'call' and last(v[1]) in ('load', 'fetch_add', 'fetch_max') and bool(v[2]) and isfield(v[2][0], 'reinit_date') and 'receiver_state' in fpath(v[2][0])


@rule('N03', 'session date comparisons dominate message effects; the peer date only moves through fetch_max; history resets',
      'path-sensitive MIR dataflow: guard facts at effect sites, who-may-write query',
      'At every effect of a message in the receive path the outcome of these comparisons is known: no session dates in the packet, '
      'or target date <= own start time and (target = 0 or target >= own start time), sender date <= now + tolerance, and sender '
      'date >= the previous value returned by the atomic maximum on the recorded date. When the date moved from a known one both '
      'receiving histories of the peer were reset. No code writes the recorded date other than by an atomic maximum.')
def n03(R):
    near = recv_near(R)
    dl = {b.id for b in deliver_fns(R)}
    rs = {}
    for b in methods_of(R.prog, 'PacketsHistory'):
        if ret_ty(b) == '()' and b.argc == 1:
            rs[b.id] = b
    R.need('a reset method of PacketsHistory', rs)
    for b in rs.values():
        class H(E.Observer):
            def nonempty(self, e, ctx, it):
                return True

            def learned(self, e, st, k, v):
                if k[0] == 'var' and v == 'None' and isfield(k[1], 'mask'):
                    return ('bits',)

            def call(self, e, ctx, st, ev):
                if 'atomic' in ev.p and ev.args and ev.name == 'store' and len(ev.args) > 1:
                    p = fpath(ev.args[0])
                    if 'bits' in p:
                        return st.marks | {'bits'}
                    if p and p[0] == 'seqno' and ev.args[1][0] == 'const' and ev.args[1][1] == 0:
                        return st.marks | {'zero'}
                if 'atomic' in ev.p and ev.args and fpath(ev.args[0])[:1] == ['index']:
                    if ev.name == 'store' or ev.name.startswith('compare_exchange'):
                        val = ev.args[1] if ev.name == 'store' else ev.args[2]
                        if val[0] == 'const' and val[1] == 0:
                            return st.marks | {'idx'}

            def exit(self, e, ctx, st, kind, val):
                if kind == 'return':
                    R.ob('reset/%s' % b.name, 'bits' in st.marks and 'zero' in st.marks, 'a reset rewrites the window bits and the largest number on every path')
        R.run(H(), b)

    def is_prev(v):
        return v[0] == 'call' and last(v[1]) in ('fetch_max', 'swap', 'fetch_update', 'load') and v[2] and isfield(v[2][0], 'reinit_date') and 'sender_state' in fpath(v[2][0])

    own = own_date

    class O(E.Observer):
        maydepth = 16
        part_cap = 600

        def inline(self, e, b):
            return b.id not in dl and b.id not in rs and near(e, b)

        def learned(self, e, st, k, v):
            if k[0] == 'var' and v == 'None' and isfield(k[1], 'reinit_dates'):
                return ('nodates',)
            out = []
            for op, a, b in rels(k, v):
                pa, pb = fpath(a), fpath(b)
                ta, tb = 'reinit_dates' in pa and 'target' in pa, 'reinit_dates' in pb and 'target' in pb
                sa, sb = 'reinit_dates' in pa and 'local' in pa, 'reinit_dates' in pb and 'local' in pb
                if op in ('==', '<=') and ta and own(b):
                    out.append('tgt<=')
                if op == '<' and ta and own(b):
                    out += ['tgt<=', 'tgt<']
                if op in ('==', '<=', '<') and tb and own(a):
                    out.append('tgt>=')
                if op == '==' and ta and own(b):
                    out.append('tgt>=')
                if op == '==' and tb and own(a):
                    out.append('tgt<=')
                if op == '==' and ((ta and b[0] == 'const' and b[1] == 0) or (tb and a[0] == 'const' and a[1] == 0)):
                    out.append('tgt=0')
                if op in ('<=', '<', '==') and sa and is_now(b) and has_field(b, 'clock_tolerance_sec'):
                    out.append('src<=')
                if op in ('<=', '<', '==') and sb and is_prev(a):
                    out.append('src>=')
                    if op == '<':
                        out.append('moved')
                if op == '==' and sa and is_prev(b):
                    out.append('src>=')
                z, p = (a, b) if a[0] == 'const' else (b, a)
                if z[0] == 'const' and z[1] == 0 and is_prev(p):
                    if op in ('!=', '<'):
                        out.append('known')
                    elif op in ('==',):
                        out.append('unknown')
            return out

        def call(self, e, ctx, st, ev):
            if ev.id in rs and hist_class(ev.args[0])[0] == 'receiver':
                return st.marks | {('reset',) + hist_class(ev.args[0])}
            lab = mutation(ev)
            if not message_effect(lab):
                return
            w = src(e, ctx, ev.line)
            key = '%s in %s' % (lab, fname(ctx))
            m = st.marks
            if 'nodates' in m:
                R.ob('dates/' + key, True, 'the packet states no session dates', w)
                return
            R.ob('target not in the future/' + key, 'tgt<=' in m, '"%s" is reached only when the stated start time of this node is not above the own one' % lab, w)
            R.ob('target not stale/' + key, 'tgt>=' in m or 'tgt=0' in m, '"%s" is reached only when the stated start time of this node is absent or not below the own one' % lab, w)
            R.ob('source not in the future/' + key, 'src<=' in m, '"%s" is reached only when the start time of the sender is not above now + tolerance' % lab, w)
            R.ob('source not stale/' + key, 'src>=' in m, '"%s" is reached only when the start time of the sender is not below the newest one seen' % lab, w)
            if 'moved' in m and 'unknown' not in m:
                for c in ('ordinary', 'priority'):
                    R.ob('reset %s/%s' % (c, key), ('reset', 'receiver', c) in m,
                         'when the start time of the sender moved, the %s receiving history was reset before "%s"' % (c, lab), w)

    R.run(O(), recv_body(R))
    R.floor('message effects guarded by session dates', len([k for k in R.obs if k.startswith('source not stale/')]), 2)
    # who writes the recorded date
    n = 0
    for b in R.prog.bodies.values():
        if b.kind == 'promoted':
            continue

        class W(E.Observer):
            maydepth = 0

            def inline(self, e, b2):
                return False

            def call(self, e, ctx, st, ev):
                nonlocal n
                if 'atomic' in ev.p and ev.args and ATOMIC_MUT.match(ev.name) and isfield(ev.args[0], 'reinit_date'):
                    n += 1
                    ok = ev.name == 'fetch_max'
                    if ev.name.startswith('compare_exchange'):
                        new, cur = ev.args[2], ev.args[1]
                        ok = any(op in ('<', '<=') and a == cur and y == new for op, a, y in all_rels(st))
                    R.ob('writer/%s in %s' % (ev.name, fname(ctx)), ok, 'the recorded start time is changed by %s' % (
                        'an atomic maximum' if ok else 'an operation that may move it backwards'), src(e, ctx, ev.line))
        if any('atomic' in p for p, r, i, t in body_calls(b)):
            E.run(R.prog, W(), b)
    R.floor('writers of the recorded start time', n, 1)


@rule('N04', 'sent numbers come from one fetch_add on the history of the class; confirmations compared with the last sent number',
      'MIR dataflow on packet construction, guard facts at effect sites, who-may-write query',
      'The sequence number of every constructed outgoing packet is the result of one atomic fetch_add of 1 on the sending history '
      'of the peer, of the class the packet is encrypted for; nothing else moves a sending counter except its reset. In the receive '
      'path each effect of a message is reached only when the confirmed number is absent or not above the last sent number of the '
      'same class.')
def n04(R):
    # 1. construction
    mk_ = Near(R.prog, {'fetch_add'}, deny=())
    roots = [b for b in R.prog.bodies.values() if b.kind in ('fn', 'coroutine', 'closure') and builds(R.prog, b, 'OutgoingPacketContents')]
    R.floor('functions that construct an outgoing packet', len(roots), 1)
    seen = set()

    def classify(v):
        inc = v
        n = 0
        base, off = linear(v)
        if base is None or base[0] != 'call' or last(base[1]) != 'fetch_add':
            return None
        step = base[2][1]
        return base, off, step
    for root in roots:
        class O(E.Observer):
            part_cap = 400
            maydepth = 6
            inline_spawn = False

            def relevant(self, f):
                return True

            def inline(self, e, b):
                return len(b.blocks) < 40

            def learned(self, e, st, k, v):
                if k[0] == 'var' and v in ('Channel', 'Random') and not mentions(k[1], lambda x: x[0] == 'call'):
                    return (('signer', v),)
                if k[0] == 'field' and k[2][1] in ('priority', 'Channel.priority') and v in (True, False):
                    return (('prio', v),)
                return None

            def call(self, e, ctx, st, ev):
                if ev.name == 'fetch_add' and ev.args and 'seqno' in fpath(ev.args[0])[:1]:
                    side, cl = hist_class(ev.args[0])
                    return st.marks | {('inc', side, cl)}
                for a in ev.args:
                    look(e, ctx, st, a, ev.line)
                if ev.id and encrypts(R.prog, ev.id):
                    flags = [a for a, t in zip(ev.args, ev.argtys) if t == 'bool']
                    want = 'ordinary'
                    if flags:
                        f = flags[0]
                        b = bool(f[1]) if f[0] == 'const' else st.facts.get(f)
                        want = {True: 'priority', False: 'ordinary'}.get(b)
                    incs = [m[2] for m in marks_of(st, 'inc')]
                    R.ob('packet/class', incs == [want], 'a packet encrypted as %s takes its number from the %s counter' % (want, incs), src(e, ctx, ev.line))
        def look(e, ctx, st, v, line):
            for x in walk(v):
                if x[0] == 'agg' and x[2] and x[2].endswith('OutgoingPacketContents'):
                    d = dict(x[4])
                    if 'seqno' not in d:
                        continue
                    w = src(e, ctx, line)
                    s = unsome(d['seqno'])
                    c = classify(s)
                    R.ob('packet/number', c is not None and c[2][0] == 'const' and c[2][1] == 1,
                         'the number of an outgoing packet is %s' % ('one atomic increment' if c else 'not the result of one atomic increment: ' + short(s)[:200]), w)
                    if c:
                        side, cl = hist_class(c[0][2][0])
                        R.ob('packet/side', side == 'sender', 'the number is taken from the sending side (%s)' % side, w)
                        seen.add(cl)
                        cc = unsome(d['confirm_seqno']) if 'confirm_seqno' in d else None
                        if cc is not None:
                            s2, c2 = hist_class(cc)
                            R.ob('packet/confirm', s2 == 'receiver' and c2 == cl, 'the confirmed number is the last received one of the same class (%s/%s, packet is %s)' % (s2, c2, cl), w)
                    incs = [m for m in st.marks if isinstance(m, tuple) and m[0] == 'inc']
                    R.ob('packet/one class', len(incs) <= 1, 'one counter is incremented per packet', w)
        R.run(O(), root)
    R.floor('classes of sent packets', len(seen - {None}), 2)
    # 2. writers of sending counters
    hist = {b.id for b in methods_of(R.prog, 'PacketsHistory')}
    pub = [b for b in methods_of(R.prog, 'PacketsHistory')]

    class W(E.Observer):
        maydepth = 0

        def inline(self, e, b):
            return False

        def call(self, e, ctx, st, ev):
            if 'atomic' in ev.p and ev.args and ATOMIC_MUT.match(ev.name) and isfield(ev.args[0], 'seqno') and ctx.body.id in hist:
                if ev.name == 'fetch_add':
                    ok, msg = True, 'increment'
                elif ev.name == 'store' and ev.args[1][0] == 'const':
                    ok, msg = ev.args[1][1] == 0, 'reset'
                else:
                    # received numbers: only moves forward
                    new = ev.args[1] if ev.name in ('store', 'swap', 'fetch_max') else ev.args[2]
                    ok = ev.name == 'fetch_max' or any(op in ('<', '<=') and b == new and has_call(a, 'load') for op, a, b in all_rels(st))
                    msg = 'raise to a received number'
                R.ob('counter/%s %s in %s' % (ev.name, msg, fname(ctx)), ok, 'the counter only grows, or is reset to zero (%s)' % msg, src(e, ctx, ev.line))
    n = 0
    for b in pub:
        E.run(R.prog, W(), b)
    R.floor('writers of counters', len([k for k in R.obs if k.startswith('counter/')]), 2)
    # the receiving verdict is never taken on a sending history (it would move the counter to a received number)
    dl = {b.id for b in deliver_fns(R)}
    near = recv_near(R)

    class O2(E.Observer):
        maydepth = 16
        part_cap = 400

        def inline(self, e, b):
            return b.id not in dl and near(e, b)

        def learned(self, e, st, k, v):
            if k[0] == 'var' and v == 'None' and isfield(k[1], 'confirm_seqno'):
                return ('noconf',)
            out = []
            for op, a, b in rels(k, v):
                if op in ('<=', '<', '==') and 'confirm_seqno' in fpath(a) and 'sender_state' in fpath(b):
                    out.append(('conf',) + hist_class(b))
            out += chan_class(k, v) or ()
            return out

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            if ev.id in dl:
                R.ob('verdict side/%s' % fname(ctx), hist_class(ev.args[0])[0] == 'receiver', 'numbers of received packets only reach receiving histories', w)
            lab = mutation(ev)
            if not message_effect(lab):
                return
            key = '%s in %s' % (lab, fname(ctx))
            c = marks_of(st, 'conf')
            ok = 'noconf' in st.marks or bool(c)
            R.ob('confirmation/' + key, ok, '"%s" is reached only when the confirmed number is absent or was already sent' % lab, w)
            cls = [m[1] for m in marks_of(st, 'class')]
            want = cls[0] if cls else 'ordinary'
            for m in c:
                R.ob('confirmation class/' + key, m[2] in (want, None), 'the confirmation in a %s packet is compared with the %s counter' % (want, m[2]), w)
    R.run(O2(), recv_body(R))
    R.floor('message effects guarded by the confirmation', len([k for k in R.obs if k.startswith('confirmation/')]), 2)


def unsome(v):
    if v[0] == 'agg' and v[3] == 'Some':
        return v[4][0][1]
    return v


_builds = {}


def builds(prog, b, ty):
    """the body constructs a value of this type"""
    k = (id(prog), b.id, ty)
    r = _builds.get(k)
    if r is None:
        r = False
        for blk in b.blocks:
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'agg' and len(s[2]) > 2 and isinstance(s[2][2], str) and s[2][2].split('<')[0].endswith(ty):
                    r = True
        _builds[k] = r
    return r


def encrypts(prog, bid):
    k = ('enc', id(prog))
    s = _builds.get(k)
    if s is None:
        s = _builds[k] = reaching(prog, lambda p, r: last(p) == 'apply_keystream')
    return bid in s


@rule('N05', 'parts of a split message: same hash, size and buffer, offset = slice start, next offset = previous slice end, until the end',
      'MIR dataflow on every construction of a part',
      'For each place where a part message is built while sending: its hash and total size are the digest and length of the very '
      'buffer the part is cut from, its offset is the start of the cut, every value that can flow into the offset is zero or the '
      'end of a previous cut (bounded by the buffer length), each built part is sent before the next one is built, and a successful '
      'return after splitting is reached only when the offset has reached the length of the buffer.')
def n05(R):
    root = R.entry('Node', 'send_message', ('Node', 'send_custom_message'))
    offs, ends = {}, {}
    sends = reaching(R.prog, lambda p, r: last(p) == 'send' and 'mpsc' in p)

    def cut(e, v):
        """(buffer, start, end) of slices a data value may be"""
        out = []
        for x in expand_phi(e, v):
            y = x
            while y[0] == 'field':
                y = y[1]
            if y[0] == 'phi' and y is not x:
                for z in expand_phi(e, y):
                    if iscall(z, 'get'):
                        out += cut(e, z)
                    elif not (z[0] == 'agg' and z[3] == 'None'):
                        out.append((None, z, None))
                continue
            if iscall(y, 'get'):
                x = y                         # the part there is, if the range is within the buffer
            if iscall(x, 'default') or x[0] == 'agg' and x[1] == 'array' and not x[4]:
                continue                      # no data at all
            if x[0] == 'call' and last(x[1]) in ('index', 'get', 'get_unchecked') and len(x[2]) == 2:
                r = x[2][1]
                if r[0] == 'agg' and 'Range' in str(r[2]):
                    d = dict(r[4])
                    out.append((x[2][0], d.get('start'), d.get('end')))
                    continue
                c = const_range(r)
                out.append((x[2][0], None, c))
                continue
            if x[0] == 'agg' and x[1] == 'array' and not x[4]:
                continue                      # no data at all
            out.append((None, x, None))
        return out

    def added(y):
        """ more than a position that was reached """
        return linear(y[1] if y[0] == 'field' else y)[1] > 0

    class O(E.Observer):
        maydepth = 5
        part_cap = 200
        inline_spawn = False

        def inline(self, e, b):
            return b.id not in sends and len(b.blocks) < 40

        def learned(self, e, st, k, v):
            for op, a, b in rels(k, v):
                for x, y in ((a, b), (b, a)):
                    if (op in ('<=', '==') and x is a or op == '==') and iscall(uncast(x), 'len') and has_call(x, 'serialize') and not iscall(uncast(y), 'len') and not added(y):
                        return ('end',)

        def call(self, e, ctx, st, ev):
            m = st.marks
            if ev.name == 'write_to' and ev.args:
                a = ev.args[0]
                if a[0] == 'agg' and a[3] == 'Part' and (a[2] or '').endswith('Message'):
                    w = src(e, ctx, ev.line)
                    d = {f.split('.')[-1]: x for f, x in a[4]}
                    R.ob('part/one at a time', 'pending' not in m, 'a part is sent before the next one is built', w)
                    hs = [x for x in walk(d['hash']) if x[0] == 'call' and last(x[1]) in DIGEST]
                    ts = uncast(d['total_size'])
                    for buf, s, en in cut(e, d['data']):
                        if buf is None:
                            R.ob('part/slice', False, 'the data of a part is not a slice of the serialized message: %s' % short(s)[:120], w)
                            continue
                        R.ob('part/hash', any(h[2] and h[2][0] == buf for h in hs), 'the hash of a part is the digest of the whole buffer it is cut from', w)
                        R.ob('part/total', ts[0] == 'call' and last(ts[1]) == 'len' and ts[2][0] == buf, 'the total size of a part is the length of the whole buffer', w)
                        if s is None:
                            R.ob('part/empty cut', en is not None and en[1] == 0, 'a cut with constant ends is the empty one, used at the end of the buffer', w)
                            continue
                        o = uncast(d['offset'])
                        starts = {uncast(y) for y in expand_phi(e, s, True)} | {uncast(s)}
                        if en is not None:
                            for x in expand_phi(e, en, True):
                                ends[uncast(x)] = w
                                bounded = (x[0] == 'call' and last(x[1]) == 'min' and any(y[0] == 'call' and last(y[1]) == 'len' for y in x[2])) or any(
                                    op in ('<', '<=') and p == x and has_call(q, 'len') for op, p, q in all_rels(st)) or (x[0] == 'call' and last(x[1]) == 'len')
                                R.ob('part/bounded', bounded, 'the end of a cut never exceeds the buffer', w)
                    R.count('parts built')
                    return (m | {'pending', 'split'}) - {'end'}
            if ev.id in sends and 'pending' in m:
                return m - {'pending'}

        def exit(self, e, ctx, st, kind, val):
            if kind == 'return' and val[0] == 'agg' and val[3] == 'Ok' and 'split' in st.marks:
                R.ob('exit/all sent', 'pending' not in st.marks, 'every built part is sent before the function succeeds')
                R.ob('exit/whole buffer', 'end' in st.marks, 'success is reported only when the offset has reached the end of the buffer')
    R.run(O(), root)

    # offset and cut agree where the part is built
    class L(E.Observer):
        maydepth = 2
        part_cap = 300

        def inline(self, e, b):
            return b.kind == 'closure' or len(b.blocks) < 6

        def relevant(self, f):
            return f[0] == 'bin' and f[1] == 'Lt'

        def look(self, e, v, w):
            for p in walk(v):
                if p[0] == 'agg' and p[3] == 'Part' and (p[2] or '').endswith('Message'):
                    d = {f.split('.')[-1]: x for f, x in p[4]}
                    o = uncast(d['offset'])
                    for buf, s, en in cut(e, d['data']):
                        if buf is None or s is None:
                            continue
                        ok = linear(o) == linear(s)
                        R.ob('part/offset', ok, 'the offset of a part is the start of its cut (offset %s, cut starts at %s)' % (short(o)[:80], short(s)[:80]), w)
                        R.ob('part/progress', en is not None and (mentions(en, lambda y: y == uncast(s)) or iscall(uncast(en), 'len') or linear(s)[0] is None),
                             'the end of a cut is computed from its start', w)
                        R.count('cuts looked at')

        def call(self, e, ctx, st, ev):
            if ev.name == 'write_to':
                for a in ev.args:
                    self.look(e, a, src(e, ctx, ev.line))

        def exit(self, e, ctx, st, kind, val):
            self.look(e, val, one_line(ctx, ctx.body.line))
    for b in R.prog.bodies.values():
        if b.kind != 'promoted' and '::proto::' not in b.id and any(
                s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and 'Message' in str(s[2][2]) and 'Part' in s[2][3:4] for blk in b.blocks for s in blk['s']):
            R.run(L(), b)
    R.floor('cuts of parts looked at', R.counts.get('cuts looked at', 0), 1)
    R.floor('parts built', R.counts.get('parts built', 0), 2)
    for x, w in offs.items():
        ok = (x[0] == 'const' and x[1] == 0) or x in ends
        R.ob('next offset/%s' % short(x)[:60], ok, 'an offset is zero or the end of the previous cut, got %s; ends are %s' % (short(x)[:200], [short(y)[:120] for y in ends]), w)


def same_object(v):
    """ the two sides of an identity comparison of shared pointers """
    if v[0] == 'call' and last(v[1]) in ('ptr_eq', 'addr_eq') and len(v[2]) == 2:
        return v[2]
    if v[0] == 'bin' and v[1] == 'Eq' and any(has_call(x, 'as_ptr') for x in v[2:4]):
        return v[2:4]
    return None


def table_removals(R, table, what, tag):
    """ every removal from a shared table removes only the very object the code holds, not one that took its place """
    prog = R.prog
    n = 0

    def of_table(ev):
        return ev.argtys and ('dashmap' in ev.p or 'DashMap' in ev.p) and re.search(table, str(ev.argtys[0]))
    for b in prog.bodies.values():
        if b.kind in ('promoted', 'closure') or not any(last(p) in ('remove', 'remove_if', 'remove_if_mut', 'remove_entry', 'retain', 'clear') and ('dashmap' in p or 'DashMap' in p) for p, r, i, t in body_calls(b)):
            continue
        gates = {}
        rem = []

        class O(E.Observer):
            maydepth = 4
            part_cap = 60
            inline_spawn = False

            def inline(self, e, b2):
                return b2.kind == 'closure'

            def relevant(self, f):
                return True

            def learned(self, e, st, k, v):
                if v is True and same_object(k):
                    return ('same',)

            def ret(self, e, ctx, st, ev):
                if ctx.body.kind == 'closure' and ctx.site and ctx.site[0] == 'cb':
                    v = ev.result
                    ok = v is not None and (v == E.FALSE or any(same_object(x) and any(has_cbarg_(y) for y in same_object(x)) and not all(has_cbarg_(y) for y in same_object(x)) for x in conj(v))
                                            or v == E.TRUE and 'same' in st.marks)
                    gates[ctx.body.id] = gates.get(ctx.body.id, True) and ok

            def call(self, e, ctx, st, ev):
                if not of_table(ev):
                    return
                w = src(e, ctx, ev.line)
                if ev.name in ('remove_if', 'remove_if_mut', 'retain'):
                    c = [x[2] for a in ev.args[1:] for x in walk(a) if x[0] == 'agg' and x[1] == 'closure']
                    rem.append((ev.name, c[-1] if c else None, False, w))
                elif ev.name in ('remove', 'remove_entry', 'clear'):
                    rem.append((ev.name, None, 'Entry' in ev.p and 'same' in st.marks, w))
        e = E.run(prog, O(), b)
        for name, c, ok, w in rem:
            n += 1
            R.ob('%s/%s in %s' % (tag, name, owner_name(prog, b)), ok or gates.get(c) is True,
                 '%s is removed from its table only if it is still the same object there (another one may have taken its place)' % what, w)
    R.floor('removals of %s' % what, n, 1)


def has_cbarg_(v):
    return any(x[0] == 'call' and x[1].startswith('cbarg:') for x in walk(v))


def conj(v):
    """ the terms of a conjunction """
    if v[0] == 'bin' and v[1] == 'BitAnd':
        return conj(v[2]) + conj(v[3])
    return [v]


def owner_name(prog, b):
    return b.name if b.kind == 'fn' else [x for x in b.id.split('::') if not x.startswith('{')][-1]


@rule('N06', 'reassembly: exclusive insertion, single completion, digest comparison, removal on every way out',
      'path-sensitive MIR dataflow through the receive path with the transfer expanded in place',
      'A handler or another message effect is reached with reassembled data only on paths where the digest of the assembled buffer was '
      'compared equal with the declared hash, the received length was claimed by one compare-exchange against the declared total, the '
      'whole length was assembled, and the transfer was removed from the table. Parts enter a transfer only through a vacant entry '
      'and only when they are not empty; the received length grows by the length of the part exactly when it was inserted. A failed '
      'transfer is removed.')
def n06(R):
    near = recv_near(R)
    dl = {b.id for b in deliver_fns(R)}
    tr = {b.id for b in methods_of(R.prog, 'Transfer') if b.file.endswith('adnl/transfer.rs')}

    class O(E.Observer):
        maydepth = 16
        part_cap = 800
        inline_spawn = False

        def inline(self, e, b):
            return b.id in tr or (b.id not in dl and near(e, b))

        def learned(self, e, st, k, v):
            if k[0] == 'var' and v == 'Part' and of_messages(e, k[1]):
                return ('part',)
            if k[0] == 'var' and v == 'Vacant' and root_field(k[1]) == 'parts':
                return ('vacant',)
            out = []
            for op, a, b in rels(k, v):
                for x, y in ((a, b), (b, a)):
                    if op == '==' and has_call(x, *DIGEST) and not has_call(y, *DIGEST) and has_field(y, 'Part.hash', 'hash'):
                        out.append('hash')
                    if op == '==' and isfield(y, 'total_len') and any(
                            mentions(z, lambda q: q[0] == 'call' and last(q[1]) in ('compare_exchange', 'compare_exchange_weak', 'fetch_add', 'swap')) for z in expand_phi(e, x)):
                        out.append('claimed')
                if op in ('<=', '==') and (isfield(a, 'total_len') or op == '==' and isfield(b, 'total_len')) and 'claimed' in st.marks:
                    out.append('whole')
                if op in ('!=', '<') and any(z[0] == 'const' and z[1] == 0 for z in (a, b)) and any(has_call(z, 'len', 'is_empty') and has_field(z, 'Part.data', 'data') for z in (a, b)):
                    out.append('nonempty')
            if v is False and k[0] == 'call' and last(k[1]) == 'is_empty' and has_field(k, 'Part.data', 'data'):
                out.append('nonempty')
            return out

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            m = st.marks
            if ev.name == 'next' and ev.args and of_messages(e, ev.args[0]):
                # a new message
                return m - {'part', 'vacant', 'hash', 'claimed', 'whole', 'nonempty', 'stored', 'grown', 'removed'}
            lab = mutation(ev)
            if lab == 'table parts' or (ev.name in ('insert', 'or_insert', 'or_insert_with', 'replace_entry', 'insert_entry') and root_field(ev.args[0]) == 'parts' and 'dashmap' in ev.p):
                if ev.name == 'entry' or ev.name in ('get', 'contains_key'):
                    return
                ok = ev.name == 'insert' and 'VacantEntry' in ev.p or ev.name in ('or_insert', 'or_insert_with')
                if ev.name in ('insert', 'or_insert', 'or_insert_with', 'insert_entry', 'replace_entry') or ok:
                    R.ob('parts/%s in %s' % (ev.name, fname(ctx)), ok and 'nonempty' in m and 'vacant' in m,
                         'a part is stored only when it is not empty and its position is still free', w)
                    return m | {'stored'}
                R.ob('parts/%s in %s' % (ev.name, fname(ctx)), False, 'accepted parts are changed by %s' % ev.name, w)
                return
            if 'atomic' in ev.p and ev.args and fpath(ev.args[0])[:1] == ['received_len'] and ATOMIC_MUT.match(ev.name):
                if ev.name == 'fetch_add':
                    R.ob('length/grow', 'stored' in m and has_call(ev.args[1], 'len') and 'grown' not in m,
                         'the received length grows by the length of a part exactly when this part was stored', w)
                    return m | {'grown'}
                if ev.name.startswith('compare_exchange'):
                    new, tot = ev.args[2], ev.args[1]
                    R.ob('length/claim', isfield(tot, 'total_len') and new != tot and 'grown' in m,
                         'completion is claimed by replacing the declared total with another value, after the part was counted', w)
                else:
                    R.ob('length/%s' % ev.name, False, 'the received length is changed by %s' % ev.name, w)
                return
            if lab == 'table incoming_transfers' and ev.name.startswith('remove'):
                return m | {'removed'}
            if lab == 'table incoming_transfers' and ev.name == 'insert':
                R.ob('transfers/%s in %s' % (ev.name, fname(ctx)), 'VacantEntry' in ev.p, 'a transfer is created through its vacant table entry', w)
            if 'part' in m and message_effect(lab) and lab != 'table incoming_transfers':
                key = '%s in %s' % (lab, fname(ctx))
                for tag, txt in (('hash', 'the digest of the assembled data equals the declared hash'), ('claimed', 'completion was claimed'),
                                 ('whole', 'the declared length was assembled'), ('removed', 'the transfer was removed')):
                    R.ob('%s/%s' % (tag, key), tag in m, '"%s" is reached with reassembled data only when %s' % (lab, txt), w)

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or 'part' not in st.marks:
                return
            if val[0] == 'agg' and val[3] == 'Err':
                i = val[4][0][1]
                if i[0] == 'agg' and (i[2] or '').endswith('TransferError'):
                    R.ob('failed/%s' % i[3], 'removed' in st.marks, 'a failed transfer (%s) is removed from the table' % i[3])
    R.run(O(), recv_body(R))
    R.floor('message effects of reassembled data', len([k for k in R.obs if k.startswith('hash/')]), 1)
    R.floor('insertions of parts', len([k for k in R.obs if k.startswith('parts/')]), 1)
    R.floor('changes of the received length', len([k for k in R.obs if k.startswith('length/')]), 2)
    R.floor('failing ways out', len([k for k in R.obs if k.startswith('failed/')]), 1)
    table_removals(R, r'Arc<(\w+::)*transfer::Transfer\b', 'a transfer', 'same')


def nosites(v, memo=None):
    """a value without call sites, for comparison across executions"""
    memo = {} if memo is None else memo
    if not isinstance(v, tuple) or not v:
        return v
    r = memo.get(v)
    if r is not None:
        return r
    t = v[0]
    if t == 'call':
        r = ('call', v[1], tuple(nosites(x, memo) for x in v[2]))
    elif t == 'mut':
        r = ('mut', v[1], nosites(v[2], memo), None, ())
    elif t == 'agg':
        r = ('agg', v[1], v[2], v[3], tuple((f, nosites(x, memo)) for f, x in v[4]))
    else:
        r = tuple(nosites(x, memo) if isinstance(x, tuple) else x for x in v)
    memo[v] = r
    return r


def buf_ranges(v, buf):
    """constant ranges of index calls and element accesses on the buffer argument inside a value"""
    out = set()
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if not x or x in seen:
            continue
        seen.add(x)
        if x[0] == 'call' and last(x[1]) in ('index', 'index_mut') and len(x[2]) == 2 and has_arg(x[2][0], buf):
            c = arg_range(x[2][1])
            if c and c != (0, None):          # the whole of something: what counts is inside
                out.add(c)
                continue
        todo.extend(y for y in x if isinstance(y, tuple))
    return out


def arg_range(r):
    c = const_range(r)
    if c:
        return c
    if r[0] == 'const' and isinstance(r[1], int):
        return (r[1], None)          # RangeFrom constant
    return None


def abs_range(v, buf):
    """constant range of the buffer argument that a slice of it stands for (slices of slices, halves of a split), or None"""
    while v[0] in ('ref', 'deref', 'cast') and isinstance(v[-1], tuple) and v[-1] and isinstance(v[-1][0], str):
        v = v[-1]
    if not has_arg(v, buf):
        return None
    if v[0] == 'call' and last(v[1]) in ('index', 'index_mut') and len(v[2]) == 2:
        base, c = abs_range(v[2][0], buf), arg_range(v[2][1])
        if base is None or c is None:
            return None
        return (base[0] + c[0], base[1] if c[1] is None else base[0] + c[1])
    if v[0] == 'field' and v[2][1] in ('0', '1') and v[1][0] == 'call' and last(v[1][1]) in ('split_at', 'split_at_mut') and len(v[1][2]) == 2:
        base, k = abs_range(v[1][2][0], buf), linear(v[1][2][1])
        if base is None or k[0] is not None:
            return None
        return (base[0], base[0] + k[1]) if v[2][1] == '0' else (base[0] + k[1], base[1])
    if v[0] in ('arg', 'mut') or v[0] == 'call' and v[2] and not any(has_arg(a, buf) for a in v[2][1:]):
        return (0, None)
    return None


def version_marks(k, v):
    if k[0] == 'var' and v in ('Some', 'None') and k[1][0] == 'arg' and k[1][2] == 'version':
        return ('ver:' + v,)
    return None


def byte_of(z):
    """which byte of a 16 bit value"""
    for x in walk(z):
        if x[0] == 'field' and x[2][0] == 'idx' and x[1][0] == 'call' and last(x[1][1]) in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'):
            i = x[2][1] if isinstance(x[2][1], int) else x[2][1][1] if x[2][1][0] == 'const' else None
            first = {'to_be_bytes': 'hi'}.get(last(x[1][1]), 'lo')
            return '?' if i is None else first if i in (0, -2) else {'hi': 'lo', 'lo': 'hi'}[first]
    return 'hi' if mentions(z, lambda q: q[0] == 'bin' and q[1].startswith('Shr')) else 'lo'


def layout_writer(R, body):
    """{'Some'/'None': {'id','key','xor','checksum','data','prefix','version'}} of a packet encryption"""
    res = {}

    class O(E.Observer):
        maydepth = 4
        part_cap = 400

        def inline(self, e, b):
            return len(b.blocks) < 60 and 'build_packet_cipher' != b.name

        def learned(self, e, st, k, v):
            if k[0] == 'arg' and k[2] == 'priority' and v in (True, False):
                return ('prio:%s' % v,)
            return version_marks(k, v)

        def call(self, e, ctx, st, ev):
            ver = 'Some' if 'ver:Some' in st.marks else 'None' if 'ver:None' in st.marks else None
            w = src(e, ctx, ev.line)

            def put(what, val):
                if ver is None:
                    for k in ('Some', 'None'):
                        res.setdefault(k, {}).setdefault(what, set()).add(val)
                else:
                    res.setdefault(ver, {}).setdefault(what, set()).add(val)
            if ev.name == 'copy_from_slice' and len(ev.args) == 2:
                d, s = ev.args
                c = abs_range(d, 'buffer')
                if c is not None and c != (0, None):
                    ss = expand_phi(e, s)
                    if any(mentions(x, lambda q: q[0] == 'bin' and q[1] == 'BitXor' or q[0] == 'agg' and q[1] == 'array' and len(q[4]) == 4) for x in ss):
                        what = 'xor'
                        for x in ss:
                            for y in walk(x):
                                if y[0] == 'agg' and y[1] == 'array' and len(y[4]) == 4 and all(z[0] != 'phi' for _, z in y[4]):
                                    put('version', tuple(byte_of(z) for _, z in y[4]))
                    elif any(has_call(x, *DIGEST) and 'id' not in fpath(x) for x in ss):
                        what = 'checksum'
                    elif any(has_call(x, 'generate') for x in ss):
                        what = 'key'
                    elif any('id' in fpath(x) or has_arg(x, 'peer_id') for x in ss):
                        what = 'id'
                    else:
                        what = 'xor'
                    put(what, c)
                    if what == 'id':
                        self.side(R, st, s, 'id', w)
            elif ev.name == 'apply_keystream':
                c = abs_range(ev.args[1], 'buffer')
                if c:
                    put('data', c[0])
            elif ev.name == 'build_packet_cipher':
                self.side(R, st, ev.args[0], 'secret', w)
                R.ob('%s/cipher checksum' % body.name, any(has_call(x, *DIGEST) for x in expand_phi(e, ev.args[1])), 'the cipher is keyed with the checksum of the packet', w)
            elif ev.name == 'resize' and has_arg(ev.args[0], 'buffer'):
                for x in walk(ev.args[1]):
                    if x[0] == 'bin' and x[1] == 'Add':
                        for p, q in ((x[2], x[3]), (x[3], x[2])):
                            if iscall(q, 'len'):
                                for y in expand_phi(e, p):
                                    b, o = linear(y)
                                    if b is None:
                                        put('prefix', o)

        def side(self, R, st, v, what, w):
            p = fpath(v)
            if 'channel_out' in p or 'channel_in' in p:
                want = 'priority' if 'prio:True' in st.marks else 'ordinary' if 'prio:False' in st.marks else None
                R.ob('%s/%s of the sending side' % (body.name, what), 'channel_out' in p, 'packets are encrypted with the %s of the sending side of the channel' % what, w)
                R.ob('%s/%s of the class' % (body.name, what), want is None or want in p, 'a %s packet is encrypted with the %s of that class' % (want, what), w)
    R.run(O(), body)
    return res


def layout_reader(R, body, what):
    """{'Some'/'None': set of (key range, checksum range, data start)} and the checks of one packet decryption"""
    res = {}
    bufn = 'buffer'

    class O(E.Observer):
        maydepth = 4
        part_cap = 400

        def inline(self, e, b):
            return len(b.blocks) < 60 and b.name not in ('build_packet_cipher', 'decode_version', 'remove_prefix')

        def learned(self, e, st, k, v):
            if k[0] == 'arg' and k[2] == 'priority' and v in (True, False):
                return ('prio:%s' % v,)
            if is_checksum_fact(k, v):
                x, y = (k[2], k[3]) if has_call(k[2], *DIGEST) else (k[3], k[2])
                rs = sorted(buf_ranges(y, bufn), key=str)
                ds = sorted(r[0] for r in buf_ranges(x, bufn) if r[1] is None)
                # hashing the version: through its big-endian bytes
                kind = 'Some' if has_call(x, 'to_be_bytes', 'to_le_bytes') else 'None'
                return (('cs', kind, rs[0] if len(rs) == 1 else None, ds[0] if len(set(ds)) == 1 else None),)

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            m = st.marks
            if ev.name in ('index', 'index_mut') and len(ev.args) == 2 and has_arg(ev.args[0], bufn) and ev.argtys and 'PacketView' in str(ev.argtys[0]):
                c = arg_range(ev.args[1])
                if c:
                    need = c[1] if c[1] is not None else c[0]
                    have = 0
                    for op, a, b in all_rels(st):
                        la, lb = linear(a), linear(b)
                        if op in ('<', '<=') and la[0] is None and lb[0] is not None and iscall(lb[0], 'len') and has_arg(lb[0], bufn):
                            have = max(have, la[1] - lb[1] + (1 if op == '<' else 0))
                    R.ob('%s/length/%s..%s' % (what, c[0], c[1]), have >= need, 'the packet is known to have at least %d bytes where bytes up to %d are accessed' % (have, need), w)
            elif ev.name == 'as_ptr' and has_arg(ev.args[0], bufn) and ctx.body.id == body.id:
                have = any(op in ('<', '<=') and linear(a)[0] is None and linear(a)[1] >= 32 and linear(b)[0] is not None and iscall(linear(b)[0], 'len') for op, a, b in all_rels(st))
                R.ob('%s/length/id' % what, have, 'the id is read only when the packet is known to be long enough', w)
            elif ev.name == 'build_packet_cipher':
                p = fpath(ev.args[0])
                ss = expand_phi(e, ev.args[0])
                want = 'priority' if 'prio:True' in m else 'ordinary' if 'prio:False' in m else None
                for s in ss:
                    p = fpath(s)
                    if 'channel_in' in p or 'channel_out' in p:
                        R.ob('%s/secret of the receiving side' % what, 'channel_in' in p, 'packets are decrypted with the secret of the receiving side of the channel', w)
                        R.ob('%s/secret of the class' % what, want is None or want in p, 'a %s packet is decrypted with the secret of that class' % want, w)
                    elif has_call(s, 'compute_shared_secret'):
                        for x in buf_ranges(s, bufn):
                            if x[1] is not None:
                                res.setdefault('key', set()).add(x)
            elif ev.name == 'apply_keystream':
                d = [r[0] for r in buf_ranges(ev.args[1], bufn)]
                cs = [r for x in walk(ev.args[0]) if x[0] == 'call' and last(x[1]) in ('build_packet_cipher', 'new') for r in buf_ranges(x[2][-1], bufn)]
                cs = sorted({c for c in cs if c[1] is not None and c[1] - c[0] == 32}, key=str)
                t = ('ks', d[0] if d else None, cs[0] if len(cs) == 1 else None)
                if t in m:
                    R.ob('%s/restored' % what, has_seek(ev.args[0]), 'decrypting twice restores the data only after the cipher was rewound', w)
                    return m - {t}
                return m | {t}
            elif ev.name == 'decode_version':
                rs = [r for r in buf_ranges(ev.args[0], bufn)]
                for r in rs:
                    res.setdefault('tail', set()).add(r)
            elif ev.name == 'remove_prefix' and ev.args[1][0] == 'const':
                return m | {('cut', ev.args[1][1])}

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or not (val[0] == 'agg' and val[3] == 'Ok'):
                return
            inner = val[4][0][1]
            ver = None
            if inner[0] == 'agg' and inner[3] == 'Some' and inner[4][0][1][0] == 'agg' and inner[4][0][1][1] == 'tuple':
                inner = inner[4][0][1][4][1][1]
                ver = inner[3] if inner[0] == 'agg' else None
            elif what == 'channel':
                ver = inner[3] if inner[0] == 'agg' else None
            if ver not in ('Some', 'None'):
                return
            cs = [m for m in marks_of(st, 'cs')]
            ks = [m for m in marks_of(st, 'ks')]
            cut = [m for m in marks_of(st, 'cut')]
            w = one_line(ctx, ctx.body.line)
            key = '%s/version %s' % (what, ver)
            good = [c for c in cs if c[1] == ver]
            R.ob(key + '/checksum', bool(good), 'a packet is accepted only after its checksum was compared in the same form (%s) it is reported in' % ver, w)
            for c in good:
                res.setdefault(ver, set()).add((c[2], c[3]))
                if c[3] is not None:
                    R.ob(key + '/keystream', len(ks) == 1 and ks[0][1] in (c[3], None) and ks[0][2] in (c[2], None),
                         'exactly the hashed bytes (from %s) are decrypted once, with the checksum at %s; decrypted: %s' % (c[3], c[2], ks), w)
                    R.ob(key + '/prefix', len(cut) == 1 and cut[0][1] == c[3], 'exactly the prefix before the data (%s bytes) is removed, removed: %s' % (c[3], [x[1] for x in cut]), w)
    R.run(O(), body)
    return res


def has_seek(v):
    return mentions(v, lambda x: x[0] == 'mut' and last(x[1]) == 'seek' or x[0] == 'call' and last(x[1]) == 'new' and False)


@rule('N07', 'mirrored channel keys; writer and reader of both packet kinds use the same layout; length before access',
      'MIR dataflow: symbolic comparison of writer and reader layouts',
      'Channel::new is evaluated for both orders of the two ids: the receiving side of one order must be the sending side of the other, '
      'for both classes. The byte ranges (id, key, version, checksum, data, prefix) used by the encrypting code are extracted and '
      'compared with those used by the decrypting code, with and without version; decrypted range, hashed range and removed prefix '
      'must be the same; every access to the received buffer needs a dominating length fact.')
def n07(R):
    new = R.method('Channel', 'new')
    outs = {}

    class C(E.Observer):
        maydepth = 4

        def inline(self, e, b):
            return True

        def learned(self, e, st, k, v):
            out = []
            for op, a, b in rels(k, v):
                for x, y, s in ((a, b, 1), (b, a, -1)):
                    if x[0] == 'arg' and x[2] == 'local_id' and y[0] == 'arg' and y[2] == 'peer_id':
                        out.append(('rel', {'<': '<' if s > 0 else '>', '<=': '<=' if s > 0 else '>=', '==': '==', '!=': '!='}[op]))
            return out

        def exit(self, e, ctx, st, kind, val):
            if kind == 'return' and val[0] == 'agg':
                r = {m[1] for m in marks_of(st, 'rel')}
                # the orders of the two ids for which all comparisons of this path come out as they did
                sat = {'<': '<', '==': '=', '>': '>', '<=': '<=', '>=': '>=', '!=': '<>'}
                poss = [o for o in '<=>' if all(o in sat[x] for x in r)]
                d = dict(val[4])
                if 'channel_in' in d and 'channel_out' in d:
                    for o in poss if r else [None]:
                        outs.setdefault(o, set()).add((nosites(d['channel_in']), nosites(d['channel_out'])))
    R.run(C(), new)
    lo = outs.get('<', set())
    hi = outs.get('>', set())
    w = '%s:%s' % (new.file, new.line)
    R.ob('keys/orders', len(lo) >= 1 and len(hi) >= 1 and None not in outs, 'the keys are chosen by comparing the two ids; orders met: %s' % sorted(str(x) for x in outs), w)
    for a in lo:
        for b in hi:
            R.ob('keys/in of the smaller = out of the larger', a[0] == b[1], 'the receiving side of the node with the smaller id is the sending side of the other', w)
            R.ob('keys/out of the smaller = in of the larger', a[1] == b[0], 'the sending side of the node with the smaller id is the receiving side of the other', w)
    # registered ids belong to the receiving side
    for cl in ('priority', 'ordinary'):
        for b in R.prog.method('Channel', '%s_channel_in_id' % cl) or []:
            class G(E.Observer):
                def exit(self, e, ctx, st, kind, val):
                    p = fpath(val)
                    R.ob('ids/%s' % cl, p[:1] == ['id'] and cl in p and 'channel_in' in p, 'the id registered for %s packets is that of the receiving side, got %s' % (cl, short(val)), one_line(ctx, b.line))
            R.run(G(), b)

    pairs = []
    enc = R.method('Channel', 'encrypt')
    dec = R.method('Channel', 'decrypt')
    pairs.append(('channel', enc, dec))
    hw = R.need('a function that builds handshake packets', [b for b in R.prog.bodies.values() if b.kind == 'fn' and b.name == 'build_handshake_packet'])[0]
    hr = R.need('a function that parses handshake packets', [b for b in R.prog.bodies.values() if b.kind == 'fn' and b.name == 'parse_handshake_packet'])[0]
    pairs.append(('handshake', hw, hr))
    for what, wb, rb in pairs:
        W = layout_writer(R, wb)
        L = layout_reader(R, rb, what)
        w = '%s:%s' % (wb.file, wb.line)
        for ver in ('None', 'Some'):
            t = W.get(ver, {})
            for cs, d in L.get(ver, ()):
                key = '%s/version %s/layout ' % (what, ver)
                if cs is None or d is None:
                    continue
                R.ob(key + 'checksum', t.get('checksum') == {cs}, 'checksum is written at %s and read at %s' % (sorted(t.get('checksum', ())), cs), w)
                R.ob(key + 'data', t.get('data') == {d}, 'data is encrypted from %s and decrypted from %s' % (t.get('data'), d), w)
                R.ob(key + 'prefix', 'prefix' not in t or t['prefix'] == {d}, 'the prefix has %s bytes, data is read from %s' % (t.get('prefix'), d), w)
                R.ob(key + 'id', t.get('id') == {(0, 32)}, 'the id is written at the front, got %s' % t.get('id'), w)
                if what == 'handshake':
                    R.ob(key + 'key', t.get('key') == L.get('key'), 'the public key is written at %s and read at %s' % (t.get('key'), L.get('key')), w)
                if ver == 'Some':
                    R.ob(key + 'version bytes', t.get('xor') == {(d - 36, d - 32)}, 'the version is written at %s, expected directly before the checksum' % t.get('xor'), w)
                    for vv in t.get('version', ()):
                        R.ob(key + 'version order', vv == ('hi', 'lo', 'hi', 'lo'), 'the version is stored twice, high byte first, got %s' % (vv,), w)
                    if L.get('tail'):
                        R.ob(key + 'version read', L['tail'] == {(0, d)}, 'the version is decoded from the prefix 0..%s, got %s' % (d, sorted(L['tail'])), w)
                R.count('layout rows compared')
    R.floor('layout rows compared', R.counts.get('layout rows compared', 0), 4)
    R.floor('guarded accesses', len([k for k in R.obs if '/length/' in k]), 8)
    # version decoding: the generic prefix
    for b in R.prog.bodies.values():
        if b.kind == 'fn' and b.name == 'decode_version':
            class D(E.Observer):
                def inline(self, e, b2):
                    return b2.file == b.file

                def call(self, e, ctx, st, ev):
                    if ev.name == 'index' and has_arg(ev.args[0], 'prefix') and ev.args[1][0] == 'agg':
                        d = dict(ev.args[1][4])
                        r = tuple(linear(d[x])[1] if x in d and linear(d[x])[0] is not None else None for x in ('start', 'end'))
                        R.ob('version/range %s' % (r,), r in ((-36, -32), (None, -36), (-32, None)), 'the version slot is the 4 bytes before the last 32 of the prefix', src(e, ctx, ev.line))

                def exit(self, e, ctx, st, kind, val):
                    if val[0] == 'agg' and val[3] == 'Some':
                        x = val[4][0][1]
                        if x[0] == 'call':
                            R.ob('version/byte order', last(x[1]) == 'from_be_bytes', 'the version is decoded high byte first', one_line(ctx, b.line))
            R.run(D(), b)
    # which class a received id stands for
    rb = recv_body(R)
    near = recv_near(R, {'decrypt'})

    class P(E.Observer):
        maydepth = 16
        part_cap = 200

        def inline(self, e, b):
            return b.id not in (dec.id,) and b.name not in ('check_packet', 'process_message') and near(e, b)

        def learned(self, e, st, k, v):
            return chan_class(k, v)

        def call(self, e, ctx, st, ev):
            if ev.id == dec.id:
                cl = [m[1] for m in marks_of(st, 'class')]
                for x in expand_phi(e, ev.args[2]):
                    if x[0] == 'const' and isinstance(x[1], bool):
                        R.ob('class of the id', len(cl) == 1 and x[1] == (cl[0] == 'priority'), 'a packet whose id is registered as %s is decrypted as %s' % (cl, 'priority' if x[1] else 'ordinary'), src(e, ctx, ev.line))
            if ev.name in ('get', 'get_mut') and root_field(ev.args[0]) == 'channels_by_id':
                rs = {arg_range(x[2][1]) for x in walk(ev.args[1]) if x[0] == 'call' and last(x[1]) == 'index'}
                rs.discard(None)
                if rs:
                    R.ob('id range', rs == {(0, 32)}, 'the channel id is read from the first 32 bytes, got %s' % rs, src(e, ctx, ev.line))
    R.run(P(), rb)


def touching(prog, fields, pred=None):
    """bodies which mutate a DashMap reached through one of the given fields"""
    out = []
    for b in prog.bodies.values():
        if b.kind == 'promoted' or not any(('dashmap' in p or 'DashMap' in p) and last(p) in MAP_MUT for p, r, i, t in body_calls(b)):
            continue
        hit = []

        class W(E.Observer):
            maydepth = 0

            def inline(self, e, b2):
                return False

            def call(self, e, ctx, st, ev):
                if ('dashmap' in ev.p or 'DashMap' in ev.p) and ev.name in MAP_MUT and root_field(ev.args[0]) in fields:
                    hit.append(ev.name)
        E.run(prog, W(), b)
        if hit:
            out.append(b)
    return out


@rule('N08', 'both channel tables and the peer table change together',
      'typestate over every function that changes a channel table',
      'At the end of every path of each function that changes the table of channels by peer or by id (or of its callers, when it '
      'leaves the rest to them): an opened channel has both its ids registered with the matching class, a replaced or removed one has '
      'both ids unregistered, nothing else was registered or unregistered, and a removed or reset peer lost its channel.')
def n08(R):
    prog = R.prog
    cl_new = {b.id for b in methods_of(prog, 'Channel') if b.name in ('new', 'decrypt', 'encrypt')}
    reset = {b.id for b in prog.bodies.values() if b.kind == 'fn' and b.name == 'reset' and b.self_ty and b.self_ty.endswith('peer::Peer')}
    near = Near(prog, MAP_MUT, bodies=reset)
    roots = touching(prog, {'channels_by_peers', 'channels_by_id'})
    for b in prog.bodies.values():
        if b.kind == 'promoted' or b in roots:
            continue
        for p, r, i, t in body_calls(b):
            if i in reset:
                roots.append(b)
                break
    def is_peers(ev):
        return bool(ev.argtys) and re.search(r"DashMap<.*NodeIdShort, (\w+::)*Peer\b", str(ev.argtys[0])) is not None
    # removal from a table of peers
    for b in prog.bodies.values():
        if b.kind != 'promoted' and b not in roots and b.file.startswith('src/adnl') and any(
                last(p) in ('remove', 'remove_if', 'retain', 'clear') and 'DashMap' in p for p, r, i, t in body_calls(b)):
            hit = []

            class W(E.Observer):
                maydepth = 0

                def inline(self, e, b2):
                    return False

                def call(self, e, ctx, st, ev):
                    if is_peers(ev) and ev.name in ('remove', 'remove_if', 'retain', 'clear'):
                        hit.append(1)
            E.run(prog, W(), b)
            if hit:
                roots.append(b)

    def run(S, body):
        class O(E.Observer):
            maydepth = 6
            part_cap = 400
            inline_spawn = False

            def inline(self, e, b):
                return b.id not in cl_new and b.id not in reset and near(e, b)

            def relevant(self, f):
                f = fact_val(f)
                return not names(f).isdisjoint({'channels_by_peers', 'channels_by_id', 'remove', 'insert', 'entry'})

            def learned(self, e, st, k, v):
                if k[0] == 'var' and v == 'Some' and k[1][0] == 'call' and last(k[1][1]) in ('remove', 'remove_if', 'insert') and root_field(k[1]) == 'channels_by_peers':
                    if last(k[1][1]) == 'remove_if':
                        return (('gone', 1),) + tuple(('dropped', x) for x in key_ids(k[1][2][1]))
                    return (('gone', 1),)

            def call(self, e, ctx, st, ev):
                m = st.marks
                if not ('dashmap' in ev.p or 'DashMap' in ev.p):
                    if ev.id in reset:
                        return m | {('peer', 'reset')}
                    return
                t = root_field(ev.args[0]) if ev.args else ''
                w = src(e, ctx, ev.line)
                if t == 'channels_by_peers':
                    if ev.name in ('remove', 'remove_entry') and 'Entry' in ev.p:
                        ent = [x for x in walk(ev.args[0]) if x[0] == 'call' and last(x[1]) == 'entry']
                        return m | {('gone', 1)} | {('dropped', y) for x in ent for y in key_ids(x[2][1])}
                    if ev.name == 'remove':
                        return m | {('dropped', x) for x in key_ids(ev.args[1])}
                    if ev.name == 'remove_if':
                        return m        # see learned()
                    if ev.name == 'entry':
                        return m
                    if ev.name == 'insert' and 'VacantEntry' in ev.p:
                        return m | {('opened', 1)}
                    if ev.name == 'insert' and 'OccupiedEntry' in ev.p:
                        return m | {('opened', 1), ('gone', 1)}
                    if ev.name == 'insert':
                        return m | {('opened', 1)}
                    if ev.name in ('retain', 'clear', 'alter'):
                        S.ob('bulk/%s in %s' % (ev.name, fname(ctx)), False, 'channels are dropped in bulk without their ids', w)
                elif t == 'channels_by_id':
                    if ev.name in ('insert', 'remove') and len(ev.args) > 1:
                        p = fpath(ev.args[1])
                        c = 'priority' if 'priority' in p else 'ordinary' if 'ordinary' in p else None
                        key = '%s %s in %s' % (ev.name, c, fname(ctx))
                        owner = next((nosites(x[1]) for x in walk(ev.args[1]) if isfield(x, 'channel_in') or isfield(x, 'channel_out')), None)
                        if ev.name == 'insert':
                            var = None
                            same = None
                            for x in expand_phi(e, ev.args[2]):
                                if x[0] == 'agg' and x[3] in ('Priority', 'Ordinary'):
                                    var = x[3].lower()
                                    same = nosites(x[4][0][1])
                            if var is not None and c is not None:
                                S.ob('class/' + key, var == c, 'the %s id of a channel is registered as %s' % (c, var), w)
                            if c is not None:
                                S.ob('side/' + key, 'channel_in' in p, 'the registered id is that of the receiving side', w)
                            if same is not None and owner is not None:
                                S.ob('owner/' + key, same == owner or same in [nosites(y) for y in expand_phi(e, owner)], 'the id is registered for the channel it belongs to', w)
                            return m | {('in', c), ('inof', owner)}
                        return m | {('out', c), ('outof', owner)}
                    if ev.name in ('retain', 'clear', 'alter'):
                        S.ob('bulk/%s in %s' % (ev.name, fname(ctx)), False, 'channel ids are dropped in bulk', w)
                elif is_peers(ev) and ev.name in ('remove', 'remove_if', 'retain', 'clear'):
                    return m | {('peer', 'removed'), ('peerkey', nosites(ev.args[1]) if ev.name.startswith('remove') else None)}

            def exit(self, e, ctx, st, kind, val):
                m = st.marks
                n = body.name
                w = one_line(ctx, body.line)
                ins = {x[1] for x in marks_of(st, 'in')}
                outs = {x[1] for x in marks_of(st, 'out')}
                both = {'priority', 'ordinary'}
                if ('opened', 1) in m:
                    S.ob('opened/' + n, both <= ins or None in ins and len(ins) > 1, 'both ids of an opened channel are registered (%s)' % sorted(map(str, ins)), w)
                else:
                    S.ob('registered/' + n, not ins, 'ids are registered only for a channel that was put in the table by peer', w)
                if ('gone', 1) in m:
                    S.ob('gone/' + n, both <= outs or None in outs, 'both ids of a replaced or removed channel are unregistered (%s)' % sorted(map(str, outs)), w)
                else:
                    S.ob('unregistered/' + n, not outs, 'ids are unregistered only for a channel that left the table by peer', w)
                new, old = {x[1] for x in marks_of(st, 'inof')}, {x[1] for x in marks_of(st, 'outof')}
                if new and old:
                    S.ob('old ids/' + n, not (new & old), 'the unregistered ids are those of the replaced channel, not of the new one', w)
                pe = {x[1] for x in marks_of(st, 'peer')}
                pk, dk = {x[1] for x in marks_of(st, 'peerkey')}, {x[1] for x in marks_of(st, 'dropped')}
                if pk and dk:
                    S.ob('same peer/' + n, pk <= dk, 'the channel is removed under the id of the removed peer', w)
                if pe:
                    S.ob('peer/' + n, bool(marks_of(st, 'dropped')), 'a %s peer loses its channel' % '/'.join(sorted(pe)), w)
        S.run(O(), body)
        S.count('functions that change a channel table')
    escalate(R, roots, run)
    R.floor('functions that change a channel table', R.counts.get('functions that change a channel table', 0), 2)
    R.floor('registrations', len([k for k in R.obs if k.startswith('class/')]), 2)
    R.floor('peer removals', len([k for k in R.obs if k.startswith('peer/')]), 2)


def is_ready_set(ev):
    return 'atomic' in ev.p and ev.name in ('store', 'swap', 'fetch_or', 'compare_exchange') and ev.args and isfield(ev.args[0], 'ready')


def msg_field(v, name):
    """a value that comes from the field of a received message"""
    return mentions(v, lambda x: isfield(x, name))


@rule('N09', 'ready only after decryption or a matching confirmation; unready channels are never used to encrypt',
      'MIR dataflow: guard facts at every write of the ready flag and at both ways of encrypting',
      'Receive path: each write of true to the ready flag follows a successful decryption with this very channel, or happens for a '
      'received confirmation whose own-key field was compared equal with the key this node uses for the peer and whose peer key is '
      'the key of the channel; a channel is created ready only in that case. Send path: a packet is encrypted with a channel only '
      'where its ready flag was read as true; otherwise the handshake is used, and the first thing written is the creation or the '
      'confirmation, with the key of the peer entry and the key and date of the channel.')
def n09(R):
    prog = R.prog
    dec = R.method('Channel', 'decrypt')
    new = R.method('Channel', 'new')
    near = recv_near(R, {'decrypt', 'store'})
    dl = {b.id for b in deliver_fns(R)}

    class O(E.Observer):
        maydepth = 16
        part_cap = 400
        inline_spawn = False

        def inline(self, e, b):
            return b.id not in dl and b.id not in (dec.id, new.id) and b.name not in ('check_packet', 'add_part') and near(e, b)

        def learned(self, e, st, k, v):
            out = []
            if k[0] == 'var' and isinstance(v, str) and v in ('ConfirmChannel', 'CreateChannel') and k[1][0] != 'arg' and not isfield(k[1], 'context'):
                out.append(('msg', v))
            if k[0] == 'var' and v == 'Ok' and k[1][0] == 'call' and last(k[1][1]) == 'decrypt':
                out.append(('v', 'dec', k[1][2][0]))
            for op, a, b in rels(k, v):
                if op == '==':
                    for x, y in ((a, b), (b, a)):
                        if msg_field(x, 'ConfirmChannel.peer_key') and has_field(y, 'channel_key') and not has_field(y, 'ConfirmChannel.peer_key'):
                            out.append('own key')
                        if msg_field(x, 'ConfirmChannel.key') and isfield(uncast(y), 'peer_channel_public_key') and root_field(y) != '':
                            out.append(('v', 'chan key', base_chan(y)))
            return out

        def call(self, e, ctx, st, ev):
            m = st.marks
            w = src(e, ctx, ev.line)
            if ev.name == 'next' and ev.args and of_messages(e, ev.args[0]):
                return frozenset(x for x in m if not (x == 'own key' or isinstance(x, tuple) and (x[0] == 'msg' or x[:2] == ('v', 'chan key'))))
            if is_ready_set(ev):
                if ev.name == 'store' and ev.args[1][0] == 'const' and ev.args[1][1] is False:
                    return
                ch = base_chan(ev.args[0])
                byd = any(isinstance(x, tuple) and x[:2] == ('v', 'dec') and x[2] == ch for x in m)
                conf = ('msg', 'ConfirmChannel') in m
                key = 'ready/by a packet' if byd else 'ready/by a confirmation'
                if byd:
                    R.ob(key, True, 'the channel becomes ready only after it decrypted a packet', w)
                else:
                    R.ob(key, conf, 'the channel becomes ready %s' % ('by a confirmation' if conf else 'without a decrypted packet or a received confirmation'), w)
                    R.ob(key + '/own key', 'own key' in m, 'a confirmation is used only when it names the key of this node in use', w)
                    R.ob(key + '/peer key', any(isinstance(x, tuple) and x[:2] == ('v', 'chan key') and x[2] == ch for x in m),
                         'a confirmation makes an existing channel ready only when it names the key of that channel', w)
            if ev.id == new.id:
                a = dict(zip(argnames(new), ev.args))
                conf = ('msg', 'ConfirmChannel') in m
                crea = ('msg', 'CreateChannel') in m
                cx = {x[3] for x in expand_phi(e, a['context']) if x[0] == 'agg'}
                key = 'new/%s' % fname(ctx)
                R.ob(key + '/context', not ('ConfirmChannel' in cx and not conf), 'a channel is created ready only for a received confirmation', w)
                if conf:
                    R.ob(key + '/own key', 'own key' in m or cx == {'CreateChannel'}, 'a confirmation is used only when it names the key of this node in use', w)
                t = 'ConfirmChannel' if conf else 'CreateChannel'
                if conf or crea:
                    R.ob(key + '/%s/key' % t, msg_field(a['peer_channel_public_key'], t + '.key') and has_field(a['channel_key'], 'channel_key'),
                         'the channel is built from the key in the message and the key this node keeps for the peer', w)
                    R.ob(key + '/%s/date' % t, msg_field(a['peer_channel_date'], t + '.date'), 'the channel remembers the date in the message', w)
                R.count('channels built')
    R.run(O(), recv_body(R))
    R.floor('writes of the ready flag', len([k for k in R.obs if k.startswith('ready/') and k.count('/') == 1]), 2)
    R.floor('channels built', R.counts.get('channels built', 0), 2)
    # other writers of the flag
    ok = reach(prog, [recv_body(R).id]) | {new.id}
    for b in prog.bodies.values():
        if b.kind == 'promoted':
            continue

        class W(E.Observer):
            maydepth = 0

            def inline(self, e, b2):
                return False

            def call(self, e, ctx, st, ev):
                if is_ready_set(ev):
                    inside = b.id in ok and all(c in ok for c in callers(prog, b.id))
                    R.ob('writer/%s' % b.name, inside, 'the ready flag is written only while a packet is received', src(e, ctx, ev.line))
        if any('atomic' in p and last(p) in ('store', 'swap', 'fetch_or', 'compare_exchange') for p, r, i, t in body_calls(b)):
            E.run(prog, W(), b)
    # Channel::new: ready exactly for a confirmation
    class C(E.Observer):
        maydepth = 2
        part_cap = 100

        def relevant(self, f):
            return True

        def exit(self, e, ctx, st, kind, val):
            if val[0] == 'agg':
                d = dict(val[4])
                for x in spread(e, d['ready']) if 'ready' in d else ():
                    x = x[2][0] if x[0] == 'call' and len(x[2]) == 1 else x
                    good = x[0] == 'const' and not x[1] or x[0] == 'bin' and x[1] == 'Eq' and any(
                        y[0] == 'agg' and y[3] == 'ConfirmChannel' for y in (x[2], x[3])) and any(has_arg(y, 'context') for y in (x[2], x[3]))
                    if x[0] == 'const' and x[1]:
                        good = any(k[0] == 'var' and v == 'ConfirmChannel' and has_arg(k[1], 'context') or
                                   any(op == '==' and any(y[0] == 'agg' and y[3] == 'ConfirmChannel' for y in (a, b)) for op, a, b in rels(k, v)) for k, v in st.facts.items())
                    R.ob('new/ready', good, 'a new channel is ready exactly when it is built from a confirmation, got %s' % short(x), one_line(ctx, new.line))
    R.run(C(), new)
    # send path
    send = R.entry('Node', 'send_message', ('Node', 'send_custom_message'))
    enc = R.method('Channel', 'encrypt')

    class S(E.Observer):
        maydepth = 6
        part_cap = 600
        inline_spawn = False

        def inline(self, e, b):
            return b.id not in (enc.id, ) and b.name not in ('build_handshake_packet', 'now') and (encrypts(prog, b.id) or len(b.blocks) < 25)

        def learned(self, e, st, k, v):
            if v is True and k[0] == 'call' and last(k[1]) == 'load' and isfield(k[2][0], 'ready'):
                return (('v', 'ready', base_chan(k[2][0])),)
            if k[0] == 'var' and v == 'None' and k[1][0] == 'call' and last(k[1][1]) == 'get' and root_field(k[1]) == 'channels_by_peers':
                return ('nochan',)

        def call(self, e, ctx, st, ev):
            m = st.marks
            w = src(e, ctx, ev.line)
            if ev.name == 'write_to' and ev.args and ev.args[0][0] == 'agg' and (ev.args[0][2] or '').endswith('Message'):
                a = ev.args[0]
                d = {f.split('.')[-1]: x for f, x in a[4]}
                if a[3] == 'ConfirmChannel' and ctx.body.file.endswith('sender.rs'):
                    R.ob('confirm/key', has_field(d['key'], 'channel_key'), 'the confirmation carries the key this node keeps for the peer', w)
                    R.ob('confirm/peer key', isfield(root_of(d['peer_key']), 'peer_channel_public_key'), 'the confirmation names the key of the channel', w)
                    R.ob('confirm/date', isfield(uncast(d['date']), 'peer_channel_date'), 'the confirmation carries the date of the channel', w)
                    return m | {'opened'}
                if a[3] == 'CreateChannel':
                    R.ob('create/key', has_field(d['key'], 'channel_key'), 'the creation carries the key this node keeps for the peer', w)
                    R.ob('create/no channel', 'nochan' in m, 'a channel is created only when there is none', w)
                    return m | {'opened'}
            if ev.id == enc.id:
                r = [x for x in m if isinstance(x, tuple) and x[:2] == ('v', 'ready')]
                ch = base_chan(ev.args[0])
                R.ob('encrypt/ready', any(x[2] == ch for x in r), 'a packet is encrypted with a channel only after its ready flag was read as true', w)
                R.count('channel encryptions')
            if ev.name == 'build_handshake_packet':
                R.ob('handshake/announced', 'opened' in m, 'a message sent by handshake starts with the creation or confirmation of the channel', w)
                R.ob('handshake/signed', 'signed' in m, 'a handshake packet is signed', w)
                R.count('handshakes')
            if ev.name == 'sign':
                return m | {'signed'}
    R.run(S(), send)
    R.floor('channel encryptions', R.counts.get('channel encryptions', 0), 1)
    R.floor('handshakes', R.counts.get('handshakes', 0), 1)


def root_of(v):
    """skip conversions around a field"""
    d = 0
    while d < 10 and v[0] == 'call' and v[2]:
        v = v[2][0]
        d += 1
    return v


def base_chan(v):
    """the object a field was taken from, without pointers in between"""
    v = v[1] if v[0] == 'field' and '.' not in str(v[2][1]) else v
    while v[0] in ('call',) and last(v[1]) in ('deref', 'as_ref', 'borrow', 'clone', 'value') and v[2]:
        v = v[2][0]
    return v


def argnames(b):
    return [b.locals[i + 1][1] for i in range(b.argc)]


def guard_types(prog, field):
    """types whose Drop implementation removes from the table `field`"""
    out = {}
    for ty, bid in prog.drop_impls.items():
        b = prog.bodies[bid]
        hit = []

        class W(E.Observer):
            maydepth = 4

            def call(self, e, ctx, st, ev):
                if ev.name in ('remove', 'remove_if') and ('dashmap' in ev.p or 'DashMap' in ev.p) and root_field(ev.args[0]) == field:
                    hit.append(1)
        E.run(prog, W(), b)
        if hit:
            out[ty] = b
    return out


def is_mapop(ev, *ns):
    return ev.name in ns and ('dashmap' in ev.p or 'DashMap' in ev.p or 'HashMap' in ev.p)


@rule('N10', 'registration is owned by a guard that removes it on every exit; answers take the entry of their own id',
      'ownership rule: drop analysis with cancellation edges, who-may-touch, provenance of the answered entry',
      'A query is registered only together with the creation of a guard value for the same id, whose Drop removes that id on every '
      'path unless it was marked finished, which happens only after the answer channel was resolved; the guard is never leaked, and '
      'the method that waits removes the id on every exit including cancellation at each suspension point. The sender half used for '
      'an answer is the one taken out of the table (removed) under the id of the received answer. The id sent in a query is the '
      'registered one.')
def n10(R):
    prog = R.prog
    guards = guard_types(prog, 'queries')
    R.ob('guard/exists', bool(guards), 'a type removes a pending query from the table when it is dropped')
    gn = {t.split('<')[0] for t in guards}
    n_ins = 0
    filled = {}     # fields of the guard that are made with a value
    for b in touching(prog, {'queries'}):
        class W(E.Observer):
            maydepth = 0

            def inline(self, e, b2):
                return False

            def call(self, e, ctx, st, ev):
                if not is_mapop(ev, *MAP_MUT) or root_field(ev.args[0]) != 'queries':
                    return
                w = src(e, ctx, ev.line)
                if ev.name in ('remove', 'remove_if', 'entry', 'insert'):
                    if ev.name in ('insert',):
                        return st.marks | {('ins', nosites(ev.args[1])), ('insmap', nosites(ev.args[0]))}
                    return
                R.ob('bulk/%s in %s' % (ev.name, fname(ctx)), False, 'pending queries are changed in bulk', w)

            def exit(self, e, ctx, st, kind, val):
                ins = marks_of(st, 'ins')
                if not ins:
                    return
                R.count('registrations')
                g = [x for x in walk(val or ('const', 0, '')) if x[0] == 'agg' and x[1] == 'adt' and any((x[2] or '').split('<')[0].endswith(t.split('::')[-1]) for t in gn)]
                w = one_line(ctx, b.line)
                R.ob('guard/returned by %s' % b.name, bool(g), 'a registration is handed out only with the guard that removes it', w)
                for x in g:
                    ids = [nosites(v) for f, v in x[4]]
                    R.ob('guard/id in %s' % b.name, any(i[1] in ids for i in ins), 'the guard remembers the registered id', w)
                    for f, v in x[4]:
                        filled[f] = filled.get(f, True) and v[0] == 'agg' and v[3] == 'Some'
                        if v[0] == 'const' and isinstance(v[1], bool):
                            R.ob('guard/armed in %s' % b.name, v[1] is False, 'the guard starts armed', w)
        R.run(W(), b)
    R.floor('registrations', R.counts.get('registrations', 0), 1)

    # the guard itself
    flags = set()
    for ty, db in guards.items():
        class D(E.Observer):
            maydepth = 4

            def learned(self, e, st, k, v):
                if k[0] == 'field' and v is True:
                    flags.add(k[2][1])
                    return ('finished',)
                if k[0] == 'var' and v == 'None' and k[1][0] == 'call' and last(k[1][1]) == 'upgrade':
                    return ('gone',)

            def call(self, e, ctx, st, ev):
                if is_mapop(ev, 'remove', 'remove_if') and root_field(ev.args[0]) == 'queries':
                    p = fpath(ev.args[1])
                    R.ob('drop/id', 'query_id' in p and has_arg(ev.args[1], 'self'), 'the guard removes the id it remembers', src(e, ctx, ev.line))
                    return st.marks | {'removed'}

            def exit(self, e, ctx, st, kind, val):
                R.ob('drop/removes', bool(st.marks & {'removed', 'finished', 'gone'}), 'dropping the guard removes the query unless it has finished', one_line(ctx, db.line))
        R.run(D(), db)
        # who disarms it
        short_ty = ty.split('<')[0].split('::')[-1]
        waits = [b for b in prog.bodies.values() if b.kind in ('fn', 'coroutine') and (b.self_ty or '').endswith(short_ty) or
                 b.kind == 'coroutine' and b.parent and (prog.bodies[b.parent].self_ty or '').endswith(short_ty)]
        for b in waits:
            if b is db:
                continue

            class O(E.Observer):
                maydepth = 5
                cancel = True

                def call(self, e, ctx, st, ev):
                    m = st.marks
                    if ev.name == 'poll' and ev.argtys and 'Receiver' in str(ev.argtys[0]):
                        return m | {'polled'}
                    if is_mapop(ev, 'remove') and root_field(ev.args[0]) == 'queries':
                        return m | {'removed'}

                def yielded(self, e, ctx, st, line):
                    return st.marks - {'polled'}

                def learned(self, e, st, k, v):
                    if k[0] == 'var' and v == 'None' and k[1][0] == 'call' and last(k[1][1]) == 'upgrade':
                        return ('gone',)
                    if isfield(k, 'finished') and v is True:
                        return ('pre',)
                    if k[0] == 'var' and v == 'None' and k[1][0] == 'field' and k[1][1][0] in ('arg', 'field') and filled.get(k[1][2][1]) and not ('ash' in str(k[1][1])) \
                            and [x.id for x in prog.bodies.values() if reads_field(x, k[1][2][1])] == [b.id]:
                        return ('pre',)     # made with a value which nothing else takes

                def exit(self, e, ctx, st, kind, val):
                    if 'pre' in st.marks:
                        return
                    ok = st.marks & {'removed', 'gone'} or kind == 'return' and ('polled' in st.marks or val is not None and val[0] == 'agg' and val[1] == 'coroutine')
                    R.ob('wait/%s/%s' % (fname(ctx), kind), bool(ok), 'the method that consumes the guard leaves no pending query behind when it %s' % (
                        'is cancelled' if kind == 'cancel' else 'returns'), one_line(ctx, b.line))
                    R.count('exits of the waiting method')
            R.run(O(), b)
        # only methods of the guard write the flag
        for b in prog.bodies.values():
            for blk in b.blocks:
                t = blk['t']
                if t[0] == 'call':
                    k = t[1].get('k')
                    if k and 'fn' in k and last(k['fn']['p']) in ('forget', 'leak', 'into_raw') or k and 'fn' in k and 'ManuallyDrop' in k['fn']['p'] and last(k['fn']['p']) == 'new':
                        ga = str(k['fn'].get('ga') or k['fn'])
                        R.ob('leak/%s' % b.name, short_ty not in ga, 'the guard is never leaked', '%s:%s' % (b.file, b.line))
    R.floor('exits of the waiting method', R.counts.get('exits of the waiting method', 0), 2)
    # answers
    rb = recv_body(R)
    near = recv_near(R)

    class A(E.Observer):
        maydepth = 16
        part_cap = 200
        inline_spawn = False

        def inline(self, e, b):
            return b.name not in ('check_packet', 'create_channel', 'add_part') and near(e, b)

        def learned(self, e, st, k, v):
            if k[0] == 'var' and v == 'Answer' and of_messages(e, k[1]):
                return ('answer',)

        def call(self, e, ctx, st, ev):
            if ev.name == 'next' and ev.args and of_messages(e, ev.args[0]):
                return st.marks - {'answer'}
            w = src(e, ctx, ev.line)
            if is_mapop(ev, *MAP_MUT) and root_field(ev.args[0]) == 'queries':
                R.ob('answer/takes the entry', ev.name == 'remove', 'an answer takes the pending query out of the table', w)
                if ev.name == 'remove':
                    R.ob('answer/own id', has_field(ev.args[1], 'Answer.query_id'), 'the pending query is looked up under the id in the answer, got %s' % short(ev.args[1])[:150], w)
            elif ev.name == 'send' and 'oneshot' in ev.p:
                tx, data = ev.args[0], ev.args[1]
                took = [x for x in walk(tx) if x[0] == 'call' and last(x[1]) == 'remove' and root_field(x[2][0]) == 'queries']
                R.ob('answer/only its own query', bool(took), 'the sender woken by an answer was taken out of the table', w)
                R.ob('answer/data', has_field(data, 'Answer.answer'), 'the data handed over is that of the answer', w)
                R.count('answers delivered')
    R.run(A(), rb)
    R.floor('answers delivered', R.counts.get('answers delivered', 0), 1)
    # other users of the senders
    for b in prog.bodies.values():
        if b.kind != 'promoted' and b.file.startswith('src/adnl') and any(last(p) == 'send' and 'oneshot' in p for p, r, i, t in body_calls(b)):
            class T(E.Observer):
                maydepth = 0

                def inline(self, e, b2):
                    return False

                def call(self, e, ctx, st, ev):
                    if ev.name == 'send' and 'oneshot' in ev.p and ev.argtys and 'Vec<u8>' in str(ev.argtys[0]):
                        took = [x for x in walk(ev.args[0]) if x[0] == 'call' and last(x[1]) in ('remove', 'remove_if')]
                        R.ob('sender/%s' % fname(ctx), bool(took) or has_arg_any(ev.args[0]), 'a pending query is woken through the entry taken out of the table', src(e, ctx, ev.line))
            R.run(T(), b)
    # sending
    root = R.async_body(R.entry('Node', 'query_raw', ('Node', 'query')))

    class Q(E.Observer):
        maydepth = 3

        def inline(self, e, b):
            return b.name != 'send_message' and (len(b.blocks) < 60 or encrypts(prog, b.id))

        def call(self, e, ctx, st, ev):
            if is_mapop(ev, 'insert') and root_field(ev.args[0]) == 'queries':
                return st.marks | {('v', 'reg', ev.args[1])}
            for a in ev.args:
                if a[0] == 'agg' and a[3] == 'Query' and (a[2] or '').endswith('Message') and ev.name == 'send_message':
                    d = {f.split('.')[-1]: x for f, x in a[4]}
                    regs = [x[2] for x in st.marks if isinstance(x, tuple) and x[:2] == ('v', 'reg')]
                    R.ob('query/registered first', bool(regs), 'a query is registered before it is sent', src(e, ctx, ev.line))
                    R.ob('query/same id', d['query_id'] in regs, 'the id in the query is the registered one', src(e, ctx, ev.line))
                    R.count('queries sent')
    R.run(Q(), root)
    R.floor('queries sent', R.counts.get('queries sent', 0), 1)


def has_arg_any(v):
    return mentions(v, lambda x: x[0] == 'arg')


PEER_MAP = re.compile(r'NodeIdShort, (\w+::)*Peer\b')


@rule('N11', 'every write of a peer entry or of its address is dominated by the own-id, own-address and filter checks on the same values',
      'guard facts at every writer of the peer tables, escalated to callers',
      'At each place that creates an entry in a table of peers or changes the address of a peer, the path condition must contain: the id '
      'differs from the id the table belongs to, the address differs from the own socket address, and the peer filter is absent or '
      'accepted exactly this address and id.')
def n11(R):
    prog = R.prog
    # methods of the peer entry which are given an address: the constructor and the writers
    takes = {b.id: [i - 1 for i in range(1, b.argc + 1) if 'SocketAddr' in b.locals[i][0]] for b in methods_of(prog, 'Peer')}
    setters = {i for i, a in takes.items() if a}
    writers = {i for i in setters if not ret_ty(prog.bodies[i]).endswith('Peer') and ret_ty(prog.bodies[i]) != 'Self'}

    def sink(ev):
        if ev.id in writers:
            return 'address'
        if ('dashmap' in ev.p or 'DashMap' in ev.p) and ev.name in ('insert', 'or_insert', 'or_insert_with', 'insert_entry', 'replace_entry', 'alter') and ev.argtys and PEER_MAP.search(str(ev.argtys[0])):
            return 'entry'
        if 'atomic' in ev.p and ATOMIC_MUT.match(ev.name) and ev.args and isfield(ev.args[0], 'addr'):
            return 'address'
        return None

    def target(e, v):
        """ what a writer is called on; the arguments of a constructor are not part of it """
        out = []
        for x in spread(e, v):
            while x[0] == 'mut':
                x = x[2]
            out += [] if x[0] == 'call' and 'Peer' in x[1] and last(x[1]) == 'new' or x[0] == 'agg' else [x]
        return out

    def run(S, body):
        class O(E.Observer):
            maydepth = 4
            part_cap = 200
            inline_spawn = False

            def inline(self, e, b):
                return b.id not in setters and b.name != 'pack_socket_addr' and (len(b.blocks) < 40)

            def relevant(self, f):
                f = fact_val(f)
                return not names(f).isdisjoint({'socket_addr', 'peer_filter', 'check'}) or f[0] == 'bin' and f[1] == 'Eq'

            def call(self, e, ctx, st, ev):
                k = sink(ev)
                if k is None or ctx.body.id in setters or any(c.body.id in setters for c in ancestry(ctx)):
                    return
                w = src(e, ctx, ev.line)
                addrs, ids, locs = set(), set(), set()
                if ev.id in writers and not any(mentions(x, lambda z: z[0] in ('arg', 'field') or z[0] == 'call' and 'ashMap' in z[1]) for x in target(e, ev.args[0])):
                    return      # an entry which is not in a table yet: its insertion is checked
                for a in [y for x in ev.args for y in spread(e, x)]:
                    for x in walk(a):
                        if x[0] == 'call' and last(x[1]) == 'new' and 'Peer' in x[1] and len(x[2]) == 3:
                            addrs.add(x[2][1])
                        if x[0] == 'mut' and 'Peer' in x[1]:
                            addrs |= {y for y in x[4] if y[0] == 'arg'}
                        if x[0] == 'call' and last(x[1]) == 'pack_socket_addr':
                            addrs.add(x[2][0])
                        if x[0] == 'call' and last(x[1]) in ('entry', 'get', 'get_mut') and len(x[2]) == 2:
                            if 'DashMap' in x[1]:
                                ids.add(x[2][1])
                            elif root_field(x[2][0]) == 'peers':
                                locs.add(x[2][1])
                        if x[0] == 'agg' and (x[2] or '').endswith('peer::Peer'):
                            for f, v in x[4]:
                                if f == 'addr':
                                    addrs |= {y for y in walk(v) if y[0] == 'arg'}
                if ev.name in ('insert',) and len(ev.args) == 3:
                    ids.add(ev.args[1])
                if ev.id in writers:
                    addrs |= {ev.args[i] for i in takes[ev.id]}
                own_id = own_addr = False
                filt = False
                for f, v in st.facts.items():
                    for op, a, b in rels(f, v):
                        if op == '!=':
                            for x, y in ((a, b), (b, a)):
                                if x in ids and (y in locs or not locs):
                                    own_id = True
                                if x in addrs and isfield(y, 'socket_addr'):
                                    own_addr = True
                    if f[0] == 'var' and v == 'None' and isfield(f[1], 'peer_filter'):
                        filt = True
                    if f[0] == 'call' and v is True and last(f[1]) == 'check' and has_field(f, 'peer_filter'):
                        filt = any(x in addrs for x in f[2]) and any(x in ids for x in f[2])
                n = '%s in %s' % (k, body.name)
                S.ob('own id/' + n, own_id, 'a peer %s is written only when the id is known to differ from the own id' % k, w)
                S.ob('own address/' + n, own_addr, 'a peer %s is written only when the address is known to differ from the own one' % k, w)
                S.ob('filter/' + n, filt, 'a peer %s is written only when the filter is absent or accepted this address and id' % k, w)
                S.count('writes of peers')
        S.run(O(), body)
    roots = []
    for b in prog.bodies.values():
        if b.kind == 'promoted' or b.id in setters:
            continue
        hit = []

        class W(E.Observer):
            maydepth = 0

            def inline(self, e, b2):
                return False

            def call(self, e, ctx, st, ev):
                if sink(ev):
                    hit.append(1)
        if any(i in setters or ('dashmap' in p or 'DashMap' in p) and last(p) in ('insert', 'or_insert', 'or_insert_with', 'insert_entry', 'replace_entry', 'alter')
               or 'atomic' in p and ATOMIC_MUT.match(last(p)) for p, r, i, t in body_calls(b)):
            E.run(prog, W(), b)
        if hit:
            roots.append(b)
    escalate(R, roots, run)
    R.floor('writes of peers', R.counts.get('writes of peers', 0), 2)


def flag_terms(v):
    """{bit: condition value or True} of a value made of ORed flags; None for parts that are not understood"""
    out = {}
    st = [(v, 0)]
    while st:
        x, sh = st.pop()
        x = uncast(x)
        if x[0] == 'bin' and x[1] in ('BitOr', 'BitXor', 'Add'):
            st += [(x[2], sh), (x[3], sh)]
        elif x[0] == 'bin' and x[1] in ('Shl', 'ShlUnchecked') and uncast(x[3])[0] == 'const':
            st.append((x[2], sh + uncast(x[3])[1]))
        elif x[0] == 'bin' and x[1] == 'Mul' and any(uncast(y)[0] == 'const' for y in x[2:4]):
            c, y = (uncast(x[2]), x[3]) if uncast(x[2])[0] == 'const' else (uncast(x[3]), x[2])
            if c[1] & (c[1] - 1):
                return None
            st.append((y, sh + c[1].bit_length() - 1))
        elif x[0] == 'const' and isinstance(x[1], bool):
            if x[1]:
                out[sh] = True
        elif x[0] == 'const' and isinstance(x[1], int):
            for i in range(32):
                if x[1] >> i & 1:
                    out[i + sh] = True
        elif x[0] == 'call' and x[1] == 'isvar' and x[2][1][1] in ('Some', 'None'):
            out[sh] = ('isvar', x[2][0], x[2][1][1])
        else:
            return None
    return out


def bit_of_mask(k):
    """(flags value, bit) for a comparison of a masked flag word with zero"""
    if k[0] == 'bin' and k[1] == 'Eq':
        for a, z in ((k[2], k[3]), (k[3], k[2])):
            a, z = uncast(a), uncast(z)
            if z == mk('const', 0, z[2] if len(z) > 2 else '') and a[0] == 'bin' and a[1] == 'BitAnd':
                for m, f in ((a[2], a[3]), (a[3], a[2])):
                    m = uncast(m)
                    b = None
                    if m[0] == 'const' and isinstance(m[1], int) and m[1] > 0 and not m[1] & (m[1] - 1):
                        b = m[1].bit_length() - 1
                    elif m[0] == 'bin' and m[1] == 'Shl' and uncast(m[2])[:2] == ('const', 1) and uncast(m[3])[0] == 'const':
                        b = uncast(m[3])[1]
                    if b is not None:
                        # (flags >> k) & 1
                        f = uncast(f)
                        if f[0] == 'bin' and f[1] == 'Shr' and uncast(f[3])[0] == 'const':
                            b += uncast(f[3])[1]
                            f = f[2]
                        return f, b
    return None


@rule('N12', 'field/flag table extracted from the packet writer equals the one extracted from the reader and from signature stripping',
      'table extraction and comparison (sequence of reads and writes with their flag conditions on every path)',
      'From the writer: for each path the ordered list of fields written and the flag bit whose value is the presence of the field. '
      'From the reader: for each path the ordered list of reads, the flag bit that guards each and the field of the result it fills. '
      'Both orders ascend in the flag bit, each written field has the flag that the reader tests for the field of the same name, '
      'fields written unconditionally have their flag always set, and no flag is set for which nothing is written. The signature is '
      'stripped by clearing exactly the bit announced by the writer, at offsets taken immediately before the flags and around the '
      'signature, and a packet is signed in the form without signature, otherwise equal to the one written. The address list is '
      'compared the same way.')
def n12(R):
    prog = R.prog
    w = R.tmethod('TlWrite', 'OutgoingPacketContents', 'write_to')
    r = R.tmethod('TlRead', 'IncomingPacketContents', 'read_from')
    wf = {}            # field -> bit
    consts = []
    worder = set()
    single_bits = {}   # which messages variant -> bit

    class W(E.Observer):
        maydepth = 3

        def inline(self, e, b):
            return b.trait is None or b.name != 'write_to' if hasattr(b, 'trait') else 'write_to' != b.name

        def relevant(self, f):
            return True

        def call(self, e, ctx, st, ev):
            n = marks_of(st, 'seq')
            prev = n[0][1] if n else 'start'
            key = None
            where = src(e, ctx, ev.line)
            if ev.name in ('write_u32', 'write_u64', 'write_i32') or ev.name == 'write_to' and len(ev.args) == 2:
                val = ev.args[1] if ev.name != 'write_to' else ev.args[0]
                if val[0] == 'const':
                    key = 'id' if prev == 'start' else 'const'
                    consts.append(val[1])
                elif has_arg(val, 'self') and isfield(val, val[2][1] if val[0] == 'field' else ''):
                    key = 'field:' + val[2][1].split('.')[-1]
                else:
                    key = 'flags'
                    vals = expand_phi(e, val)
                    for v in vals:
                        parts = flag_values(e, v)
                        for p in parts:
                            t = flag_terms(p)
                            R.ob('writer/flags', t is not None, 'the flag word is a union of presence flags, got %s' % short(p)[:150], where)
                            if t is None:
                                continue
                            mv = marks_of(st, 'msg')
                            flagsets.append((frozenset(t.items()), frozenset((f[1][2][1], x) for f, x in st.facts.items() if f[0] == 'var' and f[1][0] == 'field')))
                if key:
                    worder.add((prev, key))
                    R.count('fields written')
                    return frozenset(x for x in st.marks if not (isinstance(x, tuple) and x[0] == 'seq')) | {('seq', key)}

    flagsets = []

    def flag_values(e, v):
        """all the values of a flag word, phis expanded inside"""
        ph = [x for x in walk(v) if x[0] == 'phi']
        if not ph:
            return [v]
        out = [v]
        for p in set(ph):
            alts = expand_phi(e, p)
            if alts == {p}:
                continue
            out = [replace(o, p, a) for o in out for a in alts]
        return out
    R.run(W(), w)
    R.floor('fields written', R.counts.get('fields written', 0), 10)
    # presence flags of the writer
    always = None
    cond = {}
    for t, fx in flagsets:
        d = dict(t)
        al = {b for b, c in d.items() if c is True}
        always = al if always is None else always & al
        for b, c in d.items():
            if c is not True and c[0] == 'isvar':
                f = c[1]
                nm = f[2][1].split('.')[-1] if f[0] == 'field' else '?'
                R.ob('writer/flag of %s' % nm, c[2] == 'Some', 'the flag is set when the field is present')
                cond.setdefault(nm, set()).add(b)
    R.ob('writer/flag word', always is not None, 'the writer emits a flag word')
    always = always or set()
    either = set()
    for t, fx in flagsets:
        either |= {b for b, c in t if c is True} - always
    # reader
    redge = set()
    src_of = {}
    rconst = []

    class Rd(E.Observer):
        maydepth = 3
        part_cap = 400

        def inline(self, e, b):
            return b.name != 'read_from'

        def learned(self, e, st, k, v):
            bm = bit_of_mask(k)
            if bm and v is False:
                return (('bit', bm[1]),)
            if k[0] == 'bin' and k[1] == 'Eq' and v is True:
                for a, c in ((k[2], k[3]), (k[3], k[2])):
                    if c[0] == 'const' and has_call(a, 'read_from'):
                        rconst.append(c[1])

        def call(self, e, ctx, st, ev):
            if ev.name not in ('read_from', 'read_boxed') or len(ev.args) < 2:
                if ev.ga and ev.r and R.prog.bodies.get(ev.id):
                    # a generic helper: the type it reads is an argument
                    return frozenset(x for x in st.marks if not (isinstance(x, tuple) and x[0] == 'targ')) | {('targ', ev.ga[0])}
                return
            bit = marks_of(st, 'bit')
            seq = marks_of(st, 'seq')
            un = marks_of(st, 'un')
            nun = un[0][1] if un else 0
            prev = seq[0][1] if seq else ('u', 0)
            where = src(e, ctx, ev.line)
            R.ob('reader/one read per flag', len(bit) <= 1, 'each flag guards one read', where)
            if bit:
                cur = ('b', bit[0][1])
            else:
                nun += 1
                cur = ('u', nun)
            redge.add((prev, cur))
            src_of.setdefault(ev.site, set()).add(cur)
            if ev.ga:
                t = ev.ga[0]
                if '::' not in t and t[:1].isupper() and marks_of(st, 'targ'):
                    t = marks_of(st, 'targ')[0][1]
                rtypes.setdefault(cur, set()).add(t)
            R.count('fields read')
            return frozenset(x for x in st.marks if not (isinstance(x, tuple) and x[0] in ('seq', 'bit', 'un'))) | {('seq', cur), ('un', nun)}

        def block(self, e, ctx, st, bb):
            if ctx.parent is None:
                s = marks_of(st, 'seq')
                at_block.setdefault(bb, set()).add(s[0][1] if s else ('u', 0))

        def exit(self, e, ctx, st, kind, val):
            if not (val and val[0] == 'agg' and val[3] == 'Ok'):
                return
            pk = val[4][0][1]
            R.ob('reader/result', pk[0] == 'agg', 'the reader returns the packet it has built, got %s' % short(pk)[:80])
            if pk[0] != 'agg':
                return
            for f, x in pk[4]:
                f = f.split('.')[-1]
                for y in walk_phi(e, x):
                    if y[0] == 'call' and y[3] in src_of:
                        filled.setdefault(f, set()).update(src_of[y[3]])
            s = marks_of(st, 'seq')
            redge.add((s[0][1] if s else ('u', 0), ('end',)))
    filled = {}
    at_block = {}
    rtypes = {}
    R.run(Rd(), r)
    R.floor('fields read', R.counts.get('fields read', 0), 10)
    here = '%s:%s' % (r.file, r.line)
    wh = '%s:%s' % (w.file, w.line)

    def rank(k):
        # the three leading reads, the flagged fields in the order of their bits, the trailing read
        return {'u': lambda n: n if n <= 3 else 1000 + n, 'b': lambda n: 10 + n}[k[0]](k[1]) if k[0] != 'end' else 5000
    for a, b in sorted(redge):
        R.ob('reader/order %s' % (b,), rank(a) < rank(b), 'the reader reads %s after %s, against the order of the flag bits' % (b, a), here)
    for a, b in redge:
        if b == ('end',):
            R.ob('reader/ends with trailing bytes', a == ('u', 4), 'the reader reads the trailing random bytes last, got %s' % (a,), here)
    rbits = {b[1] for a, b in redge if b[0] == 'b'}
    # every optional field of the protocol is read when it is announced, with its wire type
    import rules_proto as RP
    S = RP.scheme()
    L = RP.Layouts(R, S)
    want = {}
    for nm, ty, bit in S['adnl.packetContents'].fields:
        if bit is not None:
            want.setdefault(bit, []).extend(k for k, _, _ in RP.flat(S, ty, nm, 'adnl.packetContents'))
    for bit, ks in sorted(want.items()):
        R.ob('protocol/flag %d' % bit, bit in rbits, 'the protocol puts a field behind flag %d, so the reader reads it when the flag is set (the fields after it would be read from the wrong place)' % bit, here)
        for ty in sorted(rtypes.get(('b', bit), ())):
            got = [k for k, _ in L.kind(ty, 'TlRead')]
            if len(got) == 1 and isinstance(got[0], tuple) and got[0][0] == 'opt':
                got = list(got[0][1])
            R.ob('protocol/type of flag %d' % bit, len(got) == len(ks) and all(RP.same_kind(a, b) for a, b in zip(got, ks)), 'the protocol puts %s behind flag %d, the reader reads %s' % (', '.join(map(RP.show, ks)), bit, ', '.join(map(RP.show, got))), here)
    for bit in rbits:
        R.ob('protocol/known flag %d' % bit, bit in want, 'flag %d is one of the protocol' % bit, here)
    # name -> bit of the reader
    rname = {}
    for f, bs in filled.items():
        rname[f] = {b[1] for b in bs if b[0] == 'b'}
    # writer order
    bits = {}
    for f in {k for e2 in worder for k in e2 if k.startswith('field:')}:
        nm = f[6:]
        if nm in cond:
            b = cond[nm]
            R.ob('writer/one flag for %s' % nm, len(b) == 1, 'the field has one flag', wh)
            bits[nm] = min(b)
        elif nm in rname and rname[nm]:
            # written always: the flag the reader wants has to be always set
            if rname[nm] & either and rname[nm] <= either | always:
                bits[nm] = min(rname[nm])
                R.ob('writer/%s' % nm, True, 'one of the alternatives is always announced', wh)
            else:
                R.ob('writer/%s' % nm, rname[nm] <= always, 'field %s is always written, so its flag %s must always be set' % (nm, sorted(rname[nm])), wh)
                bits[nm] = min(rname[nm])
    for nm, b in sorted(bits.items()):
        if nm in cond:
            R.ob('same flag/%s' % nm, rname.get(nm) == {b} or nm == 'signature' and b in rname.get(nm, {b}), 'flag bit %s announces %s when writing, the reader fills it under %s' % (b, nm, sorted(rname.get(nm, []))), wh)
    used = set(bits.values()) | either
    for b in sorted(always):
        R.ob('announced/%d' % b, b in used, 'flag %d is announced, so the field must be written' % b, wh)
        R.ob('understood/%d' % b, b in rbits, 'flag %d is announced, so the reader must read the field' % b, here)
    for nm, bs in cond.items():
        R.ob('written/%s' % nm, nm in bits, 'field %s is announced by a flag, so it must be written' % nm, wh)

    def wrank(k):
        if k == 'start':
            return 0
        if k == 'id':
            return 1
        if k == 'flags':
            return 3
        if k.startswith('field:'):
            nm = k[6:]
            if nm in bits:
                return 10 + bits[nm]
            return 2 if nm == 'rand1' else 2000
        return 1500
    unflagged = sorted({k for e2 in worder for k in e2 if k.startswith('field:') and k[6:] not in bits})
    R.ob('writer/unflagged fields', len(unflagged) == 2, 'exactly the leading and the trailing random bytes have no flag, got %s' % unflagged, wh)
    for a, b in sorted(worder):
        R.ob('writer/order %s' % b, wrank(a) < wrank(b), 'the writer writes %s after %s, the reader expects the opposite order' % (b, a), wh)
    # the seqence is one chain, nothing is written conditionally by hand
    R.ob('tl id', set(consts[:1]) <= set(rconst), 'the constructor written (%s) is the one expected by the reader (%s)' % (consts[:1], sorted(set(map(str, rconst)))[:4]), wh)
    n12_strip(R, cond, at_block)
    n12_address(R)


def key_ids(k):
    """ the ids in the key of a table: the key itself or its parts """
    k = nosites(k)
    return (k,) + (tuple(x for _, x in k[4]) if k[0] == 'agg' else ())


def walk_phi(e, v):
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        for y in walk(x):
            if y in seen:
                continue
            seen.add(y)
            yield y
            if y[0] == 'phi' and e.phi_src.get(y):
                st.extend(e.phi_src[y])


def replace(v, old, new):
    if v == old:
        return new
    if not isinstance(v, tuple):
        return v
    return tuple(replace(x, old, new) if isinstance(x, tuple) else x for x in v)


def offset_reads(body, ty):
    """{field of ty: blocks in which the position it is filled with was read through a reference}"""
    defs = {}
    for i, blk in enumerate(body.blocks):
        for s in blk['s']:
            if s[0] == '=':
                pl = s[1]
                if isinstance(pl, list) and len(pl) == 1:
                    defs.setdefault(pl[0], []).append((i, s[2]))
    out = {}

    def trace(loc, d=0):
        res = set()
        if d > 6:
            return res
        for i, rv in defs.get(loc, ()):
            op = None
            if rv[0] == 'use':
                op = rv[1]
            elif rv[0] == 'cast':
                op = next((x for x in rv[1:] if isinstance(x, dict)), None)
            pl = op and (op.get('c') or op.get('m'))
            if pl is None:
                continue
            if len(pl) == 1:
                res |= trace(pl[0], d + 1)
            elif any(isinstance(x, list) and x[0] == '*' for x in pl[1:]):
                res.add(i)
        return res
    for i, blk in enumerate(body.blocks):
        for s in blk['s']:
            if s[0] == '=' and s[2][0] == 'agg' and ty in str(s[2][2]):
                fields = s[2]
                ops = [x for x in fields if isinstance(x, list) and x and isinstance(x[0], (dict, list))]
                yield_ops = ops[-1] if ops else []
                out.setdefault('_', []).append((fields, yield_ops))
    res = {}
    for f, ops in out.get('_', []):
        names_ = next((x for x in f if isinstance(x, list) and x and all(isinstance(y, str) for y in x)), None)
        for n, o in zip(names_ or [], ops):
            pl = isinstance(o, dict) and (o.get('c') or o.get('m'))
            if pl and len(pl) == 1:
                t = trace(pl[0])
                if t:
                    res.setdefault(n, set()).update(t)
    return res


def n12_strip(R, cond, at_block):
    prog = R.prog
    r = R.tmethod('TlRead', 'IncomingPacketContents', 'read_from')
    x = R.entry('PacketContentsSignature', 'extract')
    sig = cond.get('signature') or {None}
    sb = min(sig)
    wh = '%s:%s' % (x.file, x.line)

    class S(E.Observer):
        maydepth = 3

        def write(self, e, ctx, st, loc, val, line):
            lf = short(loc) if isinstance(loc, tuple) else str(loc)
            if isinstance(loc, tuple) and 'flags_offset' in lf:
                v = uncast(val)
                idx = [y for y in walk(loc) if y[0] == 'bin' and y[1] == 'Add'] if isinstance(loc, tuple) else []
                off = None
                for y in walk(loc):
                    b, o = linear(y) if y[0] in ('bin', 'field', 'cast') else (None, 0)
                    if b is not None and isfield(b, 'flags_offset'):
                        off = max(o, off or 0)
                mask = None
                if v[0] == 'bin' and v[1] == 'BitAnd':
                    for c in v[2:4]:
                        c = uncast(c)
                        if c[0] == 'const':
                            mask = c[1] & 0xff
                        if c[0] == 'un' and c[2][0] == 'const':
                            mask = ~c[2][1] & 0xff
                R.ob('strip/flag', mask is not None and off is not None and sb is not None and mask == 0xff & ~(1 << (sb - 8 * off)) if off is not None and sb is not None and 0 <= sb - 8 * off < 8 else False,
                     'stripping clears exactly the bit %s that announces the signature (byte %s, mask %s)' % (sb, off, mask), src(e, ctx, line))
                R.count('flag resets')
                return st.marks | {'cleared'}

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            n = ev.name
            if n in ('copy', 'copy_within') and 'ptr' in ev.p:
                a, b, c = ev.args[:3]
                R.ob('strip/move', has_field(a, 'signature_end') and not has_field(a, 'signature_start') and has_field(b, 'signature_start') and not has_field(b, 'signature_end'),
                     'the bytes after the signature are moved to where it started', w)
                R.ob('strip/amount', has_field(c, 'signature_end') and has_call(c, 'len') and not has_field(c, 'signature_start'), 'exactly the bytes after the signature are moved', w)
                return st.marks | {'moved'}
            if n == 'copy_within':
                return st.marks | {'moved'}
            if n == 'from_raw_parts':
                c = ev.args[1]
                ok = c[0] == 'bin' and c[1] == 'Sub' and has_call(c[2], 'len') and (lambda d: d[0] == 'bin' and d[1] == 'Sub' and has_field(d[2], 'signature_end') and has_field(d[3], 'signature_start'))(uncast(c[3]))
                alt = names(c) >= {'signature_end', 'signature_start', 'len'}
                R.ob('strip/length', ok or alt, 'the stripped packet is shorter by the length of the signature', w)

        def exit(self, e, ctx, st, kind, val):
            if val and val[0] == 'agg' and val[3] == 'Some':
                R.ob('strip/complete', {'cleared', 'moved'} <= st.marks, 'the flag is cleared and the signature removed whenever the signed form is returned', wh)
                R.count('stripped packets')
                rs = list(all_rels(st))
                R.ob('strip/order checked', any(op == '<' and has_field(a, 'signature_start') and has_field(b, 'signature_end') for op, a, b in rs), 'offsets are ordered', wh)
    R.run(S(), x)
    R.floor('flag resets', R.counts.get('flag resets', 0), 1)
    R.floor('stripped packets', R.counts.get('stripped packets', 0), 1)
    # where the offsets of the signature are taken: the read that comes last before each of them
    taken = offset_reads(r, 'PacketContentsSignature')
    for f, bbs in sorted(taken.items()):
        for bb in bbs:
            for k in at_block.get(bb, {('?',)}):
                want = {'flags_offset': lambda k: k == ('u', 2), 'signature_end': lambda k: sb is not None and k == ('b', sb),
                        'signature_start': lambda k: k[0] == 'u' and k[1] == 3 or k[0] == 'b' and sb is not None and k[1] < sb}.get(f)
                if want:
                    R.ob('offset/%s' % f, want(k), '%s must be taken %s; the last value read before it is %s' % (
                        f, {'flags_offset': 'right before the flags are read', 'signature_start': 'right before the signature is read', 'signature_end': 'right after the signature was read'}[f], k),
                        '%s:%s' % (r.file, r.line))
                    R.count('signature offsets')
    if not taken:
        R.notes.append('the signature offsets are not taken in the reader itself; their position was not compared')
    # the signer sees the packet without signature
    for b in prog.bodies.values():
        if b.kind == 'promoted' or not any(last(p) == 'write_to' and 'OutgoingPacketContents' in str(t[1]) for p, rr, i, t in body_calls(b)):
            continue

        class P(E.Observer):
            maydepth = 1

            def inline(self, e, b2):
                return False

            def call(self, e, ctx, st, ev):
                if ev.name in ('sign', 'sign_raw') and len(ev.args) > 1:
                    v = ev.args[-1]
                    if v[0] == 'ref':
                        v = e.read(st, v[1])
                    if v[0] == 'agg' and 'OutgoingPacketContents' in (v[2] or ''):
                        d = {f.split('.')[-1]: y for f, y in v[4]}
                        R.ob('signed form/%s' % fname(ctx), d['signature'][0] == 'agg' and d['signature'][3] == 'None', 'a packet is signed in the form without signature', src(e, ctx, ev.line))
                        R.count('packets signed')
                        return st.marks | {('signed', frozenset((f, y) for f, y in d.items() if f != 'signature'))}
                if ev.name == 'write_to' and 'OutgoingPacketContents' in str(ev.argtys[0] if ev.argtys else ''):
                    v = ev.args[0]
                    if v[0] == 'ref':
                        v = e.read(st, v[1])
                    s = marks_of(st, 'signed')
                    if v[0] == 'with':
                        d = None
                        base = v
                    if s and v[0] == 'agg':
                        d = frozenset((f.split('.')[-1], y) for f, y in v[4] if f.split('.')[-1] != 'signature')
                        R.ob('written form/%s' % fname(ctx), d == s[0][1], 'the packet written equals the packet signed but for the signature', src(e, ctx, ev.line))
        R.run(P(), b)
    R.floor('packets signed', R.counts.get('packets signed', 0), 1)


def n12_address(R):
    import rules_proto as RP
    L = RP.Layouts(R, RP.scheme())
    p = next((p for p, d in L.impls if p.split('::')[-1] == 'AddressList'), None)
    w, r = (L.of(p, d) if (p, d) in L.impls else {} for d in ('TlWrite', 'TlRead'))
    R.ob('address/both', bool(w) and bool(r), 'the address list has a writer and a reader')
    body = L.impls[(p, 'TlWrite')]
    wh = '%s:%s' % (body.file, body.line)
    n = 0
    for ws in w.get(None, ()):
        for rs in r.get(None, ()):
            R.ob('address/length', len(ws) == len(rs), 'the address list is written as %d values and read as %d' % (len(ws), len(rs)), wh)
            for i, ((wk, wn), (rk, rn)) in enumerate(zip(ws, rs)):
                n += 1
                R.ob('address/%d' % i, RP.same_kind(wk, rk) and (not rn or not wn or wn[:1] == '#' or wn.isdigit() or rn.isdigit() or wn == rn), 'value %d of the address list is written as %s (%s) and read as %s (%s)' % (i, RP.show(wk), wn, RP.show(rk), rn), wh)
    R.floor('address list values matched', n, 5)


def table_op(ev):
    """(operation, table field, key, value) of a change of a keyed table, through entries too"""
    n = ev.name
    if not ev.args or not ('HashMap' in ev.p or 'hash_map' in ev.p or 'DashMap' in ev.p or 'dashmap' in ev.p):
        return None
    a = ev.args[0]
    if n == 'insert' and len(ev.args) == 3:
        return 'insert', root_field(a), ev.args[1], ev.args[2]
    if n in ('insert', 'insert_entry', 'or_insert', 'or_insert_with', 'replace_entry', 'or_default'):
        ent = [x for x in walk(a) if x[0] == 'call' and last(x[1]) == 'entry']
        k = ent[0][2][1] if ent else None
        return 'insert', root_field(a), k, ev.args[1] if len(ev.args) > 1 else None
    if n in ('remove', 'remove_if', 'remove_entry'):
        ent = [x for x in walk(a) if x[0] == 'call' and last(x[1]) == 'entry']
        return 'remove', root_field(a), ent[0][2][1] if ent else ev.args[1] if len(ev.args) > 1 else None, None
    if n in ('retain', 'clear', 'drain', 'alter_all', 'extend'):
        return 'bulk', root_field(a), None, None
    return None


def absent_fact(st, field, key):
    """the table is known not to hold the key"""
    kk = nosites(key)
    for k, v in st.facts.items():
        if k[0] == 'var' and v in ('Vacant', 'None') and k[1][0] == 'call' and last(k[1][1]) in ('entry', 'get', 'get_mut') and root_field(k[1]) == field and nosites(k[1][2][1]) == kk:
            return True
        if k[0] == 'call' and v is False and last(k[1]) == 'contains_key' and root_field(k) == field and nosites(k[2][1]) == kk:
            return True
    return False


def in_tags(v):
    """the value is what the table of tags holds under the tag that was asked for"""
    return mentions(v, lambda x: x[0] == 'call' and last(x[1]) in ('entry', 'get', 'get_mut', 'index') and len(x[2]) > 1 and root_field(x[2][0]) == 'tags' and has_arg(x[2][1], 'tag'))


@rule('N13', 'both key tables change together, only under absence of the id and the tag, and not on failing exits',
      'path-sensitive pairing of table updates, provenance of the registered ids',
      'On every path of every function that changes a table of the keystore: the table of keys and the table of tags gain an entry '
      'together, or lose one together; a path that returns an error leaves both as they were; an entry is added only under facts that '
      'the tag and the id are not in use; the id stored under the tag, the id under which the key is stored and the id returned are the '
      'one computed from that key. An addition that changes nothing succeeds only when the id is the one already stored under '
      'the tag. A key is found by tag through the id stored under the tag.')
def n13(R):
    prog = R.prog
    mod = R.method('Keystore', 'add_key').file      # the fields are private to the module
    for b in prog.bodies.values():
        if b.file != mod or b.kind == 'promoted' or not any('HashMap' in p or 'hash_map' in p for p, r, i, t in body_calls(b)):
            continue

        def run(S, body):
            class K(E.Observer):
                maydepth = 3
                cancel = False

                def inline(self, e, b2):
                    return b2.file == mod and b2.name not in ('from_bytes', 'from')

                def relevant(self, f):
                    return True

                def call(self, e, ctx, st, ev):
                    op = table_op(ev)
                    if not op or op[1] not in ('keys', 'tags') or 'dashmap' in ev.p.lower():
                        return
                    kind, fld, key, val = op
                    w = src(e, ctx, ev.line)
                    if kind == 'insert':
                        S.count('additions')
                        S.ob('unused %s/%s' % (fld, fname(ctx)), key is not None and absent_fact(st, fld, key), 'an entry is added to %s only when its key is known not to be there' % fld, w)
                        return st.marks | {('ins', fld, key, val)}
                    if kind == 'remove':
                        own = {m for m in st.marks if isinstance(m, tuple) and m[0] == 'ins' and m[1] == fld and nosites(m[2]) == nosites(key)}
                        return (st.marks - own) if own else st.marks | {('rem', fld)}
                    S.ob('bulk/%s' % fname(ctx), False, 'one key table is changed in bulk', w)

                def exit(self, e, ctx, st, kind, val):
                    ins = {m[1]: m for m in st.marks if isinstance(m, tuple) and m[0] == 'ins'}
                    rem = {m[1] for m in st.marks if isinstance(m, tuple) and m[0] == 'rem'}
                    w = one_line(ctx, body.line)
                    failed = val is not None and val[0] == 'agg' and val[3] in ('Err', 'None')
                    nm = body.name
                    if 'Builder' in (body.self_ty or ''):
                        return              # repeated additions to a keystore that is dropped on failure
                    S.ob('together/%s' % nm, len(ins) in (0, 2) and len(rem) in (0, 2), 'an entry is added to, or removed from, both tables or neither; here added: %s removed: %s' % (sorted(ins), sorted(rem)), w)
                    S.count('exits')
                    if failed and 'Builder' not in (body.self_ty or ''):
                        S.ob('failure/%s' % nm, not ins, 'a failed addition changes nothing, but %s changed' % sorted(ins), w)
                    if not ins and not rem and not failed and val is not None and val[0] == 'agg' and val[3] == 'Ok' and val[4] and 'NodeId' in ret_ty(body):
                        got = nosites(val[4][0][1])
                        S.count('accepted again')
                        S.ob('again/%s' % nm, any(r[0] == '==' and in_tags(y) and not in_tags(x) and got in (nosites(unsome(x)), nosites(unsome(y))) for r in all_rels(st) for x, y in ((r[1], r[2]), (r[2], r[1]))),
                             'an addition that adds nothing succeeds only if exactly this id is the one stored under the tag', w)
                    if len(ins) == 2:
                        i1, i2 = ins['keys'][2], ins['tags'][3]
                        S.ob('id/%s' % nm, i1 == i2, 'the id stored under the tag is the one the key is stored under', w)
                        kv = ins['keys'][3]
                        S.ob('key/%s' % nm, i1[0] != 'arg' and bool({x for x in walk(i1) if x[0] == 'arg'} & {x for x in walk(kv) if x[0] == 'arg'}) and
                             bool({x for x in walk(i1) if x[0] == 'arg'}), 'the id is computed from the key that is stored', w)
                        if val is not None and val[0] == 'agg' and val[3] == 'Ok' and val[4] and 'NodeId' in ret_ty(body):
                            S.ob('returned/%s' % nm, val[4][0][1] == i1, 'the id returned is the one stored', w)
            S.run(K(), body)
        escalate(R, [b], run, depth=1)
    R.floor('additions', R.counts.get('additions', 0), 2)
    # lookups
    t = R.method('Keystore', 'key_by_tag')

    class T(E.Observer):
        maydepth = 3

        def exit(self, e, ctx, st, kind, val):
            if val and val[0] == 'agg' and val[3] == 'Ok':
                v = val[4][0][1]
                ks = [x for x in walk(v) if x[0] == 'call' and last(x[1]) in ('get', 'index') and root_field(x[2][0]) == 'keys']
                R.ob('lookup/by tag', bool(ks) and any(root_field(x[2][0]) == 'tags' and has_arg(x[2][1], 'tag') for k in ks for x in walk(k[2][1]) if x[0] == 'call' and last(x[1]) in ('get', 'index')),
                     'the key found by a tag is the one stored under the id of the tag', one_line(ctx, t.line))
                R.count('lookups')
    R.run(T(), t)
    t2 = R.method('Keystore', 'key_by_id')

    class U(E.Observer):
        maydepth = 2

        def exit(self, e, ctx, st, kind, val):
            if val and val[0] == 'agg' and val[3] == 'Ok':
                v = val[4][0][1]
                R.ob('lookup/by id', any(x[0] == 'call' and last(x[1]) in ('get', 'index') and root_field(x[2][0]) == 'keys' and has_arg(x[2][1], 'id') for x in walk(v)),
                     'the key found by an id is the one stored under it', one_line(ctx, t2.line))
                R.count('lookups')
    R.run(U(), t2)
    R.floor('lookups', R.counts.get('lookups', 0), 2)


FORWARD = {'into_iter', 'iter', 'deref', 'as_slice', 'as_ref', 'next', 'enumerate', 'clone', 'copied', 'cloned', 'by_ref', 'borrow', 'upgrade', 'load', 'as_deref'}


@rule('N14', 'no handler is consulted after one took the query or failed; answers carry the id and peer of their query; rejections hand the query on',
      'typestate of the handler loop on every path; provenance of the query, the answer and its addressing',
      'In every function that offers a query to handlers, no path offers it again after a handler consumed it or failed, the handlers '
      'come from a plain forward iteration, and what is offered is the query received or the one handed back by the previous '
      'handler. A handler that rejects returns the query it was given. The answer of the handler that consumed the query is the '
      'result; it is sent at most once, under the id in the query, to the peer it came from, and only after a handler consumed it.')
def n14(R):
    prog = R.prog
    offerers = {}
    for b in prog.bodies.values():
        if b.kind == 'promoted':
            continue
        for p, r, i, t in body_calls(b):
            if last(p) in ('try_consume_query', 'try_consume_custom') and 'Subscriber' in p:
                offerers.setdefault(b.id, set()).add(last(p))
    for bid, what in sorted(offerers.items()):
        b = prog.bodies[bid]

        class L(E.Observer):
            maydepth = 1
            part_cap = 100

            def inline(self, e, b2):
                return False

            def learned(self, e, st, k, v):
                if k[0] == 'var' and v == 'Consumed':
                    return ('taken',)
                if k[0] == 'var' and v == 'Err' and 'offered' in st.marks:
                    return ('failed',)
                if k[0] in ('await', 'field', 'phi') and v is True and 'offered' in st.marks and 'try_consume_custom' in what:
                    if k[0] == 'phi' or has_call(k, 'try_consume_custom') or k[1][0] == 'phi' or mentions(k, lambda x: x[0] == 'phi'):
                        return ('taken',)

            def call(self, e, ctx, st, ev):
                if ev.name not in ('try_consume_query', 'try_consume_custom') or 'Subscriber' not in ev.p:
                    return
                w = src(e, ctx, ev.line)
                R.count('offers')
                R.ob('once/%s' % fname(ctx), not st.marks & {'taken', 'failed'}, 'nothing is offered after a handler took the query or failed', w)
                n = mentions(ev.args[0], lambda x: x[0] == 'elem' or x[0] == 'call' and last(x[1]) == 'elem')
                # the handler comes out of a forward iteration
                bad = {last(x[1]) for x in walk(ev.args[0]) if x[0] == 'call'} & {'rev', 'next_back', 'skip', 'step_by', 'filter', 'last', 'max_by_key', 'min_by_key', 'pop', 'rposition'}
                R.ob('order/%s' % fname(ctx), not bad, 'handlers are taken in registration order, not through %s' % sorted(bad), w)
                if ev.name == 'try_consume_query':
                    q = ev.args[3]
                    for v in expand_phi(e, q):
                        ok = has_field(v, 'Rejected.0', 'query') or has_arg(v, 'query') or v[0] == 'phi'
                        R.ob('query/%s' % fname(ctx), ok, 'what is offered is the query received or the one handed back, got %s' % short(v)[:120], w)
                return st.marks | {'offered'}

            def exit(self, e, ctx, st, kind, val):
                if val is None or val[0] != 'agg' or val[3] != 'Ok' or 'try_consume_query' not in what:
                    return
                x = val[4][0][1]
                w = one_line(ctx, b.line)
                if x[0] == 'agg' and x[3] in ('Processed', 'Consumed') and 'offered' in st.marks and 'Subscriber' not in b.id:
                    if has_field(x, 'Consumed.0'):
                        R.ob('answer/%s' % b.id.split('::')[-2], 'taken' in st.marks, 'the answer is that of the handler that consumed the query', w)
                        R.count('consumed exits')
                if x[0] == 'agg' and x[3] == 'Rejected':
                    R.ob('rejected/%s' % b.id.split('::')[-2], not st.marks & {'taken', 'failed'}, 'a query that was taken is not reported as rejected', w)
        R.run(L(), b)
    R.floor('offers', R.counts.get('offers', 0), 3)
    R.floor('consumed exits', R.counts.get('consumed exits', 0), 1)
    # iteration order, seen at the iterator
    for bid in offerers:
        b = prog.bodies[bid]
        bad = {last(p) for p, r, i, t in body_calls(b)} & {'rev', 'next_back', 'nth_back', 'rfold', 'rev_mut', 'reverse', 'sort', 'sort_by', 'swap', 'shuffle', 'choose'}
        R.ob('forward/%s' % b.id.split('::')[-2], not bad, 'handlers are visited in registration order, not through %s' % sorted(bad), '%s:%s' % (b.file, b.line))
    # handlers hand the query on unchanged
    for b in prog.bodies.values():
        if b.kind == 'coroutine' and 'try_consume_query' in b.id:
            class H(E.Observer):
                maydepth = 1
                part_cap = 50

                def inline(self, e, b2):
                    return False

                def exit(self, e, ctx, st, kind, val):
                    if val is not None and val[0] == 'agg' and val[3] == 'Ok' and val[4][0][1][0] == 'agg' and val[4][0][1][3] == 'Rejected':
                        q = val[4][0][1][4][0][1]
                        R.ob('handed back/%s' % b.file, q[0] == 'field' and q[2][1].split('.')[-1] == 'query' or q[0] == 'arg', 'a handler that rejects hands back the query as it got it, got %s' % short(q)[:100], one_line(ctx, b.line))
                        R.count('rejections')
            R.run(H(), b)
    R.floor('rejections', R.counts.get('rejections', 0), 1)
    # answers of the node
    rb = recv_body(R)
    near = recv_near(R)

    class A(E.Observer):
        maydepth = 16
        part_cap = 300
        inline_spawn = False

        def inline(self, e, b):
            return b.name not in ('check_packet', 'create_channel', 'add_part', 'process_query', 'process_message_custom') and 'process_query' not in b.id and near(e, b)

        def learned(self, e, st, k, v):
            if k[0] == 'var' and v == 'Query' and of_messages(e, k[1]):
                return ('query',)
            if k[0] == 'var' and v == 'Processed':
                return ('processed',)

        def call(self, e, ctx, st, ev):
            if ev.name == 'next' and ev.args and of_messages(e, ev.args[0]):
                return st.marks - {'query', 'processed', 'answered'}
            w = src(e, ctx, ev.line)
            if ev.name == 'process_query':
                R.ob('node/query data', has_field(ev.args[2], 'Query.query'), 'the query handed to the handlers is the one received', w)
                sc = ev.args[0]
                return st.marks | {('v', 'ctx', sc)}
            if ev.name != 'send_message':
                return
            for a in ev.args:
                if a[0] == 'agg' and a[3] == 'Answer' and (a[2] or '').endswith('Message'):
                    d = {f.split('.')[-1]: x for f, x in a[4]}
                    R.count('answers sent')
                    R.ob('answer/after processing', 'processed' in st.marks and 'answered' not in st.marks, 'one answer is sent, after a handler consumed the query', w)
                    R.ob('answer/id', has_field(d['query_id'], 'Query.query_id'), 'the answer carries the id of the query', w)
                    R.ob('answer/data', has_field(d['answer'], 'Processed.0') or has_call(d['answer'], 'process_query'), 'the answer sent is that of the handler', w)
                    cx = [m[2] for m in st.marks if isinstance(m, tuple) and m[:2] == ('v', 'ctx')]
                    for c in cx:
                        if c[0] == 'agg':
                            dd = {f.split('.')[-1]: x for f, x in c[4]}
                            R.ob('answer/peer', dd['peer_id'] in ev.args and dd['local_id'] in ev.args and ev.args.index(dd['local_id']) < ev.args.index(dd['peer_id']),
                                 'the answer goes to the peer the query came from', w)
                    return st.marks | {'answered'}
    R.run(A(), rb)
    R.floor('answers sent', R.counts.get('answers sent', 0), 1)
    # answers of large queries
    pq = [b for b in prog.bodies.values() if b.kind == 'coroutine' and b.file.startswith('src/rldp') and any(last(p) == 'process_query' for p, r, i, t in body_calls(b))]
    R.need('the RLDP query handler', pq)
    for b in pq:
        class Q(E.Observer):
            maydepth = 2
            part_cap = 50

            def inline(self, e, b2):
                return 'process_query' not in b2.id and len(b2.blocks) < 60

            def learned(self, e, st, k, v):
                if k[0] == 'var' and v == 'Processed':
                    return ('processed',)

            def call(self, e, ctx, st, ev):
                for a in ev.args:
                    if a[0] == 'agg' and a[3] == 'Answer' and (a[2] or '').endswith('Message'):
                        d = {f.split('.')[-1]: x for f, x in a[4]}
                        w = src(e, ctx, ev.line)
                        R.ob('rldp/after processing', 'processed' in st.marks, 'an answer is built only after a handler consumed the query', w)
                        R.ob('rldp/id', 'query_id' in fpath(d['query_id']) and has_field(d['query_id'], 'query', 'query_id'), 'the answer carries the id of the query', w)
                        R.count('large answers built')
        R.run(Q(), b)
    R.floor('large answers built', R.counts.get('large answers built', 0), 1)


def strong_comps(n, succ):
    """strongly connected components, iteratively"""
    idx, low, on, st, out = {}, {}, set(), [], []
    for root in range(n):
        if root in idx:
            continue
        work = [(root, iter(succ[root]))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ[w])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    s = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        s.add(w)
                        if w == v:
                            break
                    out.append(s)
    return out


def callee(t):
    k = t[1].get('k') if t[0] == 'call' else None
    return k['fn'] if k and 'fn' in k else None


def waiting_loops(prog, b):
    """[(blocks, exit targets, ends with an iterator)] of the loops of a coroutine that wait in each round"""
    cfg = prog.cfg(b)
    n = len(b.blocks)
    succ = [list(x) for x in cfg.succ]
    for j in range(n):
        if b.blocks[j]['t'][0] == 'yield':
            succ[j] = []
    live = set(cfg.reach)
    out = []
    for s in strong_comps(n, succ):
        s &= live
        if len(s) < 2:
            continue
        if not any(b.blocks[j]['t'][0] == 'call' and callee(b.blocks[j]['t']) and last(callee(b.blocks[j]['t'])['p']) == 'poll' for j in s):
            continue
        ex = {v for u in s for v in cfg.succ[u] if v not in s and b.blocks[u]['t'][0] != 'yield'}
        # the loop ends with the elements of an iterator
        fin = False
        for j in s:
            f = callee(b.blocks[j]['t'])
            if f and f['p'].endswith('Iterator::next'):
                x, hops = cfg.succ[j][0], 0
                while b.blocks[x]['t'][0] == 'goto' and hops < 4:
                    x = b.blocks[x]['t'][1]
                    hops += 1
                if b.blocks[x]['t'][0] == 'sw' and any(v not in s and b.blocks[v]['t'][0] != 'unreach' for v in cfg.succ[x]):
                    fin = True
        out.append((s, ex, fin))
    return out


def end_kind(k, v):
    """why a waiting loop ends, from one branch outcome"""
    if k[0] == 'var':
        ns = names(k[1])
        x = k[1]
        while x[0] == 'await' or x[0] == 'call' and last(x[1]) in ('into_future',):
            x = x[1] if x[0] == 'await' else x[2][0]
        if v in ('Left', 'Right') and x[0] == 'call' and last(x[1]) == 'select' and len(x[2]) == 2:
            if has_call(x[2][0 if v == 'Left' else 1], 'cancelled'):
                return 'shutdown'
        if v == 'None':
            if k[1][0] == 'call' and last(k[1][1]) == 'upgrade':
                return 'owner gone'
            if x[0] == 'call' and last(x[1]) in ('recv', 'next', 'try_next'):
                return 'senders gone' if last(x[1]) == 'recv' else 'exhausted'
            if x[0] == 'call' and last(x[1]) in ('get', 'get_mut', 'remove', 'remove_if', 'pop'):
                return 'entry gone'
        if v == 'Err' and x[0] == 'call' and last(x[1]) in ('timeout', 'changed', 'acquire', 'acquire_owned'):
            return 'senders gone' if last(x[1]) != 'timeout' else 'time'
        return None
    if v is True and k[0] == 'call' and last(k[1]) in ('is_cancelled', 'is_closed', 'is_shutdown'):
        return 'shutdown'
    ns = names(fact_val(k)) if k[0] in ('call', 'bin', 'un', 'field') else ()
    if v in (True, False) and any(n in ns for n in ('is_expired', 'elapsed', 'is_timed_out', 'duration_since', 'saturating_duration_since', 'now')):
        return 'time'
    if k[0] == 'bin' and k[1] in ('Lt', 'Eq') and not mentions(k, lambda x: x[0] in ('call', 'await')) and not any(x[0] == 'const' and x[1] == 0 for x in k[2:4]):
        return 'count'
    return None


def found_only(k, v):
    """ the branch outcome needs an entry in a table, which others may have removed before """
    if k[0] == 'var' and v == 'Some' or v is True and k[0] == 'call' and last(k[1]) == 'is_some':
        x = k[1] if k[0] == 'var' else k[2][0]
        return x[0] == 'call' and 'Map' in x[1] and last(x[1]) in ('remove', 'remove_if', 'get', 'get_mut', 'remove_entry')
    if k[0] == 'call' and last(k[1]) == 'contains_key':
        return v is True
    return False


def type_reaches(prog, ty, pred, memo=None, depth=0):
    """a value of the type owns (through fields and generic arguments) a type accepted by pred"""
    memo = {} if memo is None else memo
    st, seen = [ty], set()
    while st:
        t = st.pop()
        # types behind weak references and mere borrows are not owned
        t = re.sub(r'Weak<[^<>]*(<[^<>]*>)?[^<>]*>', '', t)
        if pred(t):
            return True
        for name in set(re.findall(r'[A-Za-z_][\w:]*', t)):
            if name in seen:
                continue
            seen.add(name)
            a = prog.adts.get(name)
            if a:
                for vn in a.get('variants', []):
                    for f in vn.get('fields', []):
                        st.append(f.get('ty') if isinstance(f, dict) else f[1])
    return False


def spawned(prog):
    """{coroutine id: (spawning body, captured operand types by name)}"""
    out = {}
    for b in prog.bodies.values():
        if b.kind == 'promoted':
            continue
        for p, r, i, t in body_calls(b):
            if last(p) in ('spawn', 'spawn_local') and 'tokio' in p:
                c = t[1]['k']['fn'].get('self_cl')
                if c and c in prog.bodies:
                    out[c] = b
    return out


def captured_types(prog, cid, parent):
    cb = prog.bodies[cid]
    out = {}
    for blk in parent.blocks:
        for s in blk['s']:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1] in ('coroutine', 'closure', 'cclosure') and s[2][2] == cid:
                ops = next((x for x in reversed(s[2]) if isinstance(x, list)), [])
                for i, o in enumerate(ops):
                    pl = isinstance(o, dict) and (o.get('m') or o.get('c'))
                    if pl and len(pl) == 1:
                        nm = cb.upvars[i] if cb.upvars and i < len(cb.upvars) else str(i)
                        out[nm] = parent.locals[pl[0]][0]
    return out


@rule('N15', 'every spawned waiting loop has a terminating exit; the node starts by taking its initial state; shutdown reaches the loops',
      'loop-exit analysis of spawned coroutines, ownership of captured values, typestate of the initial state',
      'For every loop that waits in each round and runs in a spawned task: some exit of the loop is taken on shutdown, on expiry of '
      'time, when the owner (a weak reference) or all senders are gone, or when a count or collection is exhausted; a task that ends '
      'with its owner or with its senders does not itself own them. The loops started by the node end on the cancellation token that '
      'shutdown and drop cancel. Starting takes the initial state out; nothing puts one back; nothing is started when it was gone.')
def n15(R):
    prog = R.prog
    sp = spawned(prog)
    R.floor('spawned tasks', len(sp), 5)
    start = R.method('Node', 'start') if len(prog.method('Node', 'start')) == 1 else R.need('adnl Node::start', [b for b in prog.method('Node', 'start') if 'adnl' in b.file])[0]
    # tasks started by the node itself (not those that process one packet)
    g = graph(prog)
    node_tasks = set()
    st, seen = [start.id], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in g.get(x, ()):
            if y in sp:
                node_tasks.add(y)
            else:
                st.append(y)
    # bodies running in tasks
    task_of = {}
    for c in sp:
        st, seen = [c], set()
        while st:
            x = st.pop()
            if x in seen or x not in g:
                continue
            seen.add(x)
            task_of.setdefault(x, set()).add(c)
            st += [y for y in g[x] if y not in sp]
    packet_tasks = {c for c in sp if sp[c].id in node_tasks}
    n_loops = 0
    for bid in sorted(task_of):
        b = prog.bodies[bid]
        if b.kind != 'coroutine' or task_of[bid] <= packet_tasks:
            continue
        for blocks, exits, finite in waiting_loops(prog, b):
            real = set()
            for v in exits:
                x, hops = v, 0
                while b.blocks[x]['t'][0] == 'goto' and hops < 6:
                    x = b.blocks[x]['t'][1]
                    hops += 1
                if b.blocks[x]['t'][0] not in ('yield', 'unreach'):
                    real.add(v)
            kinds = {}

            class O(E.Observer):
                maydepth = 0
                part_cap = 200

                def inline(self, e, b2):
                    return False

                def relevant(self, f):
                    return True

                def block(self, e, ctx, st, bb):
                    if ctx.parent is None and bb in real:
                        lucky = any(found_only(k, v) for k, v in st.facts.items())
                        for k, v in st.facts.items():
                            kd = end_kind(k, v)
                            if kd and lucky and kd in ('time', 'shutdown'):
                                kd += ' if found'
                            if kd:
                                kinds.setdefault(kd, set()).add((bb, k))
            R.run(O(), b)
            n_loops += 1
            where = '%s:%s' % (b.file, b.line)
            nm = b.id.split('::', 1)[1].replace('{impl#', '{').replace('closure#', '')
            parent = sp.get(bid)
            caps = captured_types(prog, bid, parent) if parent else {}
            if finite:
                kinds['exhausted'] = set()
            if 'entry gone' in kinds:
                kinds.update((kd.split(' ')[0], v) for kd, v in list(kinds.items()) if kd.endswith(' if found'))
            good = set(kinds) & {'shutdown', 'time', 'count', 'exhausted'}
            for kd in ('owner gone', 'senders gone'):
                for bb, k in kinds.get(kd, ()):
                    c = [x for x in walk(k) if x[0] == 'call' and last(x[1]) in ('upgrade', 'recv')]
                    own = []
                    # element types, from the calls of the loop
                    for j in blocks:
                        f = callee(b.blocks[j]['t'])
                        if f and last(f['p']) == ('upgrade' if kd == 'owner gone' else 'recv') and f.get('ga'):
                            T = f['ga'][0]
                            for nme, ty in caps.items():
                                pred = (lambda t, T=T: ('Arc<%s' % T) in t) if kd == 'owner gone' else (lambda t, T=T: ('Sender<%s' % T) in t)
                                if type_reaches(prog, ty, pred):
                                    own.append('%s: %s' % (nme, ty))
                    if R.ob('owned/%s' % nm, not own, 'the task that waits until its %s must not keep it alive itself, but it owns %s' % (
                            'owner is dropped' if kd == 'owner gone' else 'senders are dropped', ', '.join(sorted(set(own)))[:200]), where):
                        good.add(kd)
            used = {last(callee(b.blocks[j]['t'])['p']) for j in blocks if callee(b.blocks[j]['t'])}
            if 'upgrade' in used:
                R.ob('weak/%s' % nm, 'owner gone' in kinds, 'a loop that asks for its owner in each round ends when it is gone', where)
            if 'recv' in used:
                R.ob('recv/%s' % nm, bool({'senders gone', 'shutdown'} & set(kinds)), 'a loop that receives ends when its senders are gone', where)
            R.ob('ends/%s' % nm, bool(good), 'a task that waits in a loop ends on shutdown, expiry, or when its owner is gone; exits found: %s' % (sorted(kinds) or 'none'), where)
            if bid in node_tasks:
                R.ob('shutdown/%s' % nm, 'shutdown' in kinds, 'a loop started by the node ends when the node is shut down', where)
    R.floor('waiting loops', n_loops, 4)
    R.floor('node loops', len(node_tasks), 2)

    # the token of the loops is the one that shutdown cancels
    class S(E.Observer):
        maydepth = 4
        inline_spawn = True

        def inline(self, e, b):
            return b.name != 'handle_received_data' and 'handle_received_data' not in b.id

        def learned(self, e, st, k, v):
            if k[0] == 'var' and 'init_state' in fpath(k[1]):
                return ('some',) if v == 'Some' else ('gone',)

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            if ev.name == 'cancelled' and ev.args:
                R.ob('token/%s' % fname(ctx), root_field(ev.args[0]) == 'cancellation_token' or 'cancellation_token' in fpath(ev.args[0]), 'the loop waits for the token of the node, got %s' % short(ev.args[0])[:100], w)
                R.count('waits for shutdown')
            if ev.name in ('take', 'replace') and ev.args and 'init_state' in fpath(ev.args[0]):
                return st.marks | {'took'}
            if ev.name == 'spawn' and 'tokio' in ev.p:
                R.ob('start/once', {'took', 'some'} <= st.marks, 'tasks are started only with the initial state taken out', w)
                R.count('tasks started')
                if ctx.parent is None or True:
                    return st.marks | {'started'}

        def exit(self, e, ctx, st, kind, val):
            if val is None or val[0] != 'agg':
                return
            if val[3] == 'Ok':
                R.ob('start/starts', {'took', 'some', 'started'} <= st.marks, 'a successful start has taken the initial state and started the loops', one_line(ctx, start.line))
            else:
                R.ob('start/refused', 'gone' not in st.marks or 'started' not in st.marks, 'a second start starts nothing', one_line(ctx, start.line))
    R.run(S(), start)
    R.floor('tasks started', R.counts.get('tasks started', 0), 2)
    R.floor('waits for shutdown', R.counts.get('waits for shutdown', 0), 2)
    # nothing restores the initial state
    for b in prog.bodies.values():
        if b.kind == 'promoted' or not b.file.startswith('src/adnl'):
            continue
        for p, r, i, t in body_calls(b):
            if last(p) in ('replace', 'insert', 'get_or_insert', 'get_or_insert_with', 'swap') and 'InitializationState' in str(t[1]):
                R.fail('restored/%s' % b.name, 'the initial state must not be put back', '%s:%s' % (b.file, b.line))
        agg = [s for blk in b.blocks for s in blk['s'] if s[0] == '=' and s[2][0] == 'agg' and 'InitializationState' in str(s[2][2])]
        if agg:
            R.count('initial states built')
            R.ob('initial/%s' % b.name, any(s[0] == '=' and s[2][0] == 'agg' and str(s[2][2]).endswith('adnl::node::Node') for blk in b.blocks for s in blk['s']) or not b.pub and
                 all(any(s[0] == '=' and s[2][0] == 'agg' and str(s[2][2]).endswith('adnl::node::Node') for blk in prog.bodies[c].blocks for s in blk['s']) for c in callers(prog, b.id)),
                 'an initial state is built only for a new node', '%s:%s' % (b.file, b.line))
    # shutdown and drop
    for what, bs in (('shutdown', [b for b in prog.method('Node', 'shutdown') if 'adnl' in b.file]), ('drop', prog.trait_method('Drop', 'Node', 'drop'))):
        R.need('adnl Node::%s' % what, bs)
        for b in bs:
            if 'adnl' not in b.file:
                continue

            class C(E.Observer):
                maydepth = 3

                def call(self, e, ctx, st, ev):
                    if ev.name == 'cancel' and ev.args and 'cancellation_token' in fpath(ev.args[0]) and not has_call(ev.args[0], 'child_token'):
                        return st.marks | {'cancelled'}

                def exit(self, e, ctx, st, kind, val):
                    R.ob('cancel/%s' % what, 'cancelled' in st.marks, '%s cancels the token the loops wait for' % what, one_line(ctx, b.line))
            R.run(C(), b)


DATE_FIELDS = ('channel_key', 'sender_state', 'receiver_state')


def atomic_of(v):
    """ the initial value of a freshly built atomic """
    while v[0] == 'call' and last(v[1]) in ('new', 'from', 'into') and len(v[2]) == 1:
        v = v[2][0]
    return v


@rule('N16', 'handshakes are signed over what they state and state the recorded session dates; a reset moves the date forward and starts both directions anew',
      'MIR dataflow on packet construction and encryption, provenance of session dates, state-replacement check on every method of the peer entry',
      'Every packet that names its sender carries the signature of exactly its own contents by the named key and both session dates; '
      'the own date is the one recorded for receiving from this peer, the other one is the newest date seen from it; the date '
      'received packets are compared with has the same source as the announced one. A method of the peer entry that replaces the '
      'channel key or the sequence counters moves the own date forward and leaves no old receiving history. New peer entries take '
      'their date from the clock.')
def n16(R):
    prog = R.prog
    roots = [b for b in prog.bodies.values() if b.kind in ('fn', 'coroutine', 'closure') and builds(prog, b, 'OutgoingPacketContents')]
    R.floor('functions that construct an outgoing packet', len(roots), 1)
    kinds = set()

    def peer_of(v):
        """ the peer entry a value was read from """
        out = set()
        for x in walk(v):
            if x[0] == 'field' and x[2][1] in ('receiver_state', 'sender_state', 'id') and x[1][0] != 'agg':
                out.add(x[1])
        return out

    for root in roots:
        class O(E.Observer):
            part_cap = 400
            maydepth = 6
            inline_spawn = False

            def relevant(self, f):
                return True

            def inline(self, e, b):
                return len(b.blocks) < 40 and not encrypts(prog, b.id)

            def call(self, e, ctx, st, ev):
                if not (ev.id and encrypts(prog, ev.id)):
                    return
                pk = []
                for a in ev.args:
                    for x in walk(a):
                        if x[0] == 'agg' and x[2] and x[2].endswith('OutgoingPacketContents') and x not in pk:
                            pk.append(x)
                w = src(e, ctx, ev.line)
                outer = [x for x in pk if not any(y is not x and mentions(y, lambda z: z == x) for y in pk)]
                if len(outer) != 1:
                    R.ob('packet/one', False, 'an encrypted buffer holds one packet (%d found)' % len(outer), w)
                    return
                R.ob('packet/one', True, 'an encrypted buffer holds one packet', w)
                p = outer[0]
                d = dict(p[4])
                frm, sig, dates, addr = d.get('from'), d.get('signature'), d.get('reinit_dates'), d.get('address')
                if addr is not None and addr[0] == 'agg':
                    ad = dict(addr[4])
                    if 'expire_at' in ad and 'version' in ad:
                        R.ob('address/version', is_now(ad['version']), 'the version of the announced address is the current time', w)
                        v = ad['expire_at']
                        ok = v[0] == 'bin' and v[1] == 'Add' and any(is_now(a) for a in v[2:4]) and any(has_field(a, 'address_list_timeout_sec') for a in v[2:4])
                        ok = ok or (is_now(v) and has_field(v, 'address_list_timeout_sec') and not mentions(v, lambda z: z[0] == 'bin' and z[1] not in ('Add',)))
                        R.ob('address/expiry', ok, 'the announced address is valid for the configured time from now (%s)' % short(v)[:120], w)
                none = {'from': frm is None or (frm[0] == 'agg' and frm[3] == 'None'),
                        'dates': dates is None or (dates[0] == 'agg' and dates[3] == 'None')}
                who = {pr for k, v in p[4] if k in ('seqno', 'confirm_seqno', 'reinit_dates') for pr in peer_of(v)}
                if not none['from']:
                    R.ob('handshake/dates', not none['dates'], 'a packet that names its sender states the session dates', w)
                    for a, t in zip(ev.args, ev.argtys):
                        if 'NodeIdFull' in t or 'PublicKey' in t:
                            ka = peer_of(a)
                            R.ob('handshake/recipient', bool(ka) and ka <= who, 'the packet is encrypted for the peer whose counters and dates it states', w)
                    s = unsome(sig) if sig is not None else None
                    key = None
                    good = False
                    if s is not None:
                        for x in walk(s):
                            if x[0] == 'call' and last(x[1]) in ('sign', 'sign_raw') and len(x[2]) > 1:
                                signed = [y for y in walk(x[2][1]) if y[0] == 'agg' and y[2] and y[2].endswith('OutgoingPacketContents')]
                                if signed:
                                    y = signed[0]
                                    dy = dict(y[4])
                                    good = all(dy.get(k) == v for k, v in p[4] if k != 'signature') and dy.get('signature', ('',))[0] == 'agg' and dy['signature'][3] == 'None'
                                    key = root_key(x[2][0])
                                    break
                    R.ob('handshake/signed', good, 'a packet that names its sender carries a signature over exactly its other contents', w)
                    if key is not None:
                        named = {root_key(x) for x in walk(unsome(frm)) if x[0] == 'field'}
                        R.ob('handshake/key', key in named, 'the signing key is the key named as the sender', w)
                if not none['dates']:
                    R.ob('peer/one', len(who) <= 1, 'counters and dates of one peer are stated in a packet', w)
                    for x in walk(dates):
                        if x[0] == 'agg' and x[2] and x[2].endswith('ReinitDates'):
                            dd = dict(x[4])
                            l, t = dd['local'], dd['target']
                            k = own_kind(l)
                            kinds.add(k)
                            R.ob('dates/own', k == 'recorded', 'the announced own date is the one recorded for receiving from this peer, which a reset moves (%s)' % short(l)[:120], w)
                            R.ob('dates/target', t[0] == 'call' and last(t[1]) == 'load' and isfield(t[2][0], 'reinit_date') and 'sender_state' in fpath(t[2][0]),
                                 'the stated date of the peer is the newest one seen from it (%s)' % short(t)[:120], w)
                            break

        R.run(O(), root)
    R.floor('obligations of sent packets', len([k for k in R.obs if k.split('/')[0] in ('handshake', 'dates')]), 2)
    # the source of the date received packets are compared with
    near = recv_near(R)
    dl = {b.id for b in deliver_fns(R)}
    comp = set()

    class C(E.Observer):
        maydepth = 16
        part_cap = 200

        def inline(self, e, b):
            return b.id not in dl and near(e, b)

        def learned(self, e, st, k, v):
            for op, a, b in rels(k, v):
                for x, y in ((a, b), (b, a)):
                    if 'reinit_dates' in fpath(x) and 'target' in fpath(x) and own_kind(y):
                        comp.add(own_kind(y))
    R.run(C(), recv_body(R))
    R.ob('compared', comp and comp == kinds, 'received dates are compared with the value that is announced (compared with %s, announced %s)' % (sorted(comp), sorted(map(str, kinds))))
    # methods of the peer entry which replace its state
    n = 0
    for b in methods_of(prog, 'Peer'):
        if b.kind != 'fn' or not b.argc or not b.locals[1][0].startswith('&mut'):
            continue
        n += 1

        class P(E.Observer):
            part_cap = 200
            maydepth = 6

            def relevant(self, f):
                return True

            def inline(self, e, b2):
                return len(b2.blocks) < 40

            def call(self, e, ctx, st, ev):
                if ev.name == 'reset' and ev.args and hist_class(ev.args[0])[0] == 'receiver':
                    return st.marks | {('reset',) + hist_class(ev.args[0])}
                if 'atomic' in ev.p and ev.args and isfield(ev.args[0], 'reinit_date') and 'receiver_state' in fpath(ev.args[0]):
                    if ev.name == 'fetch_add' and ev.args[1][0] == 'const' and ev.args[1][1] > 0:
                        return st.marks | {'forward'}
                    if ev.name in ('store', 'fetch_max', 'swap') and moved(ev.args[1]):
                        return st.marks | {'forward'}

            def exit(self, e, ctx, st, kind, val):
                if kind != 'return' or ctx.depth:
                    return
                got = {h[2][1]: v for h, v in st.heap.items() if h[0] == 'field' and h[1][0] == 'arg' and h[1][1] == 1 and h[2][1] in DATE_FIELDS and v != h} if st.heap else {}
                if not got:
                    return
                w = b.id
                r = got.get('receiver_state')
                fwd = 'forward' in st.marks
                fresh = {('reset', 'receiver', c) for c in ('ordinary', 'priority')} <= st.marks
                if r is not None and r[0] == 'agg':
                    fwd = fwd or moved(atomic_of(dict(r[4]).get('reinit_date', r)))
                    fresh = fresh or all(not mentions(v, lambda z: z[0] == 'arg') for k, v in r[4] if k != 'reinit_date')
                nm = fname(ctx)
                R.ob('reset/date in %s' % nm, fwd, 'when the channel key or the counters of a peer are replaced, the own session date of this peer moves forward', w)
                R.ob('reset/history in %s' % nm, fresh, 'with a new session date no old receiving history is kept (the peer restarts its numbers)', w)
                R.ob('reset/key in %s' % nm, 'channel_key' in got, 'a new session uses a new channel key', w)
        R.run(P(), b)
    R.floor('reset obligations', len([k for k in R.obs if k.startswith('reset/')]), 2)
    # new entries
    m = 0
    for b in prog.bodies.values():
        if b.kind == 'promoted' or any(b.id == x.id for x in methods_of(prog, 'Peer')):
            continue
        if not any(i in {x.id for x in methods_of(prog, 'Peer') if ret_ty(x).endswith('Peer')} for p, r, i, t in body_calls(b)):
            continue

        class NP(E.Observer):
            part_cap = 100
            maydepth = 4

            def inline(self, e, b2):
                return len(b2.blocks) < 40

            def call(self, e, ctx, st, ev):
                nonlocal m
                for a in ev.args:
                    for x in walk(a):
                        if x[0] == 'agg' and x[2] and last(x[2]) == 'Peer' and 'receiver_state' in dict(x[4]):
                            r = dict(x[4])['receiver_state']
                            if r[0] == 'agg' and 'reinit_date' in dict(r[4]):
                                m += 1
                                dt = atomic_of(dict(r[4])['reinit_date'])
                                vs = expand_phi(e, dt)
                                R.ob('new/date in %s' % fname(ctx), all(is_now(v) for v in vs), 'a new peer entry takes its session date from the clock, so that it is not older than a removed entry (%s)' % short(dt)[:120], src(e, ctx, ev.line))
        R.run(NP(), b)
    R.floor('new peer entries', m, 1)


def root_key(v):
    """ the key object: field projections, references and derefs stripped """
    while v[0] in ('field', 'ref', 'deref'):
        v = v[1]
    return v


def own_kind(v):
    if isfield(v, 'start_time'):
        return 'start'
    return 'recorded' if own_date(v) else None


def moved(v):
    """ the recorded own date plus a positive constant, or the maximum of that and something else """
    if v[0] == 'call' and last(v[1]) == 'max':
        return any(moved(a) for a in v[2])
    if v[0] == 'call' and last(v[1]) in ('wrapping_add', 'saturating_add') and len(v[2]) == 2:
        a, c = v[2]
        return own_kind(a) == 'recorded' and c[0] == 'const' and isinstance(c[1], int) and c[1] > 0
    base, off = linear(v)
    return base is not None and own_kind(base) == 'recorded' and off > 0
