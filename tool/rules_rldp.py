"""Rules for the RLDP layer."""
import re
from lib import *
import engine as E
from bounds import Bounds
from engine import sub
from rules_adnl import (nosites, table_op, absent_fact, marks_of, callers, spawned, callee, unsome, root_of, replace, walk_phi, builds, argnames)


FILES = ('src/rldp/', 'src/subscriber')


def in_rldp(b):
    return b.file.startswith('src/rldp/') or b.file.startswith('src/util')


def variant_of(v):
    return v[3] if v[0] == 'agg' else None


def transfer_tables(prog):
    """bodies that change a table of transfers, with the lines"""
    out = []
    for b in prog.bodies.values():
        if b.kind == 'promoted':
            continue
        for p, r, i, t in body_calls(b):
            ga = (callee(t) or {}).get('ga') or []
            if last(p) in ('insert', 'or_insert', 'or_insert_with', 'insert_entry') and 'dashmap' in p and any('RldpTransfer' in str(x) for x in ga):
                out.append(b)
    return out


def task_of(ctx):
    """the innermost spawned task a context runs in, or None"""
    c = ctx
    while c is not None:
        if c.wrap and c.wrap[0] == 'side':
            return c
        c = c.parent
    return None


def elems(e, v):
    """the values an element of an array, or a choice, may stand for"""
    out = set()
    for x in spread(e, v):
        if x[0] == 'call' and last(x[1]) == 'elem' and x[2]:
            for a in spread(e, x[2][0]):
                if a[0] == 'agg' and a[4] and (a[1] in ('array', 'slice') or all(str(f).split('.')[-1].isdigit() for f, _ in a[4])):
                    for _, y in a[4]:
                        out |= spread(e, y)
                else:
                    out |= pushed(e, a) or {x}
        else:
            out.add(x)
    return out


def pushed(e, v, d=0):
    """what was put into a list that starts empty or from an array"""
    if d > 8:
        return None
    if v[0] == 'mut' and last(v[1]) == 'push' and len(v) > 4 and v[4]:
        rest = pushed(e, v[2], d + 1)
        return None if rest is None else rest | spread(e, v[4][-1])
    if v[0] == 'phi':
        out = set()
        for x in spread(e, v):
            r = pushed(e, x, d + 1) if x[0] != 'phi' else None
            if r is None:
                return None
            out |= r
        return out
    if iscall(v, 'iter', 'into_iter', 'deref', 'as_slice', 'into_vec', 'box_new', 'box_assume_init_into_vec_unsafe', 'from') and v[2]:
        return pushed(e, v[2][-1], d + 1)
    if iscall(v, 'new', 'with_capacity') and 'Vec' in v[1]:
        return set()
    if v[0] == 'agg' and v[1] == 'array':
        return {y for _, x in v[4] for y in spread(e, x)}
    return None


@rule('R03', 'every transfer entry is retired on every exit, including cancellation, and by tasks that do not wait for the peer',
      'path-sensitive typestate of table entries over normal and cancellation exits, summaries of spawned tasks',
      'Both public entry points of the transfer table are followed through every function of the layer, including the cancellation '
      'edge of every suspension point and every task they spawn. At each exit every key inserted on that path is removed, or it holds '
      'the tombstone and a task that removes it on all its own paths was spawned. A task removes the entries it inserted itself on all '
      'its paths. An entry that still accepts parts when the entry point returns has a task that retires it without waiting for parts.')
def r03(R):
    prog = R.prog
    seen_ins = set()
    roots = [('query', R.async_body(R.method('TransfersCache', 'query'))),
             ('handle_message', R.async_body(R.method('TransfersCache', 'handle_message')))]
    for what, root in roots:
        exits = []            # (kind, frozenset of entries, frozenset of tasks, where)
        ends = {}             # task id -> [set of removed keys]
        early = {}            # task id -> keys retired without waiting for parts
        left = {}             # task id -> [own keys not removed]

        class O(E.Observer):
            maydepth = 12
            part_cap = 400
            cancel = True

            def inline(self, e, b):
                return in_rldp(b) and 'compression' not in b.file and 'coder' not in b.file and b.name != 'process_rldp_query' and 'process_rldp_query' not in b.id

            def relevant(self, f):
                ns = names(fact_val(f))
                return 'completed' in ns

            def nonempty(self, e, ctx, it):
                return any(x[0] == 'agg' and x[4] or x[0] in ('mut', 'call') and pushed(e, x) for x in spread(e, it))

            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if ev.name == 'recv' and 'mpsc' in ev.p:
                    return st.marks | {'recv'}
                if ev.name == 'spawn' and 'tokio' in ev.p:
                    c = ev.args[0]
                    cid = c[2] if c[0] == 'agg' else None
                    R.count('spawned tasks')
                    return (st.marks - {'recv'}) | {('task', cid)}
                if ev.name == 'alter' and len(ev.args) == 3 and 'transfers' in fpath(ev.args[0]):
                    tc = task_of(ctx)
                    if tc is not None and 'recv' not in st.marks and results(prog, ev.args[2]) == {'Done'}:
                        early.setdefault(tc.body.id, set()).update(nosites(k) for k in elems(e, ev.args[1]))
                    return
                op = table_op(ev)
                if not op or op[1] != 'transfers':
                    if not op or 'transfers' not in fpath(ev.args[0]):
                        return
                kind, _, key, val = op
                tc = task_of(ctx)
                tid = tc.body.id if tc else None
                if key is None:
                    R.fail('bulk/%s' % fname(ctx), 'transfers are changed in bulk', w)
                    return
                keys = frozenset(nosites(k) for k in elems(e, key))
                if kind == 'insert':
                    vs = {variant_of(x) for x in spread(e, val)}
                    seen_ins.add(ctx.body.id)
                    R.count('insertions met')
                    vs = frozenset(vs)
                    m = {x for x in st.marks if not (isinstance(x, tuple) and x[0] == 'ent' and x[1] == keys)}
                    if vs == {'Done'} and tid and 'recv' not in st.marks:
                        early.setdefault(tid, set()).update(keys)
                    return frozenset(m) | {('ent', keys, vs, tid)}
                if kind == 'remove':
                    if tid and 'recv' not in st.marks:
                        early.setdefault(tid, set()).update(keys)
                    m = {x for x in st.marks if not (isinstance(x, tuple) and x[0] == 'ent' and x[1] <= keys)}
                    return frozenset(m) | {('gone', k) for k in keys}

            def write(self, e, ctx, st, loc, val, line):
                tc = task_of(ctx)
                if tc is None:
                    return
                l = loc
                if has_call(l, 'get_mut', 'entry') and root_field(l) == 'transfers' and variant_of(val) == 'Done':
                    ks = {nosites(x[2][1]) for x in walk(l) if x[0] == 'call' and last(x[1]) in ('get_mut', 'entry') and len(x[2]) > 1}
                    if 'recv' not in st.marks:
                        early.setdefault(tc.body.id, set()).update(ks)

            def ret(self, e, ctx, st, ev):
                if ctx.wrap and ctx.wrap[0] == 'side':
                    gone = frozenset(m[1] for m in st.marks if isinstance(m, tuple) and m[0] == 'gone')
                    ends.setdefault(ctx.body.id, []).append(gone)
                    own = [m for m in st.marks if isinstance(m, tuple) and m[0] == 'ent' and m[3] == ctx.body.id]
                    nm = ctx.body.id.split('::')[-1]
                    for m in own:
                        # `x` is kept only for its key having been handed back as the one to remove
                        R.ob('task/%s/%s' % (what, fname(ctx)), False, 'a task ends with an entry it inserted (%s) still in the table' % '/'.join(str(x) for x in m[2]), one_line(ctx, ctx.body.line))
                    if not own:
                        R.ob('task/%s/%s' % (what, fname(ctx)), True, 'a task removes the entries it inserts', one_line(ctx, ctx.body.line))

            def exit(self, e, ctx, st, kind, val):
                ents = frozenset(m for m in st.marks if isinstance(m, tuple) and m[0] == 'ent')
                tasks = frozenset(m[1] for m in st.marks if isinstance(m, tuple) and m[0] == 'task')
                exits.append((kind, ents, tasks, short(val)[:120] if val else 'future dropped'))
        R.run(O(), root)
        allgone = {t: frozenset.intersection(*v) for t, v in ends.items()}
        n = 0
        for kind, ents, tasks, text in exits:
            R.count('exits of %s' % what)
            for m in ents:
                _, keys, vs, _ = m
                n += 1
                later = any(keys <= allgone.get(t, frozenset()) for t in tasks)
                R.ob('%s/removed on %s' % (what, kind), later, 'at this exit (%s) an entry (%s) is in the table and %s' % (
                    text, '/'.join(str(x) for x in vs), 'a spawned task removes it' if later else 'no spawned task removes it on all its paths'), '%s:%s' % (root.file, root.line))
                if vs != {'Done'}:
                    ok = any(keys <= early.get(t, set()) for t in tasks)
                    R.ob('%s/closed on %s' % (what, kind), ok, 'at this exit (%s) an entry still accepts parts and %s' % (
                        text, 'a task closes it without waiting for parts' if ok else 'nothing closes it if the peer stops sending'), '%s:%s' % (root.file, root.line))
        R.floor('%s: entries met at exits' % what, n, 1)
        R.floor('%s: tasks' % what, len(ends), 2)
    cancels = R.counts.get('exits of query', 0)
    for b in transfer_tables(prog):
        R.ob('analysed/%s' % b.id.split('::')[-1], b.id in seen_ins, 'every insertion into the table was met from an entry point', '%s:%s' % (b.file, b.line))
    R.floor('functions that insert transfers', len(transfer_tables(prog)), 3)


def results(prog, c):
    """the variants a closure returns"""
    b = prog.bodies.get(c[2]) if c[0] == 'agg' and c[1] == 'closure' else None
    if b is None:
        return None
    out = set()

    class C(E.Observer):
        maydepth = 2

        def exit(self, e, ctx, st, kind, val):
            if kind == 'return':
                out.update(variant_of(x) for x in spread(e, val))
    E.run(prog, C(), b)
    return out


def wide(v):
    """strip conversions that cannot lose bits of a 64-bit value"""
    while True:
        if v[0] == 'cast' and str(v[1]) in ('usize', 'u64', 'u128', 'i128'):
            v = v[2]
        elif v[0] == 'call' and last(v[1]) in ('from', 'into') and len(v[2]) == 1:
            v = v[2][0]
        else:
            return v


def same(a, b):
    return nosites(wide(a)) == nosites(wide(b))


def is_msg(v, f):
    """a field of the received part"""
    v = wide(v)
    return v[0] == 'field' and v[2][0] == 'f' and v[2][1].split('.')[-1] == f and not has_arg(v, 'self')


def is_self(v, f):
    v = wide(v)
    if v[0] == 'field' and v[2][0] == 'f' and v[2][1] in ('Some.0',):
        v = v[1]
    return isfield(v, f) and has_arg(v, 'self')


ALLOC = {'reserve', 'reserve_exact', 'with_capacity', 'resize', 'from_elem', 'try_reserve', 'try_reserve_exact', 'resize_with', 'set_len', 'zeroed'}


def chunk_methods(R):
    """methods of the incoming transfer that take a received part"""
    ms = [b for b in methods_of(R.prog, 'IncomingTransfer') if any('MessagePart' in b.locals[i][0] for i in range(1, b.argc + 1))]
    pub = [b for b in ms if not any(prog_calls(R.prog, c, b.id) for c in ms if c is not b)]
    return R.need('a method of IncomingTransfer that takes a message part', pub or ms)


def prog_calls(prog, a, bid):
    return any(i == bid for p, r, i, t in body_calls(a))


class Chunk(E.Observer):
    """guards of the processing of one received part"""
    maydepth = 6
    part_cap = 400

    def inline(self, e, b):
        return b.file.endswith('incoming_transfer.rs')

    def relevant(self, f):
        return True

    def learned(self, e, st, k, v):
        out = []
        for op, a, b in rels(k, v):
            if op in ('<', '<=') and is_msg(a, 'total_size') and isfield(wide(b), 'max_answer_size'):
                out.append('fit')
            if op == '==':
                for x, y in ((a, b), (b, a)):
                    if is_self(x, 'total_size') and is_msg(y, 'total_size'):
                        out.append('known')
                    if is_self(x, 'part') and is_msg(y, 'part'):
                        out.append('samepart')
                    if iscall(x, 'params') and is_msg(y, 'fec_type'):
                        out.append(('params', nosites(x[2][0])))
            if op == '<' and is_msg(a, 'part') and is_self(b, 'part'):
                out.append('oldpart')
            if op == '<=' and is_msg(a, 'part') and is_self(b, 'part'):
                out += ['notlater'] + (['samepart'] if 'notearlier' in st.marks else [])
            if op == '<=' and is_self(a, 'part') and is_msg(b, 'part'):
                out += ['notearlier'] + (['samepart'] if 'notlater' in st.marks else [])
        return out


def total_known(st):
    return 'fit' in st.marks or 'known' in st.marks


def totals(e, v):
    """every alternative of v is the declared size of the transfer"""
    return all(is_msg(x, 'total_size') or is_self(x, 'total_size') for x in spread(e, wide(v)))


def all_callers_in(prog, bid, ids):
    cs = callers(prog, bid)
    return bool(cs) and all((c.id if hasattr(c, 'id') else c) in ids for c in cs)


@rule('R01', 'size limits dominate reservations, decoders and answers; decompression is bounded',
      'guard facts at allocation and construction sites, provenance of limits, who-may-call query',
      'Where a received part is processed, every reservation and every store of the declared total size is dominated by the comparison '
      'with the configured limit (without a narrowing conversion), and every decoder is created only under a fact that bounds its '
      'declared size by what remains of the transfer. Every answer is built under the fact that its final length is within the limit of '
      'the query. The limits are the configured ones. Decompression of received data has a bounded output.')
def r01(R):
    prog = R.prog
    for b in chunk_methods(R):
        class O(Chunk):
            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if ev.name in ALLOC and ev.args:
                    sizes = [a for a in ev.args if mentions(a, lambda x: x[0] == 'field' and x[2][0] == 'f' and x[2][1] in ('total_size', 'total_len', 'packet_len', 'packet_count'))]
                    for s in sizes:
                        if s is ev.args[0] and len(ev.args) > 1:
                            continue
                        R.ob('reserve/%s' % fname(ctx), total_known(st) and all(is_msg(x, 'total_size') or is_self(x, 'total_size') or not has_field(x, 'total_size', 'total_len', 'packet_len', 'packet_count') for x in spread(e, wide(s))),
                             'memory of a size stated by the peer (%s) is reserved only after it was compared with the limit' % short(s)[:80], w)
                        R.count('reservations')
                if ev.name in ('with_params', 'new') and ('Decoder' in ev.p):
                    fec = [a for a in ev.args if has_field(a, 'fec_type')]
                    ok = False
                    for op, a, c in all_rels(st):
                        if op not in ('<', '<='):
                            continue
                        if has_field(a, 'total_len') and not has_field(a, 'data') and iscall(wide(c), 'saturating_sub') and totals(e, wide(c)[2][0]) and has_field(wide(c)[2][1], 'data'):
                            ok = True
                        if has_field(a, 'total_len') and has_field(a, 'data') and has_call(a, 'len') and totals(e, c):
                            ok = True
                        if has_field(a, 'total_len') and not has_field(a, 'data') and c[0] == 'bin' and c[1] == 'Sub' and totals(e, c[2]) and has_field(c[3], 'data'):
                            ok = True
                        if has_field(a, 'total_len') and totals(e, c):
                            ok = True
                    R.ob('decoder/%s' % fname(ctx), ok and total_known(st), 'a decoder is created from the sizes of the peer only after they were compared with what remains of the transfer', w)
                    R.count('decoders')

            def write(self, e, ctx, st, loc, val, line):
                if isfield(loc, 'total_size'):
                    R.ob('total/%s' % fname(ctx), 'fit' in st.marks and all(is_msg(unsome(x), 'total_size') for x in spread(e, val)), 'the declared size is accepted only after it was compared with the limit', src(e, ctx, line))
                    R.count('stores of the declared size')
        R.run(O(), b)
    for n in ('reservations', 'decoders', 'stores of the declared size'):
        R.floor(n, R.counts.get(n, 0), 1)
    # provenance of the limit
    for b in prog.bodies.values():
        if b.kind == 'promoted' or not b.file.startswith('src/rldp'):
            continue
        mk_t, mk_c = builds(prog, b, 'IncomingTransfer'), builds(prog, b, 'TransfersCache')
        calls = any(last(p) == 'new' and 'IncomingTransfer' in p for p, r, i, t in body_calls(b))
        if not (mk_t or mk_c or calls):
            continue

        class P(E.Observer):
            maydepth = 1

            def inline(self, e, b2):
                return False

            def call(self, e, ctx, st, ev):
                if ev.name == 'new' and ev.p.split('::')[-2:][0].startswith('IncomingTransfer'):
                    a = ev.args[-1]
                    R.ob('limit/%s' % fname(ctx), isfield(wide(a), 'max_answer_size') or wide(a)[0] == 'arg' and wide(a)[2] == 'max_answer_size', 'an incoming transfer gets the configured limit, got %s' % short(a)[:100], src(e, ctx, ev.line))
                    R.count('incoming transfers created')

            def exit(self, e, ctx, st, kind, val):
                for x in walk(val) if val else ():
                    if x[0] == 'agg' and x[4] and str(x[2]).endswith(('IncomingTransfer', 'TransfersCache')):
                        d = dict(x[4])
                        m = d.get('max_answer_size')
                        if m is not None:
                            ok = wide(m)[0] == 'arg' or isfield(wide(m), 'max_answer_size')
                            R.ob('limit/%s' % b.id.split('::')[-2 if 'impl' not in b.id.split('::')[-2] else -1], ok, 'the limit of a transfer is the configured one, got %s' % short(m)[:100], one_line(ctx, b.line))
        R.run(P(), b)
    R.floor('incoming transfers created', R.counts.get('incoming transfers created', 0), 2)
    # answers
    r01_answers(R)
    r01_stated(R)
    # decompression
    n = 0
    dec = [b for b in prog.bodies.values() if b.name == 'decompress' and b.file.startswith('src/rldp/') and b.self_ty is None]
    ent = {b.id for b in dec} | {c for c in prog.bodies if dec and c.split('::{closure')[0] != dec[0].id and prog.bodies[c].file == dec[0].file and all_callers_in(prog, c, {b.id for b in dec})}
    for b in prog.bodies.values():
        if b.kind == 'promoted':
            continue
        nm = b.name or b.id.split('::')[-2]
        for p, r, i, t in body_calls(b):
            if 'zstd' not in p:
                continue
            if last(p) in ('decode_all', 'copy_decode'):
                n += 1
                R.fail('decompress/%s in %s' % (last(p), nm) if b.id not in ent else 'decompress/%s in decompress' % last(p), 'received data is decompressed without a bound on the size of the result', '%s:%s' % (b.file, t[5] if len(t) > 5 and isinstance(t[5], int) else b.line))
            elif last(p) in ('decompress', 'decompress_to_buffer', 'decompress_with_dict'):
                n += 1
                R.ob('decompress/%s in %s' % (last(p), nm), True, 'decompression into a buffer of limited capacity', '%s:%s' % (b.file, b.line))
            elif 'Decoder' in p and last(p) in ('new', 'with_buffer'):
                n += 1
                R.ob('decompress/%s in %s' % (last(p), nm), any(last(q) == 'take' and 'Read' in q for q, _, _, _ in body_calls(b)), 'a streaming decoder is read through a limit', '%s:%s' % (b.file, b.line))
    R.floor('decompression calls', n, 1)


def r01_stated(R):
    """the limit a query states is the limit its answer is received under"""
    prog = R.prog

    def queries(b):
        return any(s[0] == '=' and s[2][0] == 'agg' and len(s[2]) > 3 and str(s[2][2]).endswith('rldp::Message') and 'Query' in str(s[2][3:5]) for blk in b.blocks for s in blk['s'])
    bs = [b for b in prog.bodies.values() if b.kind != 'promoted' and b.file.startswith('src/rldp') and '::tests' not in b.id and queries(b)]
    R.floor('functions that build large queries', len(bs), 1)

    def run(S, body):
        class A(E.Observer):
            maydepth = 3

            def inline(self, e, b):
                return b.file.startswith('src/rldp') and queries(b)

            def call(self, e, ctx, st, ev):
                for a in ev.args:
                    for z in walk(a):
                        if z[0] == 'agg' and z[3] == 'Query' and str(z[2]).endswith('rldp::Message'):
                            d = {f.split('.')[-1]: x for f, x in z[4]}
                            m = uncast(wide(d['max_answer_size']))
                            S.ob('stated/%s' % fname(ctx), isfield(m, 'max_answer_size'), 'a query states the configured limit of its answer, got %s' % short(m)[:80], src(e, ctx, ev.line))
                            S.count('queries built')
        S.run(A(), body)
    escalate(R, bs, run)
    R.floor('queries built', R.counts.get('queries built', 0), 1)


def r01_answers(R):
    prog = R.prog

    def answers(b):
        for blk in b.blocks:
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'agg' and len(s[2]) > 3 and str(s[2][2]).endswith('rldp::Message') and 'Answer' in str(s[2][3:5]):
                    return True
        return False
    bs = [b for b in prog.bodies.values() if b.kind != 'promoted' and b.file.startswith('src/rldp') and answers(b)]
    R.floor('functions that build large answers', len(bs), 1)

    def run(S, body):
        class A(E.Observer):
            maydepth = 3
            part_cap = 100

            def inline(self, e, b):
                return b.file.startswith('src/rldp') and answers(b)

            def relevant(self, f):
                return 'max_answer_size' in names(fact_val(f))

            def call(self, e, ctx, st, ev):
                for a in ev.args:
                    if a[0] == 'agg' and a[3] == 'Answer' and str(a[2]).endswith('rldp::Message'):
                        d = {f.split('.')[-1]: x for f, x in a[4]}
                        x = d['data']
                        ok = False
                        for op, p, q in all_rels(st):
                            if op in ('<', '<=') and iscall(wide(p), 'len') and nosites(wide(p)[2][0]) == nosites(x) and isfield(wide(q), 'max_answer_size'):
                                ok = True
                        S.ob('answer/%s' % fname(ctx), ok, 'an answer is built only when its final length is within the limit of the query', src(e, ctx, ev.line))
                        S.count('answers built')
        S.run(A(), body)
    escalate(R, bs, run)
    R.floor('answers built', R.counts.get('answers built', 0), 1)


@rule('R02', 'only matching parts are decoded; a part is appended once, in order, acknowledged; delivery only when complete',
      'guard facts at decode and append sites, typestate of part advance, provenance of what is delivered',
      'Processing of a received part: the decoder is fed only when the part number, the total size and the decoder parameters match; the '
      'decoded bytes and nothing else are appended, only while they fit; the part number then advances by exactly one together with a '
      'fresh decoder unless the total is reached; each completed or repeated part is answered with its acknowledgement, a repeated one '
      'without touching the data. Reception reports completion only under the fact that the data has reached the total; only then it is '
      'handed to the waiting query or to the handlers. Sending: a part advances only from its predecessor by an atomic exchange, '
      'acknowledgements of other parts are ignored, and each packet carries the number, size and parameters of the part being encoded.')
def r02(R):
    prog = R.prog
    for b in chunk_methods(R):
        class O(Chunk):
            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if ev.name == 'decode' and 'Decoder' in ev.p:
                    R.ob('decode/part', 'samepart' in st.marks, 'data is decoded only for the expected part', w)
                    R.ob('decode/total', total_known(st), 'data is decoded only when the declared size is that of the transfer', w)
                    ps = {m[1] for m in st.marks if isinstance(m, tuple) and m[0] == 'params'}
                    bad = []
                    for x in spread(e, ev.args[0]):
                        fresh = mentions(x, lambda y: iscall(y, 'with_params', 'new') and any(is_msg(z, 'fec_type') for z in y[2]))
                        if not fresh and nosites(x) not in ps:
                            bad.append(short(x)[:80])
                    R.ob('decode/params', not bad, 'the decoder was created from, or compared with, the parameters of this part; not so: %s' % bad, w)
                    R.ob('decode/data', is_msg(ev.args[1], 'seqno') and is_msg(ev.args[2], 'data'), 'the decoder gets the number and the bytes of this packet', w)
                    R.count('decodes')
                    return st.marks | {'decoded'}
                if ev.args and is_self(ev.args[0], 'data') and ev.p.split('::')[-2:][0].startswith(('Vec', 'vec')) or (ev.name in ('append', 'extend_from_slice', 'extend', 'push', 'insert') and ev.args and is_self(ev.args[0], 'data')):
                    if ev.name in ('append', 'extend_from_slice', 'extend'):
                        x = ev.args[1]
                        R.ob('append/decoded', 'decoded' in st.marks and all(unchanged_from(y, 'decode') for y in spread(e, x)), 'exactly the decoded bytes are appended to the message, got %s' % short(x)[:80], w)
                        have = lambda v: mentions(v, lambda z: iscall(z, 'len') and is_self(z[2][0], 'data'))
                        more = lambda v: mentions(v, lambda z: iscall(z, 'len') and has_call(z, 'decode'))
                        fits = any(op in ('<', '<=') and (totals(e, q) and have(p) and more(p) or more(p) and not have(p) and rest_of(e, q, have)) for op, p, q in all_rels(st))
                        R.ob('append/fits', fits, 'decoded bytes are appended only while they fit into the declared size', w)
                        R.ob('append/once', 'appended' not in st.marks, 'the bytes of a part are appended once', w)
                        R.count('appends')
                        return st.marks | {'appended'}
                    if ev.name not in ('len', 'reserve', 'reserve_exact', 'as_slice', 'deref', 'is_empty', 'capacity', 'try_reserve', 'try_reserve_exact'):
                        R.ob('data/%s' % ev.name, False, 'the received data is changed by something else than appending a decoded part (%s)' % ev.name, w)
                for a in ev.args:
                    if a[0] == 'agg' and a[3] in ('Complete', 'Confirm') and str(a[2]).endswith('MessagePart'):
                        d = {f.split('.')[-1]: x for f, x in a[4]}
                        ok = (is_msg(d['part'], 'part') or is_self(d['part'], 'part') and 'advanced' not in st.marks and 'samepart' in st.marks) and is_self(d['transfer_id'], 'transfer_id')
                        R.ob('ack/%s' % a[3], ok, 'an acknowledgement names this transfer and this part', w)
                        R.count('acknowledgements')
                        return st.marks | {a[3]}

            def write(self, e, ctx, st, loc, val, line):
                w = src(e, ctx, line)
                if isfield(loc, 'part') and has_arg(loc, 'self'):
                    base, off = linear(val)
                    R.ob('advance/by one', base is not None and is_self(base, 'part') and off == 1, 'the expected part advances by one, to %s' % short(val)[:60], w)
                    R.ob('advance/after append', 'appended' in st.marks and 'advanced' not in st.marks, 'the expected part advances once, after its bytes were appended', w)
                    R.count('advances')
                    return st.marks | {'advanced'}
                if isfield(loc, 'decoder') and has_arg(loc, 'self') and variant_of(val) == 'None':
                    return st.marks | {'reset'}

            def exit(self, e, ctx, st, kind, val):
                w = one_line(ctx, b.line)
                ok = val is not None and val[0] == 'agg' and val[3] == 'Ok'
                if 'appended' in st.marks:
                    R.ob('done/acknowledged', ok and 'Complete' in st.marks, 'a completed part is acknowledged', w)
                    full = any(op in ('<=', '==') and totals(e, p) and has_call(q, 'len') and has_field(q, 'data') for op, p, q in all_rels(st))
                    R.ob('done/advance', 'advanced' in st.marks and 'reset' in st.marks or full, 'after a part was appended the next one is expected with a new decoder, or the total has been reached', w)
                if 'advanced' in st.marks:
                    R.ob('done/reset', 'reset' in st.marks, 'a new part starts with a new decoder', w)
                if 'oldpart' in st.marks:
                    R.ob('old/acknowledged', ok and 'Complete' in st.marks, 'a packet of a completed part is acknowledged again', w)
                    R.ob('old/data', 'appended' not in st.marks and 'decoded' not in st.marks, 'a packet of a completed part changes nothing', w)
                    R.count('exits for completed parts')
        R.run(O(), b)
    for n in ('decodes', 'appends', 'advances', 'exits for completed parts'):
        R.floor(n, R.counts.get(n, 0), 1)
    R.floor('acknowledgements', R.counts.get('acknowledgements', 0), 2)
    r02_decoder(R)
    recv = r02_receive(R)
    r02_deliver(R, recv)
    r02_outgoing(R)
    r02_query_bytes(R)


VIEWS = ('deref', 'deref_mut', 'as_slice', 'as_ref', 'borrow', 'iter', 'into_iter', 'copied', 'cloned', 'clone', 'to_vec', 'into_boxed_slice', 'into_vec', 'into', 'from', 'as_mut')


def unchanged_from(v, name):
    """v is what the named call returned (unpacked, viewed or copied), and nothing else was done to it"""
    while True:
        if iscall(v, name):
            return True
        if v[0] == 'field' and v[2][0] in ('f', 'v', '*'):
            v = v[1]
        elif v[0] == 'call' and last(v[1]) in VIEWS and len(v[2]) == 1:
            v = v[2][0]
        elif v[0] in ('cast', 'ref', 'deref') and isinstance(v[-1], tuple):
            v = v[-1]
        elif v[0] == 'agg' and v[3] in ('Some', 'Ok') and len(v[4]) == 1:
            v = v[4][0][1]
        else:
            return False


def rest_of(e, v, part):
    """v is what remains of the declared size besides the part"""
    v = wide(v)
    if iscall(v, 'saturating_sub') and len(v[2]) == 2:
        return totals(e, v[2][0]) and part(v[2][1])
    return v[0] == 'bin' and v[1] == 'Sub' and totals(e, v[2]) and part(v[3])


def r02_decoder(R):
    """the decoder gives back what the fountain code decoded from the packets it was given, and nothing else"""
    prog = R.prog
    def engine_call(p):
        return last(p) == 'decode' and 'raptorq' in p and p.split('::')[-2].startswith('Decoder')
    ds = R.need('a method that decodes a symbol', [b for b in methods_of(prog, 'RaptorQDecoder') if any(engine_call(p) for p, r, i, t in body_calls(b))])
    for b in ds:
        class D(E.Observer):
            maydepth = 3
            part_cap = 100

            def inline(self, e, b2):
                return b2.file == b.file

            def relevant(self, f):
                return True

            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if engine_call(ev.p):
                    x = ev.args[-1]
                    ok = any(iscall(y, 'new') and 'EncodingPacket' in y[1] and len(y[2]) == 2 and y[2][-1][0] == 'arg' and mentions(y[2][0], lambda z: z[0] == 'arg' and z[2] == 'seqno') for y in walk(x))
                    R.ob('symbol/%s' % b.name, ok, 'the fountain code gets the number and the bytes of the packet, got %s' % short(x)[:100], w)
                    R.count('symbols given to the fountain code')

            def exit(self, e, ctx, st, kind, val):
                if kind != 'return' or val is None:
                    return
                for x in spread(e, val):
                    if x[0] == 'agg' and x[3] == 'None':
                        continue
                    ok = unchanged_from(x, 'decode') and mentions(x, lambda y: y[0] == 'call' and engine_call(y[1]))
                    R.ob('decoded/%s' % b.name, ok, 'what is reported as decoded is what the fountain code returned, got %s' % short(x)[:80], one_line(ctx, b.line))
        R.run(D(), b)
    R.floor('symbols given to the fountain code', R.counts.get('symbols given to the fountain code', 0), 1)
    # sizes of the fountain code
    for b in methods_of(prog, 'RaptorQDecoder'):
        class N(E.Observer):
            maydepth = 2

            def inline(self, e, b2):
                return b2.file == b.file

            def call(self, e, ctx, st, ev):
                if 'ObjectTransmissionInformation' in ev.p and ev.name in ('with_defaults', 'new') and len(ev.args) >= 2:
                    a, c = uncast(wide(ev.args[0])), ev.args[1]
                    R.ob('sizes/%s' % b.name, isfield(a, 'total_len') and has_field(c, 'packet_len') and not mentions(c, lambda z: z[0] == 'bin'), 'the fountain code is set up with the sizes of the part: %s, %s' % (short(a)[:60], short(c)[:60]), src(e, ctx, ev.line))
                    R.count('fountain codes set up')
        R.run(N(), b)
    R.floor('fountain codes set up', R.counts.get('fountain codes set up', 0), 1)


def receivers(R):
    """coroutines that receive parts and report whether the message is complete"""
    prog = R.prog
    ids = {b.id for b in chunk_methods(R)}
    out = []
    for b in prog.bodies.values():
        if b.kind == 'coroutine' and any(i in ids for p, r, i, t in body_calls(b)):
            out.append(b)
    return R.need('a receive loop', out)


def r02_receive(R):
    prog = R.prog
    near = {b.id for b in methods_of(prog, 'IncomingTransfer')} - {b.id for b in chunk_methods(R)}
    chunk = {b.name for b in chunk_methods(R)}
    names_ = set()
    for b in receivers(R):
        fn = prog.bodies[b.id.split('::{closure')[0]] if b.id.split('::{closure')[0] in prog.bodies else b
        names_.add(fn.name)

        class O(E.Observer):
            maydepth = 4
            part_cap = 200

            def inline(self, e, b2):
                return b2.id in near or b2.id.startswith(fn.id)

            def relevant(self, f):
                return True

            def learned(self, e, st, k, v):
                if k[0] == 'var' and v == 'Some' and k[1][0] == 'field' and mentions(k[1], lambda x: x[0] == 'call' and last(x[1]) in chunk):
                    return ('v', 'reply', k[1]),
                for op, a, c in rels(k, v):
                    if op in ('<=', '==') and all(complete_rel(op, x, y) for x in spread(e, a) for y in spread(e, c)):
                        return ('full',)

            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if ev.name == 'recv':
                    rep = [m for m in st.marks if isinstance(m, tuple) and m[:2] == ('v', 'reply')]
                    R.ob('reply/sent', not rep or 'sent' in st.marks, 'the acknowledgement made for a packet is sent before the next packet is taken', w)
                    R.count('rounds of the receive loop')
                    return frozenset(m for m in st.marks if m != 'sent' and not (isinstance(m, tuple) and m[:2] == ('v', 'reply')))
                if ev.name in chunk:
                    return frozenset(m for m in st.marks if m != 'full')
                if ev.name == 'send_custom_message' and any(mentions(a, lambda x: x[0] == 'call' and last(x[1]) in chunk or isfield(x, 'buffer')) for a in ev.args):
                    return st.marks | {'sent'}

            def exit(self, e, ctx, st, kind, val):
                if kind != 'return' or val is None:
                    return
                for x in spread(e, val):
                    x = E.settled(st, x)
                    if x[0] == 'const' and not x[1]:
                        continue
                    said = [r for r in rels(x, True) if r[0] in ('<=', '==')]
                    R.ob('complete/%s' % fn.name, 'full' in st.marks or any(all(complete_rel(op, y, z) for y in spread(e, a) for z in spread(e, c)) for op, a, c in said), 'reception reports completion only when the data has reached the declared size', one_line(ctx, b.line))
                    R.count('completions')
        R.run(O(), b)
    R.floor('completions', R.counts.get('completions', 0), 1)
    return names_


def complete_rel(op, a, b):
    if iscall(wide(b), 'len') and has_field(b, 'data') and has_field(a, 'total_size'):
        return True
    return op == '==' and iscall(wide(a), 'len') and has_field(a, 'data') and has_field(b, 'total_size')


def r02_deliver(R, recv):
    """the assembled message leaves the transfer only after a complete reception"""
    prog = R.prog
    for what, root in (('query', R.async_body(R.method('TransfersCache', 'query'))),
                       ('answer', R.async_body(R.entry('TransfersCache', 'create_answer_handler', ('TransfersCache', 'handle_message'))))):
        class O(E.Observer):
            maydepth = 6
            part_cap = 200

            def inline(self, e, b):
                return b.file.endswith('transfers_cache.rs') and b.name not in recv and not any(('::%s::' % n) in b.id for n in recv) and b.name not in ('send', 'answer', 'process_rldp_query')

            def learned(self, e, st, k, v):
                x = k
                while x[0] == 'await':
                    x = x[1]
                if v is True and x[0] == 'call' and last(x[1]) in recv and k[0] == 'await':
                    return ('complete',)

            def write(self, e, ctx, st, loc, val, line):
                if has_call(loc, 'lock', 'write') and variant_of(val) == 'Some':
                    R.ob('deliver/%s' % what, 'complete' in st.marks, 'the assembled data is handed to the waiting query only after a complete reception', src(e, ctx, line))
                    R.count('deliveries to a query')

            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if ev.name in recv:
                    return st.marks - {'complete'}
                if ev.name in ('answer', 'take_data', 'into_data', 'from_data'):
                    if what == 'answer':
                        R.ob('deliver/%s' % what, 'complete' in st.marks, 'a query is processed only after a complete reception', w)
                        R.count('deliveries to the handlers')
                if ev.name == 'into_data' and what == 'query':
                    R.ob('taken/%s' % what, 'complete' in st.marks or all('lock' in str(x) for x in spread(e, ev.args[0])), 'the answer of a query is the one left by its receiving task', w)
                    R.count('answers taken')
        R.run(O(), root)
    R.floor('deliveries to a query', R.counts.get('deliveries to a query', 0), 1)
    R.floor('deliveries to the handlers', R.counts.get('deliveries to the handlers', 0), 1)


def r02_outgoing(R):
    prog = R.prog
    # who may change the part of an outgoing transfer
    n = 0
    for b in methods_of(prog, 'OutgoingTransferState'):
        class S(E.Observer):
            maydepth = 1

            def inline(self, e, b2):
                return False

            def learned(self, e, st, k, v):
                for op, x, y in rels(k, v):
                    if op in ('<=', '<') and (has_field(y, 'seqno_out') or has_call(y, 'seqno_out')) and x[0] == 'arg':
                        return ('sent number',)

            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if 'atomic' not in ev.p or not ATOMIC_MUT.match(ev.name):
                    return
                f = root_field(ev.args[0])
                if f == 'part':
                    ok = ev.name.startswith('compare_') and len(ev.args) > 2
                    if ok:
                        (b0, o0), (b1, o1) = linear(ev.args[1]), linear(ev.args[2])
                        ok = b0 == b1 and b0 is not None and o1 - o0 == 1
                    R.ob('part/%s' % b.name, ok, 'the part of an outgoing transfer advances only from its predecessor', w)
                    R.count('changes of the outgoing part')
                if f == 'seqno_in':
                    R.ob('window/%s' % b.name, ev.name == 'fetch_max' and 'sent number' in st.marks, 'the confirmed number only grows and never passes the sent one', w)
                if f == 'seqno_out':
                    R.ob('sent/%s' % b.name, ev.name == 'fetch_max', 'the sent number only grows', w)
        R.run(S(), b)
    R.floor('changes of the outgoing part', R.counts.get('changes of the outgoing part', 0), 1)
    # acknowledgements
    hm = R.async_body(R.method('TransfersCache', 'handle_message'))

    class H(E.Observer):
        maydepth = 3
        part_cap = 100

        def inline(self, e, b):
            return b.file.endswith('transfers_cache.rs') and b.name != 'create_answer_handler' and 'create_answer_handler' not in b.id

        def relevant(self, f):
            return True

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            if ev.name == 'set_seqno_in':
                x = ev.args[0]
                ok = any(op == '==' and any((has_call(p, 'part') or has_field(p, 'part')) and has_field(p, 'transfers') and isfield(q, 'Confirm.part') for p, q in ((a, c), (c, a))) for op, a, c in all_rels(st))
                R.ob('confirm/part', ok, 'a confirmation counts only for the part being sent', w)
                R.ob('confirm/transfer', has_field(x, 'transfers') and has_call(x, 'get') and mentions(x, lambda y: isfield(y, 'Confirm.transfer_id')), 'a confirmation counts only for the transfer it names', w)
                R.count('confirmations')
            if ev.name == 'set_part':
                v = ev.args[1]
                ok = mentions(v, lambda y: iscall(y, 'checked_add', 'saturating_add', 'wrapping_add') and len(y[2]) == 2 and isfield(wide(y[2][0]), 'Complete.part') and y[2][1][:2] == ('const', 1)) or \
                    (linear(v)[1] == 1 and linear(v)[0] is not None and isfield(linear(v)[0], 'Complete.part'))
                R.ob('complete/part', ok, 'a completed part makes the next one current, got %s' % short(v)[:80], w)
                R.ob('complete/transfer', mentions(ev.args[0], lambda y: isfield(y, 'Complete.transfer_id')), 'a completion counts only for the transfer it names', w)
                R.count('completions received')
    R.run(H(), hm)
    R.floor('confirmations', R.counts.get('confirmations', 0), 1)
    R.floor('completions received', R.counts.get('completions received', 0), 1)
    # packets of a part
    sl = []
    cur = []
    for b in methods_of(prog, 'OutgoingTransfer'):
        class P(E.Observer):
            maydepth = 2

            def inline(self, e, b2):
                return b2.file.endswith('outgoing_transfer.rs') and 'State' not in (b2.self_ty or '')

            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if ev.name == 'with_data' and 'Encoder' in ev.p and has_arg(ev.args[0], 'self'):
                    x = ev.args[0]
                    for y in walk(x):
                        r = y[2][1] if iscall(y, 'index', 'get') and len(y[2]) == 2 else None
                        if iscall(y, 'nth', 'get') and len(y[2]) == 2 and iscall(y[2][0], 'chunks') and is_self(y[2][0][2][0], 'data'):
                            # the n-th of consecutive pieces
                            k, n = y[2][0][2][1], nosites(uncast(wide(y[2][1])))
                            lo = mk('bin', 'Mul', n, nosites(k))
                            sl.append((lo, [mk('bin', 'Add', lo, nosites(k))], w))
                        if r is not None and r[0] == 'agg' and 'Range' in str(r[2]):
                            d = dict(r[4])
                            sl.append((nosites(d.get('start')), [nosites(z) for z in sums(e, d['end'])] if d.get('end') is not None else [], w))
                    return st.marks | {'encoder'}
                for a in ev.args:
                    if a[0] == 'agg' and a[3] == 'MessagePart' and str(a[2]).endswith('MessagePart'):
                        d = {f.split('.')[-1]: x for f, x in a[4]}
                        R.ob('packet/transfer', is_self(d['transfer_id'], 'transfer_id'), 'a packet names its transfer', w)
                        R.ob('packet/part', is_self(d['part'], 'current_message_part'), 'a packet carries the number of the part being encoded', w)
                        R.ob('packet/size', iscall(wide(d['total_size']), 'len') and is_self(wide(d['total_size'])[2][0], 'data'), 'a packet carries the size of the whole message', w)
                        R.ob('packet/params', iscall(d['fec_type'], 'params') and has_field(d['fec_type'], 'encoder'), 'a packet carries the parameters of the encoder', w)
                        R.ob('packet/data', mentions(d['data'], lambda y: iscall(y, 'encode')) and mentions(d['seqno'], lambda y: y[0] == 'mut' and last(y[1]) == 'encode' or iscall(y, 'encode') or iscall(y, 'load', 'seqno_out')), 'a packet carries a symbol and its number', w)
                        R.count('packets built')

            def write(self, e, ctx, st, loc, val, line):
                if isfield(loc, 'current_message_part'):
                    cur.append((nosites(wide(val)), src(e, ctx, line)))
                    return st.marks | {'current'}

            def exit(self, e, ctx, st, kind, val):
                R.ob('start/%s' % b.name, ('encoder' in st.marks) == ('current' in st.marks), 'a new encoder and the number of its part are set together', one_line(ctx, b.line))
        R.run(P(), b)
    R.floor('packets built', R.counts.get('packets built', 0), 1)
    R.floor('part encoders', len(sl), 1)
    consts = set()
    for lo, hi, w in sl:
        ok = False
        for c, _ in cur:
            c = uncast(c)
            if lo is not None and lo[0] == 'bin' and lo[1] == 'Mul' and any(nosites(uncast(z)) == c for z in lo[2:4]):
                k = [z for z in lo[2:4] if nosites(uncast(z)) != c] 
                # end = start + min(len - start, slice) or min(start + slice, len)
                ok = bool(k) and bool(hi) and all(slice_end(z, lo, k[0]) for z in hi)
                if ok and k[0][0] == 'const':
                    consts.add(k[0][1])
        R.ob('slice/start', ok, 'the encoder of a part covers the bytes from part * slice up to one slice or the end; got %s .. %s' % (short(lo)[:80] if lo else '', [short(z)[:80] for z in hi]), w)


def sums(e, v):
    """the values a sum or a choice may stand for"""
    out = []
    for x in spread(e, v):
        if x[0] == 'bin' and x[1] == 'Add':
            out += [mk('bin', 'Add', a, b, *x[4:]) for a in spread(e, x[2]) for b in spread(e, x[3])]
        else:
            out.append(x)
    return out


def slice_end(v, lo, k):
    """v is lo + k or the end of the data, whichever comes first"""
    v = uncast(v)
    whole = lambda x: iscall(uncast(x), 'len') and has_field(x, 'data')
    rest = lambda x: x[0] == 'bin' and x[1] == 'Sub' and whole(x[2]) and uncast(x[3]) == lo or iscall(x, 'saturating_sub') and whole(x[2][0]) and uncast(x[2][1]) == lo
    if whole(v) or v[0] == 'bin' and v[1] == 'Add' and set(v[2:4]) == {lo, k}:
        return True           # one of several alternatives
    if iscall(v, 'min') and len(v[2]) == 2:
        a, b = map(uncast, v[2])
        return any(whole(x) and y[0] == 'bin' and y[1] == 'Add' and set(y[2:4]) == {lo, k} for x, y in ((a, b), (b, a)))
    if v[0] == 'bin' and v[1] == 'Add' and lo in v[2:4]:
        m = uncast(v[3] if v[2] == lo else v[2])
        if iscall(m, 'min') and len(m[2]) == 2:
            a, b = map(uncast, m[2])
            return any(rest(x) and y == k for x, y in ((a, b), (b, a)))
        return rest(m) or m == k
    return False


def r02_query_bytes(R):
    """the query handed to the handlers is the one that was received: id, limit and exactly the data of the message"""
    prog = R.prog
    ty = 'OwnedRldpMessageQuery'
    fs = R.need('a reader of received large queries', [b for b in methods_of(prog, ty) if b.kind == 'fn' and ret_ty(b).find(ty) >= 0 or b.kind == 'fn' and 'Option<Self>' in ret_ty(b)])
    for b in fs:
        class Q(E.Observer):
            maydepth = 3
            part_cap = 100

            def inline(self, e, b2):
                return b2.id.startswith(b.id) and 'read_from' not in b2.id

            def relevant(self, f):
                return True

            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if ev.name in ('copy', 'copy_nonoverlapping', 'copy_within', 'copy_from', 'copy_to') and has_field(ev.args[-1], 'len'):
                    m = ev.args[-1]
                    while m[0] == 'field' and not isfield(m, 'len'):
                        m = m[1]
                    R.ob('query/length', isfield(m, 'len') and uncast(ev.args[-1]) == m, 'exactly the data of the message is moved, got %s' % short(ev.args[-1])[:80], w)
                    meta = m[1] if m[0] == 'field' else None
                    src_ = ev.args[0]
                    offs = [y[2][1] for y in walk(src_) if iscall(y, 'add', 'offset') and len(y[2]) == 2]
                    ok = len(offs) == 1 and self.start(e, offs[0], meta)
                    R.ob('query/start', ok, 'the data of the message begins after its length prefix, got %s' % [short(o)[:100] for o in offs], w)
                    R.count('moves of received queries')
                if ev.name in ('set_len', 'truncate') and len(ev.args) == 2:
                    x = nosites(ev.args[1])
                    R.ob('query/cut', isfield(uncast(x), 'len'), 'the buffer is cut to the length of the data, got %s' % short(x)[:80], w)

            def start(self, e, v, meta):
                v = uncast(v)
                if not (v[0] == 'bin' and v[1] == 'Add'):
                    return False
                a, c = v[2], v[3]
                for x, y in ((a, c), (c, a)):
                    if isfield(y, 'prefix_len') and (meta is None or nosites(y[1]) == nosites(meta)) and not has_field(x, 'prefix_len', 'padding', 'len') and x[0] != 'bin':
                        return True
                return False
        R.run(Q(), b)
        if not R.counts.get('moves of received queries'):
            R.notes.append('received queries are not moved by pointers')


PERMIT = re.compile(r'^(std::option::Option<|std::result::Result<)?tokio::sync::(Owned)?SemaphorePermit')


def large_query(R):
    """ids of the function that runs one large query over the transfer table"""
    return {b.id for b in R.need('TransfersCache::query', R.prog.method('TransfersCache', 'query'))}


def direct_callers(prog, ids):
    return [b for b in prog.bodies.values() if b.kind != 'promoted' and any(i in ids for p, r, i, t in body_calls(b))]


def public_roots(prog, b, want):
    """the outermost bodies from which b is reached inside the layer: public functions and everything nobody calls"""
    seen, out, todo = set(), [], [b.id]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        cs = [c for c in callers(prog, x) if c in prog.bodies and want(prog.bodies[c])]
        if not cs:
            out.append(x)
        todo += cs
    return [prog.bodies[x] for x in out]


@rule('R04', 'every large query holds one of the permits of its peer from before it starts until it ended, and the permits are the configured ones',
      'typestate of the permit over normal and cancellation paths, who-may-change analysis of the permit table',
      'Every body that runs a large query is followed from the public entry points: the query may only be started and polled while a permit '
      'obtained from the table of permits under the id of the same peer has not been dropped or forgotten. The table is only ever extended '
      'through an entry that keeps an existing value, with the configured number of permits; permits are never added or closed, and an entry is '
      'removed only under the fact that nobody else holds its semaphore.')
def r04(R):
    prog = R.prog
    ids = large_query(R)
    dc = direct_callers(prog, ids)
    near = lambda b: b.file.startswith('src/rldp/node') or b.file.startswith('src/rldp/mod')
    roots = {}
    for b in dc:
        for r in public_roots(prog, b, lambda x: x.file.startswith('src/rldp/')):
            roots[r.id] = r
    covered = set()
    qname = 'TransfersCache::query'
    an = argnames(prog.bodies[sorted(ids)[0]])
    pos = an.index('peer_id') if 'peer_id' in an else None

    def is_query(x):
        return x[0] == 'call' and x[1].endswith(qname)

    for b in roots.values():
        b = R.async_body(b)

        class O(E.Observer):
            maydepth = 5
            part_cap = 200
            cancel = True

            def inline(self, e, b2):
                return near(b2)

            def learned(self, e, st, k, v):
                if k[0] == 'var' and v in ('Ok', 'Err', 'Some') and k[1][0] == 'await' and has_call(k[1], 'acquire', 'acquire_owned', 'acquire_many', 'acquire_many_owned'):
                    return ('v', 'permit', k[1]),

            def gone(self, st, val):
                return frozenset(m for m in st.marks if not (isinstance(m, tuple) and m[:2] == ('v', 'permit') and mentions(val, lambda y: y == m[2])))

            def dropped(self, e, ctx, st, val, ty, line):
                if PERMIT.match(ty) and val is not None:
                    return self.gone(st, val)

            def call(self, e, ctx, st, ev):
                w = src(e, ctx, ev.line)
                if ev.id in ids or any(i in ids for i in [getattr(ev, 'r', None)]):
                    covered.add(ctx.body.id)
                    self.held(e, ctx, st, ev, w, 'start')
                elif ev.name == 'poll' and ev.args and mentions(ev.args[0], is_query):
                    self.held(e, ctx, st, ev, w, 'poll')
                if ev.name in ('forget', 'drop') and ev.args and any(mentions(a, lambda y: y[0] == 'await' and has_call(y, 'acquire', 'acquire_owned')) for a in ev.args):
                    if ev.name == 'forget':
                        R.fail('permit/forgotten', 'a permit is forgotten, so it is never given back', w)
                    return self.gone(st, ev.args[0])

            def held(self, e, ctx, st, ev, w, what):
                ps = [m[2] for m in st.marks if isinstance(m, tuple) and m[:2] == ('v', 'permit')]
                R.ob('permit/%s' % what, bool(ps), 'a large query runs only while a permit is held', w)
                R.count('query %ss under a permit' % what)
                q = next((y for a in ev.args for y in walk(a) if is_query(y)), None)
                args = q[2] if q else ev.args
                if pos is not None and pos < len(args):
                    args = (args[pos],)
                ok = False
                for p in ps:
                    for y in walk(p):
                        if y[0] == 'call' and last(y[1]) in ('entry', 'get', 'get_mut') and root_field(y[2][0]) == 'semaphores':
                            k = nosites(y[2][1])
                            ok |= any(nosites(a) == k for a in args)
                        elif y[0] == 'phi':
                            for z in spread(e, y):
                                ok |= any(u[0] == 'call' and last(u[1]) in ('entry', 'get', 'get_mut') and root_field(u[2][0]) == 'semaphores' and any(nosites(a) == nosites(u[2][1]) for a in args) for u in walk(z))
                if ps:
                    R.ob('permit/same peer', ok, 'the permit comes from the table of permits, under the peer the query goes to', w)
        R.run(O(), b)
    for b in dc:
        # an async fn is analysed through its coroutine
        R.ob('covered/%s' % fname_of(b), b.id in covered, 'this caller of the transfer table was analysed under its entry points', '%s:%s' % (b.file, b.line))
    R.floor('query polls under a permit', R.counts.get('query polls under a permit', 0), 1)
    # the table
    made = 0
    for b in prog.bodies.values():
        if b.kind == 'promoted' or not near(b):
            continue
        def touching_permits(b):
            return [p for p, r, i, t in body_calls(b) if 'emaphore' in p or ('dashmap' in p or 'DashMap' in p) and any('Semaphore' in str(x) for x in (callee(t) or {}).get('ga') or [])]
        touches = touching_permits(b)
        if b.kind == 'closure' and b.id.rsplit('::', 1)[0] in prog.bodies and near(prog.bodies[b.id.rsplit('::', 1)[0]]):
            continue         # met where it is made
        if not touches and not any(touching_permits(c) for c in prog.bodies.values() if c.kind == 'closure' and c.id.startswith(b.id + '::')):
            continue

        class T(E.Observer):
            maydepth = 3

            def inline(self, e, b2):
                return b2.kind == 'closure' and b2.id.startswith(b.id + '::')

            def call(self, e, ctx, st, ev):
                nonlocal made
                w = src(e, ctx, ev.line)
                if ev.p.endswith('Semaphore::new'):
                    made += 1
                    R.ob('size/%s' % fname_of(ctx.body), isfield(wide(uncast(ev.args[0])), 'max_peer_queries'), 'the number of permits is the configured one, got %s' % short(ev.args[0])[:80], w)
                if ev.name in ('add_permits', 'close', 'forget_permits') and 'Semaphore' in ev.p:
                    R.fail('size/%s' % ev.name, 'the number of permits of a peer is changed', w)
                op = table_op(ev)
                if op and any('Semaphore' in str(x) for x in (ev.ga or [])):
                    if op[0] == 'insert':
                        vac = 'vacant' in ev.p.lower()
                        R.ob('table/%s' % ev.name, ev.name.startswith('or_insert') or vac, 'permits of a peer are created only when it has none', w)
                        R.count('places that create permits')
                    elif op[0] == 'remove' or ev.name in ('clear', 'drain'):
                        R.ob('table/%s' % ev.name, any(rel_count(q) for q in all_rels(st)), 'permits of a peer are removed only when nobody uses them', w)
                    elif ev.name == 'retain':
                        cl = [y for a in ev.args for y in walk(a) if y[0] == 'agg' and y[1] == 'closure']
                        for c in cl:
                            cb = prog.bodies.get(c[2])
                            if cb:
                                r04_retain(R, cb)
                        R.ob('table/retain', bool(cl), 'the clean-up of the permits is a closure that can be analysed', w)
        R.run(T(), b)
    R.floor('places that create permits', R.counts.get('places that create permits', 0), 1)
    R.floor('semaphores created', made, 1)


def rel_count(q):
    op, a, c = q
    return has_call(a, 'strong_count') and c[0] == 'const' and (op == '<=' and c[1] in (0, 1) or op == '<' and c[1] in (1, 2) or op == '==' and c[1] == 1)


def r04_retain(R, cb):
    class C(E.Observer):
        maydepth = 3

        def relevant(self, f):
            return True

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return':
                return
            for x in spread(e, val):
                if x[0] == 'const' and x[1]:
                    continue
                ok = any(rel_count(q) for q in all_rels(st)) or any(rel_count((op, a, c)) for op, a, c in rels(x, False)) if x[0] != 'const' else any(rel_count(q) for q in all_rels(st))
                R.ob('table/clean-up', ok, 'clean-up keeps the permits somebody holds a reference to', one_line(ctx, cb.line))
                R.count('clean-up outcomes')
    R.run(C(), cb)


def fname_of(b):
    return (b.name or b.id.split('::')[-2] if b.id.endswith('}') else b.name) or b.id[-40:]


@rule('R05', 'a large query resolves only with the answer of its own transfer that carries its own query id',
      'guard facts at the success exits, provenance of transfer ids and of the delivered answer',
      'A successful exit of a large query needs the fact that the id in the deserialized answer equals the id put into the query that was '
      'sent, and its value comes from the data of that same answer. Below, the answer of a query is taken only from the place its own '
      'receiving task writes to, that task reads the channel whose other half was registered under the id derived from the id of the '
      'outgoing transfer, and answering derives the id of its transfer by the same function.')
def r05(R):
    prog = R.prog
    ids = large_query(R)
    near = lambda b: b.file.startswith('src/rldp/node') or b.file.startswith('src/rldp/mod')
    roots = {}
    for b in direct_callers(prog, ids):
        for r in public_roots(prog, b, lambda x: x.file.startswith('src/rldp/')):
            roots[r.id] = r

    for b in roots.values():
        b = R.async_body(b)

        class O(E.Observer):
            maydepth = 5
            part_cap = 200

            def inline(self, e, b2):
                return near(b2)

            def learned(self, e, st, k, v):
                for op, a, c in rels(k, v):
                    if op != '==':
                        continue
                    for p, q in ((a, c), (c, a)):
                        if isfield(p, 'Answer.query_id') and answer_of(p) is not None:
                            return ('id', nosites(answer_of(p)), nosites(q)),

            def exit(self, e, ctx, st, kind, val):
                if kind != 'return' or val is None:
                    return
                for x in spread(e, val):
                    if not (x[0] == 'agg' and x[3] == 'Ok'):
                        R.ob('result/shape', not (x[0] == 'agg' and x[3] not in ('Err',)), 'a result can be understood', one_line(ctx, b.line))
                        continue
                    t = x[4][0][1]
                    for y in spread(e, t[4][0][1]) if t[0] == 'agg' else [t]:
                        if y[0] == 'agg' and y[3] == 'None':
                            R.count('exits without an answer')
                            continue
                        vals = spread(e, y[4][0][1]) if y[0] == 'agg' and y[3] == 'Some' else {y}
                        per = [{nosites(answer_of(z)) for z in walk(u) if isfield(z, 'Answer.data') and answer_of(z) is not None} for u in vals]
                        data = set().union(*per) if all(per) else set()
                        idm = [m for m in st.marks if isinstance(m, tuple) and m[0] == 'id']
                        sent = [nosites(z) for d in data for u in walk(d) if u[0] == 'call' and u[1].endswith('TransfersCache::query')
                                for q in walk(u) if q[0] == 'agg' and q[3] == 'Query' for f, z in q[4] if f.split('.')[-1] == 'query_id']
                        R.ob('answer/own data', len(data) == 1, 'what a query returns comes from the data of one answer, got %s' % short(y)[:80], one_line(ctx, b.line))
                        R.ob('answer/own id', any(m[1] in data and (m[2] in sent or not sent) for m in idm), 'an answer is returned only when its query id equals the id of the query', one_line(ctx, b.line))
                        R.ob('answer/id sent', bool(sent), 'the id compared is the one sent with the query', one_line(ctx, b.line))
                        R.count('exits with an answer')
        R.run(O(), b)
    R.floor('exits with an answer', R.counts.get('exits with an answer', 0), 1)
    r05_table(R)


def answer_of(v):
    """the deserialized message that a field of an answer belongs to"""
    while v[0] == 'field' and not str(v[2][1]).startswith('Answer.'):
        v = v[1]
    return v[1] if v[0] == 'field' else None


def derived(v):
    """(function, base) when v is an id computed from another one"""
    x = v
    while x[0] in ('field', 'mut') and len(x) > 2 and x[0] == 'field':
        x = x[1]
    if x[0] == 'call' and len(x[2]) >= 1:
        return last(x[1]), x[2][0]
    return None


def r05_table(R):
    prog = R.prog
    q = R.async_body(R.method('TransfersCache', 'query'))
    keys = {}

    class Q(E.Observer):
        maydepth = 4
        part_cap = 200
        inline_spawn = True

        def inline(self, e, b):
            return b.file.endswith('transfers_cache.rs') and b.name not in ('negate_id', 'receive', 'send')

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            op = table_op(ev)
            if op and op[0] == 'insert' and op[1] == 'transfers' and op[3] is not None:
                k = variant_of(op[3])
                if k in ('Incoming', 'Outgoing'):
                    keys.setdefault(k, set()).add((nosites(op[2]), nosites(op[3]), w))
            if ev.name == 'receive':
                ch = [y for y in walk(ev.args[0]) if isfield(y, 'parts_rx') or y[0] == 'field' and has_call(y, 'unbounded_channel')]
                keys.setdefault('rx', set()).add((nosites(ev.args[0]), None, w))

        def write(self, e, ctx, st, loc, val, line):
            if has_call(loc, 'lock', 'write') and variant_of(val) == 'Some':
                keys.setdefault('left', set()).add((nosites(loc), nosites(val), src(e, ctx, line)))

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or task_of(ctx) is not None or val is None:
                return
            for x in spread(e, val):
                if x[0] == 'agg' and x[3] == 'Ok' and x[4][0][1][0] == 'agg':
                    for y in spread(e, x[4][0][1][4][0][1]):
                        if y[0] == 'agg' and y[3] == 'Some':
                            keys.setdefault('answer', set()).add((nosites(y[4][0][1]), tuple(sorted({str(z) for z in ()})), one_line(ctx, q.line)))
                            for z in walk(y[4][0][1]):
                                if z[0] == 'phi':
                                    for u in e.phi_src.get(z, ()):
                                        keys.setdefault('answer src', set()).add(nosites(u))
    R.run(Q(), q)
    inc = keys.get('Incoming', set())
    out = keys.get('Outgoing', set())
    R.floor('transfers registered by a query', len(inc) + len(out), 2)
    fns = set()
    for k, v, w in inc:
        d = derived(k)
        fns.add(d[0] if d else None)
        R.ob('ids/derived', d is not None and any(d[1] == o for o, _, _ in out), 'the transfer of the answer is registered under the id derived from the outgoing one, got %s' % short(k)[:80], w)
        tx = [y for y in walk(v) if has_call(y, 'unbounded_channel', 'channel')]
        rx = keys.get('rx', set())
        R.ob('ids/channel', bool(tx) and any(any(chan(y) == chan(z) for y in walk(r) if chan(y)) for r, _, _ in rx for z in walk(v) if chan(z)), 'the receiving task reads the channel that was registered', w)
    R.floor('receiving tasks', len(keys.get('rx', ())), 1)
    r05_pairing(R, fns)
    # the answering side
    hm = R.async_body(R.entry('TransfersCache', 'create_answer_handler', ('TransfersCache', 'handle_message')))

    class A(E.Observer):
        maydepth = 5
        part_cap = 200

        def inline(self, e, b):
            return b.file.endswith('transfers_cache.rs') and b.name not in ('negate_id', 'receive', 'send', 'process_rldp_query')

        def call(self, e, ctx, st, ev):
            op = table_op(ev)
            if op and op[0] == 'insert' and op[1] == 'transfers' and op[3] is not None and variant_of(op[3]) == 'Outgoing':
                d = derived(op[2])
                w = src(e, ctx, ev.line)
                R.ob('ids/answer', d is not None and d[0] in fns and not has_call(d[1], *[x for x in fns if x]), 'an answer goes under the id derived from the id of its query by the same function', w)
                R.count('answers registered')
            if ev.name == 'new' and ev.p.endswith('OutgoingTransfer::new'):
                x = ev.args[1]
                ok = mentions(x, lambda y: y[0] == 'call' and last(y[1]) in fns)
                R.ob('ids/answer sent', ok, 'the packets of an answer carry the derived id', src(e, ctx, ev.line))
    R.run(A(), hm)
    R.floor('answers registered', R.counts.get('answers registered', 0), 1)
    # what is left behind for the waiting query
    left = keys.get('left', set())
    R.floor('places where a received answer is left', len(left), 1)
    for loc, val, w in left:
        R.ob('barrier/own', mentions(val, lambda y: iscall(y, 'new') and 'IncomingTransfer' in y[1]) or has_field(val, 'transfer'), 'what is left is the transfer of this query', w)


def r05_pairing(R, fns):
    """the id of the answer is the bitwise complement of the id of the query, as every other implementation has it"""
    prog = R.prog
    n = 0
    for b in prog.bodies.values():
        if b.name not in fns or not b.file.startswith('src/rldp/'):
            continue
        for c in [b] + prog.children(b.id):
            c = c if not isinstance(c, str) else prog.bodies[c]
            for blk in c.blocks:
                for s in blk['s']:
                    if s[0] != '=':
                        continue
                    r = s[2]
                    if r[0] == 'bin' and r[1] in ('BitXor', 'Sub', 'SubUnchecked', 'SubWithOverflow'):
                        ks = [o['k'].get('v') for o in (r[2:4] if r[1] == 'BitXor' else r[2:3]) if isinstance(o, dict) and isinstance(o.get('k'), dict)]
                        n += 1
                        R.ob('ids/complement', any(k in (255, -1, 2 ** 128 - 1, 2 ** 64 - 1) for k in ks), 'every byte of the id is inverted, got %s' % (r,), '%s:%s' % (c.file, s[3] if len(s) > 3 else c.line))
                    elif r[0] == 'un' and r[1] == 'Not':
                        n += 1
                        R.ob('ids/complement', True, 'every byte of the id is inverted', '%s:%s' % (c.file, c.line))
    R.floor('inversions of a transfer id', n, 1)


def chan(v):
    if v[0] == 'field' and v[1][0] == 'call' and last(v[1][1]) in ('unbounded_channel', 'channel'):
        return v[1]
    return None


def codec_fns(prog):
    """free functions of the layer that compress or decompress, by what they call"""
    comp, dec = [], []
    for b in prog.bodies.values():
        if b.kind != 'fn' or not b.file.startswith('src/rldp/') or '::tests' in b.id:
            continue
        if b.name == 'compress' and b.self_ty is None:
            comp.append(b)
        if b.name == 'decompress' and b.self_ty is None:
            dec.append(b)
    return comp, dec


def mut_chain(v):
    """operations applied to a local buffer, last first"""
    out = []
    while v[0] == 'mut':
        out.append((last(v[1]), v[4] if len(v) > 4 else (), v))
        v = v[2]
    return out


def order_of(v):
    """byte order in which a 32 bit length is put together from bytes, or None"""
    for x in walk(v):
        if iscall(x, 'from_be_bytes', 'read_u32_be', 'get_u32'):
            return 'be'
        if iscall(x, 'from_le_bytes', 'get_u32_le'):
            return 'le'
    sh = {}
    for x in walk(v):
        if x[0] == 'bin' and x[1] == 'Shl' and x[3][0] == 'const':
            y = uncast(x[2])
            if y[0] == 'call' and last(y[1]) == 'index' and len(y[2]) == 2:
                sh[x[3][1]] = linear(y[2][1])[1]
    if len(sh) >= 2:
        ks = sorted(sh)
        a, b = sh[ks[0]], sh[ks[-1]]
        if a is not None and b is not None:
            return 'be' if a > b else 'le'
    return None


@rule('R06', 'the form written when compressing is the form looked for when decompressing; anything else is passed on unchanged',
      'comparison of the two sides of the codec, guard facts at writes and at success exits, use-after-failure analysis of the users',
      'Compressing replaces the payload in one write, made only after every encoder call has succeeded, that ends with the marker and '
      'carries the length of the original; decompressing succeeds only under the facts that the last byte is that same marker, that the '
      'decoder succeeded on everything before it, and that the length found, read in the same byte order, equals the number of bytes returned. '
      'Every user of the decompressor continues with the data it tried when decompression does not apply.')
def r06(R):
    prog = R.prog
    comp, dec = codec_fns(prog)
    R.need('a compressor', comp)
    R.need('a decompressor', dec)
    tags, orders = set(), set()
    files = {b.file for b in comp + dec}
    ENC = ('copy_encode', 'encode_all', 'compress', 'finish')
    for b in comp:
        class C(E.Observer):
            maydepth = 3
            part_cap = 100

            def inline(self, e, b2):
                return b2.file in files

            def relevant(self, f):
                return True

            def learned(self, e, st, k, v):
                if k[0] == 'var' and v == 'Ok' and k[1][0] == 'call' and last(k[1][1]) in ENC:
                    return ('v', 'encoded', k[1]),

            def write(self, e, ctx, st, loc, val, line):
                w = src(e, ctx, line)
                if not (loc[0] == 'arg' or has_arg(loc, 'data')):
                    return
                ch = mut_chain(val)
                done = {m[2] for m in st.marks if isinstance(m, tuple) and m[:2] == ('v', 'encoded')}
                n = sum(1 for o, _, _ in ch if o in ENC)
                R.ob('compress/all or nothing', len(done) >= max(n, 1) and 'written' not in st.marks, 'the payload is replaced once, after every encoder call succeeded', w)
                if ch and ch[0][0] in ('push', 'extend_from_slice', 'extend', 'write_all'):
                    for x in walk(ch[0][1][0]) if ch[0][1] else ():
                        if x[0] == 'const' and isinstance(x[1], int):
                            tags.add(x[1])
                R.count('payload writes')
                for d in done:
                    for x in walk(d):
                        if iscall(x, 'to_be_bytes', 'to_le_bytes', 'to_ne_bytes'):
                            o = last(x[1])[3:5]
                            orders.add(o)
                            y = wide(uncast(x[2][0]))
                            R.ob('compress/length', iscall(y, 'len') and y[2][0][0] in ('arg', 'field'), 'the length written is that of the original payload', w)
                return st.marks | {'written'}

            def call(self, e, ctx, st, ev):
                if ev.args and ev.args[0][0] == 'arg' and ev.name in ('push', 'clear', 'truncate', 'extend_from_slice', 'append', 'insert', 'resize', 'drain', 'remove', 'pop') and 'Vec' in ev.p:
                    R.fail('compress/in place', 'the payload is changed in place, so a later failure leaves it damaged (%s)' % ev.name, src(e, ctx, ev.line))
        R.run(C(), b)
    R.floor('payload writes', R.counts.get('payload writes', 0), 1)
    R.ob('compress/marker', len(tags) == 1, 'compressed payloads end with one marker, got %s' % sorted(tags), '%s:%s' % (comp[0].file, comp[0].line))
    for b in dec:
        class D(E.Observer):
            maydepth = 3
            part_cap = 100

            def inline(self, e, b2):
                return b2.file in files

            def relevant(self, f):
                return True

            def exit(self, e, ctx, st, kind, val):
                if kind != 'return' or val is None:
                    return
                w = one_line(ctx, b.line)
                for x in spread(e, val):
                    if not (x[0] == 'agg' and x[3] == 'Some'):
                        if x[0] == 'agg' and x[3] == 'None':
                            continue
                        R.notes.append('result of the decompressor not understood: %s' % short(x)[:100])
                    marker = set()
                    lenok = False
                    for op, a, c in all_rels(st):
                        if op != '==':
                            continue
                        for p, q in ((a, c), (c, a)):
                            if mentions(p, lambda y: iscall(y, 'last', 'split_last') or iscall(y, 'index') and linear(y[2][1])[1] == -1) and has_arg(p, 'data') and not has_call(p, 'decode_all', 'read_to_end', 'decompress', 'from_be_bytes'):
                                for y in walk(q):
                                    if y[0] == 'const' and isinstance(y[1], int) and not isinstance(y[1], bool):
                                        marker.add(y[1])
                            o = order_of(p)
                            if o and not order_of(q):
                                B, off = linear(wide(uncast(q)))
                                if B is not None and off == -4 and has_call(B, 'len'):
                                    lenok = True
                                R.ob('decompress/order', o in orders or not orders, 'the length is read in the byte order it is written in', w)
                    dk = [k for k, v in st.facts.items() if k[0] == 'var' and v == 'Ok' and mentions(k[1], lambda y: y[0] == 'call' and 'zstd' in y[1])]
                    R.ob('decompress/marker', bool(marker & tags), 'only payloads with the marker are decompressed: %s, written: %s' % (sorted(marker), sorted(tags)), w)
                    R.ob('decompress/decoded', bool(dk), 'a result is returned only when the decoder succeeded', w)
                    R.ob('decompress/length', lenok, 'a result is returned only when the length found in it is the number of its other bytes', w)
                    for y in walk(x):
                        if y[0] == 'mut' and last(y[1]) == 'truncate' and len(y) > 4 and y[4]:
                            t = y[4][-1]
                            B, off = linear(wide(uncast(t)))
                            ok = off == 0 and B is not None and order_of(B) is not None or off == -4 and B is not None and has_call(B, 'len')
                            R.ob('decompress/cut', ok, 'exactly the length field is cut off', w)
                    for k in dk:
                        for y in walk(k[1]):
                            if y[0] == 'call' and 'zstd' in y[1] and y[2]:
                                z = y[2][0]
                                rg = [u for u in walk(z) if u[0] == 'agg' and 'Range' in str(u[2]) and 'RangeFull' not in str(u[2])]
                                ok = has_call(z, 'split_last') or any(dict(u[4]).get('end') is not None and linear(dict(u[4])['end'])[1] == -1 for u in rg)
                                R.ob('decompress/input', ok and has_arg(z, 'data'), 'the decoder gets everything before the marker', w)
                    R.count('successful decompressions')
        R.run(D(), b)
    R.floor('successful decompressions', R.counts.get('successful decompressions', 0), 1)
    r06_users(R, {b.id for b in dec})
    r06_when(R, {b.id for b in comp}, {b.id for b in dec})


def r06_when(R, comp, dec):
    """data is compressed only when that is configured, or to answer a query that was compressed itself"""
    prog = R.prog
    bs = [b for b in direct_callers(prog, comp) if '::tests' not in b.id]
    R.floor('users of the compressor', len(bs), 2)

    def run(S, body):
        class W(E.Observer):
            maydepth = 3
            part_cap = 200

            def inline(self, e, b2):
                return b2.id not in comp | dec and b2.file.startswith('src/rldp/') and (b2.id.startswith(body.id) or bool(reach(prog, {b2.id}) & comp))

            def relevant(self, f):
                return True

            def learned(self, e, st, k, v):
                if v is True and (isfield(k, 'force_compression') or k[0] == 'arg' and k[2] == 'force_compression'):
                    return ('asked',)
                if k[0] == 'var' and v == 'Some' and k[1][0] == 'call' and last(k[1][1]) == 'decompress':
                    return ('asked',)

            def call(self, e, ctx, st, ev):
                if ev.id in comp:
                    ok = 'asked' in st.marks
                    S.ob('when/%s' % fname(ctx), ok, 'data is compressed only when this is configured or the query was compressed; known: %s' % fmt_facts(st)[:200], src(e, ctx, ev.line))
                    S.count('compressions')
        S.run(W(), body)
    escalate(R, bs, run)
    R.floor('compressions', R.counts.get('compressions', 0), 2)


def r06_users(R, ids):
    prog = R.prog
    n = 0
    for b in direct_callers(prog, ids):
        if '::tests' in b.id:
            continue
        n += 1

        class U(E.Observer):
            maydepth = 2
            part_cap = 200

            def inline(self, e, b2):
                return b2.id.startswith(b.id)

            def relevant(self, f):
                return True

            def learned(self, e, st, k, v):
                if k[0] == 'var' and v == 'None' and k[1][0] == 'call' and last(k[1][1]) == 'decompress':
                    return ('raw', nosites(k[1][2][0])),

            def call(self, e, ctx, st, ev):
                raw = [m for m in st.marks if isinstance(m, tuple) and m[0] == 'raw']
                if raw and ev.name not in ('len', 'drop', 'deref', 'is_empty', 'first', 'last', 'as_slice', 'as_ref', 'as_ptr', 'iter', 'get', 'index', 'borrow'):
                    for m in raw:
                        if any(mentions(nosites(a), lambda y: y == m[1]) for a in ev.args):
                            return st.marks | {'used'}

            def exit(self, e, ctx, st, kind, val):
                raw = [m for m in st.marks if isinstance(m, tuple) and m[0] == 'raw']
                if kind == 'return' and val is not None:
                    for x in walk(val):
                        for z in sub(x) if x[0] == 'agg' else ([x] if x is val else ()):
                            if iscall(z, 'decompress') and not any(k[0] == 'var' and k[1] == z for k in st.facts):
                                R.fail('raw/%s' % fname_of(b), 'the outcome of decompression is passed on without falling back to the data itself', one_line(ctx, b.line))
                if kind != 'return' or not raw:
                    return
                ok = 'used' in st.marks or val is not None and any(mentions(nosites(val), lambda y: y == m[1]) for m in raw)
                R.ob('raw/%s' % fname_of(b), ok, 'data that is not compressed is passed on as it is', one_line(ctx, b.line))
                R.count('exits for uncompressed data')
        R.run(U(), b)
    R.floor('users of the decompressor', n, 1)


# ------------------------------------------------------------------ R07
COUNTERS = ('seqno_in', 'updates', 'load', 'seqno_out', 'part')
LIMITS = ('query_min_timeout_ms', 'query_max_timeout_ms')


def limit_fns(prog):
    """methods that compute a duration from the configured limits"""
    return [b for b in prog.bodies.values() if b.kind == 'fn' and b.file.startswith('src/rldp/') and ret_ty(b) == 'u64' and b.argc >= 1
            and any(n in str(b.blocks) for n in LIMITS)]


@rule('R07', 'waiting for a large transfer ends: computed timeouts lie within the configured limits, every round without progress is compared with the timeout, and a timeout that is over leaves the loop',
      'linear bounds over the timeout functions, typestate of the waiting loops (slept, compared, progressed, late)',
      'With the configured minimum not above the maximum, every function that computes a timeout from a measured round trip returns a value '
      'between them on every path, and one that computes a round trip for the next query stays below the maximum. In every loop that sleeps '
      'while a transfer runs, a round that saw nothing new compares the time since the last progress with such a timeout before it sleeps '
      'again; when the time is over it does not sleep again; the time is only restarted by progress; and progress means that a counter is '
      'strictly above the value seen before, which is then replaced.')
def r07(R):
    prog = R.prog
    quality = {}
    for b in sorted(limit_fns(prog), key=lambda x: x.id):
        here = '%s:%s' % (b.file, b.line)
        res = []

        class L(E.Observer):
            maydepth = 3
            part_cap = 200

            def inline(self, e, x):
                return x.file == b.file

            def relevant(self, f):
                return f[0] in ('bin', 'var')

            def exit(self, e, ctx, st, kind, val):
                if kind != 'return':
                    return
                fs = {x[2][1].split('.')[-1]: x for v in [val] + [y for k in st.facts for y in k[1:] if isinstance(y, tuple)] for x in walk_phi(e, v) if x[0] == 'field' and isinstance(x[2], tuple) and str(x[2][1]).split('.')[-1] in LIMITS}
                base = next((x[1] for x in fs.values()), None)
                lim = {n: mk('field', base, ('f', n)) for n in LIMITS} if base is not None else {}
                if not lim:
                    res.append((False, False, val))
                    return
                bd = Bounds(e, st, ctx, extra=[(lim[LIMITS[0]], lim[LIMITS[1]], 0)])
                res.append((bd.le(val, lim[LIMITS[1]]), bd.le(lim[LIMITS[0]], val), val))
        R.run(L(), b)
        hi, lo = bool(res) and all(r[0] for r in res), bool(res) and all(r[1] for r in res)
        quality[b.id] = (hi, lo)
        quality[b.name] = (hi, lo)
        R.count('functions of the limits')
        R.ob('limit/%s' % b.name, hi, 'what %s returns is at most the configured maximum on every path, got %s' % (b.name, [short(r[2])[:60] for r in res if not r[0]][:3]), here)
    R.floor('functions of the limits', R.counts.get('functions of the limits', 0), 2)

    def bounded(e, v):
        """every value v may be is a timeout within the limits"""
        vs = origins_of(e, v)
        return bool(vs) and all(x[0] == 'call' and quality.get(last(x[1]), (0, 0)) == (True, True) or isfield(x, LIMITS[1]) or isfield(x, LIMITS[0]) for x in vs)

    def terms(e, v, d=0):
        """the summands of a value"""
        v = uncast(v)
        if v[0] == 'bin' and v[1] in ('Add', 'AddUnchecked'):
            return terms(e, v[2]) + terms(e, v[3])
        if v[0] == 'call' and last(v[1]) in ('saturating_add', 'wrapping_add'):
            return terms(e, v[2][0]) + terms(e, v[2][1])
        if v[0] == 'call' and last(v[1]) in ('from_millis', 'as_millis') and v[2]:
            return [y for x in spread(e, v[2][0]) for y in terms(e, x)]
        return [v]
    fns = {b.id for b in limit_fns(prog)}
    loops = [b for b in prog.bodies.values() if b.file.startswith('src/rldp/') and b.kind in ('coroutine', 'closure', 'fn') and sleeping_loop(prog, b)]
    looping = {b.id for b in loops}
    small = {b.id for b in prog.bodies.values() if b.kind == 'coroutine' and b.id not in looping and sleeps(prog, b)}
    for b in sorted(loops, key=lambda x: x.id):
        here = '%s:%s' % (b.file, b.line)
        R.count('waiting loops')
        seen = {}

        class O(E.Observer):
            maydepth = 4
            part_cap = 300

            def inline(self, e, x):
                return x.file.startswith('src/rldp/transfers_cache') and x.id not in fns and (x.kind != 'coroutine' or x.id in small) or x.kind == 'closure' and x.file == b.file

            def learned(self, e, st, k, v):
                out = []
                for op, x, y in rels(k, v):
                    el = lambda z: waited(e, z)
                    if op in ('<', '<=') and x[0] != 'const' and y[0] != 'const' and el(x) != el(y):
                        t = y if el(x) else x
                        R.count('comparisons with the time')
                        for w in spread(e, t):
                            R.ob('timeout/within the limits', any(bounded(e, z) for z in terms(e, w)), 'the time waited is compared with a timeout that lies within the configured limits (something may be added), got %s' % short(w)[:150], here)
                        if op in ('<', '<=') and el(y):
                            out.append('late')
                        elif op in ('<', '<=') and el(x):
                            out.append('checked')
                    elif op in ('<', '!=') and counter(e, y) and counter(e, x):
                        # the value read in this round is above the one seen before
                        fresh = lambda z: all(w[0] == 'call' and ('fresh', w[3]) in st.marks for w in origins_of(e, z))
                        if op == '!=' and fresh(x):
                            x, y = y, x
                        if not fresh(y) or fresh(x):
                            continue
                        out.append('progress')
                        R.count('progress comparisons')
                        newest = {z for z in origins_of(e, y) if z[0] == 'call'}
                        old = set(origins_of(e, x))
                        f = seen.setdefault(frozenset((z[1], z[3]) for z in newest), [newest, set()])
                        f[1] |= old
                return out

            def call(self, e, ctx, st, ev):
                if task_of(ctx) is not None:
                    return
                if ev.name in ('sleep', 'sleep_until', 'tick') and ('tokio' in ev.p or 'time' in ev.p):
                    if ('slept', ev.site) in st.marks and 'progress' not in st.marks:
                        R.ob('round/compared', 'checked' in st.marks, 'a round that saw nothing new is compared with the timeout before the next one', src(e, ctx, ev.line))
                        R.ob('round/left', 'late' not in st.marks, 'the loop is left when the timeout is over', src(e, ctx, ev.line))
                    R.count('sleeps')
                    return frozenset(m for m in st.marks if m not in ('checked', 'progress', 'late') and not (isinstance(m, tuple) and m[0] in ('slept', 'fresh'))) | {('slept', ev.site)}
                if ev.name in COUNTERS:
                    return st.marks | {('fresh', ev.site)}
                if ev.name == 'start_next_part':
                    return st.marks | {'progress'}
                if ev.name == 'now' and 'Instant' in ev.p and any(isinstance(m, tuple) and m[0] == 'slept' for m in st.marks):
                    R.ob('clock/restarted', 'progress' in st.marks, 'the time since the last progress is restarted by progress only', src(e, ctx, ev.line))
        R.run(O(), b)
        for newest, old in seen.values():
            R.ob('progress/replaced', bool({(z[1], z[3]) for z in newest} & {(z[1], z[3]) for z in old if z[0] == 'call'}), 'the value seen before is replaced by the one read, otherwise every round counts as progress (the old value may be %s)' % [short(z)[:50] for z in sorted(old, key=str)][:4], here)
    R.floor('waiting loops', R.counts.get('waiting loops', 0), 2)
    R.floor('comparisons with the time', R.counts.get('comparisons with the time', 0), 2)
    R.floor('progress comparisons', R.counts.get('progress comparisons', 0), 2)
    # ADNL: the public helper that turns a round trip into a timeout
    b = R.method('Node', 'compute_query_timeout')

    class A(E.Observer):
        maydepth = 3

        def inline(self, e, x):
            return x.file == b.file

        def relevant(self, f):
            return True

        def exit(self, e, ctx, st, kind, val):
            if kind == 'return':
                lim = [x for x in walk_phi(e, val) if isfield(x, LIMITS[0])]
                lim += [x for k in st.facts for y in k[1:] if isinstance(y, tuple) for x in walk_phi(e, y) if isfield(x, LIMITS[0])]
                R.count('ADNL timeouts')
                R.ob('adnl/at least the minimum', bool(lim) and Bounds(e, st, ctx).le(lim[0], val), 'the timeout computed for an ADNL query is at least the configured minimum, got %s' % short(val)[:100], '%s:%s' % (b.file, b.line))
    R.run(A(), b)
    R.floor('ADNL timeouts', R.counts.get('ADNL timeouts', 0), 1)


def origins_of(e, v):
    """what a value may be, without joined values that stand for themselves only"""
    return [x for x in map(uncast, spread(e, v)) if not (x[0] == 'phi' and not e.phi_src.get(x))]


def waited(e, v, d=0):
    """the time since some instant"""
    for x in origins_of(e, v):
        if x[0] == 'call' and last(x[1]) in ('elapsed', 'duration_since', 'saturating_duration_since', 'checked_duration_since'):
            return True
        if d < 6 and x[0] == 'call' and last(x[1]).startswith('as_') and x[2] and waited(e, x[2][0], d + 1):
            return True
        if d < 6 and x[0] == 'field' and waited(e, x[1], d + 1):
            return True
    return False


def counter(e, v):
    """a number read from a shared counter (or its starting value)"""
    vs = origins_of(e, v)
    return bool(vs) and all(x[0] == 'const' or x[0] == 'call' and last(x[1]) in COUNTERS for x in vs)


def sleeps(prog, b, blocks=None, d=0):
    """the blocks contain a call that sleeps, here or in a small async function awaited here"""
    for j in (range(len(b.blocks)) if blocks is None else blocks):
        f = callee(b.blocks[j]['t'])
        if f and last(f['p']) in ('sleep', 'sleep_until', 'tick') and 'time' in f['p']:
            return True
        x = prog.bodies.get(f['id']) if f and d < 2 and f.get('id') else None
        if x is not None and x.file.startswith('src/rldp/'):
            for c in prog.children(x.id):
                if c.kind == 'coroutine' and not sleeping_loop(prog, c) and sleeps(prog, c, None, d + 1):
                    return True
    return False


def sleeping_loop(prog, b):
    """a body with a loop that sleeps in each round"""
    from rules_adnl import waiting_loops
    if b.kind != 'coroutine' and not any(blk['t'][0] == 'yield' for blk in b.blocks):
        return False
    return any(sleeps(prog, b, s) for s, ex, fin in waiting_loops(prog, b))
