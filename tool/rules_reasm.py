""" reassembly of multipart messages and broadcasts: when it is given up """
from rules_adnl import *
import rules_overlay as ov
import engine as E
from engine import walk, mentions, short, mk, last


def clock_owner(v):
    """ the object whose clock a value belongs to: X of X.clock.updated_at """
    for x in walk(v):
        if isfield(x, 'updated_at') and x[1][0] == 'field':
            return nosites(x[1][1])
    return None


def elapsed_of(v):
    """ clocks (objects) whose elapsed time is part of a value """
    return {nosites(x[2][0][1][1]) for x in walk(v) if x[0] == 'call' and last(x[1]) in ('elapsed', 'duration_since', 'saturating_duration_since') and x[2]
            and isfield(x[2][0], 'started_at') and x[2][0][1][0] == 'field'}


def loaded_of(v):
    return {clock_owner(x[2][0]) for x in walk(v) if x[0] == 'call' and last(x[1]) == 'load' and x[2] and isfield(x[2][0], 'updated_at')} - {None}


def silent(op, a, b):
    """ clocks which a comparison shows to be silent for the time-out: last + timeout <= elapsed, or timeout <= elapsed - last """
    out = set()
    if op not in ('<', '<='):
        return out
    for c in loaded_of(a) & elapsed_of(b) if not elapsed_of(a) and not loaded_of(b) else ():
        if mentions(a, lambda x: x[0] == 'bin' and x[1].startswith('Add') or x[0] == 'call' and last(x[1]) in ('saturating_add', 'wrapping_add')):
            out.add(c)
    for c in loaded_of(b) & elapsed_of(b) if not elapsed_of(a) and not loaded_of(a) else ():
        if mentions(b, lambda x: x[0] == 'bin' and x[1].startswith('Sub') or x[0] == 'call' and last(x[1]) in ('saturating_sub', 'wrapping_sub')):
            out.add(c)
    return out


@rule('N20', 'reassembly is given up only for silence: every part restarts the clock, the task gives up only when the last part is older than the configured time',
      'must-pass dataflow on the receive paths (a part is kept only with its clock restarted), guard facts at every end of the tasks that watch a clock',
      'On the receive paths of split messages and of FEC broadcasts no path keeps a part without storing the current reading of the clock of the same transfer. A task that watches such a clock ends '
      'only where the reading minus the stored one was found to reach the configured time-out, or the transfer was completed or is gone.')
def n20(R):
    prog = R.prog
    # receiving
    near = recv_near(R, {'store', 'swap'})
    dl = {b.id for b in deliver_fns(R)}

    class Parts(E.Observer):
        maydepth = 16
        part_cap = 400
        inline_spawn = False

        def kept(self, ev):
            if ev.name in ('insert', 'or_insert', 'or_insert_with', 'insert_entry') and ev.args and root_field(ev.args[0]) == 'parts' and ('dashmap' in ev.p or 'DashMap' in ev.p):
                f = [x for x in walk(ev.args[0]) if isfield(x, 'parts')]
                return nosites(f[0][1]) if f else None
            if ev.name in ('send', 'try_send') and 'Sender' in ev.p and ev.args and isfield(ev.args[0], 'broadcast_tx'):
                return nosites(ev.args[0][1])
            return None

        def call(self, e, ctx, st, ev):
            w = src(e, ctx, ev.line)
            if ev.args and isfield(ev.args[0], 'updated_at') and ATOMIC_MUT.match(ev.name):
                o = clock_owner(ev.args[0])
                v = ev.args[1] if len(ev.args) > 1 else None
                if ev.name.startswith('compare'):
                    v = ev.args[2] if o in loaded_of(ev.args[1]) else None      # only replaces the value it was found to have
                elif ev.name not in ('store', 'swap', 'fetch_max'):
                    v = None
                R.ob('restart/value', v is not None and elapsed_of(v) == {o} and not mentions(v, lambda x: x[0] == 'bin' and x[1][:3] in ('Add', 'Sub', 'Mul', 'Div') or x[0] == 'call' and last(x[1]) in ('saturating_sub', 'saturating_add', 'min')),
                     'the clock of a transfer is set to its current reading (%s)' % (short(v)[:120] if v is not None else ''), w)
                R.count('clocks restarted')
                return st.marks | {('fresh', o)}
            o = self.kept(ev)
            if o is not None:
                R.count('parts kept')
                return st.marks | {('kept', o)}

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return' or ctx.depth:
                return
            for o in [m[1] for m in st.marks if isinstance(m, tuple) and m[0] == 'kept']:
                fr = [m[1] for m in st.marks if isinstance(m, tuple) and m[0] == 'fresh']
                ok = o in fr or any(x in fr for x in map(nosites, walk_phi(e, o))) or o[0] == 'agg'
                R.ob('part/restarts', ok, 'a part that is kept restarts the clock of its transfer (%s)' % short(o)[:100], one_line(ctx, ctx.body.line))

    class A(Parts):
        def inline(self, e, b):
            return b.id not in dl and b.name not in ('check_packet', 'create_channel', 'decrypt', 'process_query', 'process_message_custom') and (near(e, b) or b.name == 'add_part')

    class B(Parts):
        maydepth = 7

        def inline(self, e, b):
            return b.file.startswith('src/overlay') and not b.file.endswith('overlay_id.rs') or b.file.endswith('updated_at.rs')
    R.run(A(), recv_body(R))
    n1 = R.counts.get('parts kept', 0)
    R.floor('parts of messages kept', n1, 1)
    R.run(B(), ov.handler(R))
    R.floor('parts of broadcasts kept', R.counts.get('parts kept', 0) - n1, 1)
    R.floor('clocks restarted', R.counts.get('clocks restarted', 0), 2)
    # giving up
    readers = {b.id for b in prog.bodies.values() if b.kind != 'promoted' and any(last(p) == 'load' and 'tomic' in p for p, r, i, t in body_calls(b)) and "'updated_at'" in str(b.blocks)}
    sp = spawned(prog)
    watch, todo = set(), list(readers)
    while todo:
        x = todo.pop()
        if x not in watch:
            watch.add(x)
            if x not in sp:
                todo += [y for y in callers(prog, x) if y in prog.bodies and prog.bodies[y].kind != 'promoted']
    for c, par in sorted(sp.items()):
        task = prog.bodies[c]
        if c not in watch or par.id in watch:
            continue
        R.count('tasks that watch a clock')

        class T(E.Observer):
            maydepth = 8
            part_cap = 300

            def relevant(self, f):
                return True

            def inline(self, e, b):
                return b.id == c or b.id in watch or b.id not in sp and b.kind in ('fn', 'closure') and len(b.blocks) < 12

            def learned(self, e, st, k, v):
                out = []
                for op, a, b in rels(k, v):
                    for o in silent(op, a, b):
                        out.append(('silent', o))
                        R.count('comparisons of clocks')
                        x = nosites(a)
                        R.ob('give up/time-out', has_field(x, 'transfer_timeout_sec', 'broadcast_timeout_sec') and not mentions(x, lambda y: y[0] == 'bin' and y[1][:3] in ('Div', 'Shr', 'Sub') and not loaded_of(y)),
                             'a transfer is given up after the configured time (%s)' % short(x)[:120])
                if k[0] == 'call' and last(k[1]) == 'load' and v is True:
                    out.append('done')
                if found_none(k, v):
                    out.append('gone')
                if k[0] == 'var' and isinstance(v, str) and v not in ('Some', 'None', 'Ok', 'Err', 'Ready', 'Pending', 'Break', 'Continue', 'Incoming'):
                    out.append('other')
                return out

            def call(self, e, ctx, st, ev):
                if ev.name in ('sleep', 'tick') and 'tokio' in ev.p:
                    return frozenset(m for m in st.marks if not (m in ('done', 'gone', 'other') or isinstance(m, tuple) and m[0] == 'silent'))

            def ret(self, e, ctx, st, ev):
                if ev.id == c:
                    R.count('ends of tasks')
                    ok = any(m in ('done', 'gone', 'other') or isinstance(m, tuple) and m[0] == 'silent' for m in st.marks)
                    R.ob('give up/%s' % (par.name or owner_name(prog, par)), ok, 'a transfer is given up only when nothing arrived for the configured time, or when it is complete or gone', one_line(ctx, task.line))
        R.run(T(), par)
    R.floor('tasks that watch a clock', R.counts.get('tasks that watch a clock', 0), 2)
    R.floor('ends of tasks', R.counts.get('ends of tasks', 0), 2)
    R.floor('comparisons of clocks', R.counts.get('comparisons of clocks', 0), 2)


def found_none(k, v):
    if k[0] == 'var' and v == 'None':
        return k[1][0] == 'call' and 'Map' in k[1][1]
    return v is False and k[0] == 'call' and last(k[1]) in ('is_some', 'contains_key') and mentions(k, lambda x: x[0] == 'call' and 'Map' in x[1])
