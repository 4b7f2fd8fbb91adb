"""Shared parts of the rules: obligations, reports, value predicates, inlining filters."""
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine as E          # noqa: E402
from engine import last, short, mk, walk, mentions, strip_generics  # noqa: E402

RULES = {}


def rule(pid, title, technique, note):
    def deco(fn):
        RULES[pid] = dict(fn=fn, title=title, technique=technique, note=note, pid=pid)
        return fn
    return deco


class Missing(Exception):
    """an anchor of a rule is not there"""


class Report:
    def __init__(self, pid, prog, info, tier):
        self.pid = pid
        self.prog = prog
        self.info = info
        self.tier = tier
        self.obs = {}          # key -> [ok, msg, where, hits]
        self.counts = {}
        self.entries = []
        self.bodies = set()
        self.steps = 0
        self.notes = []

    # ---- obligations
    def ob(self, key, ok, msg='', where=''):
        """one instance of the rule; the same key may be met on many paths and must hold on each"""
        o = self.obs.get(key)
        if o is None:
            self.obs[key] = [bool(ok), msg, where, 1]
        else:
            o[3] += 1
            if o[0] and not ok:
                o[0], o[1], o[2] = False, msg, where
            elif o[0] and ok:
                o[1], o[2] = msg or o[1], where or o[2]
        return bool(ok)

    def fail(self, key, msg, where=''):
        self.ob(key, False, msg, where)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, least):
        """the number of instances met must not fall below what was confirmed by hand"""
        self.counts[name] = n
        self.ob('floor/%s' % name, n >= least,
                '%d instance(s) of "%s" found, at least %d expected: the rule would pass vacuously' % (n, name, least))

    # ---- anchors
    def need(self, what, got):
        if not got:
            raise Missing('%s not found in the program' % what)
        return got

    def method(self, ty, name):
        return self.need('%s::%s' % (ty, name), self.prog.method(ty, name))[0]

    def tmethod(self, tr, ty, name):
        return self.need('<%s as %s>::%s' % (ty, tr, name), self.prog.trait_method(tr, ty, name))[0]

    def entry(self, ty, name, fallback=None):
        """a private function by name, or, when it was renamed or merged, the public root that reaches it"""
        m = self.prog.method(ty, name)
        if m:
            return m[0]
        if fallback:
            self.notes.append('%s::%s not found, using %s::%s' % (ty, name, *fallback))
            return self.method(*fallback)
        raise Missing('%s::%s not found in the program' % (ty, name))

    def async_body(self, fn):
        """the coroutine of an async fn, or the fn itself"""
        for b in self.prog.children(fn.id):
            if b.kind == 'coroutine':
                return b
        return fn

    # ---- running
    def run(self, obs, body, **kw):
        t = time.time()
        e = E.Engine(self.prog, obs)
        e.conts = []
        e.cont_ids = {}
        e.run(body, **kw)
        self.steps += e.steps
        self.bodies |= e.seen_bodies
        self.entries.append('%s (%d steps, %d expanded functions, %.1f s)' % (body.id, e.steps, len(e.seen_bodies), time.time() - t))
        self.count('abstract states explored', e.steps)
        return e


# ------------------------------------------------------------------ value predicates
def isfield(v, name):
    return v[0] == 'field' and v[2][0] == 'f' and v[2][1] == name


def iscall(v, *names):
    return v[0] == 'call' and last(v[1]) in names


def has_field(v, *names):
    return mentions(v, lambda x: x[0] == 'field' and x[2][0] == 'f' and x[2][1] in names)


def has_call(v, *names):
    return mentions(v, lambda x: x[0] == 'call' and last(x[1]) in names)


def has_const(v, c):
    return mentions(v, lambda x: x[0] == 'const' and x[1] == c)


_names_memo = {}


def names(v):
    """call and field names in a value"""
    r = _names_memo.get(v)
    if r is None:
        s = set()
        for x in walk(v):
            if x[0] == 'call':
                s.add(last(x[1]))
            elif x[0] == 'mut':
                s.add(last(x[1]))
            elif x[0] == 'field' and x[2][0] == 'f':
                s.add(x[2][1])
        r = frozenset(s)
        if len(_names_memo) > 100000:
            _names_memo.clear()
        _names_memo[v] = r
    return r


def fact_val(f):
    return f[1] if f[0] in ('var', 'is') else f


class Rel:
    """relevance of a branch outcome: it mentions one of the given names"""

    def __init__(self, *ns):
        self.ns = frozenset(ns)
        self.memo = {}

    def __call__(self, f):
        r = self.memo.get(f)
        if r is None:
            r = not self.ns.isdisjoint(names(fact_val(f)))
            self.memo[f] = r
        return r


def expand_phi(e, v, casts=False):
    """the set of values a phi may stand for"""
    if v[0] != 'phi' and not casts:
        return {v}
    seen, out, st = set(), set(), [v]
    while st:
        x = st.pop()
        if casts:
            x = uncast(x)
        if x in seen:
            continue
        seen.add(x)
        if x[0] == 'phi' and e.phi_src.get(x):
            st.extend(e.phi_src[x])
        else:
            out.add(x)
    return out or {v}


VARIANT_NAMES = ('Some', 'None', 'Ok', 'Err')


def spread(e, v, seen=None, d=0):
    """the set of values v may stand for: choices at the roots of its access chains are resolved"""
    seen = seen or frozenset()
    if d > 30:
        return {v}
    if v[0] == 'phi':
        if v in seen or not e.phi_src.get(v):
            return set() if v in seen else {v}
        # all joined values behind this one
        todo, group, leaves = [v], {v}, []
        while todo:
            for x in e.phi_src.get(todo.pop(), ()):
                if x[0] == 'phi' and e.phi_src.get(x):
                    if x not in group and x not in seen:
                        group.add(x)
                        todo.append(x)
                else:
                    leaves.append(x)
        out = set()
        for x in leaves:
            out |= spread(e, x, seen | group, d + 1)
        return out if seen else (out or {v})
    if v[0] == 'field':
        out = set()
        for b in spread(e, v[1], seen, d + 1):
            if b[0] == 'agg' and b[1] == 'adt' and b[3] and len(v[2]) > 1 and isinstance(v[2][1], str) and '.' in v[2][1] and v[2][1].split('.')[0] != b[3] and v[2][1].split('.')[0] in VARIANT_NAMES:
                continue        # a field of another variant
            p = e.project(b, v[2])
            if p[0] == 'field' and b[0] == 'with' and p is not v:
                # not the part that was replaced: what it was before
                if p not in seen:
                    seen = seen | {v, p}
                    out |= spread(e, p, seen, d + 1)
                continue
            out |= spread(e, p, seen, d + 1) if p[0] == 'phi' else {p}
        return out if seen else (out or {v})
    return {v}


def fmt_facts(st, limit=14):
    out = []
    for k, v in st.facts.items():
        kk = fact_val(k)
        out.append('%s%s = %s' % ('variant ' if k[0] == 'var' else '', short(kk)[:160], v))
    return out[-limit:]


# ------------------------------------------------------------------ static call graph helpers
def body_calls(b):
    """(declared path, resolved path, local id) of the calls of one body"""
    for blk in b.blocks:
        t = blk['t']
        if t[0] == 'call':
            k = t[1].get('k')
            if k and 'fn' in k:
                f = k['fn']
                yield f['p'], f['r'], f.get('id'), t
            else:
                yield '<indirect>', '<indirect>', None, t


def body_refs(prog, b):
    """local bodies mentioned by b: callees, closures, function items"""
    out = set()

    def op(o):
        if isinstance(o, dict):
            k = o.get('k')
            if k:
                if 'fn' in k and k['fn'].get('id'):
                    out.add(k['fn']['id'])
                if 'closure' in k:
                    out.add(k['closure'])
        elif isinstance(o, list):
            for x in o:
                op(x)
    for blk in b.blocks:
        for s in blk['s']:
            if s[0] == '=':
                rv = s[2]
                if rv[0] == 'agg' and rv[1] in ('closure', 'coroutine', 'cclosure'):
                    out.add(rv[2])
                op(rv)
        t = blk['t']
        if t[0] == 'call':
            op(t[1])
            op(t[2])
        if t[0] == 'drop':
            for ty in prog.local_drop_types(t[4]):
                out.add(prog.drop_impls[ty])
    return out


_graph = {}


def graph(prog):
    g = _graph.get(id(prog))
    if g is None:
        g = {b.id: body_refs(prog, b) for b in prog.bodies.values() if b.kind != 'promoted'}
        _graph[id(prog)] = g
    return g


def reach(prog, roots):
    g = graph(prog)
    seen = set()
    st = [r if isinstance(r, str) else r.id for r in roots]
    while st:
        x = st.pop()
        if x in seen or x not in g:
            continue
        seen.add(x)
        st.extend(g[x])
    return seen


def admission(prog):
    """ the function that admits a peer to the transport and the helpers it is made of """
    r = [b.id for b in prog.bodies.values() if b.kind == 'fn' and b.name == 'add_peer' and b.file.startswith('src/adnl/node/')]
    return {i for i in reach(prog, r) if prog.bodies[i].file.startswith('src/adnl/node/')}


def admits(prog):
    """ the functions that admit a peer with an address to the transport:
    {id: positions of (id of the peer, address, full id) in the arguments} """
    out = {}
    for i in admission(prog):
        b = prog.bodies[i]
        ty = [b.locals[k][0] for k in range(1, b.argc + 1)]
        short_ = [k for k, t in enumerate(ty) if 'NodeIdShort' in t]
        addr = [k for k, t in enumerate(ty) if 'SocketAddr' in t]
        full = [k for k, t in enumerate(ty) if 'NodeIdFull' in t]
        if b.kind == 'fn' and len(short_) >= 2 and addr and full and 'bool' in ret_ty(b):
            out[i] = (short_[1], addr[0], full[0])
    return out


def reaching(prog, pred):
    """bodies from which a call satisfying pred(declared, resolved) or a body satisfying it is reachable"""
    g = graph(prog)
    rev = {}
    base = set()
    for b in prog.bodies.values():
        if b.kind == 'promoted':
            continue
        for y in g[b.id]:
            rev.setdefault(y, set()).add(b.id)
        if any(pred(p, r) for p, r, _, _ in body_calls(b)):
            base.add(b.id)
    seen = set()
    st = list(base)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(rev.get(x, ()))
    return seen


class Near:
    """inline filter: bodies from which one of the named calls is reachable, and small leaf functions"""

    def __init__(self, prog, calls=(), bodies=(), small=25, deny=()):
        cs = frozenset(calls)
        self.set = reaching(prog, lambda p, r: last(p) in cs or last(r) in cs)
        for b in bodies:
            self.set.add(b)
        self.small = small
        self.deny = frozenset(deny)
        self.memo = {}

    def __call__(self, e, body):
        r = self.memo.get(body.id)
        if r is None:
            r = body.name not in self.deny and (body.id in self.set or len(body.blocks) <= self.small)
            self.memo[body.id] = r
        return r


def body_of(e, ctx):
    return ctx.body


def src(e, ctx, line):
    return e.where(ctx, line)


def one_line(ctx, line):
    return '%s:%s' % (ctx.body.file, line)


def fname(ctx):
    """name of the closest named function of a context"""
    c = ctx
    while c is not None:
        if c.body.kind == 'fn':
            return c.body.name
        # closures and coroutines: the enclosing function
        i = c.body.id.split('::{closure')[0]
        return i.split('::')[-1]
    return '?'


def const_values(prog, name):
    return [c for c in prog.consts if str(c).find(name) >= 0]


def root_field(v):
    """name of the innermost-access field a value was reached through"""
    d = 0
    while d < 40:
        d += 1
        if v[0] == 'field':
            n = v[2][1] if v[2][0] == 'f' else None
            if isinstance(n, str) and '.' not in n and not n.isdigit() and n not in ('value', 'inner', 'ptr', 'pointer', 'data'):
                return n
            v = v[1]
        elif v[0] == 'call' and v[2]:
            v = v[2][0]
        elif v[0] in ('mut',):
            v = v[2]
        elif v[0] in ('with', 'await', 'discr'):
            v = v[1]
        elif v[0] == 'cast':
            v = v[2]
        else:
            return ''
    return ''


MAP_MUT = {'insert', 'remove', 'remove_if', 'entry', 'get_mut', 'retain', 'alter', 'clear', 'iter_mut', 'try_entry', 'remove_entry',
           'insert_entry', 'alter_all', 'try_get_mut', 'remove_if_mut', 'shrink_to_fit', 'or_insert', 'or_insert_with', 'or_default'}
ATOMIC_MUT = re.compile(r'^(store|swap|fetch_\w+|compare_exchange\w*|compare_and_swap)$')
HANDLERS = {'try_consume_custom', 'try_consume_query'}


def mutation(ev):
    """label of a change of shared state, or None"""
    n = ev.name
    p = ev.p
    if n in HANDLERS:
        return 'handler ' + n
    if 'dashmap' in p or 'DashMap' in p:
        if n in MAP_MUT:
            return 'table %s' % (root_field(ev.args[0]) or '?')
        return None
    if 'atomic' in p and ATOMIC_MUT.match(n):
        return 'atomic %s' % (root_field(ev.args[0]) or '?')
    if n == 'send' and ('mpsc' in p or 'oneshot' in p):
        return 'channel send'
    return None


# ------------------------------------------------------------------ comparisons
ORD = {'Less', 'Greater', 'Equal'}


def rels(k, v):
    """a branch outcome as comparisons: list of (op, a, b), op in < <= == !="""
    if k[0] == 'var' and v in ORD and (k[1][0] == 'bin' and k[1][1] == 'Cmp' or k[1][0] == 'call' and last(k[1][1]) == 'cmp' and len(k[1][2]) == 2):
        p, q = (k[1][2], k[1][3]) if k[1][0] == 'bin' else k[1][2]
        return ((('<', p, q),) if v == 'Less' else (('<', q, p),) if v == 'Greater' else (('==', p, q),))
    if k[0] != 'bin' or v not in (True, False):
        return ()
    op, a, b = k[1], k[2], k[3]
    if op == 'Lt':
        return (('<', a, b),) if v else (('<=', b, a),)
    if op != 'Eq':
        return ()
    for x, y in ((a, b), (b, a)):
        if x[0] == 'bin' and x[1] == 'Cmp' and y[0] == 'agg' and y[3] in ORD:
            p, q = x[2], x[3]
            if y[3] == 'Greater':
                return (('<', q, p),) if v else (('<=', p, q),)
            if y[3] == 'Less':
                return (('<', p, q),) if v else (('<=', q, p),)
            return (('==', p, q),) if v else (('!=', p, q),)
    # two equal parts do not make two equal wholes
    return (('~=' if v and piece(a) and piece(b) else '==' if v else '!=', a, b),)


def piece(v, d=0):
    """only a part (a range, an element, a few bytes) of something"""
    if d > 8:
        return False
    if v[0] in ('cast', 'deref', 'ref'):
        return any(piece(x, d + 1) for x in v[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))
    if v[0] == 'field':
        return v[2][0] in ('idx', 'sub') or v[2][1] in ('Some.0', 'Ok.0') and piece(v[1], d + 1)
    if v[0] == 'call' and v[2]:
        n = last(v[1])
        if n in ('index', 'get', 'split_at', 'chunks', 'first', 'last', 'first_chunk', 'last_chunk', 'split_first', 'split_last', 'get_unchecked', 'chunks_exact'):
            if 'dashmap' in v[1].lower() or 'HashMap' in v[1] or 'BTreeMap' in v[1] or 'Set' in v[1]:
                return False
            return not any(x[0] == 'agg' and 'RangeFull' in str(x[2]) for a in v[2][1:] for x in walk(a)) and not any(x[0] == 'agg' and 'RangeFrom' in str(x[2]) and x[4] and x[4][0][1] == ('const', 0, 'usize') for a in v[2][1:] for x in walk(a))
        if n in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes', 'try_into', 'unwrap', 'expect', 'to_vec', 'to_owned', 'as_ref', 'as_slice', 'deref', 'borrow', 'clone', 'try_from', 'iter', 'into', 'from'):
            return piece(v[2][0], d + 1)
    return False


def all_rels(st):
    for k, v in st.facts.items():
        for r in rels(k, v):
            yield r


def uncast(v):
    while v[0] == 'cast' or (v[0] == 'call' and last(v[1]) in ('from', 'into') and len(v[2]) == 1):
        v = v[2] if v[0] == 'cast' else v[2][0]
    return v


def linear(v):
    """(base, constant offset) of a value"""
    off = 0
    d = 0
    while d < 20:
        d += 1
        v = uncast(v)
        if v[0] == 'bin' and v[1] in ('Add', 'AddUnchecked'):
            if v[3][0] == 'const' and isinstance(v[3][1], int):
                off += v[3][1]
                v = v[2]
                continue
            if v[2][0] == 'const' and isinstance(v[2][1], int):
                off += v[2][1]
                v = v[3]
                continue
        if v[0] == 'bin' and v[1] == 'Sub' and v[3][0] == 'const' and isinstance(v[3][1], int):
            off -= v[3][1]
            v = v[2]
            continue
        if v[0] == 'field' and v[2] == ('f', 'Some.0') and v[1][0] == 'call' and last(v[1][1]) in ('checked_sub', 'checked_add') and len(v[1][2]) == 2 \
                and v[1][2][1][0] == 'const' and isinstance(v[1][2][1][1], int):
            off += v[1][2][1][1] * (1 if last(v[1][1]) == 'checked_add' else -1)
            v = v[1][2][0]
            continue
        break
    if v[0] == 'const' and isinstance(v[1], int) and not isinstance(v[1], bool):
        return None, off + v[1]
    return v, off


def const_range(v):
    """(lo, hi) of a range value with constant ends"""
    if v[0] == 'agg' and v[2] and 'Range' in str(v[2]):
        d = dict(v[4])
        lo = d.get('start')
        hi = d.get('end')
        lo = 0 if lo is None else (lo[1] if lo[0] == 'const' else None)
        hi = None if hi is None else (hi[1] if hi[0] == 'const' else None)
        return lo, hi
    if v[0] == 'const' and isinstance(v[1], int) and len(v) > 2 and 'Range' in str(v[2]):
        if 'RangeTo' in v[2]:
            return 0, v[1]
        if 'RangeFrom' in v[2]:
            return v[1], None
    if v[0] in ('const', 'str') and isinstance(v[1], str) and 'Range' in v[1]:
        m = re.search(r'start: (\d+)', v[1])
        n = re.search(r'end: (\d+)', v[1])
        return (int(m.group(1)) if m else 0), (int(n.group(1)) if n else None)
    return None


def has_arg(v, name):
    return mentions(v, lambda x: x[0] == 'arg' and x[2] == name or
                    x[0] == 'phi' and len(x) > 3 and isinstance(x[3], tuple) and x[3][0] == 'H' and isinstance(x[3][1], tuple) and has_arg(x[3][1], name))


def ret_ty(b):
    return b.locals[0][0]


def methods_of(prog, ty):
    out = []
    for b in prog.bodies.values():
        if b.kind == 'fn' and b.self_ty:
            t = b.self_ty.split('<')[0].lstrip('&').replace('mut ', '')
            if t == ty or t.endswith('::' + ty):
                out.append(b)
    return out


def of_messages(e, v):
    """ taken from the messages of a packet """
    return any('messages' in fpath(x) for x in spread(e, v)) or any('messages' in fpath(x) for x in expand_phi(e, root_of_path(v)))


def root_of_path(v):
    while v[0] == 'field' or v[0] == 'call' and v[2] or v[0] == 'mut':
        v = v[1] if v[0] == 'field' else v[2][0] if v[0] == 'call' else v[2]
    return v


def fpath(v):
    """field names along the access chain of a value"""
    out = []
    d = 0
    while d < 40:
        d += 1
        if v[0] == 'field':
            if v[2][0] == 'f':
                out.append(v[2][1])
            v = v[1]
        elif v[0] == 'call' and v[2]:
            v = v[2][0]
        elif v[0] == 'mut':
            v = v[2]
        elif v[0] in ('with', 'await', 'discr'):
            v = v[1]
        elif v[0] == 'cast':
            v = v[2]
        else:
            break
    return out


def oneof(*xs):
    for x in xs:
        if x:
            return x
    return None


# ------------------------------------------------------------------ escalation to callers
_rev = {}


def callers(prog, bid):
    r = _rev.get(id(prog))
    if r is None:
        r = {}
        for a, ys in graph(prog).items():
            for y in ys:
                r.setdefault(y, set()).add(a)
        _rev[id(prog)] = r
    return sorted(r.get(bid, ()))


def merge(R, S):
    for k, o in S.obs.items():
        R.ob(k, o[0], o[1], o[2])
        R.obs[k][3] += o[3] - 1
    for k, n in S.counts.items():
        R.count(k, n)
    R.entries += S.entries
    R.bodies |= S.bodies
    R.steps += S.steps


def escalate(R, roots, run, depth=3, within=None):
    """evaluate a balance rule at the function that makes the change; when it does not hold there, the
    function may leave the rest to its callers, so it has to hold in each of them"""
    memo = {}

    def evaluate(body, d):
        """(report, failing keys that nobody up the call chain repairs)"""
        if body.id in memo:
            return memo[body.id]
        S = Report(R.pid, R.prog, R.info, R.tier)
        memo[body.id] = (S, [])
        run(S, body)
        bad = [k for k, o in S.obs.items() if not o[0]]
        if bad and d > 0 and body.kind in ('fn', 'closure', 'coroutine'):
            up = body.id.rsplit('::', 1)[0] if body.kind == 'coroutine' else body.id
            cs = [R.prog.bodies[c] for c in callers(R.prog, up) if c in R.prog.bodies and c != body.id]
            if cs and (within is None or all(within(c) for c in cs)):
                res = [evaluate(c, d - 1) for c in cs]
                keep = []
                for k in bad:
                    pre = k.split('/')[0]
                    # every caller meets the same obligation, and meets it well
                    if not all(any(x.split('/')[0] == pre for x in T.obs) and
                               not any(x.split('/')[0] == pre for x in tb) for T, tb in res):
                        keep.append(k)
                    else:
                        R.notes.append('%s leaves %s to its callers' % (body.id, k))
                bad = keep
        memo[body.id] = (S, bad)
        return memo[body.id]
    for b in roots:
        evaluate(b, depth)
    for S, bad in memo.values():
        for k in [k for k, o in S.obs.items() if not o[0] and k not in bad]:
            del S.obs[k]
        merge(R, S)
