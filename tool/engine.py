"""Path-sensitive dataflow over the MIR of the crate.

The engine runs a fixpoint over (context, block, partition) where the context is a bounded call
string (crate-local callees, closures and async bodies are expanded in place), and the abstract
state maps every live place to a symbolic value number and keeps the set of branch outcomes that
hold on every path to this point.  It executes nothing: loops are joined at their headers, values
that differ between paths become opaque phi values, and everything outside the crate is opaque.
"""
import re
from collections import deque
import heapq

# ------------------------------------------------------------------ values (hash-consed tuples)
_intern = {}


class V(tuple):
    """interned value: identity is equality; hashed by the order of creation, so that runs are reproducible"""

    def __hash__(self):
        return self.n
    __eq__ = object.__eq__
    __ne__ = object.__ne__


def mk(*t):
    v = _intern.get(t)
    if v is None:
        v = V(t)
        v.n = len(_intern)
        _intern[t] = v
    return v


MOVED = mk('moved')
UNIT = mk('agg', 'tuple', '', '', ())
TRUE = mk('const', 1, 'bool')
FALSE = mk('const', 0, 'bool')


def const(v, t=''):
    return mk('const', v, t)


def settled(st, v):
    """a condition whose outcome is known is that outcome"""
    x, neg = v, False
    while x[0] == 'un' and x[1] == 'Not':
        x, neg = x[2], not neg
    if x[0] in ('bin', 'call', 'await') and isinstance(st.facts.get(x), bool):
        return TRUE if st.facts[x] != neg else FALSE
    return v


def agg(name, variant, fields):
    return mk('agg', 'adt', name, variant, tuple(fields))


def is_const(v):
    return v[0] == 'const'


def cval(v):
    return v[1] if v[0] == 'const' else None


def sub(v):
    """direct sub-values"""
    k = v[0]
    if k == 'call':
        return v[2]
    if k == 'agg':
        return tuple(x for _, x in v[4])
    if k == 'field':
        return (v[1],) + ((v[2][1],) if isinstance(v[2], tuple) and len(v[2]) > 1 and isinstance(v[2][1], tuple) else ())
    if k == 'bin':
        return (v[2], v[3])
    if k in ('un', 'cast'):
        return (v[2],)
    if k in ('discr', 'await', 'poll'):
        return (v[1],)
    if k == 'mut':
        return (v[2],) + v[4]
    if k == 'with':
        return (v[1],) + tuple(x for _, x in v[2])
    return ()


_walk_memo = {}


def walk(v):
    """all sub-values (including v)"""
    r = _walk_memo.get(v)
    if r is None:
        seen = {v: None}
        st = [v]
        while st:
            x = st.pop()
            for y in sub(x):
                if y not in seen:
                    seen[y] = None
                    st.append(y)
        r = tuple(seen)
        if len(_walk_memo) > 200000:
            _walk_memo.clear()
        _walk_memo[v] = r
    return r


def mentions(v, pred):
    return any(pred(x) for x in walk(v))


_shape_memo = {}


def shape(v, d=0):
    """constant part of a value used to keep states apart: flags and variants (also inside tuples)"""
    c = v[0]
    if c == 'const':
        return v[1] if v[2] == 'bool' else None
    if c == 'call' and v[2]:
        x = v
        while x[0] == 'call' and x[2] and x[1] != 'arrit' and last(x[1]) in ('map', 'filter', 'filter_map'):
            x = x[2][0]
        return x[2][1] if x[0] == 'call' and x[1] == 'arrit' else None
    if c == 'moved':
        return 'M'
    if c != 'agg' or v[1] in ('closure', 'coroutine', 'cclosure', 'array'):
        return None
    if d == 0 and v in _shape_memo:
        return _shape_memo[v]
    r = v[3] or None
    if d < 4 and v[4] and (v[1] == 'tuple' or v[3]):
        ins = tuple((f, t) for f, t in ((f, shape(x, d + 1)) for f, x in v[4]) if t is not None and t != 'M')
        if ins:
            r = (v[3],) + ins
    if d == 0:
        if len(_shape_memo) > 200000:
            _shape_memo.clear()
        _shape_memo[v] = r
    return r


_sites_memo = {}


def sites(v):
    r = _sites_memo.get(v)
    if r is None:
        s = set()
        for x in walk(v):
            if x[0] == 'call' and x[3] is not None:
                s.add(x[3])
            elif x[0] in ('phi',):
                s.add(x)
            elif x[0] in ('mut',):
                s.add(x[3])
        r = frozenset(s)
        if len(_sites_memo) > 200000:
            _sites_memo.clear()
        _sites_memo[v] = r
    return r


def short(v, d=0):
    """human readable rendering of a value"""
    k = v[0]
    if d > 7:
        return '..'
    s = lambda x: short(x, d + 1)
    if k == 'const':
        return str(v[1])
    if k == 'str':
        return repr(v[1])
    if k == 'arg':
        return v[2] or ('arg%d' % v[1])
    if k == 'call':
        n = v[1].split('::')
        return '%s(%s)' % ('::'.join(n[-2:]), ', '.join(s(a) for a in v[2]))
    if k == 'field':
        e = v[2]
        if e[0] == 'f':
            return '%s.%s' % (s(v[1]), e[1])
        if e[0] == 'idx':
            return '%s[%s]' % (s(v[1]), s(e[1]) if isinstance(e[1], tuple) else e[1])
        return '%s.%s' % (s(v[1]), e)
    if k == 'bin':
        return '(%s %s %s)' % (s(v[2]), v[1], s(v[3]))
    if k == 'un':
        return '%s(%s)' % (v[1], s(v[2]))
    if k == 'cast':
        return '(%s as %s)' % (s(v[2]), v[1])
    if k == 'agg':
        n = v[2].split('::')[-1]
        if v[1] in ('closure', 'coroutine'):
            n = v[1] + ':' + '::'.join(v[2].split('::')[-3:])
        return '%s%s{%s}' % (n, ('::' + v[3]) if v[3] and v[3] != n else '', ', '.join('%s' % s(x) for f, x in v[4]))
    if k == 'discr':
        return 'discr(%s)' % s(v[1])
    if k == 'await':
        return 'await(%s)' % s(v[1])
    if k == 'phi':
        return 'phi@%s:%s' % (v[2], v[3][-1] if isinstance(v[3], tuple) else v[3])
    if k == 'mut':
        return 'mut[%s](%s)' % (v[1].split('::')[-1], s(v[2]))
    if k == 'with':
        return '%s with{%s}' % (s(v[1]), ','.join('%s=%s' % (p, s(x)) for p, x in v[2]))
    if k == 'ref':
        return '&%s' % (v[1],)
    return str(v)[:80]


NEG = {'Ne': 'Eq', 'Ge': 'Lt'}


def norm_cmp(op, a, b):
    """-> (canonical value, polarity)"""
    if op == 'Ne':
        x, p = norm_cmp('Eq', a, b)
        return x, not p
    if op == 'Ge':
        return mk('bin', 'Lt', a, b), False
    if op == 'Gt':
        return mk('bin', 'Lt', b, a), True
    if op == 'Le':
        return mk('bin', 'Lt', b, a), False
    if op == 'Eq':
        if b.n < a.n:
            a, b = b, a
        return mk('bin', 'Eq', a, b), True
    return mk('bin', op, a, b), True


# ------------------------------------------------------------------ program
class Body:
    __slots__ = ('id', 'kind', 'path', 'name', 'file', 'line', 'argc', 'parent', 'self_ty', 'trait', 'upvars',
                 'pub', 'locals', 'blocks')

    def __init__(self, d):
        for k in self.__slots__:
            setattr(self, k, d.get(k))

    def __repr__(self):
        return '<Body %s>' % self.id


REPEATED = re.compile(r'^(retain|retain_mut|for_each|try_for_each|map|flat_map|filter|filter_map|any|all|find|find_map|position|fold|try_fold|inspect|take_while|skip_while|map_while|alter_all|partition|scan|collect|extend)$')


def captures_changed(b):
    """captured variables the body of a closure writes to or borrows mutably"""
    def cap(pl):
        if isinstance(pl, list) and len(pl) > 2 and pl[0] == 1:
            fs = [z for z in pl[1:3] if isinstance(z, list) and z and z[0] == 'f']
            if fs and ['*'] in pl[2:]:
                return fs[0][1]
    out = set()
    for blk in b.blocks:
        for s in blk['s']:
            if s[0] == '=':
                out.add(cap(s[1]))
                if s[2][0] in ('ref', 'addr', 'rawptr') and s[2][1] != 's':
                    out.add(cap(s[2][2]))
        if blk['t'][0] == 'call':
            out.add(cap(blk['t'][3]))
    return out


class Program:
    def __init__(self, facts):
        self.bodies = {}
        for d in facts['bodies']:
            self.bodies[d['id']] = Body(d)
        self.adts = facts['adts']
        self.impls = facts['impls']
        self.consts = facts['consts']
        self.drop_impls = {}
        for tr, st, items in self.impls:
            if tr in ('std::ops::Drop', 'core::ops::Drop'):
                base = st.split('<')[0]
                for n, i in items:
                    if n == 'drop':
                        self.drop_impls[base] = i
        self._contains_drop = {}
        self._mutcap = {}
        self._cfg = {}

    def cfg(self, body):
        c = self._cfg.get(body.id)
        if c is None:
            c = self._cfg[body.id] = Cfg(body)
        return c

    def discr_name(self, adt, val):
        a = self.adts.get(adt)
        if not a:
            return None
        for v in a['variants']:
            if v['discr'] == val:
                return v['name']
        return None

    def variants(self, adt):
        a = self.adts.get(adt)
        return [v['name'] for v in a['variants']] if a else []

    def fn(self, path_re, kind='fn', self_ty=None):
        r = re.compile(path_re)
        return [b for b in self.bodies.values() if b.kind == kind and r.search(b.path)]

    def method(self, ty, name):
        """function `name` in an impl of local type `ty` (last path segment)"""
        out = []
        for b in self.bodies.values():
            if b.kind == 'fn' and b.name == name and b.self_ty and b.trait is None:
                t = b.self_ty.split('<')[0].lstrip('&').replace('mut ', '')
                if t == ty or t.endswith('::' + ty):
                    out.append(b)
        return out

    def trait_method(self, trait, ty, name):
        out = []
        for b in self.bodies.values():
            if b.kind == 'fn' and b.name == name and b.self_ty and b.trait and b.trait.endswith(trait):
                t = b.self_ty.split('<')[0].lstrip('&').replace('mut ', '')
                if t == ty or t.endswith('::' + ty):
                    out.append(b)
        return out

    def mutated_capture(self, b, i):
        """does closure b hold its i-th capture by mutable reference"""
        k = (b.id, i)
        if k not in self._mutcap:
            self._mutcap[k] = i in captures_changed(b)
        return self._mutcap[k]

    def children(self, bid):
        return [b for b in self.bodies.values() if b.kind != 'promoted' and b.parent == bid]

    def local_drop_types(self, ty):
        """Drop impls reached by dropping a value of type string `ty` (by ADT structure)"""
        if ty in self._contains_drop:
            return self._contains_drop[ty]
        self._contains_drop[ty] = ()
        out = []
        base = ty.split('<')[0]
        if base in self.drop_impls:
            out.append(base)
        for b in self.drop_impls:
            if b != base and b in ty:
                out.append(b)
        self._contains_drop[ty] = tuple(out)
        return self._contains_drop[ty]


# ------------------------------------------------------------------ callee classification
# value-transparent calls: the result is the (first) argument
TRANSPARENT = {
    'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'as_slice', 'as_mut_slice', 'as_deref', 'as_deref_mut',
    'as_pin_mut', 'as_bytes', 'as_str', 'into_inner', 'to_owned', 'into_boxed_slice', 'by_ref', 'from_ref', 'leak', 'into_string',
    'into_future', 'into_iter', 'iter', 'iter_mut', 'as_equivalent_ref_', 'get_mut_', 'cloned', 'copied', 'clone', 'to_vec', 'into_vec',
    'to_string_', 'black_box', 'must_use', 'identity', 'value', 'value_mut', 'pair_', 'into_ref_', 'get_pin_mut', 'downgrade',
    'try_into_', 'as_ptr', 'as_mut_ptr', 'boxed', 'fuse', 'into_std_', 'clone_into_', 'as_array', 'as_ptr_', 'box_new', 'write_via_move',
}
VALUE_COPY = {'clone', 'cloned', 'copied', 'to_owned', 'to_vec', 'downgrade'}
CTOR_TRANSPARENT = re.compile(
    r'^(std|alloc|core)::(sync::Arc|boxed::Box|rc::Rc|pin::Pin)(::<[^>]*>)?::(new|pin|new_unchecked|into_pin|from)$|'
    r'^futures_util::FutureExt::boxed$')
CONV = re.compile(r'^(std|core)::convert::(Into::into|From::from|AsRef::as_ref|AsMut::as_mut)$')
PURE = {'len', 'is_empty', 'as_secs', 'as_millis', 'as_nanos', 'wrapping_add', 'wrapping_sub', 'saturating_sub', 'saturating_add',
        'min', 'max', 'checked_sub', 'checked_add', 'contains', 'starts_with', 'index', 'index_mut', 'compute_short_id', 'to_be_bytes',
        'to_le_bytes', 'from_be_bytes', 'from_le_bytes', 'mul_f64', 'as_u32', 'from_secs', 'from_millis', 'leading_zeros',
        'trailing_zeros', 'size_of', 'ip', 'port', 'split_at', 'split_at_mut', 'first', 'last', 'get_unchecked', 'is_zero', 'capacity',
        'num_seconds', 'range_contains', 'full_id', 'as_millis', 'hash_', 'cmp', 'partial_cmp', 'to_bytes', 'as_nanos',
        'checked_duration_since_', 'chunks', 'enumerate', 'rev', 'zip', 'skip', 'take_n', 'step_by', 'div_ceil', 'unsigned_abs', 'abs_diff',
        'next_power_of_two', 'is_power_of_two', 'count_ones', 'ends_with', 'strong_count', 'new_inclusive', 'wrapping_mul', 'rem_euclid', 'pow'}

NOINLINE_TRAIT = re.compile(r'^(tl_proto::|std::fmt|core::fmt|std::hash|core::hash|std::cmp|core::cmp|std::clone|serde)')


def last(p):
    """last path segment of a def path, generics stripped"""
    depth = 0
    out = []
    for ch in reversed(p):
        if ch == '>':
            depth += 1
        elif ch == '<':
            depth -= 1
        elif depth == 0:
            if ch == ':' and out:
                break
            if ch == ':':
                continue
            out.append(ch)
    return ''.join(reversed(out))


_sg = {}


def strip_generics(p):
    r = _sg.get(p)
    if r is None:
        out = []
        d = 0
        i = 0
        n = len(p)
        while i < n:
            ch = p[i]
            if ch == '<' and (d > 0 or (i >= 2 and p[i - 2:i] == '::') or (i > 0 and (p[i - 1].isalnum() or p[i - 1] == '_'))):
                d += 1
            elif ch == '>' and d > 0 and p[i - 1] != '-':
                d -= 1
            elif d == 0:
                out.append(ch)
            i += 1
        r = ''.join(out).replace('::::', '::').rstrip(':')
        _sg[p] = r
    return r


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'sw':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'drop':
        return [t[2]]
    if k == 'assert':
        return [t[4]]
    if k == 'yield':
        return [t[2]] + ([t[3]] if t[3] is not None else [])
    return []


def _places(o, out):
    """collect places (lists starting with a local index) in a rvalue / operand"""
    if isinstance(o, dict):
        for k in ('c', 'm'):
            if k in o:
                out.append(o[k])
    elif isinstance(o, list):
        for x in o:
            _places(x, out)


class Cfg:
    """per-body control-flow facts: reverse post order, liveness, log regions"""

    def __init__(self, body):
        blocks = body.blocks
        n = len(blocks)
        self.succ = [succs(b['t']) for b in blocks]
        order = []
        seen = [False] * n
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.reach = order
        self.rpo = [n + 1] * n
        for i, b in enumerate(order):
            self.rpo[b] = i
        # ---- log macro regions: switch blocks produced by a logging macro jump to their join
        self.skip = {}
        lg = [b for b in order if blocks[b].get('lg') and blocks[b]['t'][0] == 'sw']
        if lg:
            pd = self.postdom(order, n)
            for b in lg:
                x = pd.get(b)
                hops = 0
                while x is not None and x != b and blocks[x].get('lg') and blocks[x]['t'][0] == 'sw' and hops < 50:
                    x = pd.get(x)
                    hops += 1
                if x is not None and x != b:
                    self.skip[b] = x
        # ---- liveness
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        self.borrowed = set()
        for b in range(n):
            u, d = use[b], dfn[b]

            def rd(l):
                if l not in d:
                    u.add(l)
            for s in blocks[b]['s']:
                if s[0] == '=':
                    rv = s[2]
                    if rv[0] == 'ref':
                        pl = rv[2]
                        rd(pl[0])
                        for e in pl[1:]:
                            if e[0] == 'i':
                                rd(e[1])
                        if not any(e[0] == '*' for e in pl[1:]):
                            self.borrowed.add(pl[0])
                    elif rv[0] == 'discr':
                        rd(rv[1][0])
                    else:
                        ps = []
                        _places(rv, ps)
                        for pl in ps:
                            rd(pl[0])
                            for e in pl[1:]:
                                if e[0] == 'i':
                                    rd(e[1])
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                    else:
                        rd(s[1][0])
                        for e in s[1][1:]:
                            if e[0] == 'i':
                                rd(e[1])
            t = blocks[b]['t']
            ps = []
            if t[0] == 'sw':
                _places(t[1], ps)
            elif t[0] == 'call':
                _places(t[1], ps)
                _places(t[2], ps)
                if len(t[3]) > 1:
                    ps.append(t[3])
            elif t[0] == 'drop':
                ps.append(t[1])
            elif t[0] == 'assert':
                _places(t[1], ps)
                _places(t[3], ps)
            for pl in ps:
                rd(pl[0])
                for e in pl[1:]:
                    if e[0] == 'i':
                        rd(e[1])
            if t[0] == 'call' and len(t[3]) == 1:
                d.add(t[3][0])
            if t[0] == 'ret':
                rd(0)
        live = [set() for _ in range(n)]
        ch = True
        post = list(reversed(order))
        while ch:
            ch = False
            for b in post:
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                x = use[b] | (o - dfn[b])
                if x != live[b]:
                    live[b] = x
                    ch = True
        self.live = [frozenset(x) | frozenset(self.borrowed) for x in live]

    def postdom(self, order, n):
        EXIT = n
        preds = {}
        rs = {b: ([s for s in self.succ[b] if True] or [EXIT]) for b in order}
        # yields: ignore the cancellation edge for post-dominance
        # reverse graph RPO from EXIT
        rev = {EXIT: []}
        for b in order:
            for s in rs[b]:
                rev.setdefault(s, []).append(b)
        po = []
        seen = {EXIT}
        st = [(EXIT, iter(rev.get(EXIT, [])))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(rev.get(s, []))))
                    break
            else:
                po.append(b)
                st.pop()
        idx = {b: i for i, b in enumerate(po)}
        idom = {EXIT: EXIT}
        rp = [b for b in reversed(po) if b != EXIT]
        ch = True
        while ch:
            ch = False
            for b in rp:
                new = None
                for s in rs[b]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            x, y = new, s
                            while x != y:
                                while idx[x] < idx[y]:
                                    x = idom[x]
                                while idx[y] < idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return {b: d for b, d in idom.items() if d != EXIT and b != EXIT}


class Ctx:
    """one expanded function instance"""
    __slots__ = ('id', 'body', 'parent', 'site', 'dest', 'target', 'wrap', 'depth', 'chain', 'poll_site', 'line', 'cfg', 'prefix', 'retlive', 'gc')


class State:
    __slots__ = ('env', 'facts', 'heap', 'marks')

    def __init__(self, env, facts, heap, marks):
        self.env = env
        self.facts = facts
        self.heap = heap
        self.marks = marks

    def copy(self):
        return State(dict(self.env), dict(self.facts), dict(self.heap), self.marks)


class Budget(Exception):
    pass


GUARD_TY = re.compile(r'dashmap::mapref::\w+::(RefMut|RefMutMulti|OccupiedEntry)|lock_api::\w+::(MutexGuard|RwLockWriteGuard)|(^|[^\w])(MutexGuard|RwLockWriteGuard)<')


class Observer:
    """Base class of rules. Hooks get (eng, ctx, st, event). They may return a new marks frozenset."""
    cancel = False          # explore cancellation (drop) edges of yields
    inline_spawn = True     # expand spawned coroutines as side paths
    maydepth = 8
    skip_logging = True     # treat logging macros as no-ops
    max_states = 400000
    part_cap = 16
    versions = False          # arguments of calls show what memory holds at that point
    deep_mut = 6              # changes of one value that are remembered
    keeps = frozenset()       # calls that leave the length of what they change alone

    def call(self, e, ctx, st, ev):
        pass

    def ret(self, e, ctx, st, ev):
        pass

    def exit(self, e, ctx, st, kind, val):
        pass

    def write(self, e, ctx, st, path, val, line):
        pass

    def yielded(self, e, ctx, st, line):
        pass

    def panic(self, e, ctx, st, what, line):
        pass

    def asserted(self, e, ctx, st, msg, ops, line):
        pass

    def dropped(self, e, ctx, st, val, ty, line):
        pass

    def block(self, e, ctx, st, bb):
        pass

    def learned(self, e, st, key, val):
        """a branch outcome was established; returns marks to add"""
        return None

    def iterated(self, e, ctx, st, it, some):
        """an iterator yielded an element (some) or ended; returns the new set of marks or None"""
        return None

    def relevant(self, fact):
        return False

    def nonempty(self, e, ctx, it):
        """the iterator yields at least one element (arrays and ranges of constant length)"""
        return False

    def inline(self, e, body):
        return True


class Event:
    __slots__ = ('p', 'r', 'id', 'name', 'args', 'raw', 'line', 'site', 'result', 'ga', 'argtys', 'dty', 'selfcl', 'how')

    def is_(self, *names):
        """match by resolved or declared path suffix, generics stripped"""
        a, b = strip_generics(self.p), strip_generics(self.r)
        for n in names:
            if a == n or b == n or a.endswith('::' + n) or b.endswith('::' + n):
                return True
        return False


class Engine:
    def __init__(self, prog, obs):
        self.prog = prog
        self.obs = obs
        self.learns = type(obs).learned is not Observer.learned
        self.ctxs = {}
        self.ctxlist = []
        self.vtypes = {}           # types of values, where obs.versions asks for them
        self.cond = None
        self.rawderef = getattr(obs, 'rawderef', None)
        self.stored = getattr(obs, 'stored', None)
        self.table = {}
        self.work = []
        self.queued = set()
        self.tick = 0
        self.steps = 0
        self.events = 0
        self.phi_src = {}
        self.seen_bodies = set()
        self.inlined_sites = 0
        self.preds = {}
        self.cur_key = None

    # -------------------------------------------------------------- contexts
    def ctx(self, body, parent, site, dest, target, wrap, line=0):
        k = (body.id, parent.id if parent else None, site, wrap)
        c = self.ctxs.get(k)
        if c is None:
            c = Ctx()
            c.id = len(self.ctxlist)
            c.body = body
            c.parent = parent
            c.site = site
            c.dest = dest
            c.target = target
            c.wrap = wrap
            c.line = line
            c.depth = parent.depth + 1 if parent else 0
            c.gc = parent.gc if parent is not None and body.kind != 'fn' else None
            c.cfg = self.prog.cfg(body)
            rp = parent.cfg.rpo[self.site_bb(site)] if parent else 0
            c.prefix = (parent.prefix + (rp,)) if parent else ()
            c.chain = (parent.chain if parent else frozenset()) | {body.id}
            self.ctxs[k] = c
            self.ctxlist.append(c)
            self.seen_bodies.add(body.id)
        return c

    @staticmethod
    def site_bb(site):
        if isinstance(site, int):
            return site
        for x in site:
            if isinstance(x, int):
                return x
            if isinstance(x, tuple):
                return Engine.site_bb(x)
        return 0

    def where(self, ctx, line):
        out = []
        c = ctx
        l = line
        while c is not None:
            out.append('%s:%s (%s)' % (c.body.file, l, c.body.path.split('::', 0)[-1][-70:]))
            l = c.line
            c = c.parent
        return ' <- '.join(out)

    # -------------------------------------------------------------- memory
    def project(self, v, el):
        """value of component `el` of value v"""
        k = v[0]
        if el[0] == 'f':
            if k == 'agg':
                for f, x in v[4]:
                    if f == el[1]:
                        return x
                return mk('field', v, el)
            if k == 'with':
                for p, x in v[2]:
                    if p == el:
                        return x
                return self.project(v[1], el)
            if k == 'phi':
                return mk('field', v, el)
            return mk('field', v, el)
        if el[0] == 'idx' and k == 'agg' and v[1] == 'array' and el[1][0] == 'const' and isinstance(el[1][1], int) and 0 <= el[1][1] < len(v[4]):
            return v[4][el[1][1]][1]
        return mk('field', v, el)

    def with_field(self, v, path, val):
        if not path:
            return val
        el = path[0]
        if len(path) > 1:
            val = self.with_field(self.project(v, el), path[1:], val)
        if v[0] == 'agg' and el[0] == 'f':
            fs = []
            hit = False
            for f, x in v[4]:
                if f == el[1]:
                    fs.append((f, val))
                    hit = True
                else:
                    fs.append((f, x))
            if hit:
                return mk('agg', v[1], v[2], v[3], tuple(fs))
        base, ov = (v[1], v[2]) if v[0] == 'with' else (v, ())
        ov = tuple((p, x) for p, x in ov if p != el) + ((el, val),)
        if len(ov) > 12:
            ov = ov[-12:]
        return mk('with', base, ov)

    def loc_of(self, ctx, st, place):
        """-> ('L', (ctxid, local), path) or ('M', value, ())"""
        kind = 'L'
        base = (ctx.id, place[0])
        path = ()
        variant = None
        for el in place[1:]:
            t = el[0]
            if t == '*':
                v = self.read(st, (kind, base, path))
                if self.rawderef is not None and el is place[1] and ctx.body.locals[place[0]][0].startswith('*'):
                    self.rawderef(self, ctx, st, self.peel(st, v), ctx.body.locals[place[0]][0])
                if v[0] == 'ref':
                    kind, base, path = v[1]
                else:
                    kind, base, path = 'M', v, ()
                variant = None
            elif t == 'v':
                variant = el[2]
            elif t == 'f':
                name = el[2]
                if variant is not None:
                    name = variant + '.' + name
                    variant = None
                path = path + (('f', name),)
            elif t == 'i':
                iv = self.read(st, ('L', (ctx.id, el[1]), ()))
                path = path + (('idx', iv),)
            elif t == 'ci':
                path = path + (('idx', const(-el[1] if el[3] else el[1], 'ci')),)
            elif t == 'sub':
                path = path + (('sub', (el[1], el[2], el[3])),)
            else:
                pass
            if kind == 'M' and path:
                # references into opaque memory are named by their access path
                v = base
                # a field that itself holds a value: keep naming by path, heap is consulted on read
                for p in path:
                    v = self.project(v, p)
                if v[0] == 'ref':
                    # field holding a reference to a local (captured variable, aggregate of refs)
                    kind, base, path = 'V', v, ()
                else:
                    base, path = v, ()
            elif kind == 'V':
                v = base
                for p in path:
                    v = self.project(v, p)
                base, path = v, ()
        return (kind, base, path)

    def read(self, st, loc):
        kind, base, path = loc
        if kind == 'L':
            v = st.env.get(base)
            if v is None:
                v = mk('uninit', base)
            for p in path:
                v = self.project(v, p)
                if v[0] == 'field' and st.heap and v in st.heap:
                    pass
            return v
        if kind == 'V':
            v = base
            for p in path:
                v = self.project(v, p)
            return v
        v = base
        for p in path:
            v = self.project(v, p)
        return self.hread(st, v)

    def hread(self, st, v):
        if not st.heap:
            return v
        if v in st.heap:
            return st.heap[v]
        # prefix
        if v[0] == 'field':
            b = self.hread(st, v[1])
            if b is not v[1]:
                return self.project(b, v[2])
        return v

    def write(self, ctx, st, loc, val, line):
        kind, base, path = loc
        if kind == 'L':
            if not path:
                st.env[base] = val
            else:
                if self.stored is not None:
                    r = self.stored(self, ctx, st, path, val, line)
                    if r is not None:
                        st.marks = r
                st.env[base] = self.with_field(st.env.get(base, mk('uninit', base)), path, val)
            return
        v = base
        for p in path:
            v = self.project(v, p)
        if kind == 'V' and v[0] == 'ref':
            return self.write(ctx, st, v[1], val, line)
        if v[0] == 'call' and v[1] == 'atomic::get_mut':
            ev = Event()
            ev.p = ev.r = 'std::sync::atomic::Atomic::store'
            ev.name, ev.id, ev.ga, ev.selfcl, ev.how, ev.result = 'store', None, [], None, 'direct', None
            ev.args = ev.raw = (v[2][0], val, agg('std::sync::atomic::Ordering', 'Relaxed', ()))
            ev.argtys, ev.dty, ev.line, ev.site = [], '()', line, v[3]
            r = self.obs.call(self, ctx, st, ev)
        else:
            r = self.obs.write(self, ctx, st, v, val, line)
        if r is not None:
            st.marks = r
        if v[0] in ('uninit', 'const'):
            return
        for h in list(st.heap):
            if h != v and self._has_prefix(h, v):
                del st.heap[h]
        st.heap[v] = val

    @staticmethod
    def _has_prefix(h, v):
        while h[0] == 'field':
            h = h[1]
            if h == v:
                return True
        return False

    def peel(self, st, v, d=0):
        """replace references to local places by the value they hold"""
        if d > 6:
            return v
        k = v[0]
        if k == 'ref':
            return self.peel(st, self.read(st, v[1]), d + 1)
        if k == 'agg' and v[4]:
            fs = tuple((f, self.peel(st, x, d + 1)) for f, x in v[4])
            if fs != v[4]:
                return mk('agg', v[1], v[2], v[3], fs)
        if k == 'with':
            b = self.peel(st, v[1], d + 1)
            fs = tuple((f, self.peel(st, x, d + 1)) for f, x in v[2])
            return mk('with', b, fs)
        return v

    def operand(self, ctx, st, op):
        if 'c' in op:
            return self.read(st, self.loc_of(ctx, st, op['c']))
        if 'm' in op:
            loc = self.loc_of(ctx, st, op['m'])
            v = self.read(st, loc)
            if loc[0] == 'L':
                if not loc[2]:
                    st.env[loc[1]] = MOVED
                else:
                    st.env[loc[1]] = self.with_field(st.env.get(loc[1], mk('uninit', loc[1])), loc[2], MOVED)
            if v[0] == 'moved':
                return mk('lost', ctx.body.id)
            return v
        k = op['k']
        if 'cp' in k and getattr(ctx, 'gc', None) and k['cp'] < len(ctx.gc):
            m = re.match(r'^(\d+|true|false)', ctx.gc[k['cp']])
            if m:
                return mk('const', int(m.group(1)) if m.group(1).isdigit() else m.group(1) == 'true', k['t'])
        return self.konst(k)

    def konst(self, k):
        if 'fn' in k:
            f = k['fn']
            return mk('fn', f['r'], f.get('id'), f['p'])
        if 'prom' in k:
            return self.promoted(k['prom'])
        if 'v' in k:
            return mk('const', k['v'], k['t'])
        if 'closure' in k:
            return mk('agg', 'closure', k['closure'], '', ())
        if k.get('t') == '()':
            return UNIT
        if 's' in k:
            s = k['s']
            m = re.match(r'^(?:std::option::)?Option::<.*>::None$', s)
            if m:
                return agg('std::option::Option', 'None', ())
            return mk('str', s, k.get('name', ''))
        return mk('kconst', k.get('name', ''), k['t'])

    def promoted(self, pid):
        # straight-line constant bodies
        b = self.prog.bodies.get(pid)
        if b is None:
            return mk('kconst', pid, '')
        st = State({}, {}, {}, frozenset())
        c = Ctx()
        c.id = -1 - (hash(pid) % 100000)
        c.gc = None
        c.body = b
        c.parent = None
        bb = 0
        for _ in range(20):
            blk = b.blocks[bb]
            for s in blk['s']:
                self.stmt(c, st, s, quiet=True)
            t = blk['t']
            if t[0] == 'goto':
                bb = t[1]
            elif t[0] == 'assert':
                bb = t[4]
            elif t[0] == 'call' and t[4] is not None:
                fn = t[1].get('k', {}).get('fn', {})
                args = tuple(self.peel(st, self.operand(c, st, a)) for a in t[2])
                st.env[(c.id, t[3][0])] = mk('call', strip_generics(fn.get('r', '?')), args, None)
                bb = t[4]
            else:
                break
        return self.peel(st, st.env.get((c.id, 0), mk('kconst', pid, '')))

    # -------------------------------------------------------------- rvalues
    def rvalue(self, ctx, st, rv):
        t = rv[0]
        if t == 'use':
            return self.operand(ctx, st, rv[1])
        if t == 'ref':
            loc = self.loc_of(ctx, st, rv[2])
            if loc[0] == 'M' or loc[0] == 'V':
                v = loc[1]
                for p in loc[2]:
                    v = self.project(v, p)
                return v
            v = self.read(st, loc)
            if v[0] == 'ref' and loc[2]:
                # reference to a field that is itself a reference: keep as place
                pass
            return mk('ref', loc)
        if t == 'agg':
            kind, name, variant, fnames, ops = rv[1], rv[2], rv[3], rv[4], rv[5]
            vals = [self.operand(ctx, st, o) for o in ops]
            if kind == 'adt':
                enum = self.prog.adts.get(name) or {}
                pre = variant + '.' if enum.get('kind') == 'enum' else ''
                fs = tuple((pre + f, v) for f, v in zip(fnames, vals))
                return mk('agg', 'adt', name, variant if pre else '', fs)
            if kind in ('closure', 'coroutine', 'cclosure'):
                names = fnames if len(fnames) == len(vals) else [str(i) for i in range(len(vals))]
                return mk('agg', kind, name, '', tuple(zip(names, vals)))
            return mk('agg', kind, name, '', tuple((str(i), v) for i, v in enumerate(vals)))
        if t == 'bin':
            a = self.peel(st, self.operand(ctx, st, rv[2]))
            b = self.peel(st, self.operand(ctx, st, rv[3]))
            return self.binop(rv[1], a, b)
        if t == 'un':
            a = self.peel(st, self.operand(ctx, st, rv[2]))
            if rv[1] == 'Not':
                if a == TRUE:
                    return FALSE
                if a == FALSE:
                    return TRUE
                if a[0] == 'un' and a[1] == 'Not':
                    return a[2]
            if rv[1] == 'PtrMetadata':
                return mk('call', 'len', (a,), None)
            return mk('un', rv[1], a)
        if t == 'cast':
            v = self.operand(ctx, st, rv[2])
            if rv[1].startswith('IntToInt'):
                v = self.peel(st, v)
                if is_const(v):
                    return mk('const', v[1], rv[3])
                return mk('cast', rv[3], v)
            if self.obs.versions and 'Unsize' in rv[1] and isinstance(rv[2], dict):
                pl = rv[2].get('c') or rv[2].get('m')
                if pl and len(pl) == 1:
                    self.vtypes.setdefault(self.peel(st, v), ctx.body.locals[pl[0]][0])
            return v
        if t == 'discr':
            loc = self.loc_of(ctx, st, rv[1])
            v = self.read(st, loc)
            v = self.peel(st, v)
            return mk('discr', v, rv[2])
        if t == 'rep':
            return mk('call', 'repeat', (self.operand(ctx, st, rv[1]), mk('str', rv[2], '')), None)
        return mk('opaque', t)

    def binop(self, op, a, b):
        op = op.replace('Unchecked', '')
        if op.endswith('WithOverflow'):
            o = op[:-len('WithOverflow')]
            return mk('agg', 'tuple', '', '', (('0', self.binop(o, a, b)), ('1', mk('ovf', o, a, b))))
        if is_const(a) and is_const(b) and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            r = None
            if op == 'Eq':
                r = x == y
            elif op == 'Ne':
                r = x != y
            elif op == 'Lt':
                r = x < y
            elif op == 'Le':
                r = x <= y
            elif op == 'Gt':
                r = x > y
            elif op == 'Ge':
                r = x >= y
            if r is not None:
                return TRUE if r else FALSE
            r = None
            if op == 'Add':
                r = x + y
            elif op == 'Sub':
                r = x - y
            elif op == 'Mul':
                r = x * y
            elif op == 'BitAnd':
                r = x & y
            elif op == 'BitOr':
                r = x | y
            elif op == 'Shl' and 0 <= y < 128:
                r = x << y
            elif op == 'Shr' and 0 <= y < 128:
                r = x >> y
            elif op == 'Div' and y:
                r = x // y
            elif op == 'Rem' and y:
                r = x % y
            if r is not None:
                return mk('const', r, a[2])
        if op in ('Eq', 'Ne') and a[0] == 'agg' and b[0] == 'agg' and a[1] == 'adt' and a[3] and b[3] and a[2] == b[2] and not a[4] and not b[4]:
            return TRUE if (a[3] == b[3]) == (op == 'Eq') else FALSE
        if op in ('BitAnd', 'BitOr'):
            for x, y in ((a, b), (b, a)):
                if y in (TRUE, FALSE):
                    return x if (y == TRUE) == (op == 'BitAnd') else y
        if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and b.n < a.n:
            a, b = b, a
        if op in ('Ne', 'Ge', 'Gt', 'Le', 'Eq', 'Lt'):
            # comparison with a known bool
            if op in ('Eq', 'Ne'):
                for x, y in ((a, b), (b, a)):
                    if y in (TRUE, FALSE):
                        same = (y == TRUE) == (op == 'Eq')
                        return x if same else mk('un', 'Not', x)
            v, pol = norm_cmp(op, a, b)
            return v if pol else mk('un', 'Not', v)
        return mk('bin', op, a, b)

    def stmt(self, ctx, st, s, quiet=False):
        t = s[0]
        if t == '=':
            v = self.rvalue(ctx, st, s[2])
            loc = self.loc_of(ctx, st, s[1])
            self.write(ctx, st, loc, v, s[3])
        elif t == 'dead':
            st.env.pop((ctx.id, s[1]), None)
        elif t == 'live':
            st.env.pop((ctx.id, s[1]), None)
        elif t == 'sd':
            pass

    # -------------------------------------------------------------- facts
    def assume_bool(self, st, v, pol):
        """-> False if infeasible"""
        while v[0] == 'un' and v[1] == 'Not':
            v = v[2]
            pol = not pol
        if is_const(v):
            return bool(v[1]) == pol
        if v[0] == 'call' and v[3] is None and v[1] == 'isvar':
            return self.assume_variant(st, v[2][0], v[2][1][1], pol)
        if v[0] == 'bin' and v[1] == 'BitAnd' and pol:
            return self.assume_bool(st, v[2], True) and self.assume_bool(st, v[3], True)
        if v[0] == 'bin' and v[1] == 'BitOr' and not pol:
            return self.assume_bool(st, v[2], False) and self.assume_bool(st, v[3], False)
        if v in st.facts:
            return st.facts[v] == pol
        if v[0] == 'bin' and v[1] in ('Eq', 'Lt'):
            if v[1] == 'Eq':
                if v[2] == v[3]:
                    return pol
                # enum discriminants / ints with contradictory constants
                if pol:
                    for x, y in ((v[2], v[3]), (v[3], v[2])):
                        if is_const(y):
                            kk = st.facts.get(mk('is', x))
                            if kk is not None and kk != y[1]:
                                return False
                            st.facts[mk('is', x)] = y[1]
                            if self.learns:
                                self.learn(st, mk('is', x), y[1])
                            # fully known variant payloads compare by name
        st.facts[v] = pol
        if self.learns:
            self.learn(st, v, pol)
        if v[0] == 'phi':
            # a joined condition with one feasible origin has the outcome of that origin
            srcs = [x for x in self.phi_src.get(v, ()) if x != v]
            left = [x for x in srcs if not (is_const(x) and bool(x[1]) != pol)]
            if srcs and len(left) == 1 and not is_const(left[0]) and left[0][0] in ('bin', 'un', 'call') and not (left[0][0] == 'call' and left[0][1] == 'isvar'):
                return self.assume_bool(st, left[0], pol)
        return True

    def learn(self, st, key, val):
        m = self.obs.learned(self, st, key, val)
        if m:
            st.marks = st.marks | frozenset(m)

    def known_variant(self, st, v):
        """variant name, or ('not', frozenset) or None"""
        if v[0] == 'agg' and v[3]:
            return v[3]
        if v[0] == 'with':
            return self.known_variant(st, v[1])
        if v[0] == 'mut':
            return None
        return st.facts.get(mk('var', v))

    def assume_variant(self, st, v, name, pol=True, adt=None):
        k = self.known_variant(st, v)
        if isinstance(k, str):
            return (k == name) == pol
        key = mk('var', v)
        if pol:
            if k is not None and name in k[1]:
                return False
            st.facts[key] = name
            if self.learns:
                self.learn(st, key, name)
        else:
            ex = (k[1] if k else frozenset()) | {name}
            names = {'Some': ('Some', 'None'), 'None': ('Some', 'None'), 'Ok': ('Ok', 'Err'), 'Err': ('Ok', 'Err'),
                     'Ready': ('Ready', 'Pending'), 'Pending': ('Ready', 'Pending'), 'Occupied': ('Occupied', 'Vacant'),
                     'Vacant': ('Occupied', 'Vacant')}.get(name)
            if adt:
                names = self.prog.variants(adt) or names
            if names:
                rest = [n for n in names if n not in ex]
                if not rest:
                    return False
                if len(rest) == 1:
                    st.facts[key] = rest[0]
                    if self.learns:
                        self.learn(st, key, rest[0])
                    return True
            st.facts[key] = ('not', ex)
        return True

    def kill_site(self, st, site):
        if st.marks:
            dead = [m for m in st.marks if type(m) is tuple and m[0] == 'v' and site in sites(m[2])]
            if dead:
                st.marks = st.marks - frozenset(dead)
        f = st.facts
        if not f:
            return
        dead = [k for k in f if site in sites(k[1] if k[0] in ('var', 'is') else k)]
        known = {k: f[k] for k in dead if isinstance(f[k], bool) and k[0] in ('bin', 'call', 'await')}
        if known:
            # what was known about a condition stays true of the variables that hold its old value
            for l, v in st.env.items():
                x = v
                while x[0] == 'un' and x[1] == 'Not':
                    x = x[2]
                if x in known:
                    st.env[l] = settled(st, v)
        for k in dead:
            del f[k]

    # -------------------------------------------------------------- running
    def run(self, body, args=None, marks=frozenset(), facts=None, setup=None):
        root = self.ctx(body, None, None, None, None, 'root', body.line)
        st = State({}, dict(facts or {}), {}, frozenset(marks))
        for i in range(1, body.argc + 1):
            nm = body.locals[i][1]
            v = (args or {}).get(i) or mk('arg', i, nm)
            st.env[(root.id, i)] = v
        if setup:
            setup(self, root, st)
        self.push(root, 0, st)
        self.loop()
        return self

    def push(self, ctx, bb, st):
        if self.obs.skip_logging:
            while bb in ctx.cfg.skip:
                bb = ctx.cfg.skip[bb]
        key0 = (ctx.id, bb)
        tags = []
        live = ctx.cfg.live[bb]
        cid = ctx.id
        dead = [k for k in st.env if k[0] == cid and k[1] not in live]
        for k in dead:
            del st.env[k]
        for k, v in st.env.items():
            t = shape(v)
            if t is not None:
                tags.append((k, t))
        rel = frozenset((k, v) for k, v in st.facts.items() if self.obs.relevant(k))
        tg = frozenset(tags)
        key = (st.marks, tg, rel)
        slot = self.table.setdefault(key0, {})
        if key not in slot and len(slot) >= self.obs.part_cap:
            # degrade: keep marks and relevant facts
            r0 = st.env.get((cid, 0))
            r0 = shape(r0) if r0 is not None else None
            key = (st.marks, ('merged', r0), rel)
            if key not in slot and len(slot) >= 4 * self.obs.part_cap:
                key = (st.marks, ('merged', r0), 'merged')
        old = slot.get(key)
        if old is None:
            slot[key] = st
            self.enqueue(ctx, bb, key)
            return
        new = self.join(ctx, bb, key, old, st)
        if new is not None:
            slot[key] = new
            self.enqueue(ctx, bb, key)

    def enqueue(self, ctx, bb, key):
        q = (ctx.id, bb, key)
        if q in self.queued:
            return
        self.queued.add(q)
        self.tick += 1
        heapq.heappush(self.work, (ctx.prefix + (ctx.cfg.rpo[bb],), self.tick, ctx, bb, key))

    def join(self, ctx, bb, key, a, b):
        changed = False
        env = {}
        kills = set()
        keep = {}
        pairs = []
        names = {}

        def split(va, vb, d):
            return d < 4 and va[0] == 'agg' and vb[0] == 'agg' and va[1] == vb[1] and va[1] in ('adt', 'tuple') and va[2] == vb[2] \
                and va[3] == vb[3] and len(va[4]) == len(vb[4]) and all(x[0] == y[0] for x, y in zip(va[4], vb[4]))

        def cond(va, vb):
            """two outcomes of the same comparison"""
            return va[0] == 'bin' and vb[0] == 'bin' and va[1] == vb[1] and va[1] in ('Lt', 'Eq', 'Cmp')

        def look(va, vb, loc, d):
            """places that change in the same way keep being equal: one name for all of them"""
            if va is vb:
                return
            if split(va, vb, d):
                for x, y in zip(va[4], vb[4]):
                    look(x[1], y[1], (loc, x[0]), d + 1)
                return
            if cond(va, vb):
                look(va[2], vb[2], (loc, 'l'), d)
                look(va[3], vb[3], (loc, 'r'), d)
                return
            va, vb = settled(a, va), settled(b, vb)
            if va is vb:
                return
            p = mk('phi', ctx.id, bb, loc)
            if (va, vb) not in names or p is va:
                names[(va, vb)] = p

        def jv(va, vb, loc, d):
            nonlocal changed
            if va is vb:
                return va
            if split(va, vb, d):
                return mk('agg', va[1], va[2], va[3],
                          tuple((x[0], jv(x[1], y[1], (loc, x[0]), d + 1)) for x, y in zip(va[4], vb[4])))
            if cond(va, vb):
                return mk('bin', va[1], jv(va[2], vb[2], (loc, 'l'), d), jv(va[3], vb[3], (loc, 'r'), d))
            va0 = va
            va, vb = settled(a, va), settled(b, vb)
            if va is vb:
                changed |= va is not va0
                return va
            if va[0] == 'call' and vb[0] == 'call' and va[1] == vb[1] and last(va[1]) == 'len' and va[3] is None and vb[3] is None and len(va[2]) == len(vb[2]) == 1:
                # the length of what flows together
                q = names.get((va[2][0], vb[2][0]))
                if q is not None:
                    r = mk('call', va[1], (q,), None)
                    changed |= r is not va
                    if vb is not r:
                        kills.add(q)
                    return r
            p = names[(va, vb)]
            pairs.append((va, vb, p))
            src = self.phi_src.setdefault(p, set())
            ka = self.known_variant(a, va)
            if isinstance(ka, str) and ka == self.known_variant(b, vb):
                keep[mk('var', p)] = ka
            if va != p:
                src.add(va)
                changed = True
            if vb != p:
                if vb not in src:
                    src.add(vb)
                kills.add(p)
            return p
        for loc, va in a.env.items():
            if loc in b.env:
                look(va, b.env[loc], loc, 0)
        hs = sorted(set(a.heap) | set(b.heap), key=repr) if (len(a.heap) or len(b.heap)) and a.heap != b.heap else list(a.heap)
        for h in hs:
            look(a.heap.get(h, h), b.heap.get(h, h), ('H', h), 0)
        for loc, va in a.env.items():
            vb = b.env.get(loc)
            if vb is None:
                changed = True
                continue
            env[loc] = jv(va, vb, loc, 0)
        heap = {}
        for h in hs:
            heap[h] = jv(a.heap.get(h, h), b.heap.get(h, h), ('H', h), 0)
        facts = {}
        for f, v in a.facts.items():
            if f in keep and keep[f] == v:
                continue
            if b.facts.get(f) != v:
                continue
            if kills and not kills.isdisjoint(sites(f[1] if f[0] in ('var', 'is') else f)):
                continue
            facts[f] = v
        for f, v in keep.items():
            facts[f] = v
        if pairs:
            # a comparison that holds on both sides of the values that flow together holds of what they become
            for f, v in self.both(a, 0, pairs, kills, self.both(b, 1, pairs, kills, None)).items():
                facts.setdefault(f, v)
        if kills:
            for loc, v in env.items():
                if v is a.env[loc] and v is b.env[loc] and v[0] in ('un', 'bin', 'call', 'await'):
                    c = settled(a, v)
                    if c is not v and c is settled(b, v):
                        x = v
                        while x[0] == 'un':
                            x = x[2]
                        if x not in facts:
                            env[loc] = c
                            changed = True
        if not changed and facts == a.facts:
            return None
        return State(env, facts, heap, a.marks)

    def both(self, st, side, pairs, kills, other):
        out = {}
        if other is not None and not other:
            return out
        to = {}
        for q in pairs:
            to.setdefault(q[side], []).append(q[2])

        def named(z):
            ps = to.get(z)
            if ps is None and z[0] == 'call' and z[3] is None and len(z[2]) == 1 and z[2][0] in to and last(z[1]) == 'len':
                ps = [mk('call', z[1], (p,), None) for p in to[z[2][0]]]
            return ps or []
        for f, v in st.facts.items():
            if f[0] != 'bin':
                continue
            xs, ys = named(f[2]), named(f[3])
            if not xs and not ys:
                continue
            for x in xs + [None]:
                for y in ys + [None]:
                    if x is None and y is None:
                        continue
                    if (x is None and kills and not kills.isdisjoint(sites(f[2]))) or (y is None and kills and not kills.isdisjoint(sites(f[3]))):
                        continue
                    g = mk('bin', f[1], x if x is not None else f[2], y if y is not None else f[3])
                    if other is None or other.get(g) == v:
                        out[g] = v
        return out

    def loop(self):
        while self.work:
            _, _, ctx, bb, key = heapq.heappop(self.work)
            self.queued.discard((ctx.id, bb, key))
            st = self.table[(ctx.id, bb)][key]
            self.steps += 1
            if self.steps > self.obs.max_states:
                raise Budget('state budget exceeded in %s' % ctx.body.id)
            self.step(ctx, bb, st.copy())

    def step(self, ctx, bb, st):
        self.obs.block(self, ctx, st, bb)
        blk = ctx.body.blocks[bb]
        for s in blk['s']:
            self.stmt(ctx, st, s)
        t = blk['t']
        k = t[0]
        if k == 'goto':
            self.push(ctx, t[1], st)
        elif k == 'sw':
            self.switch(ctx, st, t)
        elif k == 'call':
            self.call(ctx, bb, st, t)
        elif k == 'drop':
            self.drop(ctx, bb, st, t)
        elif k == 'assert':
            self.assert_(ctx, st, t)
        elif k == 'ret':
            v = st.env.get((ctx.id, 0), UNIT)
            self.ret(ctx, st, v)
        elif k == 'yield':
            r = self.obs.yielded(self, ctx, st, t[4])
            if r is not None:
                st.marks = r
            if self.obs.cancel and t[3] is not None:
                s2 = st.copy()
                self.push(ctx, t[3], s2)
            self.push(ctx, t[2], st)
        elif k == 'cdrop':
            self.cdrop(ctx, st)

    def leave(self, ctx, st):
        cid = ctx.id
        for k in [k for k in st.env if k[0] == cid]:
            del st.env[k]

    def ret(self, ctx, st, v):
        if ctx.parent is None:
            self.obs.exit(self, ctx, st, 'return', self.peel(st, v))
            return
        # references to this frame's locals must not escape
        if v[0] == 'ref' and v[1][0] == 'L' and v[1][1][0] == ctx.id:
            v = self.peel(st, v)
        v = self.unframe(st, v, ctx.id)
        if st.heap:
            for h in list(st.heap):
                hv = st.heap[h]
                if hv[0] in ('ref', 'agg', 'with'):
                    st.heap[h] = self.unframe(st, hv, ctx.id)
        ev = Event()
        ev.id = ctx.body.id
        ev.result = v
        ev.line = ctx.line
        r = self.obs.ret(self, ctx, st, ev)
        if r is not None:
            st.marks = r
        self.leave(ctx, st)
        self.resume(ctx, st, v)

    def unframe(self, st, v, cid, d=0):
        if d > 6:
            return v
        if v[0] == 'ref':
            if v[1][0] == 'L' and v[1][1][0] == cid:
                return self.peel(st, v)
            return v
        if v[0] == 'agg' and v[4]:
            fs = tuple((f, self.unframe(st, x, cid, d + 1)) for f, x in v[4])
            if fs != v[4]:
                return mk('agg', v[1], v[2], v[3], fs)
        return v

    def resume(self, ctx, st, v):
        """continue the caller of ctx with return value v"""
        w = ctx.wrap
        par = ctx.parent
        if w[0] == 'plain':
            pass
        elif w[0] == 'wrap':
            # wrap the closure result: adt, variant
            v = agg(w[1], w[2], ((w[2] + '.0', v),))
        elif w[0] == 'opaque':
            v = w[1]
        elif w[0] == 'side':
            # side path (spawned task / callback whose continuation is explored separately)
            return
        elif w[0] == 'pred':
            # Option::filter / find-like: keep w[1] if true, else w[2]
            s2 = st.copy()
            if self.assume_bool(s2, v, True):
                self.finish(par, ctx.site, s2, ctx.dest, ctx.target, w[1])
            if self.assume_bool(st, v, False):
                self.finish(par, ctx.site, st, ctx.dest, ctx.target, w[2])
            return
        elif w[0] == 'k':
            # continuation id
            fn = self.conts[w[1]]
            fn(par, st, v)
            return
        self.finish(par, ctx.site, st, ctx.dest, ctx.target, v)

    def finish(self, ctx, site, st, dest, target, v):
        if target is None:
            return
        loc = self.loc_of(ctx, st, dest)
        self.write(ctx, st, loc, v, ctx.line)
        self.push(ctx, target, st)

    def cdrop(self, ctx, st):
        if ctx.parent is None:
            self.obs.exit(self, ctx, st, 'cancel', None)
            return
        # the awaiting frame is dropped at its own suspension point
        par = ctx.parent
        self.leave(ctx, st)
        if ctx.wrap[0] == 'side':
            return
        # find the yield of the await loop in the parent
        tgt = ctx.target
        y = self.find_await_yield(par.body, tgt)
        if y is not None and y[3] is not None:
            self.push(par, y[3], st)
        elif par.body.kind == 'fn' or y is None:
            # polled by hand: treat the cancellation as reaching the parent
            self.obs.exit(self, par, st, 'cancel', None)

    def find_await_yield(self, body, bb):
        seen = set()
        q = deque([bb])
        while q:
            b = q.popleft()
            if b in seen or len(seen) > 12:
                continue
            seen.add(b)
            t = body.blocks[b]['t']
            if t[0] == 'yield':
                return t
            if t[0] == 'goto':
                q.append(t[1])
            elif t[0] == 'sw':
                # Pending is variant 1
                for val, tb in t[2]:
                    if val == 1:
                        q.append(tb)
            elif t[0] in ('call',) and t[4] is not None:
                q.append(t[4])
            elif t[0] == 'drop':
                q.append(t[2])
        return None

    def switch(self, ctx, st, t):
        op, targets, otherwise, ty, line = t[1], t[2], t[3], t[4], t[5]
        v = self.peel(st, self.operand(ctx, st, op))
        if v[0] == 'discr':
            x, adt = v[1], v[2]
            if x[0] == 'bin' and x[1] == 'Cmp':
                return self.switch_cmp(ctx, st, x, targets, otherwise)
            names = []
            for val, tb in targets:
                n = self.prog.discr_name(adt, val)
                if n is None:
                    n = '#%d' % val
                names.append(n)
                s2 = st.copy()
                if self.assume_variant(s2, x, n, True, adt):
                    self.push(ctx, tb, s2)
            s2 = st
            ok = True
            for n in names:
                if not self.assume_variant(s2, x, n, False, adt):
                    ok = False
                    break
            if ok and not self.is_unreach(ctx, otherwise):
                self.push(ctx, otherwise, s2)
            return
        if ty == 'bool':
            # targets [[0, f]] otherwise t
            f = targets[0][1] if targets and targets[0][0] == 0 else None
            if f is None:
                # [[1,t]] otherwise f
                yes, no = targets[0][1], otherwise
            else:
                yes, no = otherwise, f
            for s2 in self.outcomes(st.copy(), v, True):
                self.push(ctx, yes, s2)
            for s2 in self.outcomes(st, v, False):
                self.push(ctx, no, s2)
            return
        if is_const(v):
            for val, tb in targets:
                if val == v[1]:
                    return self.push(ctx, tb, st)
            return self.push(ctx, otherwise, st)
        rest = st.copy()
        ok = True
        for val, tb in targets:
            e, pol = norm_cmp('Eq', v, const(val, ty))
            s2 = st.copy()
            if self.assume_bool(s2, e, True):
                self.push(ctx, tb, s2)
            if ok and not self.assume_bool(rest, e, False):
                ok = False
        if ok and not self.is_unreach(ctx, otherwise):
            self.push(ctx, otherwise, rest)

    def is_unreach(self, ctx, bb):
        b = ctx.body.blocks[bb]
        return b['t'][0] == 'unreach' and not b['s']

    def outcomes(self, st, v, pol):
        """the states in which v is pol: one for each way a conjunction fails or a disjunction holds"""
        w, p = v, pol
        while w[0] == 'un' and w[1] == 'Not':
            w, p = w[2], not p
        if w[0] == 'bin' and (w[1] == 'BitAnd' and not p or w[1] == 'BitOr' and p) and w not in st.facts:
            out = []
            for s in self.outcomes(st.copy(), w[2], p):
                out.append(s)
            for s in self.outcomes(st, w[2], not p):
                out += self.outcomes(s, w[3], p)
            for s in out:
                s.facts[w] = p
            return out
        if w[0] == 'bin' and w[1] in ('BitAnd', 'BitOr') and w not in st.facts:
            out = []
            for s in self.outcomes(st, w[2], p):
                out += self.outcomes(s, w[3], p)
            for s in out:
                s.facts[w] = p
            return out
        return [st] if self.assume_bool(st, v, pol) else []

    def switch_cmp(self, ctx, st, x, targets, otherwise):
        a, b = x[2], x[3]
        done = set()

        def add(s, n):
            lt, _ = norm_cmp('Lt', a, b)
            gt, _ = norm_cmp('Lt', b, a)
            eq, _ = norm_cmp('Eq', a, b)
            want = {'L': (True, False, False), 'G': (False, True, False), 'E': (False, False, True)}[n]
            return all(self.assume_bool(s, f, w) for f, w in zip((lt, gt, eq), want))
        for val, tb in targets:
            n = 'L' if val in (255, -1, 2 ** 64 - 1) or val > 1 else ('E' if val == 0 else 'G')
            done.add(n)
            s2 = st.copy()
            if add(s2, n):
                self.push(ctx, tb, s2)
        if not self.is_unreach(ctx, otherwise):
            rest = [n for n in 'LEG' if n not in done]
            for n in rest:
                s2 = st.copy()
                if add(s2, n):
                    self.push(ctx, otherwise, s2)

    def assert_(self, ctx, st, t):
        cond, exp, msg, target, unw, line = t[1], t[2], t[3], t[4], t[5], t[6]
        ops = tuple(self.peel(st, self.operand(ctx, st, o)) for o in msg[1:] if isinstance(o, dict))
        c = self.cond = self.peel(st, self.operand(ctx, st, cond))
        r = self.obs.asserted(self, ctx, st, msg, ops, line)
        if r is not None:
            st.marks = r
        if msg[0] == 'overflow':
            return self.push(ctx, target, st)
        if self.assume_bool(st, c, bool(exp)):
            self.push(ctx, target, st)

    # -------------------------------------------------------------- drops
    def drop(self, ctx, bb, st, t):
        place, target, unw, ty, line = t[1], t[2], t[3], t[4], t[5]
        loc = self.loc_of(ctx, st, place)
        v = self.read(st, loc)
        if v[0] in ('moved', 'uninit', 'lost'):
            self.push(ctx, target, st)
            return
        if v[0] == 'agg' and v[3] in ('None',):
            if loc[0] == 'L' and not loc[2]:
                st.env[loc[1]] = MOVED
            self.push(ctx, target, st)
            return
        if v[0] == 'with' and any(x == MOVED for _, x in v[2]):
            # partially moved: payload gone
            pv = v
            if loc[0] == 'L' and not loc[2]:
                st.env[loc[1]] = MOVED
            if all(x == MOVED for _, x in v[2]) and len(v[2]) >= 1 and (v[1][0] != 'agg'):
                self.push(ctx, target, st)
                return
        if v[0] == 'agg' and v[4] and all(x == MOVED for _, x in v[4]):
            if loc[0] == 'L' and not loc[2]:
                st.env[loc[1]] = MOVED
            self.push(ctx, target, st)
            return
        r = self.obs.dropped(self, ctx, st, self.peel(st, v), ty, line)
        if r is not None:
            st.marks = r
        todo = self.drop_targets(st, v, ty)
        if loc[0] == 'L' and not loc[2]:
            keep = v
            st.env[loc[1]] = MOVED
        if todo:
            self.run_drops(ctx, bb, st, todo, target, line)
            return
        self.push(ctx, target, st)

    def drop_targets(self, st, v, ty, d=0):
        """list of (drop fn body, value) for local Drop impls run when v: ty is dropped"""
        out = []
        if d > 4:
            return out
        if ty.startswith('&') or 'std::sync::Weak<' in ty[:16]:
            return out
        base = ty.split('<')[0]
        if base in self.prog.drop_impls:
            b = self.prog.bodies.get(self.prog.drop_impls[base])
            if b is not None:
                out.append((b, v))
        if base in ('std::sync::Arc', 'std::rc::Rc'):
            return out
        a = self.prog.adts.get(base)
        if v[0] == 'agg' and v[1] in ('closure', 'coroutine'):
            bb = self.prog.bodies.get(v[2])
            # captured values: types unknown here, use aggregates only
            for f, x in v[4]:
                y = x
                if y[0] == 'agg' and y[1] == 'adt':
                    out += self.drop_targets(st, y, y[2], d + 1)
                elif y[0] == 'agg' and y[1] in ('closure', 'coroutine'):
                    out += self.drop_targets(st, y, '', d + 1)
            return out
        if v[0] == 'agg' and v[1] == 'adt' and v[4]:
            for f, x in v[4]:
                if x[0] in ('agg',):
                    out += self.drop_targets(st, x, x[2], d + 1)
                elif x[0] == 'with' and x[1][0] == 'agg':
                    out += self.drop_targets(st, x, x[1][2], d + 1)
            if out:
                return out
        if v[0] == 'agg' and v[1] == 'tuple':
            for f, x in v[4]:
                if x[0] == 'agg':
                    out += self.drop_targets(st, x, x[2], d + 1)
            return out
        if v[0] == 'agg' and not v[4]:
            return out
        if a and a['local']:
            for var in a['variants']:
                for fn, fty in var['fields']:
                    if any(dt in fty for dt in self.prog.drop_impls):
                        nm = (var['name'] + '.' if a['kind'] == 'enum' else '') + fn
                        out += self.drop_targets(st, self.project(v, ('f', nm)), fty, d + 1)
        elif base in ('std::option::Option', 'std::boxed::Box', 'std::result::Result') or (ty.startswith('(') and not ty.startswith('()')):
            m = re.match(r'^[\w:]*<(.*)>$', ty)
            inner = m.group(1) if m else ''
            if base == 'std::option::Option' and inner and any(dt in inner for dt in self.prog.drop_impls):
                kv = self.known_variant(st, v)
                if kv != 'None':
                    out += self.drop_targets(st, self.project(v, ('f', 'Some.0')), inner, d + 1)
            elif base == 'std::boxed::Box' and inner:
                out += self.drop_targets(st, v, inner, d + 1)
        return out

    def run_drops(self, ctx, bb, st, todo, target, line):
        b, v = todo[0]
        rest = todo[1:]
        if not self.may_inline(ctx, b):
            if rest:
                return self.run_drops(ctx, bb, st, rest, target, line)
            return self.push(ctx, target, st)
        slot = len(self.conts)

        site = ('drop', bb, b.id, len(rest))
        key = (ctx.id, site)
        k = self.cont_ids.get(key)
        if k is None:
            k = len(self.conts)
            self.cont_ids[key] = k

            def cont(par, s, rv, rest=rest, target=target, line=line, ctx=ctx, bb=bb):
                if rest:
                    self.run_drops(ctx, bb, s, rest, target, line)
                else:
                    self.push(ctx, target, s)
            self.conts.append(cont)
        else:
            # values captured by an older visit may differ: refresh
            def cont(par, s, rv, rest=rest, target=target, line=line, ctx=ctx, bb=bb):
                if rest:
                    self.run_drops(ctx, bb, s, rest, target, line)
                else:
                    self.push(ctx, target, s)
            self.conts[k] = cont
        self.enter(ctx, st, b, [v], site, None, target, ('k', k), line)

    conts = None
    cont_ids = None

    # -------------------------------------------------------------- calls
    def may_inline(self, ctx, b):
        if b.id in ctx.chain:
            return False
        if ctx.depth >= self.obs.maydepth:
            return False
        if len(self.ctxlist) > 6000:
            raise Budget('too many contexts')
        if b.trait and NOINLINE_TRAIT.search(b.trait) and not (b.name == 'drop'):
            return False
        return self.obs.inline(self, b)

    def enter(self, ctx, st, body, args, site, dest, target, wrap, line, gc=None):
        c = self.ctx(body, ctx, site, dest, target, wrap, line)
        if gc:
            c.gc = gc
        c.dest = dest
        c.target = target
        self.inlined_sites += 1
        # clear stale frame values; forget caller values that are dead after the call
        cid = c.id
        pid = ctx.id
        if isinstance(target, int) and not self.obs.cancel and wrap[0] not in ('side',):
            live = ctx.cfg.live[target]
            dl = dest[0] if dest else -1
            for k in [k for k in st.env if k[0] == cid or (k[0] == pid and k[1] not in live and k[1] != dl and k[1] not in ctx.cfg.borrowed)]:
                del st.env[k]
        else:
            for k in [k for k in st.env if k[0] == cid]:
                del st.env[k]
        for i, a in enumerate(args):
            st.env[(cid, i + 1)] = a
        self.push(c, 0, st)

    def closure_body(self, v):
        if v[0] == 'agg' and v[1] in ('closure', 'coroutine'):
            return self.prog.bodies.get(v[2])
        return None

    def enter_closure(self, ctx, st, clv, clargs, site, dest, target, wrap, line):
        """call closure value (or fn item) with argument values. -> True if expanded"""
        pv = clv
        ref = clv
        if pv[0] == 'ref':
            pv = self.read(st, pv[1])
            if pv[0] == 'ref':
                pv = self.read(st, pv[1])
        if pv[0] == 'fn':
            name = last(pv[3])
            b = self.prog.bodies.get(pv[2]) if pv[2] else None
            if b is not None and self.may_inline(ctx, b):
                self.enter(ctx, st, b, clargs, site, dest, target, wrap, line)
                return True
            # constructor functions: Some, Ok, variants
            vn = pv[1].split('::')
            val = None
            if name in ('Some',):
                val = agg('std::option::Option', 'Some', (('Some.0', clargs[0]),))
            elif name in ('Ok', 'Err'):
                val = agg('std::result::Result', name, ((name + '.0', clargs[0]),))
            elif name in TRANSPARENT or CONV.match(pv[3]):
                val = self.peel(st, clargs[0]) if clargs else UNIT
            else:
                val = mk('call', strip_generics(pv[1]), tuple(self.peel(st, a) for a in clargs), (ctx.id, site))
            fake = Ctx()
            fake.wrap = wrap
            fake.parent = ctx
            fake.site = site
            fake.dest = dest
            fake.target = target
            self.resume(fake, st, val)
            return True
        b = self.closure_body(pv)
        if b is None or b.kind != 'closure' or not self.may_inline(ctx, b):
            return False
        self.enter(ctx, st, b, [clv] + list(clargs), site, dest, target, wrap, line)
        return True

    def call(self, ctx, bb, st, t):
        func, aops, dest, target, unw, atys, dty, line = t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8]
        fn = func.get('k', {}).get('fn') if 'k' in func else None
        raw = [self.operand(ctx, st, a) for a in aops]
        site = (ctx.id, bb)
        ev = Event()
        ev.raw = raw
        ev.args = tuple(self.peel(st, a) for a in raw)
        ev.line = line
        ev.site = site
        ev.argtys = atys
        ev.dty = dty
        ev.result = None
        if fn is None:
            # call through a value (closure pointer)
            fv = self.operand(ctx, st, func)
            ev.p = ev.r = '<indirect>'
            ev.id = None
            ev.name = '<indirect>'
            ev.ga = []
            ev.selfcl = None
            ev.how = 'indirect'
        else:
            ev.p = fn['p']
            ev.r = fn['r']
            ev.id = fn.get('id')
            ev.name = last(fn['p'])
            ev.ga = fn.get('ga', [])
            ev.selfcl = fn.get('self_cl')
            ev.how = fn['how']
        self.events += 1
        self.kill_site(st, site)
        if self.obs.versions:
            ev.args = tuple(st.heap.get(a, a) if ty.startswith(('&', 'std::pin')) else a for a, ty in zip(ev.args, atys)) + ev.args[len(atys):]
        if ev.name == 'get_mut' and 'sync::atomic' in ev.p and len(ev.args) == 1:
            # exclusive access to an atomic: a write through it is a store
            return self.finish(ctx, bb, st, dest, target, mk('call', 'atomic::get_mut', (ev.args[0],), site))
        r = self.obs.call(self, ctx, st, ev)
        if r is not None:
            if r == 'stop':
                return
            st.marks = r
        if target is None:
            # diverging call: panic
            self.obs.panic(self, ctx, st, ev, line)
            return
        if self.builtin(ctx, bb, st, ev, dest, target):
            return
        # crate-local callee
        if ev.id is not None:
            b = self.prog.bodies.get(ev.id)
            if b is not None and self.may_inline(ctx, b):
                self.enter(ctx, st, b, raw, bb, dest, target, ('plain',), line, fn.get('gc') if fn else None)
                return
        self.opaque(ctx, bb, st, ev, dest, target)

    def opaque_value(self, ev):
        nm = strip_generics(ev.r if ev.how == 'item' else ev.p)
        pure = ev.name in PURE
        return mk('call', nm, ev.args, None if pure else ev.site)

    def opaque(self, ctx, bb, st, ev, dest, target, val=None):
        v = val if val is not None else self.opaque_value(ev)
        ev.result = v
        if self.obs.versions and getattr(ev, 'dty', None):
            self.vtypes.setdefault(v, ev.dty)
        # mutated arguments
        for i, a in enumerate(ev.raw):
            ty = ev.argtys[i] if i < len(ev.argtys) else ''
            if ty.startswith('&mut ') or ty.startswith('std::pin::Pin<&mut '):
                if a[0] == 'ref':
                    old = self.read(st, a[1])
                    self.write(ctx, st, a[1], self.mutated(st, ev, old, i), ev.line)
                elif a[0] in ('field', 'arg', 'call', 'phi', 'mut', 'with', 'await') and ty.startswith('&mut '):
                    old = self.hread(st, a)
                    st.heap[a] = self.mutated(st, ev, old, i)
        # callbacks
        side = [a for a in ev.raw if self.is_callable(st, a)]
        if side and not ev.name.startswith('fmt'):
            for a in side:
                s2 = st.copy()
                self.callback(ctx, bb, s2, ev, a, dest, target, v)
        self.finish(ctx, bb, st, dest, target, v)

    def mutated(self, st, ev, old, i):
        o = self.peel(st, old)
        if ev.name in self.obs.keeps and (i == 0 or self.obs.versions and re.match(r"^&mut \[", ev.argtys[i])):
            return o
        n = 0
        x = o
        while x[0] == 'mut':
            n += 1
            x = x[2]
        if n > self.obs.deep_mut:
            o = x if not self.obs.versions else mk('mut', 'havoc', x, None, ())
        return mk('mut', strip_generics(ev.p), o, ev.site, tuple(a for j, a in enumerate(ev.args) if j != i))

    def is_callable(self, st, a):
        v = a
        if v[0] == 'ref':
            v = self.read(st, v[1])
        if v[0] == 'agg':
            if v[1] in ('closure', 'coroutine'):
                return True
        return False

    def callback(self, ctx, bb, st, ev, a, dest, target, v):
        pv = self.read(st, a[1]) if a[0] == 'ref' else a
        b = self.prog.bodies.get(pv[2])
        if b is None or not self.may_inline(ctx, b):
            return
        if b.kind == 'closure':
            args = [a] + [mk('arg', i, 'cb:%s:%s' % (ev.name, b.locals[i][1])) if not ev.args else
                          mk('call', 'cbarg:' + ev.name, (ev.args[0], const(i)), None) for i in range(2, b.argc + 1)]
            if REPEATED.match(ev.name) and ('iter' in ev.p.lower() or ev.name.startswith('retain') or 'dashmap' in ev.p.lower()):
                # called once per element: what the closure changes outside is not what it was before the first call
                for i, (f, x) in enumerate(pv[4]):
                    if x[0] == 'ref' and self.prog.mutated_capture(b, i):
                        self.write(ctx, st, x[1], mk('call', 'again', (self.read(st, x[1]),), ev.site), ev.line)
            self.enter(ctx, st, b, args, ('cb', bb, b.id), dest, target, ('opaque', v), ev.line)
        else:
            # coroutine handed to an external function: runs concurrently / later
            if self.obs.inline_spawn:
                self.enter(ctx, st, b, [pv, mk('arg', 2, 'task')], ('task', bb, b.id), dest, target, ('side',), ev.line)

    # -------------------------------------------------------------- built-in models
    def builtin(self, ctx, bb, st, ev, dest, target):
        n = ev.name
        p = ev.p
        raw = ev.raw

        def fin(s, v):
            self.note_array(s, ev, v)
            self.finish(ctx, bb, s, dest, target, v)
            return True
        local = ev.id is not None and ev.id in self.prog.bodies
        if n == 'poll' and len(raw) >= 1 and 'Future::poll' in strip_generics(p):
            return self.poll(ctx, bb, st, ev, dest, target)
        if n in ('instrument', 'in_current_span', 'or_current') and 'Instrument' in p and raw:
            return fin(st, raw[0])          # a traced future is the future itself
        if n == 'into_future' or n == 'get_context':
            return fin(st, raw[0] if raw else UNIT)
        if n in ('call', 'call_mut', 'call_once') and re.search(r'ops::(function::)?Fn', p):
            args = raw[1]
            if args[0] == 'ref':
                args = self.read(st, args[1])
            al = [x for _, x in args[4]] if args[0] == 'agg' else []
            if self.enter_closure(ctx, st, raw[0], al, ('cl', bb), dest, target, ('plain',), ev.line):
                return True
            return False
        if local and not CONV.match(p) and n not in ('clone', 'eq', 'ne'):
            return False
        if n in ('eq', 'ne') and len(raw) == 2 and 'PartialEq' in p:
            return fin(st, self.binop('Eq' if n == 'eq' else 'Ne', ev.args[0], ev.args[1]))
        if n in ('lt', 'le', 'gt', 'ge') and len(raw) == 2 and 'PartialOrd' in p:
            return fin(st, self.binop(n.capitalize(), ev.args[0], ev.args[1]))
        if n == 'cmp' and len(raw) == 2 and 'Ord' in p:
            return fin(st, mk('bin', 'Cmp', ev.args[0], ev.args[1]))
        if n == 'not' and ('ops::Not' in p or p.startswith('anyhow::')):
            return fin(st, mk('un', 'Not', ev.args[0]))
        if local and (CONV.match(p)):
            b = self.prog.bodies.get(ev.id)
            return False
        if n in ('is_some', 'is_none', 'is_ok', 'is_err') and ('Option' in p or 'Result' in p) or n in ('is_ready', 'is_pending') and 'Poll' in p:
            var = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err', 'is_ready': 'Ready', 'is_pending': 'Pending'}[n]
            v = ev.args[0]
            k = self.known_variant(st, v)
            if isinstance(k, str):
                return fin(st, TRUE if k == var else FALSE)
            return fin(st, mk('call', 'isvar', (v, mk('str', var, '')), None))
        if n == 'branch' and 'ops::Try' in p:
            return self.try_branch(ctx, bb, st, ev, dest, target)
        if n == 'from_residual':
            v = raw[0]
            pv = self.peel(st, v)
            if pv[0] == 'agg' and pv[3] in ('None', 'Err'):
                if pv[3] == 'Err' and ev.dty.startswith('std::option::Option'):
                    return fin(st, agg('std::option::Option', 'None', ()))
                if pv[3] == 'Err' and ev.dty.startswith('std::task::Poll'):
                    return fin(st, agg('std::task::Poll', 'Ready', (('Ready.0', pv),)))
                return fin(st, pv)
            return False
        if re.search(r'(^|::)(Option|Result)(::<.*>)?::\w+$', p) or '::Option::' in strip_generics(p) or '::Result::' in strip_generics(p):
            if self.opt_method(ctx, bb, st, ev, dest, target):
                return True
        if ev.name in ('then', 'then_some') and len(raw) == 2 and ev.argtys and ev.argtys[0] == 'bool' and not ev.id:
            O = 'std::option::Option'
            s2 = st.copy()
            if self.assume_bool(s2, raw[0], False):
                self.finish(ctx, bb, s2, dest, target, agg(O, 'None', ()))
            if self.assume_bool(st, raw[0], True):
                if ev.name == 'then_some':
                    self.finish(ctx, bb, st, dest, target, agg(O, 'Some', (('Some.0', raw[1]),)))
                elif not self.enter_closure(ctx, st, raw[1], [], ('opt', bb, 'then'), dest, target, ('wrap', O, 'Some'), ev.line):
                    r = mk('call', 'closure', (self.peel(st, raw[1]),), ev.site)
                    self.finish(ctx, bb, st, dest, target, agg(O, 'Some', (('Some.0', r),)))
            return True
        if n == 'box_assume_init_into_vec_unsafe' and len(raw) == 1:
            # vec![..]: what was written into the box
            bx = self.peel(st, raw[0])
            for h, w in list(st.heap.items()):
                x = h
                while x[0] == 'field':
                    x = x[1]
                if x == bx and w[0] == 'agg' and w[1] == 'array':
                    return fin(st, mk('call', 'std::slice::into_vec', (w,), ev.site))
        if CTOR_TRANSPARENT.match(strip_generics(p)) and raw:
            return fin(st, raw[0])
        if n in ('deref_mut', 'value_mut', 'get_mut') and len(raw) == 1 and ev.argtys and GUARD_TY.search(ev.argtys[0]):
            # what a lock guard points to lives in the table, not in the guard
            pv = self.peel(st, raw[0])
            return fin(st, pv if pv[0] in ('field', 'call', 'phi', 'arg') else raw[0])
        if n in TRANSPARENT and len(raw) == 1:
            if n in VALUE_COPY:
                return fin(st, self.peel(st, raw[0]))
            return fin(st, raw[0])
        if CONV.match(p) and raw:
            if raw[0][0] == 'ref' and n in ('from', 'into') and ev.dty and not ev.dty.startswith('&'):
                return fin(st, ev.args[0])
            return fin(st, raw[0])
        if n == 'next' and 'Iterator' in p:
            return self.iter_next(ctx, bb, st, ev, dest, target)
        if p.startswith('std::mem::') or p.startswith('core::mem::'):
            if n == 'replace' and raw[0][0] == 'ref':
                old = self.read(st, raw[0][1])
                self.write(ctx, st, raw[0][1], raw[1], ev.line)
                return fin(st, old)
            if n == 'take' and raw[0][0] == 'ref':
                old = self.read(st, raw[0][1])
                self.write(ctx, st, raw[0][1], mk('call', 'default', (), ev.site), ev.line)
                return fin(st, old)
            if n == 'drop':
                v = raw[0]
                return self.mem_drop(ctx, bb, st, ev, dest, target)
        return False

    def mem_drop(self, ctx, bb, st, ev, dest, target):
        v = ev.raw[0]
        r = self.obs.dropped(self, ctx, st, self.peel(st, v), ev.argtys[0], ev.line)
        if r is not None:
            st.marks = r
        todo = self.drop_targets(st, v, ev.argtys[0])
        loc = self.loc_of(ctx, st, dest)
        self.write(ctx, st, loc, UNIT, ev.line)
        if todo:
            self.run_drops(ctx, ('m', bb), st, todo, target, ev.line)
        else:
            self.push(ctx, target, st)
        return True

    def split(self, st, v, names):
        """fork on the variant of v; yields (state, name)"""
        pv = self.peel(st, v)
        out = []
        for n in names:
            s2 = st.copy()
            if self.assume_variant(s2, pv, n, True):
                out.append((s2, n))
        return out

    def payload(self, st, v, name):
        """payload place/value of variant `name`"""
        if v[0] == 'ref':
            loc = (v[1][0], v[1][1], v[1][2] + (('f', name + '.0'),))
            inner = self.read(st, loc)
            if inner[0] == 'ref':
                return inner
            return mk('ref', loc) if loc[0] == 'L' else inner
        return self.project(v, ('f', name + '.0'))

    def try_branch(self, ctx, bb, st, ev, dest, target):
        v = ev.raw[0]
        ty = ev.argtys[0]
        if ty.startswith('std::option::Option'):
            good, bad, an = 'Some', 'None', 'std::option::Option'
        elif ty.startswith('std::result::Result'):
            good, bad, an = 'Ok', 'Err', 'std::result::Result'
        else:
            return False
        cf = 'std::ops::ControlFlow'
        for s2, n in self.split(st, v, (good, bad)):
            if n == good:
                out = agg(cf, 'Continue', (('Continue.0', self.payload(s2, v, good)),))
            else:
                if bad == 'None':
                    res = agg(an, 'None', ())
                else:
                    res = agg(an, 'Err', (('Err.0', self.payload(s2, v, bad)),))
                out = agg(cf, 'Break', (('Break.0', res),))
            self.finish(ctx, bb, s2, dest, target, out)
        return True

    def note_array(self, st, ev, v):
        if self.obs.versions and ev.dty and re.search(r'; \d+\]$', ev.dty) and ev.dty.lstrip('&').startswith('['):
            self.vtypes[self.peel(st, v)] = ev.dty

    def opt_method(self, ctx, bb, st, ev, dest, target):
        n = ev.name
        raw = ev.raw
        ty = ev.argtys[0] if ev.argtys else ''
        t = ty.lstrip('&').replace('mut ', '', 1) if ty.startswith('&') else ty
        if t.startswith('std::option::Option'):
            good, bad, an = 'Some', 'None', 'std::option::Option'
        elif t.startswith('std::result::Result'):
            good, bad, an = 'Ok', 'Err', 'std::result::Result'
        else:
            return False
        v = raw[0]
        O, R = 'std::option::Option', 'std::result::Result'

        def wrap(a, var, x):
            return agg(a, var, ((var + '.0', x),)) if var != 'None' else agg(a, 'None', ())

        def fin(s, x):
            self.note_array(s, ev, x)
            self.finish(ctx, bb, s, dest, target, x)
        if n in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'copied', 'cloned', 'iter', 'iter_mut', 'into_iter'):
            if n in ('copied', 'cloned'):
                fin(st, self.peel(st, v))
            elif v[0] == 'ref':
                # Option<&T> view of a place: keep payload reference
                done = False
                for s2, k in self.split(st, v, (good, bad)):
                    if k == good:
                        fin(s2, wrap(an, good, self.payload(s2, v, good)))
                    else:
                        fin(s2, wrap(an, bad, self.payload(s2, v, bad)) if bad != 'None' else wrap(an, 'None', None))
            else:
                fin(st, v)
            return True
        if n == 'take' and an == O and v[0] == 'ref':
            old = self.read(st, v[1])
            self.write(ctx, st, v[1], agg(O, 'None', ()), ev.line)
            fin(st, old)
            return True
        if n == 'take' and an == O:
            old = self.hread(st, v)
            st.heap[v] = agg(O, 'None', ())
            fin(st, old)
            return True
        if n == 'replace' and an == O and v[0] == 'ref':
            old = self.read(st, v[1])
            self.write(ctx, st, v[1], wrap(O, 'Some', raw[1]), ev.line)
            fin(st, old)
            return True
        if n == 'insert' and an == O and len(raw) == 2:
            new = self.peel(st, raw[1])
            self.write(ctx, st, v[1] if v[0] == 'ref' else ('V', v, ()), wrap(O, 'Some', new), ev.line)
            fin(st, self.payload(st, v, 'Some') if v[0] == 'ref' and v[1][0] == 'L' else new)
            return True
        if n == 'zip' and an == O and len(raw) == 2:
            for s2, k in self.split(st, v, (good, bad)):
                if k == bad:
                    fin(s2, wrap(O, 'None', None))
                    continue
                for s3, k2 in self.split(s2, raw[1], (good, bad)):
                    if k2 == bad:
                        fin(s3, wrap(O, 'None', None))
                    else:
                        fin(s3, wrap(O, 'Some', mk('agg', 'tuple', '', '', (('0', self.payload(s3, v, good)), ('1', self.payload(s3, raw[1], good))))))
            return True
        if n in ('unwrap', 'expect', 'unwrap_unchecked', 'unwrap_err', 'expect_err'):
            want = bad if n.endswith('_err') else good
            for s2, k in self.split(st, v, (good, bad)):
                if k == want:
                    fin(s2, self.payload(s2, v, want))
                else:
                    self.obs.panic(self, ctx, s2, ev, ev.line)
            return True
        if n in ('ok_or', 'ok_or_else', 'ok', 'err', 'map', 'map_err', 'and_then', 'or_else', 'unwrap_or', 'unwrap_or_else',
                 'unwrap_or_default', 'filter', 'map_or', 'map_or_else', 'and', 'or', 'is_some_and', 'is_ok_and', 'is_none_or', 'xor_',
                 'inspect', 'zip_', 'transpose_', 'flatten', 'inspect_err', 'is_err_and'):
            for s2, k in self.split(st, v, (good, bad)):
                x = self.payload(s2, v, k) if k != 'None' else None
                ok = k == good
                st1 = s2

                def close(fnv, args, wrap_):
                    if not self.enter_closure(ctx, st1, fnv, args, ('opt', bb, k), dest, target, wrap_, ev.line):
                        r = mk('call', 'closure', tuple(self.peel(st1, a) for a in [fnv] + args), ev.site)
                        fake = Ctx()
                        fake.wrap = wrap_
                        fake.parent = ctx
                        fake.site = bb
                        fake.dest = dest
                        fake.target = target
                        self.resume(fake, st1, r)
                if n == 'ok_or':
                    fin(st1, wrap(R, 'Ok', x) if ok else wrap(R, 'Err', raw[1]))
                elif n == 'ok_or_else':
                    if ok:
                        fin(st1, wrap(R, 'Ok', x))
                    else:
                        close(raw[1], [], ('wrap', R, 'Err'))
                elif n == 'ok':
                    fin(st1, wrap(O, 'Some', x) if ok else wrap(O, 'None', None))
                elif n == 'err':
                    fin(st1, wrap(O, 'None', None) if ok else wrap(O, 'Some', x))
                elif n == 'map':
                    if ok:
                        close(raw[1], [x], ('wrap', an, good))
                    else:
                        fin(st1, wrap(an, bad, x))
                elif n == 'map_err':
                    if ok:
                        fin(st1, wrap(R, 'Ok', x))
                    else:
                        close(raw[1], [x], ('wrap', R, 'Err'))
                elif n == 'and_then':
                    if ok:
                        close(raw[1], [x], ('plain',))
                    else:
                        fin(st1, wrap(an, bad, x))
                elif n == 'or_else':
                    if ok:
                        fin(st1, wrap(an, good, x))
                    else:
                        close(raw[1], [] if an == O else [x], ('plain',))
                elif n in ('inspect', 'inspect_err'):
                    fin(st1, wrap(an, k, x))
                elif n == 'unwrap_or':
                    fin(st1, x if ok else raw[1])
                elif n == 'unwrap_or_else':
                    if ok:
                        fin(st1, x)
                    else:
                        close(raw[1], [] if an == O else [x], ('plain',))
                elif n == 'unwrap_or_default':
                    if ok:
                        fin(st1, x)
                    elif ev.dty == 'bool':
                        fin(st1, FALSE)
                    elif re.match(r'^[ui]\d+$|^usize$', ev.dty):
                        fin(st1, const(0, ev.dty))
                    else:
                        fin(st1, mk('call', 'default', (), ev.site))
                elif n == 'filter':
                    if ok:
                        close(raw[1], [x], ('pred', wrap(O, 'Some', x), wrap(O, 'None', None)))
                    else:
                        fin(st1, wrap(O, 'None', None))
                elif n == 'map_or':
                    if ok:
                        close(raw[2], [x], ('plain',))
                    else:
                        fin(st1, raw[1])
                elif n == 'map_or_else':
                    if ok:
                        close(raw[2], [x], ('plain',))
                    else:
                        close(raw[1], [] if an == O else [x], ('plain',))
                elif n == 'and':
                    fin(st1, raw[1] if ok else wrap(an, bad, x))
                elif n == 'or':
                    fin(st1, wrap(an, good, x) if ok else raw[1])
                elif n in ('is_some_and', 'is_ok_and'):
                    if ok:
                        close(raw[1], [x], ('plain',))
                    else:
                        fin(st1, FALSE)
                elif n == 'is_err_and':
                    if not ok:
                        close(raw[1], [x], ('plain',))
                    else:
                        fin(st1, FALSE)
                elif n == 'is_none_or':
                    if ok:
                        close(raw[1], [x], ('plain',))
                    else:
                        fin(st1, TRUE)
                elif n == 'flatten':
                    fin(st1, x if ok else wrap(an, bad, x))
            return True
        return False

    def iter_next(self, ctx, bb, st, ev, dest, target):
        """element of an iterator: Some(elem) | None, adapters applied"""
        it = ev.args[0]
        return self.iter_emit(ctx, bb, st, ev, dest, target, it)

    def iter_emit(self, ctx, bb, st, ev, dest, target, it):
        O = 'std::option::Option'
        inloop = ('it', ctx.id, bb)
        s2 = st.copy()
        m = self.obs.iterated(self, ctx, st, it, False)
        if m is not None:
            s2.marks = frozenset(m)
        m = self.obs.iterated(self, ctx, st, it, True)
        if m is not None:
            st.marks = frozenset(m)
        # the element: peel adapters map/filter/filter_map from the outside in
        chain = []
        x = it
        while x[0] == 'call' and last(x[1]) in ('map', 'filter', 'filter_map') and len(x[2]) == 2:
            chain.append((last(x[1]), x[2][1]))
            x = x[2][0]
        chain.reverse()
        elem = mk('call', 'elem', (x,), ev.site)
        # the elements of a short array one after the other
        arr, pos = (x[2][0], x[2][1][1]) if x[0] == 'call' and x[1] == 'arrit' else (x, 0)
        if arr[0] == 'agg' and arr[1] == 'array' and 0 < len(arr[4]) <= 4 and ev.raw and ev.raw[0][0] == 'ref' and ev.raw[0][1][0] == 'L':
            loc = ev.raw[0][1]
            old = self.read(st, loc)
            for _ in range(4):                # (the iterator may be held by reference)
                if old[0] == 'ref' and old[1][0] == 'L' and self.read(st, old[1])[0] == 'call':
                    loc = old[1]
                    old = self.read(st, loc)
                else:
                    break
            nx = mk('call', 'arrit', (arr, mk('const', pos + 1, 'usize')), None)
            for kind, cl in chain:
                nx = mk('call', kind, (nx, cl), ev.site)
            if pos >= len(arr[4]):
                self.finish(ctx, bb, s2, dest, target, agg(O, 'None', ()))
                return True
            self.write(ctx, st, loc, nx, ev.line)
            elem = arr[4][pos][1]
        elif inloop in s2.marks:
            s2.marks = s2.marks - {inloop}
            self.finish(ctx, bb, s2, dest, target, agg(O, 'None', ()))
        elif self.obs.nonempty(self, ctx, it):
            st.marks = st.marks | {inloop}
        else:
            self.finish(ctx, bb, s2, dest, target, agg(O, 'None', ()))

        def go(s, v, i):
            if i == len(chain):
                self.finish(ctx, bb, s, dest, target, agg(O, 'Some', (('Some.0', v),)))
                return
            kind, cl = chain[i]
            key = (ctx.id, 'it', bb, i)
            k = self.cont_ids.get(key)
            if k is None:
                k = len(self.conts)
                self.cont_ids[key] = k
                self.conts.append(None)

            def cont(par, s3, rv, v=v, i=i, kind=kind):
                if kind == 'map':
                    go(s3, rv, i + 1)
                elif kind == 'filter':
                    if self.assume_bool(s3, rv, True):
                        go(s3, v, i + 1)
                else:
                    pv = self.peel(s3, rv)
                    if self.assume_variant(s3, pv, 'Some', True):
                        go(s3, self.payload(s3, rv, 'Some'), i + 1)
            self.conts[k] = cont
            if not self.enter_closure(ctx, s, cl, [v], ('it', bb, i), dest, target, ('k', k), ev.line):
                cont(ctx, s, mk('call', 'closure', (self.peel(s, cl), self.peel(s, v)), ev.site))
        go(st, elem, 0)
        return True

    TIMEOUT = re.compile(r'tokio::time::(timeout::)?timeout(_at)?$')

    def poll(self, ctx, bb, st, ev, dest, target):
        P = 'std::task::Poll'
        f = ev.raw[0]
        place = None
        while f[0] == 'ref':
            place = f[1]
            f = self.read(st, f[1])
        if f[0] == 'phi':
            f = self.same_future(ctx, bb, st, f)
        b = self.closure_body(f)
        if b is not None and b.kind == 'coroutine' and self.may_inline(ctx, b):
            if place is not None:
                self.write(ctx, st, place, MOVED, ev.line)
            self.enter(ctx, st, b, [f, mk('arg', 2, 'cx')], bb, dest, target, ('wrap', P, 'Ready'), ev.line)
            return True
        if b is None and ev.id and ev.id in self.prog.bodies and self.may_inline(ctx, self.prog.bodies[ev.id]):
            return False
        if f[0] == 'call' and self.TIMEOUT.search(f[1]) and len(f[2]) == 2:
            inner = f[2][1]
            ib = self.closure_body(inner)
            R = 'std::result::Result'
            s2 = st.copy()
            self.finish(ctx, bb, s2, dest, target, agg(P, 'Ready', (('Ready.0', agg(R, 'Err', (('Err.0', mk('call', 'elapsed', (), ev.site)),))),)))
            s3 = st.copy()
            self.finish(ctx, bb, s3, dest, target, agg(P, 'Pending', ()))
            if ib is not None and ib.kind == 'coroutine' and self.may_inline(ctx, ib):
                key = (ctx.id, 'tmo', bb)
                k = self.cont_ids.get(key)
                if k is None:
                    k = len(self.conts)
                    self.cont_ids[key] = k

                    def cont(par, s, rv):
                        self.finish(ctx, bb, s, dest, target, agg(P, 'Ready', (('Ready.0', agg(R, 'Ok', (('Ok.0', rv),))),)))
                    self.conts.append(cont)
                self.enter(ctx, st, ib, [inner, mk('arg', 2, 'cx')], bb, dest, target, ('k', k), ev.line)
                return True
            self.finish(ctx, bb, st, dest, target,
                        agg(P, 'Ready', (('Ready.0', agg(R, 'Ok', (('Ok.0', mk('await', inner)),))),)))
            return True
        s2 = st.copy()
        self.finish(ctx, bb, s2, dest, target, agg(P, 'Pending', ()))
        self.kill_await(st, f)
        self.finish(ctx, bb, st, dest, target, agg(P, 'Ready', (('Ready.0', mk('await', self.peel(st, f))),)))
        return True

    def same_future(self, ctx, bb, st, v):
        """joined futures of one async function: one future of joined captures"""
        todo, seen, src = [v], {v}, []
        while todo:
            for x in self.phi_src.get(todo.pop(), ()):
                if x[0] == 'phi':
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
                elif x is not MOVED and x not in src:
                    src.append(x)
        a = src[0] if src else v
        if any(x[0] != 'agg' or x[1] != 'coroutine' or x[2] != a[2] or len(x[4]) != len(a[4]) for x in src) or not src:
            return v
        out = []
        for i, (n, y) in enumerate(a[4]):
            ys = {x[4][i][1] for x in src}
            if len(ys) > 1:
                y = mk('phi', ctx.id, bb, ('future', n))
                new = ys - self.phi_src.setdefault(y, set()) - {y}
                self.phi_src[y] |= new
                self.kill_site(st, y)
            out.append((n, y))
        return mk('agg', 'coroutine', a[2], a[3], tuple(out))

    def kill_await(self, st, f):
        pass


def run(prog, obs, body, **kw):
    e = Engine(prog, obs)
    e.conts = []
    e.cont_ids = {}
    e.run(body, **kw)
    return e
