"""Rules that cut across the layers: locks, panics, recursion, the peer set and packet views."""
import re
from lib import *
import engine as E
from engine import mk
from rules_adnl import nosites

CLOSURE = re.compile(r'\{(?:closure|async [^@{}]*|coroutine)@[^{}]*\}')


def targs(s):
    """type arguments of the outermost <...> of a type"""
    i = s.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for c in s[i + 1:]:
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            if d == 0:
                break
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return [x for x in out if not x.startswith("'")]


GUARDS = re.compile(r'(dashmap::(?:mapref|setref|iter|iter_set|try_result|mapref::\w+)(?:::\w+)*::(?:Ref|RefMut|MappedRef|MappedRefMut|RefMulti|RefMutMulti|Entry|OccupiedEntry|VacantEntry|Iter|IterMut|EntryRef|OccupiedEntryRef|VacantEntryRef)'
                    r'|lock_api::(?:mutex::|rwlock::)?(?:Mapped)?(?:Arc)?(?:MutexGuard|RwLockReadGuard|RwLockWriteGuard|RwLockUpgradableReadGuard)'
                    r'|std::sync::(?:\w+::)*(?:MutexGuard|RwLockReadGuard|RwLockWriteGuard)|tokio::sync::(?:\w+::)*(?:Owned|Mapped)?\w*(?:MutexGuard|RwLockReadGuard|RwLockWriteGuard))<')


def balanced(s, i):
    """s[i] is '<': index after its closing bracket"""
    d = 0
    for j in range(i, len(s)):
        if s[j] == '<':
            d += 1
        elif s[j] == '>' and s[j - 1] != '-':
            d -= 1
            if d == 0:
                return j + 1
    return len(s)


def map_class(k, v):
    return 'DashMap<%s, %s>' % (k, v)


def guard_class(name, full):
    a = targs(full)
    if name.startswith('dashmap::'):
        if 'set' in name:
            return map_class(a[0], '()')
        return map_class(a[0], a[1] if len(a) > 1 else '()')
    return 'Lock<%s>' % a[-1]


class Guards:
    """which lock classes a value of a type keeps locked"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.wrap = {}
        # local types that contain a guard
        for i in range(3):
            for n, a in prog.adts.items():
                if not a.get('local'):
                    continue
                cs = set()
                for v in a['variants']:
                    for f, t in v['fields']:
                        cs |= self.of(t)
                if cs and self.wrap.get(n) != cs:
                    self.wrap[n] = cs
                    self.memo = {}

    def of(self, ty):
        r = self.memo.get(ty)
        if r is not None:
            return r
        out = set()
        s = ty
        # references do not own what they point at; raw closures are looked at by their captures
        s = strip_refs(s)
        i = 0
        while True:
            m = GUARDS.search(s, i)
            if not m:
                break
            j = balanced(s, m.end() - 1)
            out.add(guard_class(m.group(1), s[m.start():j]))
            i = m.end()
        for n, cs in self.wrap.items():
            if re.search(r'(?<![\w:])%s(?![\w:])' % re.escape(n), s):
                out |= cs
        self.memo[ty] = frozenset(out)
        return self.memo[ty]


def strip_refs(s):
    """removes the targets of references and pointers"""
    out, i = '', 0
    while i < len(s):
        if s[i] == '&' or s.startswith('*const ', i) or s.startswith('*mut ', i):
            j = i + 1
            d = 0
            while j < len(s):
                c = s[j]
                if c in '<([{':
                    d += 1
                elif c in '>)]}':
                    if c == '>' and s[j - 1] == '-':
                        pass
                    elif d == 0:
                        break
                    else:
                        d -= 1
                elif c == ',' and d == 0:
                    break
                j += 1
            out += '&'
            i = j
        else:
            out += s[i]
            i += 1
    return out


NOT_LOCKING = ('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher', 'default', 'hasher', 'hash_usize', 'into_inner', 'get_mut_unlocked', 'is_locked', 'with_capacity_and_hasher_and_shard_amount',
               'with_shard_amount', 'drop', 'deref', 'deref_mut')


def acquired(t, p, r):
    """lock class acquired by a call itself"""
    tys = t[6] or ['']
    n = last(p)
    q = r or p
    s = (tys[0] if tys else '').lstrip('&').replace('mut ', '')
    if re.match(r'(std::sync::Arc<)?dashmap::Dash(Map|Set)<', s) and n not in NOT_LOCKING and n not in ('clone', 'as_ref', 'borrow', 'downgrade') or \
            'dashmap' in q and n == 'into_iter' and 'dashmap::Dash' in s:
        a = targs(s[s.index('dashmap::'):])
        return map_class(a[0], a[1] if 'DashMap<' in s[:s.index('<') + 20] and 'DashSet<' not in s else '()')
    if n == 'next' and s.startswith('dashmap::iter'):
        m = GUARDS.search(s)
        if m:
            return guard_class(m.group(1), s[m.start():])
    m = re.match(r'(?:std::sync::Arc<)?(lock_api|std::sync|parking_lot|tokio::sync)[\w:]*::(Mutex|RwLock|FairMutex|ReentrantMutex)<', s)
    if m and n in ('lock', 'read', 'write', 'upgradable_read', 'blocking_lock', 'blocking_read', 'blocking_write', 'read_recursive') or m and n.startswith('try_') and n not in ('try_from',):
        return 'Lock<%s>' % targs(s)[-1]
    return None


class LockGraph:
    def __init__(self, prog):
        self.prog = prog
        self.guards = Guards(prog)
        self.impls = {}
        for b in prog.bodies.values():
            if b.kind == 'fn' and b.trait:
                self.impls.setdefault((re.sub(r'<.*', '', b.trait), b.name), []).append(b.id)
        self.closures = {}
        self.direct = {}
        self.succ = {}
        for b in prog.bodies.values():
            if b.kind == 'promoted':
                continue
            for blk in b.blocks:
                for s in blk['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1] in ('closure', 'cclosure') and len(s[1]) == 1:
                        self.closures[b.locals[s[1][0]][0]] = s[2][2]
        for b in prog.bodies.values():
            if b.kind == 'promoted':
                continue
            d, su = set(), set()
            for blk in b.blocks:
                if blk.get('lg'):
                    continue
                t = blk['t']
                if t[0] == 'call':
                    c, ids = self.effect(b, t)
                    d |= c
                    su |= ids
                elif t[0] == 'drop':
                    su |= {prog.drop_impls[x] for x in prog.local_drop_types(t[4])}
            self.direct[b.id] = d
            self.succ[b.id] = su
        self.all = {}
        ch = True
        self.all = {i: set(d) for i, d in self.direct.items()}
        while ch:
            ch = False
            for i, su in self.succ.items():
                a = self.all[i]
                n = len(a)
                for j in su:
                    a |= self.all.get(j, set())
                ch |= len(a) != n

    def effect(self, b, t):
        """(classes acquired by the call itself, local functions it may run)"""
        f = (t[1].get('k') or {}).get('fn')
        ids, cs = set(), set()
        if f:
            c = acquired(t, f['p'], f['r'])
            if c:
                cs.add(c)
            if f.get('id') in self.prog.bodies:
                ids.add(f['id'])
            if f.get('trait') and f.get('how') != 'item':
                ids |= self.resolve(b, t, f)
            if last(f['p']) in ('spawn', 'spawn_blocking', 'spawn_local'):
                return cs, ids
        # closures handed over, alone or inside of adaptors
        for ty in (t[6] or []):
            for m in re.finditer(r'\{closure@[^{}]*\}', ty):
                i = self.closures.get(m.group(0))
                if i:
                    ids.add(i)
        for o in t[2]:
            k = isinstance(o, dict) and o.get('k')
            if k and 'fn' in k and k['fn'].get('id'):
                ids.add(k['fn']['id'])
            if k and 'closure' in k:
                ids.add(k['closure'])
        return cs, ids

    def resolve(self, b, t, f):
        """local implementations a call through a trait may reach"""
        tr, n = re.sub(r'<.*', '', f['trait']), last(f['p'])
        ids = set(self.impls.get((tr, n), ()))
        s = ((t[6] or [''])[0]).lstrip('&').replace('mut ', '').strip()
        if s.startswith('impl ') and n == 'into_iter' and 'Iterator' in s:
            return set()                 # an iterator is its own iterator
        if '::' in s and not s.startswith(('dyn ', 'impl ', '<')):
            head = s.split('<')[0]       # a known type: its own implementation only
            return {i for i in ids if (self.prog.bodies[i].self_ty or '').lstrip('&').replace('mut ', '').split('<')[0] == head}
        if re.match(r'[A-Z]\w*$', s):
            # a type parameter: the types the callers of this function use for it
            here = b.id.split('::{closure')[0]
            ar = [i for i in range(1, b.argc + 1) if s == b.locals[i][0]] if b.kind == 'fn' else []
            if not ar:
                return ids if n not in ('into_iter', 'next', 'call', 'call_mut', 'call_once') else set()
            out = set()
            for c in self.prog.bodies.values():
                for p2, r2, i2, t2 in body_calls(c):
                    if i2 == here:
                        for a in ar:
                            ty = ((t2[6] or [])[a - 1:a] or [''])[0].lstrip('&').replace('mut ', '').split('<')[0]
                            out |= {i for i in ids if (self.prog.bodies[i].self_ty or '').lstrip('&').replace('mut ', '').split('<')[0] == ty}
            return out
        return ids

    def local_ty(self, b, i):
        return b.locals[i][0]

    def opaque(self, b):
        """locals whose type hides a guard: results of local functions that return one behind `impl Trait`"""
        out = {}
        for blk in b.blocks:
            t = blk['t']
            if t[0] == 'call':
                f = (t[1].get('k') or {}).get('fn')
                if f and f.get('id') in self.prog.bodies and 'impl ' in self.local_ty(b, t[3][0]):
                    c = self.returned(f['id'])
                    if c:
                        out[t[3][0]] = c
        return out

    def returned(self, fid, d=0):
        c = self.prog.bodies[fid]
        cs = set()
        if 'impl ' in c.locals[0][0] and d < 4:
            for blk in c.blocks:
                for s in blk['s']:
                    if s[0] == '=' and s[1] == [0]:
                        for o in operands(s[2]):
                            cs |= self.guards.of(self.local_ty(c, o))
                t = blk['t']
                if t[0] == 'call' and t[3] == [0]:
                    cs |= self.guards.of(t[7] or '')
                    f = (t[1].get('k') or {}).get('fn')
                    if f and f.get('id') in self.prog.bodies:
                        cs |= self.returned(f['id'], d + 1)
                    for o in t[2]:
                        if 'm' in o:
                            cs |= self.guards.of(self.local_ty(c, o['m'][0]))
        else:
            cs |= self.guards.of(c.locals[0][0])
        return cs

    def held(self, b):
        """yields (block, terminator, classes held when it runs with the locals that hold them)"""
        cls = {}
        for i, l in enumerate(b.locals):
            c = self.guards.of(l[0])
            if c and not l[0].startswith('&'):
                cls[i] = set(c)
        for i, c in self.opaque(b).items():
            cls[i] = cls.get(i, set()) | c
        # values that carry on an opaque guard
        ch = True
        while ch:
            ch = False
            for blk in b.blocks:
                t = blk['t']
                if t[0] == 'call' and 'impl ' in (t[7] or ''):
                    for o in t[2]:
                        if 'm' in o and o['m'][0] in cls and not cls[o['m'][0]] <= cls.get(t[3][0], set()):
                            cls.setdefault(t[3][0], set()).update(cls[o['m'][0]])
                            ch = True
                for s in blk['s']:
                    if s[0] == '=' and 'impl ' in self.local_ty(b, s[1][0]):
                        for o in operands(s[2]):
                            if o in cls and not cls[o] <= cls.get(s[1][0], set()):
                                cls.setdefault(s[1][0], set()).update(cls[o])
                                ch = True
        if not cls:
            return
        n = len(b.blocks)
        inn = [None] * n
        inn[0] = frozenset(i for i in cls if 1 <= i <= b.argc)
        work = [0]
        while work:
            x = work.pop()
            st = set(inn[x])
            for s in b.blocks[x]['s']:
                self.step(b, cls, st, s)
            for y, out in self.flow(b, cls, st, b.blocks[x]['t'], b.blocks[x]):
                if y is None or b.blocks[y].get('cl'):
                    continue
                o = frozenset(out)
                if inn[y] is None or not o <= inn[y]:
                    inn[y] = o if inn[y] is None else inn[y] | o
                    work.append(y)
        for x in range(n):
            if inn[x] is None or b.blocks[x].get('lg'):
                continue
            st = set(inn[x])
            for s in b.blocks[x]['s']:
                self.step(b, cls, st, s)
            yield x, b.blocks[x]['t'], {i: cls[i] for i in st}

    def moved(self, b, cls, o):
        """local emptied by moving an operand"""
        if isinstance(o, dict) and 'm' in o:
            p = o['m']
            if p[0] in cls:
                if len(p) == 1 or '*' not in [str(e[0]) for e in p[1:] if isinstance(e, list)]:
                    return p[0]
        return None

    def step(self, b, cls, st, s):
        if s[0] == 'dead':
            st.discard(s[1])
        elif s[0] == '=':
            src = set()
            for o in ops(s[2]):
                m = self.moved(b, cls, o)
                if m is not None:
                    p = o['m']
                    ty = b.locals[s[1][0]][0]
                    # a field without a guard may be moved out while the guard stays
                    if len(p) == 1 or s[1][0] in cls:
                        st.discard(m)
            if s[1][0] in cls and (len(s[1]) == 1 or True):
                if len(s[1]) == 1 and s[2][0] == 'agg' and not any(isinstance(o, dict) and ('m' in o or 'c' in o) and (o.get('m') or o.get('c'))[0] in cls for o in ops(s[2])):
                    st.discard(s[1][0])      # e.g. None
                else:
                    st.add(s[1][0])

    def free(self, b, cls, pl, v):
        """variant v of the place (a whole local, an option or result around the guard) carries no guard"""
        if len(pl) > 1:
            return False
        ty = b.locals[pl[0]][0]
        a = targs(ty)
        if ty.startswith('std::option::Option<'):
            parts = {0: '', 1: a[0]}
        elif ty.startswith('std::result::Result<'):
            parts = {0: a[0], 1: a[1]}
        elif ty.startswith('std::ops::ControlFlow<'):
            parts = {0: a[1] if len(a) > 1 else '', 1: a[0]}
        else:
            return False
        return 'impl ' not in parts[v] and not self.guards.of(parts[v])

    def flow(self, b, cls, st, t, blk):
        k = t[0]
        if k == 'call':
            out = set(st)
            for o in t[2]:
                m = self.moved(b, cls, o)
                if m is not None:
                    out.discard(m)
            if t[3][0] in cls:
                out.add(t[3][0])
            return [(t[4], out)]
        if k == 'drop':
            out = set(st)
            if len(t[1]) == 1:
                out.discard(t[1][0])
            return [(t[2], out)]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'sw':
            # a variant without a guard (None, the other side of a Result) holds nothing
            o = t[1].get('m') or t[1].get('c')
            pl = None
            if o and len(o) == 1:
                for s in blk['s']:
                    if s[0] == '=' and s[1] == o and s[2][0] == 'discr':
                        pl = s[2][1]
            free = {v: self.free(b, cls, pl, v) for v in (0, 1)} if pl and pl[0] in cls else {}
            res = []
            for v, y in t[2]:
                res.append((y, st - {pl[0]} if free.get(v) else st))
            rest = [v for v in (0, 1) if v not in [x for x, _ in t[2]]]
            res.append((t[3], st - {pl[0]} if free and all(free.get(v) for v in rest) else st))
            return res
        if k == 'assert':
            return [(t[4], st)]
        if k == 'yield':
            return [(t[2], st), (t[3], st)]
        return []


def ops(rv):
    """operands of an rvalue"""
    out = []
    st = [rv]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'm' in x or 'c' in x or 'k' in x:
                out.append(x)
        elif isinstance(x, list):
            st.extend(x)
    return out


def operands(rv):
    return [(o.get('m') or o.get('c'))[0] for o in ops(rv) if 'm' in o or 'c' in o]


def flattened(L, b, t, l, ids, A):
    """the local l is a flattening iterator whose inner iterators hold A, and the only function of the call that acquires A makes them"""
    ty = b.locals[l][0]
    m = re.search(r'std::iter::FlatMap<', ty)
    if not m or not any((o.get('m') or [None])[0] == l for o in t[2]):
        return False
    ty2 = ty[m.start():balanced(ty, m.end() - 1)]
    i, u, f = targs(ty2)
    rest = ty[:m.start()] + ty[balanced(ty, m.end() - 1):]
    return A not in L.guards.of(i) and A not in L.guards.of(rest) and A in L.guards.of(u) and len([x for x in ids if A in L.all.get(x, ())]) == 1


@rule('C01', 'no lock is held at a suspension point or while a future is polled; no lock class is taken while it is held; lock classes are ordered',
      'whole-program lock analysis on MIR: dataflow of guard values per body, lock sets over the call graph, order graph of lock classes',
      'Every value whose type contains a guard of a lock or of a concurrent map (entries, references and iterators included, also inside of local types, closures and '
      'adaptors) is followed through every body by initialisation, moves and drops. At every suspension point and every poll no such value may be live. At every call and drop that may '
      'acquire locks (directly or anywhere below it in the call graph, closures and Drop implementations included) each live guard adds an edge between lock classes; an edge from a class to itself '
      'or a cycle is reported. Classes are the types of the protected data; two locks of one class may be nested only with the fact that they are different objects and if the fields they come from are '
      'ordered. Suspended futures hold nothing, so futures that are only created do not count.')
def c01(R):
    prog = R.prog
    L = LockGraph(prog)
    R.floor('functions that acquire locks themselves', sum(1 for d in L.direct.values() if d), 40)
    R.floor('lock classes', len(set().union(*L.direct.values())), 12)
    edges, own = {}, {}

    def chain_to(ids, cls):
        """a call chain from one of ids to an acquisition of cls"""
        st, seen = [(i,) for i in ids], set()
        while st:
            p = st.pop(0)
            if p[-1] in seen:
                continue
            seen.add(p[-1])
            if cls in L.direct.get(p[-1], ()):
                return ' > '.join(fn_name(prog.bodies[x]) for x in p)
            st += [p + (j,) for j in L.succ.get(p[-1], ())]
        return ''

    def fn_name(b):
        return b.name or b.id.split('::', 1)[1]
    for b in prog.bodies.values():
        if b.kind == 'promoted':
            continue
        ys = sum(1 for blk in b.blocks if blk['t'][0] == 'yield')
        if ys:
            R.count('suspension points', ys)
        key = re.sub(r'^everscale_network::', '', b.id)
        if ys:
            R.ob('await/%s' % key, True, '', '')
        R.bodies.add(b.id)
        for blk in b.blocks:
            # closures that a map runs while it is locked (retain, alter, view, ...)
            t = blk['t']
            if t[0] == 'call' and not blk.get('lg') and not blk.get('cl'):
                cs, ids = L.effect(b, t)
                for A in cs:
                    if A.startswith('DashMap') and ids:
                        R.count('closures run by locked maps')
                        for B in set().union(*[L.all.get(i, set()) for i in ids]):
                            edges.setdefault((A, B), []).append((key, '%s:%s' % (b.file, t[-1]), chain_to(ids, B), b, t, None))
        for x, t, h in L.held(b):
            if not h:
                continue
            line = t[-1] if isinstance(t[-1], int) else b.line
            w = '%s:%s' % (b.file, line)
            hc = set().union(*h.values())
            if t[0] == 'yield':
                R.ob('await/%s' % key, False, 'a lock (%s) is held at a suspension point' % ', '.join(sorted(hc)), w)
                continue
            ids, cs = set(), set()
            if t[0] == 'call':
                cs, ids = L.effect(b, t)
                f = (t[1].get('k') or {}).get('fn') or {}
                n = last(f.get('p', ''))
                R.count('calls under a lock')
                if b.kind != 'coroutine' and (n in ('poll', 'poll_next', 'try_poll', 'try_poll_next', 'poll_unpin', 'poll_next_unpin') and ('uture' in f['p'] or 'tream' in f['p'])):
                    R.ob('poll/%s' % key, False, 'a future is polled while a lock (%s) is held' % ', '.join(sorted(hc)), w)
            elif t[0] == 'drop':
                ids = {prog.drop_impls[y] for y in prog.local_drop_types(t[4])}
                f, n = {}, 'drop'
            else:
                continue
            for B in set(cs) | set().union(*[L.all.get(i, set()) for i in ids] or [set()]):
                for l, hs in h.items():
                    for A in hs:
                        if A == B and B in cs and n == 'next' and ref_of(b, t, h) == l:
                            continue          # an iterator moving on
                        if A == B and B not in cs and l is not None and flattened(L, b, t, l, ids, A):
                            continue          # the inner iterator is dropped before the next one is made
                        edges.setdefault((A, B), []).append((key, w, chain_to(ids, B) if B not in cs else 'directly', b, t, l))
    R.floor('suspension points', R.counts.get('suspension points', 0), 20)
    R.floor('calls under a lock', R.counts.get('calls under a lock', 0), 30)
    for (A, B), ws in sorted(edges.items()):
        R.notes.append('order %s -> %s at %s' % (A, B, sorted({x[1] for x in ws})[:3]))
        if A != B:
            continue
        for key, w, ch, b, t, l in ws:
            ok = distinct(R, L, b, t, l, A) if ch == 'directly' else False
            R.ob('reentry/%s %s' % (key, A), ok, 'a lock of %s is acquired (%s) while one of the same class is held' % (A, ch), w)
    R.count('pairs of nested lock classes', len([1 for a, b in edges if a != b]))
    # cycles
    succ = {}
    for a, b in edges:
        if a != b:
            succ.setdefault(a, set()).add(b)

    def reachable(a):
        seen, st = set(), list(succ.get(a, ()))
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st += succ.get(x, ())
        return seen
    for (a, b), ws in sorted(edges.items()):
        if a == b:
            continue
        back = a in reachable(b)
        R.ob('order/%s -> %s' % (a, b), not back, 'locks are nested in one order; %s is acquired (%s) while %s is held, and elsewhere the other way round' % (b, ws[0][2], a), ws[0][1])


def ref_of(b, t, held):
    """the local whose reference is the first argument of a call"""
    o = t[2][0] if t[2] else {}
    p = o.get('m') or o.get('c')
    d = 0
    while p and d < 8 and p[0] not in held:
        d += 1
        nx = None
        for blk in b.blocks:
            for s in blk['s']:
                if s[0] == '=' and s[1] == [p[0]] and s[2][0] in ('ref', 'use'):
                    q = s[2][-1]
                    q = (q.get('m') or q.get('c')) if isinstance(q, dict) else q
                    nx = q
        if nx is None:
            return p[0]
        p = nx
    return p[0] if p else None


def distinct(R, L, b, t, l, cls):
    """two locks of one class nested in one function: known to be different objects there, ordered by their fields in all callers"""
    prog = R.prog
    res = {'pairs': set(), 'bad': 0, 'seen': 0}

    class D(E.Observer):
        part_cap = 64

        def inline(self, e, x):
            return x.kind == 'closure' or x.file.endswith('peers_set.rs') and len(x.blocks) < 30

        def relevant(self, f):
            return True

        def call(self, e, ctx, st, ev):
            if ev.name in ('read', 'write', 'lock', 'upgradable_read') and ev.args and 'Lock' in ' '.join(ev.argtys or []):
                r = root_arg_of(ev.args[0])
                prev = [m[1] for m in st.marks if isinstance(m, tuple) and m[0] == 'locked']
                for p in prev:
                    res['seen'] += 1
                    eq = any(k[0] == 'call' and last(k[1]) == 'eq' and v is False and {root_arg_of(x) for x in k[2]} >= {p, r} or
                             k[0] == 'bin' and k[1] == 'Eq' and v is False and {root_arg_of(x) for x in k[2:4]} >= {p, r} for k, v in st.facts.items())
                    if p is None or r is None or p == r or not eq:
                        res['bad'] += 1
                    else:
                        res['pairs'].add((p, r))
                return st.marks | {('locked', r)}
    E.run(prog, D(), b)
    if not res['seen'] or res['bad']:
        return False
    # callers: the fields the two objects come from
    order = set()
    for c in callers(prog, b.id):
        cb = prog.bodies[c]

        class C(E.Observer):
            part_cap = 16

            def inline(self, e, x):
                return False

            def call(self, e, ctx, st, ev):
                if ev.id == b.id:
                    for p, r in res['pairs']:
                        fs = [tuple(x[2][1] for x in walk(ev.args[i - 1]) if x[0] == 'field')[:1] for i in (p, r)]
                        order.add((fs[0] or (short(ev.args[p - 1]),), fs[1] or (short(ev.args[r - 1]),)))
        E.run(prog, C(), cb)
    R.notes.append('nested locks of one class: %s' % sorted(order))
    return not any(a == c or (c, a) in order for a, c in order)


def root_arg_of(v):
    d = 0
    while d < 20:
        d += 1
        if v[0] == 'arg':
            return v[1]
        if v[0] in ('field', 'cast'):
            v = v[1] if v[0] == 'field' else v[2]
        elif v[0] == 'call' and v[2]:
            v = v[2][0]
        elif v[0] == 'ref':
            return None
        else:
            return None
    return None


# ------------------------------------------------------------------ recursion
DECODE = ('deserialize', 'deserialize_as_boxed', 'deserialize_as_boxed_with_suffix', 'deserialize_with_suffix', 'read_from')


class Calls:
    """call graph with trait calls resolved to local implementations; futures count where they are created, unless they are spawned"""

    def __init__(self, prog, L):
        from rules_adnl import spawned
        self.prog, self.L = prog, L
        self.spawned = spawned(prog)
        self.generic = {}                 # local generic function -> type arguments its callers use
        for b in prog.bodies.values():
            if b.kind != 'promoted':
                for p, r, i, t in body_calls(b):
                    if i:
                        self.generic.setdefault(i, set()).update(t[1]['k']['fn'].get('ga') or [])
        self.heads = {n: re.compile(r'(?<![\w:])%s(?![\w:])' % re.escape(n)) for n, a in prog.adts.items() if a.get('local')}
        self.readers = {}                 # local type -> its decoders
        for b in prog.bodies.values():
            if b.kind == 'fn' and b.trait and last(re.sub(r'<.*', '', b.trait)) == 'TlRead':
                self.readers.setdefault(re.sub(r'<.*', '', b.self_ty or '').lstrip('&'), set()).add(b.id)
        self.virtual = {}                 # (body, target) -> terminators of calls through trait objects
        self.succ = {}
        for b in prog.bodies.values():
            if b.kind != 'promoted':
                self.succ[b.id] = self.of(b)

    def decoders(self, tys):
        out = set()
        for ty in tys:
            for n, ids in self.readers.items():
                if n in ty and (n not in self.heads or self.heads[n].search(ty)):
                    out |= ids
        return out

    def of(self, b):
        prog, L = self.prog, self.L
        out = set()
        for x in body_refs(prog, b):
            if x in prog.bodies and x not in self.spawned:
                out.add(x)
        for blk in b.blocks:
            if blk.get('lg'):
                continue
            t = blk['t']
            if t[0] == 'drop':
                out |= {prog.drop_impls[x] for x in prog.local_drop_types(t[4])}
            if t[0] != 'call':
                continue
            f = (t[1].get('k') or {}).get('fn')
            if not f:
                continue
            tr = last(re.sub(r'<.*', '', f.get('trait') or ''))
            ga = f.get('ga') or []
            if f.get('trait') and f.get('how') != 'item':
                s = ga[0] if ga else ''
                if re.match(r'[A-Z]\w*$', s):
                    # a type parameter: a part of the implementing type in trait implementations, the callers' choice in functions
                    if b.trait and last(f['p']) == b.name:
                        continue
                    tys = self.generic.get(b.id.split('::{closure')[0], set()) - {s}
                    if tr == 'TlRead':
                        out |= self.decoders(tys)
                    else:
                        ids = set(L.impls.get((re.sub(r'<.*', '', f['trait']), last(f['p'])), ()))
                        out |= {i for i in ids if any((prog.bodies[i].self_ty or '?').lstrip('&').split('<')[0] in ty for ty in tys)}
                else:
                    ids = L.resolve(b, t, f)
                    if f.get('how') == 'virtual':
                        for i in ids:
                            self.virtual.setdefault((b.id, i), []).append(t)
                    out |= ids
            elif not f.get('id') and (tr == 'TlRead' or last(f['p']) in DECODE):
                out |= self.decoders(ga)
        return {x for x in out if x not in self.spawned}


def table_users(R, field, file):
    """values stored in a table field, with the functions that store them"""
    from rules_adnl import table_op
    out = []

    class T(E.Observer):
        part_cap = 8

        def inline(self, e, b):
            return False

        def call(self, e, ctx, st, ev):
            o = table_op(ev)
            if o and o[0] == 'insert' and o[1] == field:
                out.append((e.prog.bodies[ctx.body.id] if hasattr(ctx, 'body') else None, o[3]))
            elif ev.name in ('push', 'extend', 'append') and ev.args and root_field(ev.args[0]) == field:
                out.append((e.prog.bodies[ctx.body.id] if hasattr(ctx, 'body') else None, ev.args[1]))
    for b in R.prog.bodies.values():
        if b.file == file and b.kind in ('fn', 'coroutine', 'closure'):
            n = len(out)
            E.run(R.prog, T(), b)
            for i in range(n, len(out)):
                out[i] = (b, out[i][1])
    return out


def supplied_only(R, C, b, tgt):
    """the trait object called is taken from a table that only the user of the library fills"""
    fields = set()

    class F(E.Observer):
        part_cap = 32

        def inline(self, e, x):
            return x.kind == 'closure' and x.id.startswith(b.id + '::')

        def call(self, e, ctx, st, ev):
            if ev.p and any(t[1]['k']['fn']['p'] == ev.p for t in C.virtual.get((b.id, tgt), ())):
                fields.add(root_field(ev.args[0]))
    E.run(R.prog, F(), b)
    if not fields or None in fields:
        return False
    for f in fields:
        use = table_users(R, f, b.file)
        if not use:
            return False
        for x, v in use:
            a = v
            while a[0] in ('field', 'cast', 'ref') or a[0] == 'call' and last(a[1]) in ('clone', 'into', 'from') and a[2]:
                a = a[2] if a[0] == 'cast' else a[2][0] if a[0] == 'call' else a[1]
            if a[0] != 'arg' or callers(R.prog, x.id):
                return False
    return True


@rule('C03', 'every cycle of the call graph repeats a bounded number of times, whatever was received',
      'call-graph cycle analysis with path facts at the recursive calls (MIR)',
      'The call graph of the whole library is built with trait calls resolved to the local implementations, futures counted where they are created unless they are spawned, decoders of '
      'nested types included. Every cycle is reported unless the recursive call is made under a fact about a parameter '
      '(equal to a constant, below or above a bound) that the passed argument is known not to satisfy on that path, so that the nested run cannot recurse. A trait object taken from a table that '
      'only the user of the library fills does not lead back into the library by itself.')
def c03(R):
    from rules_adnl import strong_comps
    prog = R.prog
    L = LockGraph(prog)
    C = Calls(prog, L)
    roots = {b.id for b in prog.bodies.values() if b.trait and last(re.sub(r'<.*', '', b.trait)) in ('MessageSubscriber', 'QuerySubscriber')}
    R.floor('message and query handlers', len(roots), 3)
    roots |= {x.id for x in prog.method('Node', 'start') or []}
    seen, st = set(), list(roots) + list(C.spawned)
    while st:
        x = st.pop()
        if x not in seen and x in C.succ:
            seen.add(x)
            st += list(C.succ[x])
    R.count('functions reachable from received data', len(seen))
    R.floor('functions reachable from received data', len(seen), 100)
    R.bodies |= set(C.succ)

    def comps(ids, cut=()):
        ids = sorted(ids)
        ix = {i: n for n, i in enumerate(ids)}
        succ = [{ix[y] for y in C.succ[x] if y in ix} if x not in cut else set() for x in ids]
        return [{ids[x] for x in c} for c in strong_comps(len(ids), succ) if len(c) > 1 or next(iter(c)) in succ[next(iter(c))]]

    cycles = comps(C.succ)
    # calls into tables filled by the user only
    for c in cycles:
        for a in sorted(c):
            for y in sorted(C.succ[a] & c):
                if (a, y) in C.virtual and supplied_only(R, C, prog.bodies[a], y):
                    C.succ[a] = C.succ[a] - {y}
                    R.notes.append('%s calls objects supplied by the user' % a)
                    R.ob('supplied/%s' % a, True, '', '')
    cycles = comps(C.succ)
    R.count('cycles', len(cycles))
    for c in cycles:
        heads = sorted(c, key=lambda x: (prog.bodies[x].kind != 'fn', not prog.bodies[x].trait, x))
        head = None
        for h in heads:
            hs = {h} | {x for x in c if x.startswith(h + '::{closure')}
            if prog.bodies[h].kind == 'fn' and not comps(c, cut=hs):
                head = h
                break
        key = 'cycle/%s' % re.sub(r'^everscale_network::', '', head or heads[0])
        b = prog.bodies[head or heads[0]]
        w = '%s:%s' % (b.file, b.line)
        if head is None:
            R.ob(key, False, 'functions call each other in more than one cycle: %s' % ', '.join(sorted(c)[:4]), w)
            continue
        sites, bad = bounded(R, C, head, c)
        R.count('recursive calls', len(sites))
        if not sites:
            R.ob(key, False, 'a cycle of calls whose recursive call could not be followed: %s' % ' > '.join(sorted(c)[:4]), w)
        for s, ok, why in sites:
            R.ob('%s/%s' % (key, s.split(':')[0]), ok, 'the number of nested calls of %s is chosen by the sender: %s' % (b.name, why), s)
    R.ob('cycles', True, '', '')


def bounded(R, C, head, comp):
    """recursive calls of head, each with whether the nested run is known not to recurse the same way"""
    prog = R.prog
    fn = prog.bodies[head]
    body = R.async_body(fn)
    params = [fn.locals[i + 1][1] for i in range(fn.argc)]
    out = {}

    def param(v):
        """index of the parameter that a value is"""
        while v[0] == 'cast':
            v = v[2]
        if v[0] == 'field' and v[1] == mk('arg', 1, None) and v[2][0] == 'f' and v[2][1] in params:
            return params.index(v[2][1])
        if v[0] == 'arg' and body is fn:
            return v[1] - 1
        return None

    def differs(st, v, K):
        """the value is known not to be the constant"""
        if v[0] == 'const':
            return v[1] != K
        for k, val in st.facts.items():
            if k[0] == 'bin' and k[1] == 'Eq' and val is False and v in k[2:4] and any(x[0] == 'const' and x[1] == K for x in k[2:4]):
                return True
            if k[0] == 'is' and k[1] == v and val != K:
                return True
            if k[0] == 'isnot' and k[1] == v and val == K:
                return True
            if k == v and isinstance(val, bool) and val != bool(K):
                return True
        return False

    def guards(st):
        """constants that a parameter equals on this path"""
        out = set()
        for k, val in st.facts.items():
            if k[0] == 'is' and param(k[1]) is not None:
                out.add((param(k[1]), val))
            elif param(k) is not None and isinstance(val, bool):
                out.add((param(k), val))
            for op, a, b in rels(k, val):
                for x, y in ((a, b), (b, a)):
                    if op == '==' and param(x) is not None and y[0] == 'const':
                        out.add((param(x), y[1]))
        return out

    def counted(st, i, v):
        """a counter: moves by a constant towards a constant bound that was checked here"""
        base, off = linear(v)
        if param(base) == i and off:
            for op, a, b in all_rels(st):
                for x, y in ((a, b), (b, a)):
                    if param(x) == i and y[0] == 'const':
                        if op in ('<', '<=') and (off > 0 and x is a or off < 0 and x is b):
                            return True
                        if op == '!=' and off == -1 and y[1] == 0:
                            return True
            if off == -1 and any(k[0] == 'isnot' and param(k[1]) == i and v2 == 0 for k, v2 in st.facts.items()):
                return True
        for x in walk(v):
            if x[0] == 'call' and last(x[1]) == 'checked_sub' and param(x[2][0]) == i and x[2][1][0] == 'const' and x[2][1][1] and v[0] == 'field':
                return True
        return False

    class B(E.Observer):
        part_cap = 200

        def inline(self, e, x):
            return x.id != head and x.id != body.id and (x.id in comp or (x.kind == 'closure' or x.file == body.file) and len(x.blocks) < (40 if x.pub else 160))

        def relevant(self, f):
            return True

        def call(self, e, ctx, st, ev):
            ids = {ev.id} if ev.id else set()
            if any(head == y and t[1]['k']['fn']['p'] == ev.p for (x, y), ts in C.virtual.items() for t in ts):
                ids.add(head)
            if head not in ids:
                return
            s = src(e, ctx, ev.line)
            if all_guards is None:
                g = guards(st)
                here.setdefault(s, []).append(g)
                return
            cnt = {i for i, v in enumerate(ev.args) if counted(st, i, v)}
            ok = all(any(differs(st, ev.args[i], K) for i, K in g if i < len(ev.args)) or cnt & counters for g in all_guards)
            steps.setdefault(s, []).append(cnt)
            o = out.get(s)
            out[s] = (o[0] and ok if o else ok, 'no argument of the nested call is known to rule out another one; facts: %s' % fmt_facts(st, 6))
    here, steps, all_guards, counters = {}, {}, None, set()
    R.run(B(), body)
    all_guards = [g for gs in here.values() for g in gs]
    R.run(B(), body)
    # a parameter that counts at every recursive call
    counters = set.intersection(*[c for cs in steps.values() for c in cs]) if steps else set()
    if counters:
        out.clear()
        R.run(B(), body)
    return [(s, o[0], o[1]) for s, o in sorted(out.items())], [s for s, o in out.items() if not o[0]]


# ------------------------------------------------------------------ the peer set
def oldval(v):
    """the value that mem::replace/take returned is the one that was there"""
    while v[0] == 'call' and last(v[1]) in ('replace', 'take', 'clone', 'copy_inner') and v[2] and ('mem::' in v[1] or last(v[1]) in ('clone', 'copy_inner')):
        v = v[2][0]
    return v


def plain(v):
    """a number without casts, conversions and replace wrappers"""
    d = 0
    while d < 30:
        d += 1
        w = oldval(uncast(v))
        if w[0] == 'call' and last(w[1]) in ('get',) and 'NonZero' in w[1]:
            w = w[2][0]
        if w[0] == 'field' and w[2] == ('f', 'Ok.0') and w[1][0] == 'call' and last(w[1][1]) in ('try_into', 'try_from'):
            w = w[1][2][0]
        if w == v:
            return v
        v = w
    return v


class SetRoles:
    """the parts of the peer set's state, found by their types"""

    def __init__(self, prog):
        self.ty = None
        for n, a in prog.adts.items():
            fs = a['variants'][0]['fields'] if a.get('local') and a['kind'] == 'struct' and a['variants'] else []
            m = [(f, t) for f, t in fs if t.startswith('std::collections::HashMap<') and 'NodeIdShort' in targs(t)[0]]
            v = [(f, t) for f, t in fs if t.startswith('std::vec::Vec<') and 'NodeIdShort' in t]
            if len(m) == 1 and len(v) == 1 and targs(m[0][1])[0] == targs(v[0][1])[0]:
                self.ty = n
                self.cache, self.index = m[0][0], v[0][0]
                self.elem = targs(v[0][1])[0]
                self.pos = targs(m[0][1])[1]
                nums = [f for f, t in fs if t == self.pos]
                cap = [f for f, t in fs if t.startswith('std::num::NonZero')]
                self.cap = cap[0] if cap else 'capacity'
                nums = [f for f in nums if f != self.cap]
                self.upper = nums[0] if len(nums) == 1 else 'upper'
                ver = [f for f, t in fs if t == 'u64']
                self.version = ver[0] if len(ver) == 1 else 'version'
                self.file = None
        for b in prog.bodies.values():
            if b.self_ty == self.ty and self.ty:
                self.file = b.file


@rule('U01', 'every change of the peer set keeps order, index, cursor and version in step under one exclusive borrow',
      'typestate of insertions and evictions per path, cursor arithmetic, difference analysis of the constructor loop, who-may-mutate analysis (MIR)',
      'The state is found by its types: a map from peer to position, a list of peers, a cursor, a capacity. A peer is put into the list only after the map was seen (in the same state, on the same '
      'path) not to hold it and then given its position; the position is the slot written, or the end of the list where no slot exists; the peer replaced is removed from the map and nothing else is; the cursor moves by one '
      'modulo the capacity; the version grows; true is returned exactly on those paths. The constructor adds only below the capacity and keeps its cursor equal to the number of peers (difference analysis on MIR). '
      'No other operation changes the list or the map; shared reference counts change only under an exclusive borrow.')
def u01(R):
    prog = R.prog
    S = SetRoles(prog)
    R.need('peer set state', S.ty)
    R.notes.append('roles: %s' % {k: v for k, v in S.__dict__.items()})
    bodies = [b for b in prog.bodies.values() if b.file == S.file and b.kind != 'promoted']
    R.bodies |= {b.id for b in bodies}
    mp = 'std::collections::HashMap<%s' % S.elem

    def kind(ty):
        t = (ty or '').lstrip('&').replace('mut ', '').strip()
        if t.startswith(mp) or 'collections::hash_map::' in t and S.elem in t:
            return 'cache'
        if t.startswith('std::vec::Vec<%s' % S.elem) or t == '[%s]' % S.elem:
            return 'index'
        return None

    def mutable(ty):
        return (ty or '').startswith('&mut ') or 'Entry<' in (ty or '') and 'hash_map' in (ty or '')
    # who mutates
    muts = {}
    for b in bodies:
        for p, r, i, t in body_calls(b):
            ty = (t[6] or [''])[0]
            if kind(ty) and mutable(ty) and last(p) not in ('deref_mut', 'iter_mut', 'as_mut', 'get_mut', 'index_mut', 'reserve', 'entry', 'first_mut', 'last_mut', 'get', 'key', 'as_mut_slice', 'next', 'drop'):
                muts.setdefault(b.id, set()).add((kind(ty), last(p)))
            elif last(p) in ('replace', 'swap', 'take') and 'mem::' in p and ty.startswith('&mut ') and ty.endswith(S.elem):
                muts.setdefault(b.id, set()).add(('index', 'slot'))
    R.floor('functions that change the set', len(muts), 1)
    known = {('cache', 'insert'), ('cache', 'remove'), ('cache', 'remove_entry'), ('cache', 'insert_entry'), ('cache', 'or_insert'), ('index', 'push'), ('index', 'slot')}
    for m, ops_ in sorted(muts.items()):
        b = prog.bodies[m]
        bad = ops_ - known
        R.ob('operations/%s' % b.name, not bad, 'the list or the map is changed by %s, which the rule cannot relate' % sorted(bad), '%s:%s' % (b.file, b.line))

    def slot_of(v):
        """position of the list element that a value is (or was)"""
        v = oldval(v)
        for x in walk(v):
            if x[0] == 'call' and last(x[1]) in ('get_mut', 'get', 'index', 'index_mut', 'get_unchecked', 'get_unchecked_mut') and len(x[2]) == 2 and 'HashMap' not in x[1] and 'hash_map' not in x[1]:
                return plain(x[2][1])
            if x[0] == 'field' and x[2][0] == 'idx':
                return plain(x[2][1])
        return None

    def keyof(e, v):
        """the key of an entry value"""
        out = set()
        for x in spread(e, v):
            for y in walk(x):
                if y[0] == 'call' and last(y[1]) == 'entry' and len(y[2]) == 2:
                    out.add(y[2][1])
                    break
                if y[0] == 'phi':
                    out |= keyof(e, y) if y != v and y != x else set()
                    break
        return out

    def has_version(loc):
        return loc[0] == 'field' and loc[2] == ('f', S.version)

    def run(T, body):
        what = body.name or body.id.split('::')[-2]

        class O(E.Observer):
            part_cap = 300

            def inline(self, e, b):
                return b.file == S.file and b.id != body.id

            def relevant(self, f):
                return body.id not in loops

            def learned(self, e, st, k, v):
                # what is known about keys in the map
                if k[0] == 'var' and v in ('Vacant', 'None'):
                    for x in spread(e, k[1]):
                        if x[0] == 'call' and last(x[1]) in ('entry', 'get', 'insert') and 'ash' in x[1] and len(x[2]) >= 2:
                            yield ('absent', nosites(x[2][1]), nosites(x[2][0]), slot_of(x[2][1]))
                if k[0] == 'call' and last(k[1]) == 'contains_key' and v is False:
                    yield ('absent', nosites(k[2][1]), nosites(k[2][0]), slot_of(k[2][1]))
                if body.id in loops:
                    alts = list(expand_phi(e, k)) if k[0] == 'phi' else [k]
                    alts = [(x[2], not v) if x[0] == 'un' and x[1] == 'Not' and isinstance(v, bool) else (x, v) for x in alts]
                    if alts and all(any(room(e, *r) for r in rels(*x)) for x in alts):
                        yield ('room',)
                    if k[0] == 'call' and last(k[1]) == 'is_full' and v is False:
                        yield ('room',)
                if k[0] == 'bin' and k[1] == 'Eq' and v is False:
                    # the map points to another position
                    for x in k[2:4]:
                        for y in walk(x):
                            if y[0] == 'call' and last(y[1]) in ('entry', 'get') and len(y[2]) == 2 and 'ash' in y[1]:
                                s = slot_of(y[2][1])
                                if s is not None:
                                    yield ('elsewhere', s)

            def place(self, e, ctx, st, x, pos, old, line, how):
                """a peer is put into the list; pos None: at the end"""
                w = src(e, ctx, line)
                T.count('peers put into the list')
                x = nosites(oldval(x))
                c = [m for m in st.marks if m[0] == 'cached' and m[1] == x]
                out = {m for m in st.marks if m not in c}
                if not c:
                    # it may still be entered into the map afterwards
                    if any(m[0] == 'placed' and m[1] == x for m in st.marks):
                        T.ob('recorded/%s' % what, False, 'a peer is put into the list twice', w)
                    out.add(('placed', x, pos))
                else:
                    T.ob('recorded/%s' % what, True, 'a peer is put into the list without having been entered into the map as a new one', w)
                if pos is not None:
                    T.ob('position/%s' % what, all(plain(m[2]) == pos or spread_has(e, m[2], pos) for m in c),
                         'the map says %s, the peer is put at %s' % ([short(m[2]) for m in c], short(pos)), w)
                    if old and ('gone', nosites(pos)) not in out and ('absent_slot', nosites(pos)) not in out:
                        out.add(('evict', nosites(pos)))
                else:
                    # at the end: the position is the length, or there is no such slot
                    for m in c:
                        p = plain(m[2])
                        ok = p[0] == 'call' and last(p[1]) == 'len' or any(
                            k[0] == 'var' and v == 'None' and any(y[0] == 'call' and last(y[1]) in ('get_mut', 'get') and len(y[2]) == 2 and (plain(y[2][1]) == p or spread_has(e, y[2][1], p)) for y in [k[1]] + list(spread(e, k[1])))
                            for k, v in st.facts.items()) or any(
                            op == '<=' and a[0] == 'call' and last(a[1]) == 'len' and plain(b) == p for k, v in st.facts.items() for op, a, b in rels(k, v))
                        if body.id not in loops:
                            T.ob('end/%s' % what, ok, 'a peer is appended although its position %s need not be the end of the list' % short(m[2]), w)
                        if body.id in loops:
                            lim = ('room',) in st.marks or mentions(x, lambda y: y[0] == 'call' and last(y[1]) == 'take')
                            T.ob('limit/%s' % what, lim, 'a peer is appended without the number of peers being below the capacity', w)
                    out.discard(('room',))
                return out

            def call(self, e, ctx, st, ev):
                a = ev.args
                ty = (ev.argtys or [''])[0] if ev.argtys else ''
                k = kind(ty)
                w = src(e, ctx, ev.line)
                if ev.name == 'clone' and ty.lstrip('&') == S.elem and mentions(a[0], lambda y: y[0] == 'call' and 'Rc' in y[1] and last(y[1]) == 'new'):
                    fresh.add((ctx.body.id, ev.line))
                if ev.p and 'mem::' in ev.p and ev.name in ('replace', 'swap') and len(a) == 2:
                    if ty.endswith(S.elem):
                        s = slot_of(a[0])
                        if s is not None:
                            return frozenset(self.place(e, ctx, st, a[1], s, True, ev.line, ev.name))
                    if a[0][0] == 'field' and a[0][2] == ('f', S.upper):
                        return frozenset(self.cursor(e, ctx, st, a[0], a[1], ev.line))
                    return
                if k == 'index' and ev.name == 'push':
                    return frozenset(self.place(e, ctx, st, a[1], None, False, ev.line, 'push'))
                if k == 'cache' and ev.name in ('insert', 'insert_entry', 'or_insert'):
                    T.count('entries into the map')
                    if len(a) == 3:
                        key, pos = {a[1]}, a[2]
                        base = nosites(a[0])
                        ok = all(any(m[0] == 'absent' and m[1] == nosites(x) and m[2] == base for m in st.marks) for x in key)
                    else:
                        key, pos = keyof(e, a[0]), a[1]
                        ok = 'Vacant' in ty
                    T.ob('new/%s' % what, ok and bool(key), 'a peer is entered into the map without being known to be absent from it', w)
                    early = {m for m in st.marks if m[0] == 'placed' and m[1] in {nosites(oldval(x)) for x in key}}
                    if early:
                        rest = st.marks - early
                        for m in early:
                            T.ob('recorded/%s' % what, True, 'a peer is put into the list without having been entered into the map as a new one', w)
                            if m[2] is not None:
                                T.ob('position/%s' % what, plain(pos) == m[2] or spread_has(e, pos, m[2]), 'the map says %s, the peer is put at %s' % (short(pos), short(m[2])), w)
                            elif body.id not in loops:
                                x = plain(pos)
                                l, off = linear(x)
                                T.ob('end/%s' % what, l[0] == 'call' and last(l[1]) == 'len' and off == -1 or x[0] == 'bin' and x[1] == 'Sub' and has_call(x[2], 'len') and x[3][:2] == ('const', 1),
                                     'a peer is appended although its position %s need not be the end of the list' % short(pos), w)
                        return rest | {('new',)} if body.id not in loops else rest
                    if body.id in loops:
                        return frozenset({m for m in st.marks if m[0] in ('room', 'placed')} | {('cached', nosites(oldval(x)), nosites(pos)) for x in key})
                    return st.marks | {('cached', nosites(oldval(x)), pos) for x in key} | {('new',)}
                if k == 'cache' and ev.name in ('remove', 'remove_entry'):
                    T.count('removals from the map')
                    ks = {a[1]} if len(a) == 2 else keyof(e, a[0])
                    ss = {slot_of(x) for x in ks}
                    ss = {nosites(x) for x in ss if x is not None}
                    T.ob('removed/%s' % what, len(ss) == len(ks) and bool(ks), 'a peer is removed from the map that is not the one of a list slot', w)
                    return frozenset({m for m in st.marks if not (m[0] == 'evict' and m[1] in ss)} | {('gone', x) for x in ss})

            def cursor(self, e, ctx, st, loc, val, line):
                w = src(e, ctx, line)
                T.count('cursor moves')
                base = nosites(loc)
                if body.id in loops:
                    return st.marks

                def step(v):
                    v = uncast(v)
                    if v[0] == 'phi':
                        ss = spread(e, v)
                        return bool(ss) and v not in ss and all(step(x) for x in ss)
                    r = None
                    if v[0] == 'call' and last(v[1]) == 'rem':
                        r = v[2]
                    elif v[0] == 'bin' and v[1] == 'Rem':
                        r = v[2:4]
                    if r:
                        b, off = linear(r[0])
                        return off == 1 and nosites(b) == base and capacity(r[1])
                    b, off = linear(v)
                    for op, x, y in all_rels(st):
                        bx, ox = linear(x)
                        by, oy = linear(y)
                        if nosites(bx) == base and ox == 1 and capacity(y):
                            if off == 1 and nosites(b) == base and op in ('<', '!='):
                                return True
                            if v[0] == 'const' and v[1] == 0 and op == '==':
                                return True
                        if nosites(by) == base and oy == 1 and capacity(x):
                            if v[0] == 'const' and v[1] == 0 and op in ('<=', '=='):
                                return True
                            if off == 1 and nosites(b) == base and op == '!=':
                                return True
                    return False
                T.ob('cursor/%s' % what, step(val), 'the cursor becomes %s, not the next position modulo the capacity' % short(val), w)
                return st.marks | {('moved',)}

            def write(self, e, ctx, st, loc, val, line):
                if loc[0] == 'field' and loc[2] == ('f', S.upper) and ctx.body.file == S.file:
                    return self.cursor(e, ctx, st, loc, val, line)
                if has_version(loc):
                    b, off = linear(val)
                    ok = nosites(b) == nosites(loc) and off > 0 or val[0] == 'call' and last(val[1]) == 'wrapping_add'
                    T.ob('version/%s' % what, ok, 'the version becomes %s' % short(val), src(e, ctx, line))
                    return st.marks | {('version',)}

            def exit(self, e, ctx, st, kind_, val):
                if kind_ != 'return':
                    return
                w = '%s:%s' % (body.file, body.line)
                new = ('new',) in st.marks
                if body.id in loops and val is not None:
                    if val[0] == 'agg':
                        u = dict(val[4]).get(S.upper)
                    else:
                        u = e.project(val, ('f', S.upper))
                    rs = all_rels(st)

                    def below(x, d=0):
                        if x == mk('const', 0) or x[0] == 'const' and not x[1]:
                            return True
                        if x[0] == 'call' and last(x[1]) == 'rem' and capacity(x[2][1]) or x[0] == 'bin' and x[1] == 'Rem' and capacity(x[3]):
                            return True
                        if any(op == '<' and a == x and capacity(c) or op == '!=' and x in (a, c) and capacity(c if a == x else a) for op, a, c in rs):
                            return True
                        return x[0] == 'phi' and d < 3 and spread(e, x) != [x] and all(y != x and below(y, d + 1) for y in spread(e, x))
                    T.ob('cursor/%s' % what, u is not None and below(u), 'the cursor of the new set is %s, which may be the capacity' % short(u), w)
                for m in st.marks:
                    if m[0] == 'placed':
                        T.ob('recorded/%s' % what, False, 'a peer is put into the list without being entered into the map as a new one', w)
                    if m[0] == 'cached' and body.id not in loops:
                        T.ob('slot/%s' % what, False, 'a peer is entered into the map but not put into the list', w)
                    if m[0] == 'evict' and ('gone', m[1]) not in st.marks and not any(
                            x[0] == 'absent' and x[3] is not None and nosites(x[3]) == m[1] or x[0] == 'elsewhere' and nosites(x[1]) == m[1] for x in st.marks):
                        T.ob('evicted/%s' % what, False, 'a peer is replaced in the list but stays in the map', w)
                if body.id not in loops and new:
                    T.ob('moves/%s' % what, ('moved',) in st.marks, 'a peer is added without the cursor moving', w)
                    T.ob('versioned/%s' % what, ('version',) in st.marks, 'a peer is added without the version changing', w)
                if body.id not in loops and not new and ('moved',) in st.marks:
                    T.ob('moves/%s' % what, False, 'the cursor moves without a peer being added', w)
                if ret_ty(body) == 'bool' and val is not None:
                    T.count('results')
                    for x in spread(e, val):
                        if x[0] == 'const':
                            T.ob('result/%s' % what, bool(x[1]) == new, 'returns %s on a path where the peer was %s' % (bool(x[1]), 'added' if new else 'not added'), w)

        T.run(O(), body)

    def capacity(v):
        v = plain(v)
        if v[0] == 'phi':
            return False
        return v[0] == 'field' and v[2] == ('f', S.cap) or v[0] == 'arg' and 'NonZero' in str(v) or has_call(v, 'new_unchecked', 'make_capacity') or \
            v[0] == 'arg' and v[2] == S.cap 

    def room(e, op, a, c):
        """a number of peers is below the capacity"""
        x = plain(a)
        return op == '<' and capacity(c) and (
            x[0] == 'const' or x[0] == 'call' and last(x[1]) == 'len' or S.upper in names(x) or
            x[0] == 'phi' and (S.upper in str(x[3]) or all(y[0] == 'const' or y[0] == 'call' and last(y[1]) == 'len' for y in spread(e, x))))

    # functions that fill a new list in a loop: the cursor is compared with the number of peers
    loops = {b.id: b for b in bodies if ret_ty(b) == S.ty and ('index', 'push') in muts.get(b.id, ())}
    fresh = set()
    roots = [prog.bodies[m] for m in sorted(muts)]
    # whatever passes the answer of an insertion on
    for b in bodies:
        if b.id not in muts and b.kind == 'fn' and ret_ty(b) == 'bool' and any(i in muts for p, r, i, t in body_calls(b)):
            roots.append(b)
    escalate(R, roots, run, depth=3, within=lambda c: c.file == S.file and ret_ty(c) != S.ty and S.ty in ''.join(l[0] for l in c.locals[1:c.argc + 1]))
    for b in loops.values():
        difference(R, S, b)
    R.floor('peers put into the list', R.counts.get('peers put into the list', 0), 1)
    R.floor('entries into the map', R.counts.get('entries into the map', 0), 1)
    R.floor('cursor moves', R.counts.get('cursor moves', 0), 1)
    # the capacity is not zero, reference counts are not touched under a shared borrow, the iterator keeps its lock
    def exclusive(b):
        ls = [l[0] for l in b.locals]
        if any('RwLockWriteGuard<' in l and S.ty in l for l in ls) or any(re.match(r"&('\w+ )?mut .*%s" % re.escape(S.ty), l) for l in ls[1:b.argc + 1]) or ret_ty(b) == S.ty:
            return not any('RwLockReadGuard<' in l for l in ls)
        up = b.id.rsplit('::', 1)[0]
        return b.kind == 'closure' and up in prog.bodies and exclusive(prog.bodies[up])
    for b in bodies:
        for p, r, i, t in body_calls(b):
            ty = (t[6] or [''])[0].lstrip('&')
            if last(p) == 'clone' and (ty == S.elem or ty.startswith('std::rc::Rc<') and 'T' != targs(ty)[0]):
                R.count('reference count changes')
                if (b.id, t[-1]) not in fresh and b.id not in muts:
                    run(Report(R.pid, R.prog, R.info, R.tier), b)
                R.ob('shared/%s' % b.name, (b.id, t[-1]) in fresh or exclusive(b), 'a reference count of the list is changed under a shared borrow, other threads may do the same', '%s:%s' % (b.file, t[-1]))
            if last(p) in ('new_unchecked',) and 'NonZero' in p:
                nonzero(R, b)


def spread_has(e, v, pos):
    return any(plain(x) == pos for x in spread(e, v)) or any(plain(x) == plain(v) for x in spread(e, pos))


def aggs(b):
    for blk in b.blocks:
        for s in blk['s']:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt':
                yield s[2][1:]


def nonzero(R, b):
    class N(E.Observer):
        def inline(self, e, x):
            return False

        def relevant(self, f):
            return True

        def call(self, e, ctx, st, ev):
            if ev.name == 'new_unchecked' and 'NonZero' in ev.p:
                v = ev.args[0]
                ok = v[0] == 'call' and last(v[1]) in ('max', 'clamp') and any(x[0] == 'const' and isinstance(x[1], int) and x[1] >= 1 for x in v[2]) or v[0] == 'const' and v[1] >= 1 or \
                    any(op == '!=' and v in (a, c) and any(x[0] == 'const' and x[1] == 0 for x in (a, c)) or op == '<' and a[0] == 'const' and c == v or op == '<=' and c == v and a[0] == 'const' and a[1] >= 1 for op, a, c in all_rels(st)) or \
                    any(k[0] == 'isnot' and k[1] == v and x == 0 for k, x in st.facts.items())
                R.ob('capacity/%s' % b.name, ok, 'the capacity may be zero: %s' % short(v), src(e, ctx, ev.line))
    R.run(N(), b)


def difference(R, S, b):
    """cursor minus number of peers, over the constructor: zero whenever a position is taken"""
    key = 'count/%s' % b.name
    w = '%s:%s' % (b.file, b.line)

    def pl(o):
        return str(o.get('m') or o.get('c')) if isinstance(o, dict) and ('m' in o or 'c' in o) else None
    TOP = None
    inn = {0: (0, {}, 0)}              # (exact count or None, {place: offset from the count}, insertions minus appends)
    work = [0]
    bad = []
    seen_push = [0]

    def join(a, c):
        if a is None:
            return c
        n = a[0] if a[0] == c[0] else None
        d = {k: v for k, v in a[1].items() if c[1].get(k, 'x') == v}
        return (n, d, a[2] if a[2] == c[2] else 'x')

    def val(o, n, d):
        if isinstance(o, dict) and 'k' in o:
            v = o['k'].get('v') if isinstance(o['k'], dict) else None
            if v is None:
                v = o['k'].get('int') if isinstance(o['k'], dict) else None
            try:
                v = int(v)
            except (TypeError, ValueError):
                return TOP
            return v - n if n is not None else TOP
        return d.get(pl(o)) if pl(o) else TOP

    def const(o):
        if isinstance(o, dict) and isinstance(o.get('k'), dict):
            for f in ('v', 'int', 'val', 'bits'):
                if f in o['k']:
                    try:
                        return int(o['k'][f])
                    except (TypeError, ValueError):
                        return None
        return None
    n_it = 0
    while work and n_it < 5000:
        n_it += 1
        x = work.pop()
        n, d, pend = inn[x]
        d = dict(d)
        blk = b.blocks[x]
        for s in blk['s']:
            if s[0] != '=':
                continue
            dst = str(s[1])
            rv = s[2]
            v = TOP
            if rv[0] == 'use':
                v = val(rv[1], n, d)
                # a whole value that carries the cursor
                o = pl(rv[1])
                if o:
                    pre = o[:-1]
                    for k2 in list(d):
                        if k2.startswith(pre + ',') and k2 != o:
                            d[dst[:-1] + k2[len(pre):]] = d[k2]
            elif rv[0] in ('bin', 'cbin') or rv[0] == 'binop':
                op, p, q = rv[1], rv[2], rv[3]
                if op.startswith('Add') or op.startswith('Sub'):
                    c = const(q)
                    a = val(p, n, d)
                    if a is not TOP and c is not None:
                        v = a + (c if op.startswith('Add') else -c)
                    if 'Overflow' in op or op.endswith('Checked') or rv[0] == 'cbin':
                        d.pop(dst, None)
                        d[str(s[1] + [['f', 0, '0', '(tuple)']])] = v
                        for k2 in [k2 for k2 in d if k2.startswith(dst[:-1] + ',') and k2 != str(s[1] + [['f', 0, '0', '(tuple)']])]:
                            d.pop(k2)
                        if v is TOP:
                            d.pop(str(s[1] + [['f', 0, '0', '(tuple)']]), None)
                        continue
            elif rv[0] == 'cast':
                v = val(rv[2] if len(rv) > 2 and isinstance(rv[2], dict) else rv[1], n, d)
            d.pop(dst, None)
            if v is not TOP:
                d[dst] = v
        t = blk['t']
        nxt = []
        if t[0] == 'call':
            f = (t[1].get('k') or {}).get('fn') or {}
            nm = last(f.get('p', ''))
            ty = (t[6] or [''])[0]
            dd = dict(d)
            if nm == 'push' and S.elem in ty:
                seen_push[0] += 1
                n2 = n + 1 if n is not None else None
                dd = {k: v - 1 for k, v in dd.items()}
                p2 = pend - 1 if isinstance(pend, int) else pend
                nxt.append((t[4], (n2, dd, p2)))
            else:
                if nm in ('insert', 'or_insert') and ('hash_map' in ty or 'HashMap' in ty) and S.elem in ty:
                    o = t[2][-1]
                    a = val(o, n, d)
                    want = 0 if pend == 0 else -1 if pend == -1 else None
                    if a is TOP or a != want:
                        bad.append(t[-1])
                    pend = pend + 1 if isinstance(pend, int) else pend
                dd.pop(str(t[3]), None)
                if nm == 'len' and S.elem in ty:
                    dd[str(t[3])] = 0
                # a struct built by a helper starts with a cursor of zero
                if (t[7] or '') == S.ty and f.get('id') and zero_cursor(R, S, f['id']):
                    dd[str(t[3] + [['f', idx_of(R, S), S.upper, S.ty]])] = 0 - n if n is not None else TOP
                    if n is None:
                        dd.pop(str(t[3] + [['f', idx_of(R, S), S.upper, S.ty]]))
                nxt.append((t[4], (n, dd, pend)))
        elif t[0] == 'goto':
            nxt.append((t[1], (n, d, pend)))
        elif t[0] == 'sw':
            nxt += [(y, (n, d, pend)) for _, y in t[2]] + [(t[3], (n, d, pend))]
        elif t[0] == 'drop':
            nxt.append((t[2], (n, d, pend)))
        elif t[0] == 'assert':
            nxt.append((t[4], (n, d, pend)))
        elif t[0] == 'ret':
            if pend != 0:
                bad.append(b.line)
        for y, s2 in nxt:
            if y is None or b.blocks[y].get('cl'):
                continue
            o = inn.get(y)
            j = join(o, s2) if o is not None else s2
            if j != o:
                inn[y] = j
                work.append(y)
    R.count('appends followed in constructors', seen_push[0] and 1)
    R.ob(key, not bad and seen_push[0] > 0 and n_it < 5000, 'a position is taken that is not the number of peers added so far (or a peer is added without one)', '%s:%s' % (b.file, bad[0] if bad else b.line))


def idx_of(R, S):
    return [f for f, t in R.prog.adts[S.ty]['variants'][0]['fields']].index(S.upper)


def zero_cursor(R, S, fid):
    ok = []

    class Z(E.Observer):
        def inline(self, e, x):
            return False

        def exit(self, e, ctx, st, kind, val):
            if kind == 'return':
                ok.append(val is not None and val[0] == 'agg' and dict(val[4]).get(S.upper, ('x', 0))[:2] == ('const', 0))
    E.run(R.prog, Z(), R.prog.bodies[fid])
    return bool(ok) and all(ok)
