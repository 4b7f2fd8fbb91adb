"""rules about panics and memory: C02, U02"""
import re
import engine as E
from engine import mk, walk, last, short
from lib import *  # noqa
from bounds import Bounds, width
from rules_adnl import nosites, walk_phi
from rules_cross import LockGraph, Calls, DECODE, strip_refs

PANICS = {'unwrap', 'expect', 'unwrap_err', 'expect_err'}
RANGED = {'index', 'index_mut'}
SLICE = re.compile(r"^(&('\w+ )?(mut )?)*(\[|std::vec::Vec<|smallvec::SmallVec<|str$|std::string::String$|std::collections::VecDeque<)")


def scope(prog):
    """everything that runs on what was received: from the receiver, and wherever something is decoded"""
    C = Calls(prog, LockGraph(prog))
    return C


def slicey(ty):
    return bool(SLICE.match(ty or ''))


class Sites(E.Observer):
    """places that may panic, with what is known there; site(kind, ok, what, line, values)"""
    part_cap = 60
    maydepth = 3
    versions = True
    keeps = frozenset(Bounds.KEEPS)

    def __init__(self, R, root, files=None, inl=None):
        self.R, self.root, self.inl = R, root, inl
        self.least = {}

    def inline(self, e, b):
        return self.inl(b) if self.inl else b.file.endswith('packet_view.rs')

    def relevant(self, f):
        return False

    def site(self, ctx, st, kind, ok, what, line, vals=()):
        raise NotImplementedError

    def B(self, e, ctx, st, ev=None):
        b = Bounds(e, st, ctx=ctx, extra=self.known(e, ctx, st))
        if ev is not None:
            for a, t in zip(ev.args, ev.argtys or ()):
                b.hint.setdefault(a, t)
        return b

    def known(self, e, ctx, st):
        return [(mk('const', n), v, 0) for v, n in self.least.items()]

    def learned(self, e, st, k, v):
        return ()

    def asserted(self, e, ctx, st, msg, ops, line):
        k = msg[0]
        B = self.B(e, ctx, st)
        if k == 'bounds':
            n, i = ops
            self.site(ctx, st, 'index', B.le(i, n, 1), 'index %s into %s elements' % (short(i), short(n)), line, ops)
        elif k in ('div0', 'rem0'):
            x = self.divisor(ctx, msg, st, e)
            x = x if x is not None else ops[0]
            self.site(ctx, st, 'zero', B.le(mk('const', 1), x), 'division by %s' % short(x), line, (x,))
        elif k == 'overflow':
            self.over(e, ctx, st, B, msg[1], ops, line)

    def divisor(self, ctx, msg, st, e):
        """the assertion names the dividend, the condition compares the divisor with zero"""
        c = e.cond
        if c[0] == 'un' and c[1] == 'Not':
            c = c[2]
        if c[0] == 'bin' and c[1] == 'Eq':
            for x, y in ((c[2], c[3]), (c[3], c[2])):
                if y[0] == 'const' and y[1] == 0:
                    return x
        if c[0] == 'const':
            return mk('const', 1) if not c[1] else mk('const', 0)
        return None

    def over(self, e, ctx, st, B, op, ops, line):
        pass

    def call(self, e, ctx, st, ev):
        a = ev.args
        tys = ev.argtys or ['']
        B = None
        if ev.name in RANGED and len(a) == 2 and slicey(tys[0]):
            B = self.B(e, ctx, st, ev)
            if 'Range' in (tys[1] if len(tys) > 1 else ''):
                r = B.range(a[0], a[1])
                ok = r is not None and B.le(r[0], r[1]) and (r[1] == B.len(a[0]) or B.le(r[1], B.len(a[0])))
                self.site(ctx, st, 'range', ok, 'range %s of %s' % (' .. '.join(short(x) for x in r) if r else short(a[1]), short(a[0])), ev.line, (a[0],) + (r or (a[1],)))
            elif tys[1] == 'usize':
                self.site(ctx, st, 'index', B.le(a[1], B.len(a[0]), 1), 'index %s into %s' % (short(a[1]), short(a[0])), ev.line, a)
        elif ev.name in ('copy_from_slice', 'clone_from_slice') and len(a) == 2:
            B = self.B(e, ctx, st, ev)
            x, y = B.len(a[0]), B.len(a[1])
            self.site(ctx, st, 'lengths', B.le(x, y) and B.le(y, x), 'copy of %s bytes into %s' % (short(y), short(x)), ev.line, a)
        elif ev.name in ('split_at', 'split_at_mut', 'split_off', 'swap_remove', 'advance') and len(a) >= 2 and slicey(tys[0]) or ev.name in ('remove', 'insert', 'truncate_', 'drain') and len(a) >= 2 and slicey(tys[0]):
            B = self.B(e, ctx, st, ev)
            n = B.len(a[0])
            if ev.name == 'drain':
                r = B.range(a[0], a[1])
                ok = r is not None and B.le(r[0], r[1]) and (r[1] == n or B.le(r[1], n))
            else:
                ok = B.le(a[1], n, 1 if ev.name in ('remove', 'swap_remove') else 0)
            self.site(ctx, st, 'index', ok, '%s at %s of %s' % (ev.name, short(a[1]), short(a[0])), ev.line, a)
        elif ev.name == 'copy_within' and len(a) == 3:
            B = self.B(e, ctx, st, ev)
            r = B.range(a[0], a[1])
            n = B.len(a[0])
            ok = r is not None and B.le(r[0], r[1]) and B.le(r[1], n) and B.le(mk('bin', 'Sub', mk('bin', 'Add', a[2], r[1]), r[0]), n)
            self.site(ctx, st, 'range', ok, 'copy of %s to %s' % (short(a[1]), short(a[2])), ev.line, a)
        elif ev.name in ('chunks', 'chunks_exact', 'windows', 'step_by', 'chunks_mut', 'chunks_exact_mut', 'rchunks') and len(a) == 2:
            B = self.B(e, ctx, st, ev)
            self.site(ctx, st, 'zero', B.le(mk('const', 1), a[1]), '%s of %s' % (ev.name, short(a[1])), ev.line, a)
        elif ev.name in PANICS and ev.p and re.match(r'(std|core)::(result|option)::', ev.p):
            self.unwrap(e, ctx, st, ev)
        elif ev.name in ('div', 'rem', 'div_assign', 'rem_assign') and len(a) == 2 and 'ops::' in (ev.p or '') and 'NonZero' not in (tys[1] if len(tys) > 1 else ''):
            B = self.B(e, ctx, st, ev)
            self.site(ctx, st, 'zero', B.le(mk('const', 1), a[1]), 'division by %s' % short(a[1]), ev.line, a)
    def unwrap(self, e, ctx, st, ev):
        v = ev.args[0]
        t = ev.argtys[0]
        # conversion of a slice into an array of the same length
        src_ = v[2][0] if v[0] == 'call' and last(v[1]) in ('try_into', 'try_from') and v[2] else None
        m = re.search(r'; (\d+)\]', t)
        good = 'Err' if ev.name.endswith('_err') else ('Some' if t.startswith('std::option') else 'Ok')
        ok = st.facts.get(mk('var', v)) == good
        if not ok and v[0] == 'agg' and v[3] == good:
            ok = True
        if not ok and src_ is not None and m and 'TryFromSliceError' in t:
            B = self.B(e, ctx, st, ev)
            n = mk('const', int(m.group(1)))
            s = B.len(src_)
            ok = B.le(n, s) and B.le(s, n)
            self.site(ctx, st, 'unwrap', ok, 'conversion of %s bytes into [_; %s]' % (short(s), m.group(1)), ev.line, (v,))
            return
        if not ok:
            ok = e.known_variant(st, v) == good
        self.site(ctx, st, 'unwrap', ok, '%s of %s' % (ev.name, short(v)), ev.line, (v,))

    def panic(self, e, ctx, st, ev, line):
        n = getattr(ev, 'name', '') or ''
        if n in PANICS:
            return
        self.site(ctx, st, 'panic', False, 'panic (%s)' % n, line, ())


# ------------------------------------------------------------------------------------------------- climbing
class Climb:
    """a site has to be safe with nothing known about the arguments of its function, or else in every function that
    calls it (seen together with the caller), a few levels up"""

    def __init__(self, R, observer, small=40, depth=3):
        self.R, self.observer, self.small, self.depth = R, observer, small, depth
        self.memo = {}
        self.parents = {}
        for b in R.prog.bodies.values():
            for c in R.prog.children(b.id):
                self.parents.setdefault(c.id, set()).add(b.id)

    def run(self, b, force=frozenset(), small=None):
        small = small or self.small
        k = (b.id, force, small)
        if k not in self.memo:
            o = self.observer(self.R, b, force)
            o.sites = {}
            o.inl = lambda x: x.id != b.id and (x.id in force or x.kind in ('fn', 'closure') and len(x.blocks) < small or x.file.endswith('packet_view.rs'))
            e = self.R.run(o, b)
            o.inlined = set(e.seen_bodies) if e is not None else set()
            self.memo[k] = o
        return self.memo[k]

    def up(self, b):
        if b.kind in ('closure', 'coroutine') and self.parents.get(b.id):
            ps = self.parents[b.id]
            if b.kind == 'coroutine':
                # the future is made by its function: its callers run it
                qs = set()
                for p in ps:
                    q = self.R.prog.bodies[p]
                    qs |= set(callers(self.R.prog, p)) if q.kind == 'fn' else {p}
                return qs
            return ps
        return callers(self.R.prog, b.id)

    def boundary(self, b):
        """a function that is handed a packet by another part of the code looks at the packet's length itself"""
        if b.kind != 'fn' or b.file.endswith('packet_view.rs') or not any('PacketView' in l[0] for l in b.locals[1:b.argc + 1]):
            return False
        return any(c in self.R.prog.bodies and self.R.prog.bodies[c].file != b.file for c in callers(self.R.prog, b.id))

    def check(self, b, only=None):
        """[(site, what)] that nothing makes safe"""
        o = self.run(b)
        bad = []
        for k, (ok, what, where) in sorted(o.sites.items()):
            if k[0] != b.id or only and not only(k):
                continue
            if not ok:
                # longer helpers are looked into as well
                o2 = self.run(b, small=4 * self.small).sites.get(k)
                ok = o2 is not None and o2[0]
            good = ok or self.callers_ok(k, b, frozenset({b.id}), self.depth)
            yield k, good, what, where, ok

    def callers_ok(self, k, b, force, depth):
        if not depth or self.boundary(b):
            return False
        ups = {c for c in self.up(b) if c in self.R.prog.bodies and c not in force}
        if not ups:
            return False
        for c in sorted(ups):
            cb = self.R.prog.bodies[c]
            for small in (self.small, 2 * self.small):
                o = self.run(cb, force, small)
                if b.id not in o.inlined:
                    return False
                s = o.sites.get(k)
                good = s is None or s[0]
                if good:
                    break
            if not good and not self.callers_ok(k, cb, force | {c}, depth - 1):
                return False
        return True


class Kept(Sites):
    def __init__(self, R, root, force):
        Sites.__init__(self, R, root)
        self.sites = {}

    def learned(self, e, st, k, v):
        # paths that differ in an optional argument are kept apart
        if k[0] == 'var' and not any(x[0] in ('call', 'phi', 'mut') for x in walk(k[1])):
            return (('v', 'alt:%s' % v, k[1]),)
        return ()

    def site(self, ctx, st, kind, ok, what, line, vals=()):
        k = (ctx.body.id, line, kind)
        o = self.sites.get(k)
        if o is None:
            self.sites[k] = [bool(ok), what, '%s:%s' % (ctx.body.file, line)]
        elif o[0] and not ok:
            o[0], o[1] = False, what


# ------------------------------------------------------------------------------------------------- U02
RAW_SLICE = {'from_raw_parts', 'from_raw_parts_mut'}
RAW_COPY = {'copy', 'copy_nonoverlapping', 'copy_to', 'copy_from', 'copy_to_nonoverlapping', 'copy_from_nonoverlapping'}
OTHER_RAW = {'get_unchecked', 'get_unchecked_mut', 'transmute', 'transmute_copy', 'read_unaligned', 'write_unaligned', 'read_volatile', 'write_volatile',
             'slice_unchecked', 'split_at_unchecked', 'from_raw', 'unreachable_unchecked', 'from_str_unchecked', 'write_bytes', 'swap_nonoverlapping', 'unchecked_sub', 'unchecked_add'}


def pointer(v):
    """(memory, offset) a raw pointer was made from"""
    off = mk('const', 0)
    while True:
        if v[0] == 'cast':
            v = v[2]
        elif v[0] == 'call' and last(v[1]) in ('add', 'offset', 'wrapping_add', 'byte_add') and len(v[2]) == 2:
            off = mk('bin', 'Add', off, v[2][1])
            v = v[2][0]
        elif v[0] == 'call' and last(v[1]) in ('cast', 'cast_mut', 'cast_const') and v[2]:
            v = v[2][0]
        elif v[0] == 'call' and last(v[1]) in ('as_ptr', 'as_mut_ptr') and v[2]:
            v = v[2][0]
        else:
            return v, off


def pointee(prog, ty):
    """size in bytes of what a raw pointer points to, for plain byte types"""
    t = re.sub(r'^\*(const|mut) ', '', ty)
    for _ in range(4):
        m = re.match(r'^\[u8; (\d+)\]$', t)
        if m:
            return int(m.group(1))
        if t in ('u8', 'i8'):
            return 1
        a = prog.adts.get(re.sub(r'<.*', '', t))
        if not a or len(a['variants']) != 1 or len(a['variants'][0]['fields']) != 1:
            return None
        t = a['variants'][0]['fields'][0][1]
    return None


class Raw(Kept):
    """operations on memory that the compiler does not check"""

    def asserted(self, e, ctx, st, msg, ops, line):
        pass

    def panic(self, e, ctx, st, ev, line):
        pass

    def call(self, e, ctx, st, ev):
        a, n = ev.args, ev.name
        lib_ = not any(ev.id == b for b in e.prog.bodies)
        if n in RAW_SLICE and len(a) == 2 and 'slice' in ev.p:
            B = self.B(e, ctx, st, ev)
            x, off = pointer(a[0])
            ok = False
            if x is not None:
                size = self.whole(B, x, a[1]) if n == 'from_raw_parts_mut' and 'u8' in (ev.dty or '') else B.len(x)
                ok = B.nowrap(a[1]) and B.nowrap(off) and B.le(mk('bin', 'Add', off, a[1]), size)
            self.site(ctx, st, 'slice', ok, 'a slice of %s bytes is made %s' % (short(a[1]), 'from byte %s of %s' % (short(off), short(x)) if x is not None else 'from %s' % short(a[0])), ev.line, a)
        elif n in RAW_COPY and len(a) == 3 and ('ptr' in ev.p or 'intrinsics' in ev.p):
            B = self.B(e, ctx, st, ev)
            for w, p in (('read from', a[0]), ('written to', a[1])):
                x, off = pointer(p)
                ok = x is not None and B.nowrap(off) and B.nowrap(a[2]) and B.le(mk('bin', 'Add', off, a[2]), B.len(x))
                self.site(ctx, st, 'copy ' + w[:4], ok, '%s bytes %s byte %s of %s' % (short(a[2]), w, short(off), short(x) if x is not None else short(p)), ev.line, a)
        elif n == 'set_len' and len(a) == 2 and 'Vec' in ev.p:
            B = self.B(e, ctx, st, ev)
            ok = B.nowrap(a[1]) and B.le(a[1], B.len(a[0])) or self.filled(e, a[0], a[1])
            self.site(ctx, st, 'length', ok, 'the length of %s becomes %s' % (short(a[0]), short(a[1])), ev.line, a)
        elif n in ('capacity', 'as_ptr', 'as_mut_ptr') and a:
            # (keeps states apart that hold different buffers)
            return frozenset(m for m in st.marks if not (m[0] == 'v' and m[1] == n)) | {('v', n, a[0])}
        elif n == 'unwrap_unchecked':
            ok = e.known_variant(st, a[0]) in ('Some', 'Ok') or self.always_some(e, ctx, a[0])
            self.site(ctx, st, 'unwrap', ok, '%s is taken to be present' % short(a[0]), ev.line, a)
        elif n == 'new_unchecked' and len(a) == 1 and 'NonZero' in ev.p + (ev.dty or ''):
            B = self.B(e, ctx, st, ev)
            self.site(ctx, st, 'nonzero', B.le(mk('const', 1), a[0]), '%s is taken to be nonzero' % short(a[0]), ev.line, a)
        elif n == 'encode_to_slice' and 'hex' in ev.p and len(a) == 2:
            keep = frozenset(m for m in st.marks if not (m[0] == 'v' and m[1] == 'hex' and m[2] == a[1]))
            return keep | {('v', 'hex', a[1])} if self.exact(e, ctx, st, ev, a[1], a[0]) else keep
        elif n == 'from_utf8_unchecked':
            x = a[0]
            ok = any(m[0] == 'v' and m[1] == 'hex' and m[2] == x for m in st.marks)
            self.site(ctx, st, 'utf8', ok, '%s is taken to be text' % short(x), ev.line, a)
        elif n in ('get_unchecked', 'get_unchecked_mut') and len(a) == 2:
            B = self.B(e, ctx, st, ev)
            r = B.range(a[0], a[1])
            ok = B.le(r[0], r[1]) and B.le(r[1], B.len(a[0])) if r else B.nowrap(a[1]) and B.le(a[1], B.len(a[0]), 1)
            self.site(ctx, st, 'unchecked', ok, 'element %s of %s' % (short(a[1]), short(a[0])), ev.line, a)
        elif n in OTHER_RAW and lib_ and re.match(r'(std|core|alloc)::', ev.p) and not re.match(r'(std|core|alloc)::(sync|rc|boxed)', ev.p):
            self.site(ctx, st, 'unchecked', False, '%s is not a kind of unchecked access this rule can decide' % short(ev.p), ev.line, a)

    def whole(self, B, x, n):
        """how many bytes of x may be addressed: its capacity only for a slice that is asked for by capacity"""
        xs = set(spread(B.e, x)) | {x}
        if all(m[0] == 'call' and last(m[1]) == 'capacity' and 'Vec' in m[1] and m[2] and m[2][0] in xs for m in spread(B.e, n)):
            return n
        return B.len(x)

    def filled(self, e, x, n):
        """n is what a receiving call reports to have written into the memory of x"""
        def one(n):
            v = n
            while v[0] == 'field':
                v = v[1]
            if v == n or v[0] in ('bin', 'phi', 'cast', 'un', 'agg') or v[0] == 'call' and last(v[1]) in ('max', 'min', 'unwrap_or', 'saturating_add'):
                return False
            for c in walk_phi(e, v):
                if c[0] == 'call' and last(c[1]) in ('recv_from', 'recv', 'read', 'try_recv_from') and len(c[2]) == 2:
                    for w in walk_phi(e, c[2][1]):
                        if w[0] == 'call' and last(w[1]) in RAW_SLICE:
                            y, off = pointer(w[2][0])
                            if off == mk('const', 0) and origin(e, x) & origin(e, y):
                                return True
            return False
        return all(one(m) for m in spread(e, n))

    def exact(self, e, ctx, st, ev, x, s):
        """all of the array is written: two digits for each byte"""
        B = self.B(e, ctx, st, ev)
        return B.le(B.len(x), mk('bin', 'Mul', B.len(s), mk('const', 2)))

    def always_some(self, e, ctx, v):
        """the field is set when the value is made and emptied only here, in a method that consumes the value"""
        w = v
        if w[0] == 'call' and last(w[1]) == 'take' and w[2]:
            w = w[2][0]
        if w[0] == 'call' and last(w[1]) == 'replace' and w[2]:
            w = w[2][0]
        while w[0] in ('ref', 'deref') and isinstance(w[1], tuple):
            w = w[1]
        if w[0] != 'field':
            return False
        return field_always(self.R, w[2][1], ctx.body)

    def rawderef(self, e, ctx, st, v, ty):
        x, off = pointer(v)
        B = self.B(e, ctx, st)
        if off == mk('const', 0) and not slicey(B.ty_of(x)):
            return                            # made from a reference to one value
        n = pointee(e.prog, ty)
        ok = n is not None and B.nowrap(off) and B.le(mk('bin', 'Add', off, mk('const', n)), B.len(x))
        self.site(ctx, st, 'pointer', ok, 'access through a pointer to %s bytes at byte %s of %s' % (n, short(off), short(x)), getattr(e, 'line', 0), ())


def origin(e, x):
    """the calls that memory was allocated or obtained by"""
    out = set()
    for v in walk_phi(e, x):
        if v[0] in ('call', 'mut') and last(v[1]) in ('with_capacity', 'get_or_insert_with', 'get_or_insert', 'insert', 'from_elem'):
            out.add(v[3])
    return out


def places(x):
    """every place (list starting with a local) mentioned in a statement or terminator"""
    if isinstance(x, dict):
        for k in ('c', 'm'):
            if k in x:
                yield x[k]
        return
    if isinstance(x, list):
        if x and isinstance(x[0], int) and all(isinstance(y, list) for y in x[1:]):
            yield x
        for y in x:
            if isinstance(y, (list, dict)):
                yield from places(y)


def made_with(R, ty, field):
    """[(value, known variant)] the field has whenever a value of the struct is made"""
    made = []
    for b in R.prog.bodies.values():
        if not any(s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][2] == ty for blk in b.blocks for s in blk['s']):
            continue

        class Made(E.Observer):
            def inline(self, e, x):
                return x.file == b.file and x.kind == 'fn'

            def exit(self, e, ctx, st, kind, val=None):
                for v in walk(val) if val is not None else ():
                    if v[0] == 'agg' and v[2] == ty:
                        f = dict(v[4]).get(field)
                        made.append((f, e.known_variant(st, f) if f is not None else None))
        R.run(Made(), b)
    return made


def cyclic(R, v, n):
    """the field v starts at zero and is only ever set to a remainder by n"""
    if v[0] != 'field' or n is None:
        return False
    f = v[2][1]
    tys = [t for t, a in R.prog.adts.items() if a.get('kind') == 'struct' and a.get('local') and any(x == f for x, _ in a['variants'][0]['fields'])]
    writes = []
    for b in R.prog.bodies.values():
        if not any(s[0] == '=' and any(el[0] == 'f' and el[2] == f for el in s[1][1:]) for blk in b.blocks for s in blk['s']):
            continue

        class W(E.Observer):
            def inline(self, e, x):
                return x.file == b.file and x.kind == 'fn'

            def write(self, e, ctx, st, loc, val, line):
                if loc[0] == 'field' and loc[2] == ('f', f):
                    writes.extend(spread(e, val))
        R.run(W(), b)
    def size(x):
        return nosites(x[2][0]) if x[0] == 'call' and last(x[1]) == 'len' and x[2] else nosites(x)
    m = size(n)
    zero = mk('const', 0)
    return len(tys) == 1 and bool(writes) and all(x[:2] == zero[:2] or x[0] == 'bin' and x[1] == 'Rem' and size(x[3]) == m for x in writes) and \
        all(x is not None and x[:2] == zero[:2] for x, _ in made_with(R, tys[0], f))


def field_always(R, field, body):
    """every value of the struct is made with the field set; only this method, which consumes the value, empties it"""
    prog = R.prog
    up = prog.bodies.get(body.id.rsplit('::', 1)[0]) if body.kind == 'coroutine' else body
    if up is None or up.argc < 1:
        return False
    ty = up.locals[1][0]
    if ty.startswith('&') or ty not in prog.adts:
        return False
    made = made_with(R, ty, field)
    for b in prog.bodies.values():
        if b.id != body.id:
            # does anything else write the field, or lend it out for writing?
            for blk in b.blocks:
                if blk.get('cl'):
                    continue
                for s in blk['s']:
                    if s[0] != '=':
                        continue
                    if any(el[0] == 'f' and el[2] == field for el in s[1][1:]) and owner_is(b, s[1], ty, field):
                        return False
                    if s[2][0] in ('ref', 'rawptr') and 'mut' in str(s[2][1]).lower() and any(any(el[0] == 'f' and el[2] == field for el in p[1:]) and owner_is(b, p, ty, field) for p in places(s[2])):
                        return False
    return bool(made) and all(x is not None and (x[0] == 'agg' and x[3] == 'Some' or k == 'Some') for x, k in made)


def owner_is(b, place, ty, field):
    t = b.locals[place[0]][0]
    return strip_refs(t) == ty or ty in t


@rule('U02', 'every unchecked access to memory lies inside what its owner holds',
      'abstract interpretation of MIR: linear bounds from the branch outcomes of the path at every unchecked memory access, climbing to the callers',
      'Slices made from raw parts, raw copies, Vec::set_len, accesses through pointers derived from byte buffers, and unchecked unwraps are found in the whole library (except the socket options and the random generator). At each of them the offset plus the length must be shown to be at most the length of the memory on that path, from what was compared there; where the function itself cannot show it, every caller must, with the values it passes; a function that takes a packet view from another file must show it itself. Trusted: recv_from reports at most the length of the buffer it was given; tl_proto::BytesMeta lies inside what it was read from; hex::encode_to_slice writes two digits a byte. Aliasing rules (a shared slice written through a raw pointer) are not checked.')
def u02(R):
    """slices made from raw parts, raw copies, Vec::set_len, accesses through pointers into byte memory and the unchecked
    unwraps: each lies inside its memory with nothing known about the arguments, or else in every caller"""
    names = RAW_SLICE | RAW_COPY | OTHER_RAW | {'set_len', 'unwrap_unchecked', 'new_unchecked', 'from_utf8_unchecked'}
    C = Climb(R, Raw)
    n = 0
    kinds = {}
    for b in sorted(R.prog.bodies.values(), key=lambda b: (b.file, b.line)):
        if b.kind == 'promoted' or not (any(last(p) in names and re.match('(std|core|alloc)::', p) for p, r, i, t in body_calls(b)) or
                                        any(l[0].startswith('*') for l in b.locals)):
            continue
        if 'socket.rs' in b.file or 'fast_rand' in b.file:
            continue
        for k, good, what, where, own in C.check(b):
            n += 1
            kinds[k[2].split()[0]] = kinds.get(k[2].split()[0], 0) + 1
            if not own and good:
                R.notes.append('%s: every caller makes sure that %s' % (where, what))
            R.ob('%s/%s' % (k[2], b.path[-60:]), good, what + ': nothing on this path shows that this stays inside the memory', where)
    R.floor('unchecked accesses to memory', n, 6)
    for k, least in (('slice', 2), ('copy', 1)):
        R.floor('unchecked: %s' % k, kinds.get(k, 0), least)


# ------------------------------------------------------------------------------------------------- C02
def received_scope(prog):
    """bodies that run on what was received: everything reachable from the receiver, and from whoever decodes a message"""
    C = Calls(prog, LockGraph(prog))
    roots = [b.id for b in prog.bodies.values() if b.name in ('handle_received_data', 'start_receiver')]
    roots += [b.id for b in prog.bodies.values() if any(last(p) in DECODE for p, r, i, t in body_calls(b))]
    seen = set(roots)
    work = list(roots)
    while work:
        x = work.pop()
        for y in list(C.succ.get(x, ())) + [c.id for c in (prog.children(x) if x in prog.bodies else ())]:
            if y not in seen:
                seen.add(y)
                work.append(y)
    return [prog.bodies[x] for x in seen if x in prog.bodies and prog.bodies[x].kind != 'promoted'], roots


WIRE = re.compile(r"^(&('\w+ )?(mut )?)*proto::")


NONEMPTY = {'get_block_encoders'}       # trusted: an encoder of some data has at least one block


class Panics(Kept):
    """sums and products of received numbers, and every difference, stay inside their type"""

    def over(self, e, ctx, st, B, op, ops, line):
        if len(ops) != 2:
            return
        if op == 'Sub':
            self.site(ctx, st, 'difference', B.le(ops[1], ops[0]) or kept_in_size(st, ops[0], ops[1]), '%s less %s' % (short(ops[0]), short(ops[1])), line, ops)
        elif op in ('Add', 'Mul') and any(self.wire(B, o) for o in ops):
            v = mk('bin', op, *ops)
            t = B.ty_of(v)
            w = width(t) if t else None
            u = B.raw(v)
            ok = w is not None and (u is not None and u < 1 << w or B.le(v, mk('const', (1 << w) - 1)))
            self.site(ctx, st, 'overflow', ok, '%s of %s and %s (%s)' % ('sum' if op == 'Add' else 'product', short(ops[0]), short(ops[1]), t), line, ops)

    def site(self, ctx, st, kind, ok, what, line, vals=()):
        if not ok and kind == 'index' and len(vals) == 2:
            n, i = vals
            ok = cyclic(self.R, i, n)
        if not ok and kind == 'zero' and vals and vals[0][0] == 'call' and last(vals[0][1]) == 'len' and any(x[0] == 'call' and last(x[1]) in NONEMPTY for x in walk(vals[0])):
            ok = True
        Kept.site(self, ctx, st, kind, ok, what, line, vals)

    def wire(self, B, v):
        """a number taken from a decoded message"""
        if v[0] in ('cast', 'field') and self.wire(B, v[2] if v[0] == 'cast' else v[1]):
            return True
        if v[0] == 'bin':
            return self.wire(B, v[2]) or self.wire(B, v[3])
        if v[0] == 'field' and v[2][0] == 'f' and WIRE.match(B.ty_of(v[1]) or ''):
            return True
        return v[0] == 'call' and last(v[1]) in DECODE and bool(v[2])

    def call(self, e, ctx, st, ev):
        if ev.name == 'unwrap_unchecked':
            return None
        return Sites.call(self, e, ctx, st, ev)

    def panic(self, e, ctx, st, ev, line):
        if getattr(ev, 'name', '') in ('unwrap_unchecked', 'unreachable_unchecked'):
            return
        return Sites.panic(self, e, ctx, st, ev, line)


def kept_in_size(st, a, b):
    """the data of a transfer never outgrows its declared size: R02 decides that (append/fits, append/once), it is used here"""
    a, b = uncast(a), uncast(b)
    if not (iscall(b, 'len') and len(b[2]) == 1):
        return False
    d = b[2][0]
    while d[0] == 'mut' and last(d[1]) in ('reserve', 'reserve_exact'):
        d = d[2]
    if not isfield(d, 'data'):
        return False
    for h, v in [(None, a)] + list(st.heap.items()):
        if h is not None:
            # the declared size that has just been stored
            if not (isfield(h, 'total_size') and h[1] == d[1] and v[0] == 'agg' and v[4] and uncast(v[4][0][1]) == a):
                continue
            return True
        if v[0] == 'field' and v[2] == ('f', 'Some.0'):
            v = v[1]
        if isfield(v, 'total_size') and v[1] == d[1]:
            return True
    return False


@rule('C02', 'on every path from received bytes, whatever may panic is shown to be in range',
      'abstract interpretation of MIR: linear bounds from the branch outcomes of the path at every place that may panic, over everything reachable from the receiver and from every decoder, climbing to the callers',
      'The places are indexes, slice ranges, split and copy operations, divisions and remainders, unwrap and expect, explicit panics, every subtraction of integers, and additions and multiplications of numbers that come directly from a decoded message. For each of them the range condition is derived on the path by a linear prover from the branch outcomes, the results of checked operations, remainders, masks, minima and narrowing casts, and lengths of buffers; where the function itself cannot show it, every caller must. Other additions and multiplications (which panic in debug builds only), the size of allocations and panics inside external crates are not decided. Trusted: the source block encoders of some data are not empty.')
def c02(R):
    bodies, roots = received_scope(R.prog)
    R.floor('functions that decode what was received', len(roots), 25)
    R.floor('functions that run on what was received', len(bodies), 150)
    C = Climb(R, Panics)
    n = {}
    for b in sorted(bodies, key=lambda b: (b.file, b.line)):
        for k, good, what, where, own in C.check(b):
            n[k[2]] = n.get(k[2], 0) + 1
            if not own and good:
                R.notes.append('%s: every caller makes sure of: %s' % (where, what))
            R.ob('%s/%s' % (k[2], b.path[-60:]), good, '%s may panic on received input: nothing on this path keeps it in range: %s' % (k[2], what), where)
    for k, v in n.items():
        R.count('places of kind %s' % k, v)
    R.floor('places that may panic', sum(n.values()), 50)
