"""linear bounds over symbolic values: is a + k <= b on this path, from the branch outcomes known there?

Integers are taken as unsigned (every atom is at least 0). A goal is a linear form that has to be at least 0;
it is shown by subtracting linear forms that are known to be at least 0: branch outcomes of the path, and what
the operations say about their results (a remainder is below its divisor, a narrowing cast does not grow, ...)."""
import re
from engine import mk, walk, last
from lib import all_rels, uncast, spread, const_range

WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63, 'isize': 63}
MAXLEN = 1 << 63


def width(ty):
    return WIDTH.get((ty or '').strip())


class Bounds:
    def __init__(self, e, st, ctx=None, extra=()):
        self.e, self.st, self.ctx = e, st, ctx
        self.body = ctx.body if ctx is not None else None
        self.hint = {}                        # value -> type of the operand it was
        self.extra = list(extra)              # further (a, b, k): a + k <= b
        self._facts = None
        self.memo = {}
        self.steps = 0

    # ---------------------------------------------------------------- forms
    def norm(self, v):
        d = 0
        while d < 20:
            d += 1
            if v[0] == 'call' and last(v[1]) == 'len' and len(v[2]) == 1 and (v[1] != 'len' or v[3] is not None):
                v = mk('call', 'len', (v[2][0],), None)
            elif v[0] == 'field' and v[2][1] in ('Ok.0', 'Some.0') and v[1][0] == 'call' and last(v[1][1]) in ('try_from', 'try_into') and len(v[1][2]) == 1:
                v = v[1][2][0]
            elif v[0] == 'mut' and last(v[1]) == 'read_from' and self.is_meta(v[3]):
                v = v[2]                      # (reading the extent of a byte string does not move the offset)
            elif v[0] == 'call' and last(v[1]) in ('get',) and 'NonZero' in v[1] and v[2]:
                v = v[2][0]
            elif v[0] == 'call' and last(v[1]) in ('from', 'into') and len(v[2]) == 1 and ('convert' in v[1]):
                v = v[2][0]
            elif v[0] == 'cast':
                w = width(v[1])
                if w is None or w >= 63:
                    v = v[2]
                else:
                    u = self.upper(v[2])
                    if u is not None and u < 1 << w:
                        v = v[2]
                    else:
                        return v
            else:
                return v
        return v

    def lin(self, v, d=0):
        """({atom: coefficient}, constant)"""
        v = self.norm(v)
        if v[0] == 'const' and isinstance(v[1], (int, bool)):
            return {}, int(v[1])
        if v[0] == 'bin' and self.wraps(v):
            return {v: 1}, 0
        if d < 12 and v[0] == 'bin' and v[1] in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked'):
            a, ka = self.lin(v[2], d + 1)
            b, kb = self.lin(v[3], d + 1)
            s = 1 if v[1].startswith('Add') else -1
            r = dict(a)
            for t, c in b.items():
                r[t] = r.get(t, 0) + s * c
                if not r[t]:
                    del r[t]
            return r, ka + s * kb
        if d < 12 and v[0] == 'bin' and v[1] in ('Mul', 'MulUnchecked'):
            for x, y in ((v[2], v[3]), (v[3], v[2])):
                y = self.norm(y)
                if y[0] == 'const' and isinstance(y[1], int):
                    a, k = self.lin(x, d + 1)
                    return {t: c * y[1] for t, c in a.items() if y[1]}, k * y[1]
        n = self.length(v)
        if n is not None:
            return self.lin(n, d + 1) if d < 12 else ({v: 1}, 0)
        return {v: 1}, 0

    def length(self, v):
        """what the length of a piece of memory is, when it is made here"""
        if v[0] == 'call' and last(v[1]) == 'len' and v[2]:
            return self.size(v[2][0])
        return None

    def size(self, x, d=0):
        """length of the slice x as a value, or None when it is just len(x)"""
        while x[0] in ('ref', 'deref') and len(x) > 1 and isinstance(x[1], tuple):
            x = x[1]
        y = self.unmut(x)
        if y != x:
            return self.len(y)
        if x[0] == 'mut':
            # (what is left of the arguments: those that were not changed)
            n, rest = last(x[1]), x[4]
            if n == 'resize' and len(rest) >= 1 or n == 'set_len' and len(rest) == 1:
                return rest[0]
            if n == 'clear':
                return mk('const', 0)
            if n in ('push', 'push_back', 'push_front') and len(rest) == 1:
                return mk('bin', 'Add', self.len(x[2]), mk('const', 1))
            if n == 'extend_from_slice' and len(rest) == 1:
                return mk('bin', 'Add', self.len(x[2]), self.len(rest[0]))
            if n == 'reserve':
                return self.len(x[2])
            if n == 'splice' and len(rest) == 2 and rest[0][0] == 'agg':
                d = dict(rest[0][4])
                a, c, it = d.get('start'), d.get('end'), rest[1]
                if a is not None and a == c or a is None and c is not None and c[:2] == ('const', 0):
                    if it[0] == 'call' and last(it[1]) in ('take', 'repeat_n') and len(it[2]) == 2:
                        return mk('bin', 'Add', self.len(x[2]), it[2][1])
                    if it[0] == 'call' and last(it[1]) == 'from_elem':
                        return mk('bin', 'Add', self.len(x[2]), self.len(it))
        if x[0] == 'call' and last(x[1]) in ('index', 'index_mut') and len(x[2]) == 2:
            r = self.range(x[2][0], x[2][1])
            if r is not None:
                return mk('bin', 'Sub', r[1], r[0])
        if x[0] == 'call' and last(x[1]) == 'from_elem' and len(x[2]) == 2:
            return x[2][1]
        if x[0] == 'call' and last(x[1]) in ('take', 'replace') and 'mem::' in x[1] and x[2]:
            return self.len(x[2][0])
        if x[0] == 'field' and x[2][1] in ('0', '1') and x[1][0] == 'call' and last(x[1][1]) in ('split_at', 'split_at_mut') and len(x[1][2]) == 2:
            a, k = x[1][2]
            return k if x[2][1] == '0' else mk('bin', 'Sub', self.len(a), k)
        if x[0] == 'call' and last(x[1]) in ('from_raw_parts', 'from_raw_parts_mut') and len(x[2]) == 2:
            return x[2][1]
        if x[0] == 'call' and x[1] == 'repeat' and len(x[2]) == 2:
            m = re.match(r'^(\d+)', str(x[2][1][1]))
            if m:
                return mk('const', int(m.group(1)))
        t = self.ty_of(x)
        m = re.match(r"^(?:&(?:'\w+ )?(?:mut )?)*\[.*; (\w+)\]$", t or '')
        if m:
            return mk('const', int(m.group(1))) if m.group(1).isdigit() else mk('kconst', '', 'usize')
        if x[0] == 'agg' and x[1] == 'array':
            return mk('const', len(x[4]))
        if x[0] == 'repeat':
            return x[2] if isinstance(x[2], tuple) else mk('const', x[2])
        return None

    KEEPS = {'index_mut', 'apply_keystream', 'copy_from_slice', 'copy_within', 'fill', 'reverse', 'sort', 'swap', 'iter_mut', 'get_mut', 'first_mut', 'last_mut',
             'split_at_mut', 'chunks_mut', 'apply_keystream_b2b', 'rotate_left', 'write', 'encode_to_slice'}

    def unmut(self, x):
        """memory before calls that cannot change its length"""
        while x[0] == 'mut' and last(x[1]) in self.KEEPS:
            x = x[2]
        if x[0] == 'phi':
            ss = {self.unmut(y) if y[0] == 'mut' else y for y in spread(self.e, x)}
            if len(ss) == 1 and x not in ss:
                return next(iter(ss))
        return x

    def len(self, x):
        while x[0] in ('ref', 'deref') and len(x) > 1 and isinstance(x[1], tuple):
            x = x[1]
        s = self.size(x)
        return s if s is not None else mk('call', 'len', (x,), None)

    def range(self, base, r):
        """(start, end) of a range value used on base; end None is the length"""
        if r[0] == 'agg' and r[2] and 'Range' in str(r[2]):
            d = dict(r[4])
            lo = d.get('start', mk('const', 0))
            hi = d.get('end')
            n = last(r[2])
            if hi is not None and 'Inclusive' in n:
                hi = mk('bin', 'Add', hi, mk('const', 1))
            return lo, hi if hi is not None else self.len(base)
        c = const_range(r)
        if c is not None:
            if c[0] is None:
                return None
            return mk('const', c[0]), (mk('const', c[1]) if c[1] is not None else self.len(base))
        if r[0] == 'const' and 'RangeFull' in str(r):
            return mk('const', 0), self.len(base)
        if r[0] == 'agg' and 'RangeFull' in str(r[2]):
            return mk('const', 0), self.len(base)
        return None

    def ty_of(self, v):
        t = self.e.vtypes.get(v)
        if t is not None and re.search(r'; \d+\]$', t):
            return t
        if v in self.hint and '; ' in self.hint[v]:
            return self.hint[v]
        if t is not None:
            return t
        if v[0] == 'mut':
            return self.ty_of(v[2])
        if v[0] == 'phi' and isinstance(v[3], tuple) and len(v[3]) == 2 and isinstance(v[3][0], int) and isinstance(v[3][1], int):
            try:
                return self.e.ctxlist[v[3][0]].body.locals[v[3][1]][0]
            except IndexError:
                return None
        if v[0] == 'bin' and v[1] not in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp', 'Offset'):
            for x in (v[2],) if v[1].startswith('Sh') else v[2:4]:
                t = self.ty_of(x) if x[0] != 'const' else None
                if t:
                    return t
            return None
        if v[0] == 'call':
            if v[1].startswith('num::') or 'impl' in v[1]:
                m = re.search(r'\b(u8|u16|u32|u64|usize|u128)\b', v[1])
                n = last(v[1])
                if m and n in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes'):
                    return '[u8; %d]' % (WIDTH.get(m.group(1), 128) // 8)
            if v[1].endswith('Ipv4Addr::octets'):
                return '[u8; 4]'
            r = self.e.prog.__dict__.setdefault('_rets', None)
            if r is None:
                r = {}
                for b in self.e.prog.bodies.values():
                    if b.kind == 'fn':
                        r.setdefault(re.sub(r'\{impl#\d+\}', '', b.id), set()).add(b.locals[0][0])
                        r.setdefault(((b.self_ty or '').split('<')[0] + '::' if b.self_ty else '') + b.name, set()).add(b.locals[0][0])
                self.e.prog._rets = r
            s = r.get(v[1]) or r.get('::'.join(v[1].split('::')[-2:]))
            if s and len(s) == 1:
                return next(iter(s))
        if v[0] == 'arg' and self.body is not None:
            try:
                return self.body.locals[v[1]][0]
            except (IndexError, TypeError):
                return None
        if v[0] == 'cast':
            return v[1]
        if v[0] == 'field' and v[2][0] == 'f':
            name = v[2][1]
            bt = self.ty_of(v[1])
            if bt:
                bt = re.sub(r"^(&('\w+ )?(mut )?)+", '', bt)
                bt = re.sub(r'^std::(sync::Arc|boxed::Box|rc::Rc)<(.*)>$', r'\2', bt)
                bt = re.sub(r'<.*', '', bt)
                a = self.e.prog.adts.get(bt)
                if a:
                    for vt in a['variants']:
                        for f, t in vt['fields']:
                            if f == name or vt['name'] + '.' + f == name:
                                return t
        if v[0] == 'const' and len(v) > 2 and isinstance(v[2], str):
            return v[2]
        return None

    def wraps(self, v):
        """may an addition or multiplication of narrow integers leave the range of its type?"""
        if v[1] not in ('Add', 'Mul', 'Sub'):
            return False
        t = self.ty_of(v)
        w = width(t) if t else None
        if w is None or w >= 63:
            return False
        if v[1] == 'Sub':
            if v not in self.memo:
                self.memo[v] = True
                self.memo[v] = not self.le(v[3], v[2])
                self._facts = None
            return self.memo[v]
        u = self.raw(v, 0)
        return u is None or u >= 1 << w

    def upper(self, v, d=0):
        u = self.raw(v, d)
        if v[0] == 'bin' and v[1] in ('Add', 'Mul', 'Sub', 'Shl'):
            t = self.ty_of(v)
            w = width(t) if t else None
            if w and w < 63 and (u is None or u >= 1 << w):
                return (1 << w) - 1
        return u

    def raw(self, v, d=0):
        """a constant upper bound from the operations alone"""
        if d > 8:
            return None
        if v[0] == 'const':
            return int(v[1]) if isinstance(v[1], (int, bool)) else None
        if v[0] == 'cast':
            w = width(v[1])
            u = self.upper(v[2], d + 1)
            t = (1 << w) - 1 if w else None
            return u if t is None else t if u is None else min(u, t)
        if v[0] == 'bin':
            op = v[1]
            a, b = self.upper(v[2], d + 1), self.upper(v[3], d + 1)
            if op == 'Rem':
                return min(x for x in (a, b - 1 if b else None) if x is not None) if a is not None or b else None
            if op == 'BitAnd':
                return min([x for x in (a, b) if x is not None], default=None)
            if op in ('BitOr', 'BitXor') and a is not None and b is not None:
                return (1 << max(a.bit_length(), b.bit_length())) - 1
            if op.startswith('Add') and a is not None and b is not None:
                return a + b
            if op.startswith('Sub'):
                return a
            if op.startswith('Mul') and a is not None and b is not None:
                return a * b
            if op == 'Div' and a is not None:
                return a // v[3][1] if v[3][0] == 'const' and v[3][1] else a
            if op.startswith('Shr') and a is not None:
                return a >> v[3][1] if v[3][0] == 'const' and isinstance(v[3][1], int) else a
            if op.startswith('Shl') and a is not None and b is not None and b < 64:
                return a << b
            return None
        if v[0] == 'call':
            n = last(v[1])
            us = [self.upper(x, d + 1) for x in v[2]]
            if n == 'min':
                return min([x for x in us if x is not None], default=None)
            if n == 'max':
                return max(us) if us and None not in us else None
            if n in ('leading_zeros', 'trailing_zeros', 'count_ones', 'leading_ones'):
                m = re.search(r'impl (u8|u16|u32|u64|usize|i8|i32)', v[1])
                return WIDTH.get(m.group(1), 64) if m else 128
            if n == 'len':
                return MAXLEN
            if n in ('saturating_sub', 'wrapping_rem') and us:
                return us[0]
            if n in ('unwrap_or', 'clamp'):
                return max(us) if us and None not in us else None
            m = re.search(r'impl (u8|u16|u32)>?', v[1])
            if m and n not in ('to_be_bytes', 'to_le_bytes'):
                return (1 << WIDTH[m.group(1)]) - 1
            if n == 'as_secs' or n == 'now':
                return None
        if v[0] == 'phi':
            ss = spread(self.e, v)
            if v in ss or d > 4:
                return None
            us = [self.upper(x, d + 1) for x in ss]
            return max(us) if us and None not in us else None
        t = self.ty_of(v)
        w = width(re.sub(r"^(&('\w+ )?(mut )?)+", '', t)) if t else None
        if w and w < 63:
            return (1 << w) - 1
        return None

    # ---------------------------------------------------------------- facts
    def facts(self):
        if self._facts is None:
            out = []
            for op, a, b in all_rels(self.st):
                if op in ('<', '<='):
                    out.append(self.diff(b, a, 1 if op == '<' else 0))
                elif op == '==':
                    out.append(self.diff(b, a, 0))
                    out.append(self.diff(a, b, 0))
                elif op == '!=':
                    # x != 0
                    for x, y in ((a, b), (b, a)):
                        if y[0] == 'const' and y[1] == 0:
                            out.append(self.diff(x, y, 1))
            for k, v in self.st.facts.items():
                if k[0] == 'bin' and k[1] == 'Eq' and v is True:
                    for x, y in (k[2:4], k[3:1:-1]):
                        if x[0] == 'call' and last(x[1]) in ('first', 'last') and x[2] and y[0] == 'agg' and y[3] == 'Some':
                            out.append(self.diff(self.len(x[2][0]), mk('const', 0), 1))
                if k[0] == 'var' and v == 'Some' and k[1][0] == 'call' and last(k[1][1]) in ('first', 'last', 'split_first', 'split_last', 'first_mut', 'last_mut') and len(k[1][2]) == 1:
                    out.append(self.diff(self.len(k[1][2][0]), mk('const', 0), 1))
                if k[0] == 'var' and v == 'Some' and k[1][0] == 'call' and last(k[1][1]) in ('get', 'get_mut') and len(k[1][2]) == 2:
                    x, r = k[1][2]
                    rg = self.range(x, r)
                    if rg:
                        out += [self.diff(self.len(x), rg[1], 0), self.diff(rg[1], rg[0], 0)]
                    elif 'Map' not in k[1][1]:
                        out.append(self.diff(self.len(x), r, 1))
                if k[0] == 'call' and last(k[1]) == 'is_empty' and len(k[2]) == 1:
                    n = self.len(k[2][0])
                    out.append(self.diff(n, mk('const', 0), 1) if not v else self.diff(mk('const', 0), n, 0))
                if k[0] == 'isnot' and isinstance(v, int) and v == 0:
                    out.append(self.diff(k[1], mk('const', 0), 1))
                if k[0] == 'is' and isinstance(v, int):
                    out.append(self.diff(k[1], mk('const', v), 0))
                    out.append(self.diff(mk('const', v), k[1], 0))
            for a, b, k in self.extra:
                out.append(self.diff(b, a, k))
            # a range that was taken lies inside what it was taken from
            self._facts = [f for f in out if f[0]]
        return self._facts

    def diff(self, b, a, k=0):
        lb, kb = self.lin(b)
        la, ka = self.lin(a)
        r = dict(lb)
        for t, c in la.items():
            r[t] = r.get(t, 0) - c
            if not r[t]:
                del r[t]
        return r, kb - ka - k

    def about(self, t):
        """linear forms known to be at least 0 about one atom"""
        out = []
        u = self.upper(t)
        if u is not None:
            out.append(({t: -1}, u))
        if t[0] == 'cast':
            out.append(self.diff(t[2], t, 0))
            f = self.diff(t[2], t, 0)
        if t[0] == 'bin':
            if t[1] == 'Rem':
                out.append(self.diff(t[3], t, 1))
                out.append(self.diff(t[2], t, 0))
            elif t[1] in ('Div', 'Shr', 'BitAnd', 'ShrUnchecked'):
                out.append(self.diff(t[2], t, 0))
                if t[1] == 'BitAnd':
                    out.append(self.diff(t[3], t, 0))
                if t[1] == 'Div' and t[3][0] == 'const' and isinstance(t[3][1], int):
                    n = t[3][1]
                    f = self.diff(t[2], mk('bin', 'Mul', t, t[3]), 0)
                    out.append(f)
        if t[0] == 'call':
            n = last(t[1])
            if n == 'min':
                out += [self.diff(x, t, 0) for x in t[2]]
            elif n == 'max':
                out += [self.diff(t, x, 0) for x in t[2]]
            elif n == 'rem' and len(t[2]) == 2:
                out.append(self.diff(t[2][1], t, 1))
            elif n == 'saturating_sub':
                out.append(self.diff(t[2][0], t, 0))
                out.append(self.diff(t, mk('bin', 'Sub', t[2][0], t[2][1]), 0))
            elif n == 'saturating_add':
                out.append(self.diff(mk('bin', 'Add', t[2][0], t[2][1]), t, 0))
            elif n == 'next_power_of_two':
                out.append(self.diff(t, t[2][0], 0))
        # payload of checked arithmetic
        if t[0] == 'field' and t[2] == ('f', 'Some.0') and t[1][0] == 'call':
            c = t[1]
            n = last(c[1])
            if n == 'checked_sub' and len(c[2]) == 2:
                x = mk('bin', 'Sub', c[2][0], c[2][1])
                out += [self.diff(x, t, 0), self.diff(t, x, 0)]
            if n == 'checked_add' and len(c[2]) == 2:
                x = mk('bin', 'Add', c[2][0], c[2][1])
                out += [self.diff(x, t, 0), self.diff(t, x, 0)]
            if n == 'next' and c[2]:
                out += self.item(t, c[2][0])
            if n == 'last' and False:
                pass
            if n in ('position', 'rposition') and c[2]:
                out.append(self.diff(self.len(c[2][0]), t, 1))
        if t[0] == 'call' and t[1] == 'elem' and t[2]:
            out += self.item(t, t[2][0])
        if t[0] == 'field' and t[2] == ('f', '0') and t[1][0] == 'call' and t[1][1] == 'elem':
            it = t[1][2][0]
            if it[0] == 'call' and last(it[1]) == 'enumerate':
                out.append(self.diff(self.len(it[2][0]), t, 1))
        # the extent of a byte string lies inside what it was read from
        if t[0] == 'field' and t[2][1] in ('prefix_len', 'len', 'padding') and t[1][0] == 'field' and t[1][2][1] == 'Ok.0' and t[1][1][0] == 'call' \
                and last(t[1][1][1]) == 'read_from' and len(t[1][1][2]) == 2 and self.is_meta(t[1][1][3]):
            c = t[1][1]
            x = c[2][1]
            for f in ('prefix_len', 'len', 'padding'):
                x = mk('bin', 'Add', x, mk('field', t[1], ('f', f)))
            out.append(self.diff(self.len(c[2][0]), x, 0))
        # a decoder leaves its offset inside what it was given
        if t[0] == 'mut' and last(t[1]) == 'read_from' and t[4]:
            out.append(self.diff(self.len(t[4][0]), t, 0))
        return out

    def is_meta(self, site):
        n, known = self.e.__dict__.setdefault('_meta', (0, set()))
        if n != len(self.e.vtypes):
            known = {k[3] for k, t in self.e.vtypes.items() if k[0] == 'call' and last(k[1]) == 'read_from' and 'BytesMeta' in t}
            self.e._meta = (len(self.e.vtypes), known)
        return site in known

    def item(self, t, it):
        """what is known about the items of an iterator: start <= item < end of a range"""
        out = []
        for x in walk(it):
            if x[0] == 'agg' and x[2] and 'Range' in str(x[2]):
                d = dict(x[4])
                if 'end' in d:
                    out.append(self.diff(d['end'], t, 0 if 'Inclusive' in str(x[2]) else 1))
                if 'start' in d:
                    out.append(self.diff(t, d['start'], 0))
                break
        return out

    # ---------------------------------------------------------------- proof
    def le(self, a, b, k=0):
        """a + k <= b on this path"""
        return self.nonneg(*self.diff(b, a, k))

    def nowrap(self, v):
        """no subtraction in v can go below zero"""
        return all(self.le(x[3], x[2]) for x in walk(v) if x[0] == 'bin' and x[1] in ('Sub', 'SubUnchecked'))

    def nonneg(self, form, k, depth=6):
        self.steps = 0
        if self._try(form, k, depth, ()):
            return True
        # the smaller (larger) of two is one of them
        for t, c in form.items():
            if depth > 2 and t[0] == 'call' and last(t[1]) == ('min' if c > 0 else 'max') and len(t[2]) == 2:
                if all(self.nonneg(*self.put(form, k, t, x), depth=depth - 2) for x in t[2]):
                    return True
            if depth > 2 and t[0] == 'call' and last(t[1]) == ('max' if c > 0 else 'min') and len(t[2]) == 2:
                if any(self.nonneg(*self.put(form, k, t, x), depth=depth - 2) for x in t[2]):
                    return True
        # a joined value: every way it may have come
        for t in list(form):
            if t[0] == 'phi':
                ss = spread(self.e, t)
                if ss and t not in ss and len(ss) <= 8 and not any(t in set(walk(s)) for s in ss) and depth > 2:
                    ok = all(self.nonneg(*self.put(form, k, t, x), depth=depth - 2) for x in ss)
                    if ok:
                        return True
        return False

    def put(self, form, k, t, x):
        """the form with x in place of the atom t"""
        c = form[t]
        f = {y: z for y, z in form.items() if y != t}
        lx, kx = self.lin(x)
        for y, z in lx.items():
            f[y] = f.get(y, 0) + c * z
            if not f[y]:
                del f[y]
        return f, k + c * kx

    def _try(self, form, k, depth, used):
        if k >= 0 and all(c >= 0 for c in form.values()):
            return True
        self.steps += 1
        if depth == 0 or self.steps > 4000:
            return False
        neg = [t for t, c in form.items() if c < 0]
        cand = []
        if neg:
            for t in neg:
                for f in self.about(t) + self.facts():
                    if f[0].get(t, 0) < 0:
                        cand.append((f, t))
        else:
            for t in form:
                for f in self.facts() + self.about(t):
                    if f[0].get(t, 0) > 0 and f[1] < 0:
                        cand.append((f, t))
        for f, t in cand:
            key = (tuple(sorted(((repr(x), c) for x, c in f[0].items()))), f[1])
            if used.count(key) >= 1:
                continue
            # subtract the fact as often as it takes to remove the atom
            q, m = divmod(abs(form[t]), abs(f[0][t]))
            if m or not q:
                if form[t] > 0:
                    q = max(q, 1)
                elif m:
                    continue
            if form[t] > 0 and q * f[0][t] > form[t]:
                continue
            f2 = dict(form)
            for x, c in f[0].items():
                f2[x] = f2.get(x, 0) - q * c
                if not f2[x]:
                    del f2[x]
            if self._try(f2, k - q * f[1], depth - 1, used + (key,)):
                return True
        return False
