"""Rules for the wire formats: what is written and read, compared with the protocol definition."""
import os
import re
import zlib
from lib import *
import engine as E
from rules_adnl import marks_of

SCHEME = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'protocol.tl')

# field names of the code that differ from those of the scheme
ALIAS = {'total_len': 'data_size', 'packet_len': 'symbol_size', 'packet_count': 'symbols_count', 'local': 'reinit_date', 'target': 'dst_reinit_date',
         'shard': 'shard', 'prefix': 'random_id'}
TYPE_ALIAS = {'raptorqfectype': 'fecraptorq', 'catchainfirstblock': 'catchainfirstblock', 'shardpublicoverlayid': 'tonnodeshardpublicoverlayid'}


# compared flag by flag in N12
SPECIAL = {'OutgoingPacketContents', 'IncomingPacketContents', 'OutgoingMessages'}


class Con:
    """a constructor of the scheme"""

    def __init__(self, name, fields, result, cid, fn):
        self.name, self.fields, self.result, self.id, self.fn = name, fields, result, cid, fn


def scheme():
    t = re.sub(r'//[^\n]*', '', open(SCHEME).read())
    t = t.replace('---types---', ';types;').replace('---functions---', ';functions;')
    out = {}
    fn = False
    for d in t.split(';'):
        d = ' '.join(d.split())
        if d in ('types', 'functions'):
            fn = d == 'functions'
        if '=' not in d or '{' in d or '[' in d or ' ? ' in d:
            continue
        left, res = (x.strip() for x in d.rsplit('=', 1))
        norm = ' '.join((left + ' = ' + res).replace('(', '').replace(')', '').split())
        name, rest = (left.split(' ', 1) + [''])[:2]
        if not rest and name in ('true', 'boolTrue', 'boolFalse'):
            continue
        fields = []
        for m in re.finditer(r'(\w+):(?:flags\.(\d+)\?)?(\([^)]*\)|\S+)', rest):
            fields.append((m.group(1), m.group(3).strip('()'), int(m.group(2)) if m.group(2) else None))
        out[name] = Con(name, fields, res, zlib.crc32(norm.encode()), fn)
    return out


def flat(S, ty, name, con):
    """the elementary values of a field of the scheme: (kind, field name, constructor)"""
    if ty.startswith('vector '):
        return [(('vector', tuple(k for k, _, _ in flat(S, ty[7:].strip(), '', con))), name, con)]
    if ty in ('#', 'int'):
        return [('int', name, con)]
    if ty in ('long', 'int128', 'int256', 'bytes'):
        return [(ty, name, con)]
    if ty[0].isupper() or ty.split('.')[-1][0].isupper() or ty.split('.')[-1] == 'Type':
        return [(('boxed', ty), name, con)]
    if ty in S:
        out = []
        for n, t, b in S[ty].fields:
            one = len(S[ty].fields) == 1
            sub_ = flat(S, t, name if one else n, con if one else ty)
            out += sub_
        return out
    raise Missing('type %s of the scheme is not understood' % ty)


def con_atoms(S, con):
    out = []
    for n, t, b in con.fields:
        for k, nm, c in flat(S, t, n, con.name):
            out.append((k if b is None else ('opt', b, k), nm, c))
    return out


def base(ty):
    """the path of a type without references, lifetimes and arguments"""
    ty = ty.strip()
    while True:
        m = re.match(r"^(&('\w+ )?(mut )?|mut )", ty)
        if not m:
            break
        ty = ty[m.end():].strip()
    return ty


def args_of(ty):
    m = re.match(r'^[\w:]+<(.*)>$', ty)
    if not m:
        return []
    out, d, cur = [], 0, ''
    for ch in m.group(1):
        if ch in '<[(':
            d += 1
        elif ch in '>])':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return [x for x in out if not x.startswith("'")]


class Layouts:
    """the layouts written and read by the types of this crate"""

    def __init__(self, R, S):
        self.R, self.S = R, S
        self.prog = R.prog
        self.impls = {}
        self.boxed_const = {}
        for tr, ty, ms in R.prog.impls:
            t = tr.split('<')[0].split('::')[-1]
            if t in ('TlWrite', 'TlRead'):
                for n, b in ms:
                    if n in ('write_to', 'read_from') and b in R.prog.bodies:
                        self.impls[(base(ty).split('<')[0], t)] = R.prog.bodies[b]
            elif t == 'BoxedConstructor':
                c = [v for k, v in R.prog.consts.items() if k.startswith('<%s as ' % ty) and k.endswith('BoxedConstructor>::TL_ID')]
                if c:
                    self.boxed_const[base(ty).split('<')[0]] = c[0]
        self.by_id = {c.id: c for c in S.values()}
        self.memo = {}
        self.unknown = set()

    def kind(self, ty, d, name=''):
        """[(kind, name)] of a value of a Rust type"""
        ty = base(ty)
        if ty in ('u32', 'i32'):
            return [('int', name)]
        if ty in ('u64', 'i64'):
            return [('long', name)]
        if ty == '[u8; 32]':
            return [('int256', name)]
        if ty == '[u8; 16]':
            return [('int128', name)]
        if ty == '[u8]' or ty == 'bytes::Bytes':
            return [('bytes', name)]
        p = ty.split('<')[0]
        a = args_of(ty)
        l = p.split('::')[-1]
        if l in ('PublicKey', 'PublicKeyOwned') and 'crypto' in p:
            return [(('boxed', 'PublicKey'), name)]
        if l in ('Vec', 'SmallVec') or ty.startswith('['):
            e = a[0] if a else ty
            if e.startswith('['):
                e = e[1:-1].split(';')[0].strip()
            if e == 'u8':
                return [('bytes', name)]
            return [(('vector', tuple(k for k, _ in self.kind(e, d))), name)]
        if l == 'Option':
            return [(('opt', tuple(k for k, _ in self.kind(a[0], d))), name)]
        if l in ('Box', 'Arc', 'Cow') and a:
            return self.kind(a[-1], d, name)
        if l in ('BoxedWrapper', 'BoxedWriter', 'BoxedReader') and a:
            b = base(a[-1]).split('<')[0]
            c = self.boxed_const.get(b)
            if c in self.by_id:
                return [(('boxed', self.by_id[c].result), name)]
        if l == 'IterRef':
            return [(('vector', None), name)]
        for dd in (d, 'TlWrite', 'TlRead'):
            if (p, dd) in self.impls:
                lay = self.of(p, dd)
                if not lay:
                    break
                ids = [i for i in lay if i is not None]
                if ids:
                    rs = {self.by_id[i].result for i in ids if i in self.by_id}
                    if len(rs) == 1:
                        return [(('boxed', rs.pop()), name)]
                    break
                seqs = lay[None]
                one = sorted(seqs, key=len)[-1]
                return [(k, n if len(one) > 1 else name) for k, n in one]
        self.unknown.add(ty)
        return [(('?', ty), name)]

    def of(self, p, d):
        """{constructor id or None: {sequences of (kind, name)}}"""
        if (p, d) in self.memo:
            return self.memo[(p, d)]
        self.memo[(p, d)] = {}
        body = self.impls[(p, d)]
        raw = writes(self.R, body) if d == 'TlWrite' else reads(self.R, body)
        out = {}
        full = {(cid, seq) for cid, seq, var in raw if any(x[2] for x in seq)}
        for cid, seq, var in raw:
            # a path on which a loop is not entered
            if any(c == cid and len(seq) < len(f) and [x[0] for x in seq] == [x[0] for x in f if not x[2]] for c, f in full):
                continue
            atoms = []
            for ty, nm, loop in seq:
                k = self.kind(ty, d, nm) if ty != '#raw' else [(('?', 'raw'), nm)]
                if loop and atoms and atoms[-1][0] == 'int':
                    atoms[-1] = (('vector', tuple(x for x, _ in k)), nm)
                else:
                    atoms += k
            # a length that is 0 or 1, and an optional element
            i = 0
            while i + 1 < len(atoms):
                if atoms[i] == ('int', '#flag') and isinstance(atoms[i + 1][0], tuple) and atoms[i + 1][0][0] == 'opt':
                    atoms[i:i + 2] = [(('vector', atoms[i + 1][0][1]), atoms[i + 1][1])]
                i += 1
            # a length written by hand before that many elements
            i = 0
            while i + 1 < len(atoms):
                n = atoms[i][1][1:]
                if atoms[i][0] == 'int' and atoms[i][1][:1] == '#' and n.isdigit() and 0 < int(n) < 9:
                    el = atoms[i + 1:i + 1 + int(n)]
                    if len(el) == int(n) and len({k for k, _ in el}) == 1 and isinstance(el[0][0], tuple) and el[0][0][0] == 'boxed':
                        atoms[i:i + 1 + int(n)] = [(('vector', (el[0][0],)), el[0][1])]
                i += 1
            out.setdefault(cid, set()).add(tuple(atoms))
            self.variants.setdefault((p, cid), set()).add(var)
        # the path on which there is no element
        for cid, seqs in out.items():
            for s in [s for s in seqs if any(a == ('int', '#0') for a in s)]:
                for f in seqs:
                    if len(f) == len(s) and f != s and all(x == y or x == ('int', '#0') and isinstance(y[0], tuple) and y[0][0] == 'vector' for x, y in zip(s, f)):
                        out[cid] = out[cid] - {s}
        self.memo[(p, d)] = out
        return out

    variants = {}


def leaf(v):
    v = uncast(v)
    while v[0] == 'call' and last(v[1]) in ('deref', 'as_ref', 'borrow', 'as_slice', 'clone') and v[2]:
        v = v[2][0]
    nm = ''
    while v[0] == 'field' and isinstance(v[2], tuple) and len(v[2]) > 1 and isinstance(v[2][1], str):
        n = v[2][1].split('.')[-1]
        if not n.isdigit():
            return n
        nm = nm or n
        v = uncast(v[1])
    return nm


def in_loop(e, ctx):
    """the block being executed lies on a cycle of its body"""
    b = body_of(e, ctx)
    if b.id not in LOOPS:
        succ = {i: [y for y in E.succs(blk['t']) if isinstance(y, int)] for i, blk in enumerate(b.blocks)}
        LOOPS[b.id] = {i for i in succ if i in closure(succ, i)}
    return LOOPS[b.id]


LOOPS = {}


def closure(succ, i):
    seen, st = set(), list(succ.get(i, ()))
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st += succ.get(x, ())
    return seen


WRITES = {'write_u32': 'u32', 'write_i32': 'i32', 'write_u64': 'u64', 'write_i64': 'i64', 'write_raw_slice': '#raw'}


def with_mark(st, tag, val):
    return frozenset(x for x in st.marks if not (isinstance(x, tuple) and x[0] == tag)) | {(tag, val)}


def writes(R, body):
    """[(constructor id, ((type, field, repeated), ...), variant)] over the paths of a writer"""
    out = set()

    class W(E.Observer):
        maydepth = 3
        part_cap = 400

        def inline(self, e, b):
            return b.file == body.file and b.name not in ('write_to', 'max_size_hint')

        def relevant(self, f):
            return True

        def call(self, e, ctx, st, ev):
            if ev.name in WRITES and len(ev.args) == 2:
                ty, v = WRITES[ev.name], ev.args[1]
            elif ev.name == 'write_to' and len(ev.args) == 2 and ev.ga:
                ty, v = ev.ga[0], ev.args[0]
            else:
                return
            s = marks_of(st, 'seq')
            cur = s[0][1] if s else ()
            u = uncast(v)
            nm = leaf(v)
            if u[0] == 'const' and isinstance(u[1], int) and not isinstance(u[1], bool):
                nm = '#%d' % u[1]
            elif has_call(u, 'isvar', 'is_some') or u[0] == 'call' and u[1] == 'isvar':
                nm = '#flag'
            R.ob('%s/writes its fields' % body.self_ty.split('<')[0].split('::')[-1], nm != '' or body.self_ty.split('<')[0].split('::')[-1] in SPECIAL, 'what is written is a field of the object or a constant, got %s' % short(v)[:100], src(e, ctx, ev.line))
            it = (ty, nm, ev.site, ev.site[1] in in_loop(e, ctx))
            if not cur or cur[-1][2] != ev.site:
                cur += (it,)
            return with_mark(st, 'seq', cur)

        def exit(self, e, ctx, st, kind, val):
            if kind != 'return':
                return
            s = marks_of(st, 'seq')
            seq = s[0][1] if s else ()
            var = next((v for k, v in st.facts.items() if k[0] == 'var' and k[1][0] == 'arg' and k[1][1] in (0, 1)), '')
            cid = None
            if seq and base(seq[0][0]) == 'u32' and seq[0][1][:1] == '#' and seq[0][1][1:].isdigit() and int(seq[0][1][1:]) > 0xffff:
                cid = int(seq[0][1][1:])
                seq = seq[1:]
            out.add((cid, tuple((x[0], x[1], x[3]) for x in seq), var))
    R.run(W(), body)
    R.count('writers')
    return out


def reads(R, body):
    """[(constructor id, ((type, field filled, repeated), ...), variant)] over the successful paths of a reader"""
    out = set()

    class Rd(E.Observer):
        maydepth = 3
        part_cap = 400

        def inline(self, e, b):
            return b.file == body.file and b.name != 'read_from'

        def relevant(self, f):
            return f[0] == 'is' or f[0] == 'bin'

        def learned(self, e, st, k, v):
            c = None
            if k[0] == 'is':
                c, x = v, k[1]
            elif k[0] == 'bin' and k[1] == 'Eq' and v:
                for x, y in ((k[2], k[3]), (k[3], k[2])):
                    if uncast(y)[0] == 'const':
                        c = uncast(y)[1]
                        break
            if isinstance(c, int) and not isinstance(c, bool) and c > 0xffff:
                calls = [y for y in walk(x) if y[0] == 'call' and last(y[1]) == 'read_from']
                if calls:
                    return (('id', calls[0][3], c),)

        def call(self, e, ctx, st, ev):
            if ev.name != 'read_from' or len(ev.args) < 2 or not ev.ga:
                return
            s = marks_of(st, 'seq')
            cur = s[0][1] if s else ()
            if not cur or cur[-1][1] != ev.site:
                cur += ((ev.ga[0], ev.site, ev.site[1] in in_loop(e, ctx)),)
            return with_mark(st, 'seq', cur)

        def exit(self, e, ctx, st, kind, val):
            if not (val and val[0] == 'agg' and val[3] == 'Ok'):
                return
            s = marks_of(st, 'seq')
            seq = s[0][1] if s else ()
            ids = {m[1]: m[2] for m in st.marks if isinstance(m, tuple) and m[0] == 'id'}
            cid = None
            if seq and seq[0][1] in ids:
                cid = ids[seq[0][1]]
                seq = seq[1:]
            obj = val[4][0][1]
            names_ = {}
            var = ''
            if obj[0] == 'agg':
                var = obj[3] or ''
                for f, x in obj[4]:
                    for y in E.walk(x):
                        if y[0] == 'call' and last(y[1]) == 'read_from':
                            names_.setdefault(y[3], str(f).split('.')[-1])
                    odd = [y for y in E.walk(x) if y[0] in ('bin', 'un', 'phi') or y[0] == 'const' and isinstance(y[1], int)]
                    R.ob('%s/fills its fields' % body.self_ty.split('<')[0].split('::')[-1], not odd or body.self_ty.split('<')[0].split('::')[-1] in SPECIAL, 'the field %s is what was read, got %s' % (f, short(x)[:100]), '%s:%s' % (body.file, body.line))
            out.add((cid, tuple((t, names_.get(site, ''), loop) for t, site, loop in seq), var))
    R.run(Rd(), body)
    R.count('readers')
    return out


def remainder(R, L, body, p, d, n):
    """the values read after an object by the functions that read it"""
    if d == 'TlWrite':
        cs = callers(R.prog, body.id)
        # never written
        return [(('?', 'unused'), '')] * n if not cs else []
    rest = set()
    for c in callers(R.prog, body.id):
        cb = R.prog.bodies[c]

        class Rd(E.Observer):
            maydepth = 3
            part_cap = 200

            def inline(self, e, b):
                return b.file == cb.file and b.name != 'read_from'

            def call(self, e, ctx, st, ev):
                if ev.name == 'read_from' and ev.ga:
                    if base(ev.ga[0]).split('<')[0] == p:
                        return with_mark(st, 'rest', ())
                    s = marks_of(st, 'rest')
                    if s:
                        return with_mark(st, 'rest', s[0][1] + (ev.ga[0],))

            def exit(self, e, ctx, st, kind, val):
                s = marks_of(st, 'rest')
                if val and val[0] == 'agg' and val[3] in ('Ok', 'Some') and s:
                    rest.add(s[0][1])
        R.run(Rd(), cb)
    if len(rest) != 1:
        return []
    out = []
    for t in rest.pop():
        out += [('bytes', '')] if base(t).endswith('BytesMeta') else L.kind(t, d)
    return out


def same_kind(a, b):
    """a of the code against b of the scheme"""
    if a == b or isinstance(a, tuple) and a[0] == '?':
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'vector':
        return a[1] is None or len(a[1]) == len(b[1]) and all(same_kind(x, y) for x, y in zip(a[1], b[1]))
    return False


def show(k):
    if isinstance(k, tuple):
        if k[0] == 'vector':
            return 'vector of (%s)' % ', '.join(show(x) for x in k[1] or ('anything',))
        if k[0] == 'boxed':
            return k[1]
        if k[0] == 'opt':
            return 'optional %s' % show(k[-1]) if not isinstance(k[-1], tuple) or k[-1][:1] != () and isinstance(k[-1][0], str) else 'optional (%s)' % ', '.join(show(x) for x in k[-1])
        return str(k)
    return k


@rule('P01', 'every protocol object is written and read with the constructor, field order and field types of the protocol scheme',
      'layout extraction from every writer and reader (sequence of writes and reads on every path) and comparison with the parsed scheme',
      'For every type with a writer or reader the ordered list of (wire type, field) is extracted per path, with the constructor written or '
      'tested. Nested bare types are expanded, boxed ones compared by their result type. The list must be that of the constructor in the '
      'protocol scheme, whose text is embedded in the checker (so a changed scheme file is a difference, not a new reference). A field or type '
      'that carries the name of another field or constructor of the same kind is a swap.')
def p01(R):
    S = scheme()
    L = Layouts(R, S)
    L.variants = {}
    checked = set()
    norm = {c.name.replace('.', '').lower(): c for c in S.values()}
    for (p, d), body in sorted(L.impls.items()):
        t = p.split('::')[-1]
        if t in SPECIAL:
            continue
        here = '%s:%s' % (body.file, body.line)
        word = 'written' if d == 'TlWrite' else 'read'
        lay = L.of(p, d)
        R.ob('%s/%s/paths' % (t, d), bool(lay), 'the layout %s could be extracted' % word, here)
        mod = [x for x in ('adnl', 'dht', 'overlay', 'rldp') if x in p.split('::')]
        for cid, seqs in sorted(lay.items(), key=lambda x: str(x[0])):
            if cid is None:
                c = L.boxed_const.get(p)
                con = L.by_id.get(c) if c is not None else norm.get((mod[0] if mod else '') + t.lower()) or norm.get((mod[0] if mod else '') + re.sub('owned$', '', t.lower()))
                if c is not None:
                    R.ob('%s/constructor' % p, con is not None, 'the constructor %08x of %s is one of the protocol' % (c, t), here)
                if con is None:
                    R.count('layouts compared through their parents')
                    continue
            else:
                con = L.by_id.get(cid)
                R.ob('%s/%s/constructor %08x' % (t, d, cid), con is not None, 'the constructor %08x %s for %s is one of the protocol' % (cid, word, t), here)
                if con is None:
                    continue
            # the name says which constructor is meant
            for var in sorted(L.variants.get((p, cid), {''})):
                nm = re.sub('owned$', '', (var or t).lower())
                if cid is None or len(lay) == 1:
                    nm = re.sub('owned$', '', t.lower())
                nm = TYPE_ALIAS.get(nm, nm)
                own = con.name.replace('.', '').lower()
                if own.endswith(nm) and (not mod or own.startswith(mod[0]) or own.startswith(('ton', 'catchain', 'fec'))):
                    R.ob('%s/%s/meaning of %s' % (t, d, var or t), True, 'the constructor is the one the type is named after', here)
                else:
                    others = [c.name for k, c in norm.items() if k.endswith(nm) and c is not con and (not mod or k.startswith(mod[0])) and (not var or c.result == con.result)]
                    R.ob('%s/%s/meaning of %s' % (t, d, var or t), not others, '%s %s %s the constructor of %s, its name is that of %s' % (t, var, 'is written with' if d == 'TlWrite' else 'is read from', con.name, ', '.join(others)), here)
            want = con_atoms(S, con)
            for seq in sorted(seqs, key=str):
                checked.add((p, d, con.name))
                R.count('layouts compared')
                key = '%s/%s/%s' % (t, d, con.name)
                got = list(seq)
                if len(got) < len(want):
                    # a head read on its own, the rest follows where it is used
                    got += remainder(R, L, body, p, d, len(want) - len(got))
                ok = len(got) == len(want)
                R.ob(key + '/length', ok, '%s is %s as %d values, the scheme has %d' % (con.name, word, len(got), len(want)), here)
                if not ok:
                    continue
                for i, ((k, nm), (wk, wn, wc)) in enumerate(zip(got, want)):
                    R.count('values compared')
                    R.ob('%s/%d' % (key, i), same_kind(k, wk) or not nm and k == 'int' and isinstance(wk, tuple) and wk[0] == 'vector', 'value %d of %s (%s) is %s as %s, the scheme has %s: %s' % (i, con.name, nm or '-', word, show(k), wn, show(wk)), here)
                    n2 = ALIAS.get(nm, nm)
                    same = {w for kk, w, cc in want if kk == wk and cc == wc}
                    R.ob('%s/%d name' % (key, i), n2 == wn or n2 not in same, 'value %d of %s is the field %s in the code, the scheme puts %s there' % (i, con.name, nm, wn), here)
    # the packet itself: each field by name (the order is compared flag by flag in N12)
    pk = S['adnl.packetContents']
    for (p, d), body in sorted(L.impls.items()):
        if p.split('::')[-1] != 'OutgoingPacketContents' or d != 'TlWrite':
            continue
        here = '%s:%s' % (body.file, body.line)
        for cid, seq, var in writes(R, body):
            R.ob('packet/constructor', cid == pk.id, 'a packet starts with the constructor of %s' % pk.name, here)
            for ty, nm, loop in seq:
                names_ = ['reinit_date', 'dst_reinit_date'] if nm == 'reinit_dates' else [nm]
                want = [k for n, t, b in pk.fields if n in names_ for k, _, _ in flat(S, t, n, pk.name)]
                got = [k for k, _ in L.kind(ty, d, nm)]
                if len(got) == 1 and isinstance(got[0], tuple) and got[0][0] == 'opt':
                    got = list(got[0][1])
                if want and base(ty).split('<')[0].split('::')[-1] not in SPECIAL:
                    R.count('packet fields')
                    R.ob('packet/%s' % nm, len(got) == len(want) and all(same_kind(x, y) for x, y in zip(got, want)), 'the field %s of a packet is written as %s, the protocol has %s' % (nm, ', '.join(map(show, got)), ', '.join(map(show, want))), here)
    R.floor('packet fields', R.counts.get('packet fields', 0), 7)
    # an enum reads every constructor of its type
    for (p, d), body in sorted(L.impls.items()):
        if d == 'TlRead' and p in L.prog.adts and L.prog.adts[p]['kind'] == 'enum':
            ids = [i for i in L.of(p, d) if i is not None]
            rs = {L.by_id[i].result for i in ids if i in L.by_id}
            for r in rs:
                for c in S.values():
                    if c.result == r and not c.fn:
                        R.ob('%s/reads %s' % (p.split('::')[-1], c.name), c.id in ids, 'every constructor of %s can be read, %s is not' % (r, c.name), '%s:%s' % (body.file, body.line))
    for u in sorted(L.unknown):
        R.notes.append('layout of %s not expanded' % u)
    R.floor('layouts compared', R.counts.get('layouts compared', 0), 85)
    R.floor('values compared', R.counts.get('values compared', 0), 250)


FIXED = {'int': 4, 'long': 8, 'int128': 16, 'int256': 32, 'bytes': 4}


def least(k):
    """the least number of bytes a value takes"""
    if isinstance(k, tuple):
        if k[0] == 'vector':
            return 4
        if k[0] == 'boxed':
            return 4
        return 0
    return FIXED.get(k, 0)


def sum_terms(v):
    """(constant, other terms) of a sum"""
    c, rest = 0, []
    st = [v]
    while st:
        x = uncast(st.pop())
        if x[0] == 'bin' and x[1] in ('Add', 'AddUnchecked', 'AddWithOverflow'):
            st += [x[2], x[3]]
        elif x[0] == 'field' and x[1][0] == 'bin' and x[1][1] == 'AddWithOverflow':
            st += [x[1][2], x[1][3]]
        elif x[0] == 'call' and last(x[1]) in ('saturating_add', 'wrapping_add') and len(x[2]) == 2:
            st += list(x[2])
        elif x[0] == 'const' and isinstance(x[1], int):
            c += x[1]
        else:
            rest.append(x)
    return c, rest


@rule('P02', 'the size estimate of every protocol object is at least the size of what its writer emits',
      'comparison of two extracted summaries per variant: the sum returned by the estimate and the sequence emitted by the writer',
      'The estimate decides whether messages share a packet and how much memory is reserved. For each variant of each type with a writer the '
      'estimate is a sum of constants and of the estimates of fields. Every field written is either a term of the sum or its least size is '
      'covered by the constants, and the four bytes of the constructor are covered too. The padding of a packet, which is ten random bytes in '
      'two strings, counts twelve bytes.')
def p02(R):
    S = scheme()
    L = Layouts(R, S)
    L.variants = {}
    for (p, d), body in sorted(L.impls.items()):
        if d != 'TlWrite':
            continue
        t = p.split('::')[-1]
        hint = next((R.prog.bodies[b] for tr, ty, ms in R.prog.impls if tr.split('<')[0].endswith('TlWrite') and base(ty).split('<')[0] == p for n, b in ms if n == 'max_size_hint' and b in R.prog.bodies), None)
        if hint is None:
            continue
        here = '%s:%s' % (hint.file, hint.line)
        raw = writes(R, body)
        sums = {}

        class H(E.Observer):
            maydepth = 3
            part_cap = 200

            def inline(self, e, b):
                return b.file == hint.file and b.name not in ('max_size_hint', 'write_to')

            def relevant(self, f):
                return True

            def exit(self, e, ctx, st, kind, val):
                var = next((v for k, v in st.facts.items() if k[0] == 'var' and k[1][0] == 'arg' and k[1][1] in (0, 1)), '')
                # optional fields known to be absent on this path
                gone = {leaf(k[1]) for k, v in st.facts.items() if k[0] == 'var' and v == 'None'}
                for v in spread(e, val):
                    sums.setdefault(var, []).append((v, frozenset(gone)))
        R.run(H(), hint)
        R.ob('%s/estimate' % t, bool(sums), 'the estimate of %s could be extracted' % t, here)
        for cid, seq, var in sorted(raw, key=str):
            cands = sums.get(var) or sums.get('') or [v for vs in sums.values() for v in vs]
            for v, gone in cands:
                c, rest = sum_terms(v)
                covered, lens = set(), set()
                odd = False
                for x in rest:
                    if x[0] == 'call' and last(x[1]) == 'max_size_hint' and x[2]:
                        covered.add(leaf(x[2][0]))
                    elif x[0] == 'call' and last(x[1]) == 'len' and x[2]:
                        lens.add(leaf(x[2][0]))
                    else:
                        odd = True
                if odd:
                    R.count('estimates not a sum')
                need = 0 if cid is None else 4
                parts = []
                if cid is not None:
                    parts.append('4 for the constructor')
                pad = 0
                for ty, nm, loop in seq:
                    if nm in covered or nm in gone:
                        continue
                    if ty == '#raw':
                        R.ob('%s/%s raw' % (t, var), nm in lens, 'the bytes of %s written as they are count in the estimate' % nm, here)
                        continue
                    if nm in ('rand1', 'rand2'):
                        pad = 12
                        continue
                    n = sum(least(k) for k, _ in L.kind(ty, 'TlWrite', nm))
                    need += n
                    if n:
                        parts.append('%d for %s' % (n, nm))
                    k = L.kind(ty, 'TlWrite', nm)
                    varying = any(isinstance(x, tuple) or x == 'bytes' for x, _ in k)
                    R.ob('%s/%s %s' % (t, var, nm), not varying or nm in lens, 'the field %s has no fixed size, so its own estimate counts' % nm, here)
                need += pad
                R.count('variants compared')
                R.ob('%s/%s total' % (t, var), c >= need or odd, 'the constants of the estimate make %d bytes, the fields written without an estimate of their own need %d (%s)' % (c, need, ', '.join(parts)), here)
    R.floor('variants compared', R.counts.get('variants compared', 0), 45)


@rule('P03', 'conversions between borrowed and owned protocol objects keep every field in its place',
      'field provenance over every conversion method (which field of self each field of the result is built from)',
      'For every method of a protocol type that returns a protocol type with the same field names: each field of the result is built from '
      'the field of self that has its name, and from no other; for enums, each variant is converted into the variant of its name.')
def p03(R):
    prog = R.prog
    bare = lambda t: base(t).split('<')[0]

    def shape(t):
        a = prog.adts.get(t)
        if not a or not a.get('local'):
            return None
        return a['kind'], tuple((v['name'] if a['kind'] == 'enum' else '', tuple(sorted(f for f, _ in v['fields']))) for v in a['variants'])
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda x: x.id):
        if b.kind != 'fn' or not b.self_ty or b.trait and last(b.trait.split('<')[0]) not in ('From', 'Into', 'ToOwned', 'Clone') or b.argc != 1 or not b.file.startswith('src/'):
            continue
        s, r = bare(b.self_ty), bare(ret_ty(b))
        arg = bare(b.locals[1][0]) if not isinstance(b.locals[1], str) else bare(b.locals[1])
        if 'proto::' not in s or shape(arg) is None or shape(arg) != shape(r) or not any(f for _, f in shape(r)[1]):
            continue
        n += 1
        here = '%s:%s' % (b.file, b.line)
        done = []

        class C(E.Observer):
            maydepth = 3
            part_cap = 200

            def inline(self, e, x):
                return False

            def relevant(self, f):
                return True

            def exit(self, e, ctx, st, kind, val):
                if kind != 'return':
                    return
                for v in spread(e, val):
                    if v[0] != 'agg':
                        done.append(v)
                        R.ob('%s/%s result' % (r.split('::')[-1], b.name), v[0] == 'arg', 'the conversion returns an object it has built, got %s' % short(v)[:80], here)
                        continue
                    done.append(v)
                    var = next((x for k, x in st.facts.items() if k[0] == 'var' and k[1][0] == 'arg'), None)
                    if shape(r)[0] == 'enum':
                        R.ob('%s/%s variant' % (r.split('::')[-1], b.name), var is None or v[3] == var, 'the variant %s becomes %s' % (var, v[3]), here)
                    fields = {f for vn, fs in shape(r)[1] for f in fs}
                    for f, x in v[4]:
                        f = str(f).split('.')[-1]
                        got = set()
                        for y in walk_phi_e(e, x):
                            if y[0] == 'field' and isinstance(y[2], tuple) and len(y[2]) > 1 and isinstance(y[2][1], str) and root_is_arg(y[1]):
                                got.add(y[2][1].split('.')[-1])
                        got &= fields
                        R.count('fields followed')
                        R.ob('%s/%s %s' % (r.split('::')[-1], b.name, f), got == {f}, 'the field %s of the result is built from the field of the same name, got %s (%s)' % (f, sorted(got), short(x)[:60]), here)
        R.run(C(), b)
        R.ob('%s/%s builds' % (r.split('::')[-1], b.name), bool(done), 'the conversion was followed to its result', here)
    R.count('conversions', n)
    R.floor('conversions', n, 10)


def root_is_arg(v):
    """a value is the first argument of the function, or a variant of it"""
    while v[0] in ('field', 'cast', 'ref') or v[0] == 'call' and last(v[1]) in ('deref',) and v[2]:
        if v[0] == 'field' and isinstance(v[2], tuple) and len(v[2]) > 1 and isinstance(v[2][1], str) and v[2][0] == 'f' and '.' not in v[2][1]:
            return False
        v = v[1] if v[0] == 'field' else v[2][0] if v[0] == 'call' else v[-1]
    return v[0] == 'arg'


def walk_phi_e(e, v):
    from rules_adnl import walk_phi
    return walk_phi(e, v)
