#!/usr/bin/env python3
"""Independent oracle generator.

Parses a (restricted) FlatBuffers schema with its own parser and emits, from the
published FlatBuffers layout rules alone, the Rust harness code for it: symbolic
value generators, canonical dumps of owned values, a reference reader and the
accessor dumps it is compared against.  Nothing here comes from planus' compiler.
usage: fbsgen.py SCHEMA MODPATH OUT.rs
"""
import re, sys, struct as st

SC = {'bool': ('bool', 1), 'byte': ('i8', 1), 'ubyte': ('u8', 1), 'short': ('i16', 2), 'ushort': ('u16', 2),
      'int': ('i32', 4), 'uint': ('u32', 4), 'float': ('f32', 4), 'long': ('i64', 8), 'ulong': ('u64', 8), 'double': ('f64', 8)}
for a, b in {'int8': 'byte', 'uint8': 'ubyte', 'int16': 'short', 'uint16': 'ushort', 'int32': 'int', 'uint32': 'uint',
             'float32': 'float', 'int64': 'long', 'uint64': 'ulong', 'float64': 'double'}.items():
    SC[a] = SC[b]


def lex(s):
    s = re.sub(r'//[^\n]*', '', s)
    return re.findall(r'"[^"]*"|-?[0-9][0-9A-Za-z_.]*(?:[eE][-+]?[0-9]+)?|[A-Za-z_][A-Za-z0-9_]*|[-{}()\[\]:;,=]', s)


class S:
    def __init__(self, text):
        self.t = lex(text); self.i = 0
        self.enums, self.structs, self.tables, self.unions, self.order = {}, {}, {}, {}, []
        while self.i < len(self.t):
            k = self.nx()
            if k in ('namespace', 'root_type', 'file_identifier', 'attribute'):
                while self.nx() != ';': pass
            elif k == 'enum': self.enum()
            elif k == 'struct': self.struct()
            elif k == 'table': self.table()
            elif k == 'union': self.union()
            else: raise SystemExit('bad decl ' + k)

    def nx(self):
        self.i += 1; return self.t[self.i - 1]
    def pk(self): return self.t[self.i]
    def ex(self, x):
        y = self.nx()
        if x != y: raise SystemExit('expected %s got %s' % (x, y))
    def num(self):
        x = self.nx()
        if x == '-': x = '-' + self.nx()
        return int(x, 0)
    def meta(self):
        m = {}
        if self.pk() == '(':
            self.nx()
            while self.pk() != ')':
                k = self.nx(); v = True
                if self.pk() == ':':
                    self.nx(); v = self.nx()
                m[k] = v
                if self.pk() == ',': self.nx()
            self.nx()
        return m
    def enum(self):
        n = self.nx(); self.ex(':'); u = self.nx(); m = self.meta(); self.ex('{')
        vs, nxt = [], 0
        while self.pk() != '}':
            v = self.nx()
            if self.pk() == '=':
                self.nx(); nxt = self.num()
            vs.append((v, (1 << nxt) if 'bit_flags' in m else nxt)); nxt += 1
            if self.pk() == ',': self.nx()
        self.nx(); self.enums[n] = (SC[u], vs); self.order.append(n)
    def type(self):
        t = self.nx()
        if t == '[':
            r = ('vec', self.type()); self.ex(']'); return r
        if t == 'string': return ('str',)
        if t in SC: return ('sc',) + SC[t]
        return ('name', t)
    def res(self, t):
        if t[0] == 'vec': return ('vec', self.res(t[1]))
        if t[0] != 'name': return t
        n = t[1]
        for k, d in (('enum', self.enums), ('struct', self.structs), ('table', self.tables), ('union', self.unions)):
            if n in d: return (k, n)
        raise SystemExit('unknown type ' + n)
    def struct(self):
        n = self.nx(); m = self.meta(); self.ex('{'); fs = []
        while self.pk() != '}':
            f = self.nx(); self.ex(':'); t = self.type(); self.meta(); self.ex(';'); fs.append((f, t))
        self.nx(); self.structs[n] = (fs, int(m.get('force_align', 1))); self.order.append(n)
    def table(self):
        n = self.nx(); self.meta(); self.ex('{'); fs = []
        while self.pk() != '}':
            f = self.nx(); self.ex(':'); t = self.type(); d = None
            if self.pk() == '=':
                self.nx(); d = self.nx()
                if d == '-': d = '-' + self.nx()
                if d == '[':
                    self.ex(']'); d = '[]'
            m = self.meta(); self.ex(';'); fs.append([f, t, d, m])
        self.nx(); self.tables[n] = fs; self.order.append(n)
    def union(self):
        n = self.nx(); self.ex('{'); vs = []
        while self.pk() != '}':
            a = self.nx()
            if self.pk() == ':':
                self.nx(); t = self.type()
                vs.append((a, t))
            else:
                vs.append((a, ('name', a) if a != 'string' else ('str',)))
            if self.pk() == ',': self.nx()
        self.nx(); self.unions[n] = vs; self.order.append(n)
    # ---- layout, from the FlatBuffers documentation
    def al(self, t):
        if t[0] == 'sc': return t[2]
        if t[0] == 'enum': return self.enums[t[1]][0][1]
        if t[0] == 'struct': return self.slay(t[1])[1]
        return 4
    def sz(self, t):
        if t[0] == 'sc': return t[2]
        if t[0] == 'enum': return self.enums[t[1]][0][1]
        if t[0] == 'struct': return self.slay(t[1])[0]
        return 4
    def slay(self, n):
        fs, fa = self.structs[n]; o, a, r = 0, fa, []
        for f, t in fs:
            t = self.res(t); x = self.al(t); a = max(a, x); o = (o + x - 1) // x * x; r.append((f, t, o)); o += self.sz(t)
        return (o + a - 1) // a * a, a, r
    def slots(self, n):
        """[(field, type, default, meta, slot of the value, has tag slot)]"""
        fs = [(f, self.res(t), d, m) for f, t, d, m in self.tables[n]]
        isu = lambda t: t[0] == 'union' or (t[0] == 'vec' and t[1][0] == 'union')
        r, nxt = [], 0
        for f, t, d, m in fs:
            if 'id' in m: s = int(m['id'])
            else:
                s = nxt + (1 if isu(t) else 0); nxt = s + 1
            r.append((f, t, d, m, s, isu(t)))
        return r


def snake(x): return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', x).lower()
def camel(x): return x[0].upper() + x[1:]


def emit(s, mod, pfx=''):
    o = []; w = o.append; KS = {}
    w('// generated by fbsgen.py')
    w('use crate::refr::*; use crate::sym; use %s as G; use planus::{Builder, ReadAsRoot, WriteAsOffset, WriteAsUnion};' % mod)
    le = lambda v, n: list((v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))

    def owned(t):
        k = t[0]
        if k == 'sc': return t[1]
        if k == 'str': return 'String'
        if k == 'vec': return 'Vec<%s>' % ('G::' + t[1][1] if t[1][0] == 'table' else owned(t[1]))
        if k == 'table': return 'Box<G::%s>' % t[1]
        return 'G::' + t[1]
    fallible = lambda t: t[0] in ('enum', 'table', 'str', 'union')
    def enumpat(n):
        (rt, sz), vs = s.enums[n]; return rt, sz, vs
    # dump of an owned value expression `v` (a place)
    def can(t, v):
        k = t[0]
        if k == 'sc':
            if t[1] == 'bool': return 'o.put(&[%s as u8]);' % v
            if t[1] in ('f32', 'f64'): return 'o.put(&%s.to_bits().to_le_bytes());' % v
            return 'o.put(&%s.to_le_bytes());' % v
        if k == 'enum': return 'c_%s(%s, o);' % (t[1], v)
        if k == 'struct': return 'c_%s(&%s, o);' % (t[1], v)
        if k == 'str': return 'o.bytes(%s.as_bytes());' % v
        if k == 'table': return 'c_%s(&%s, o);' % (t[1], v)
        if k == 'union': return 'c_%s(&%s, o);' % (t[1], v)
        if k == 'vec':
            e = t[1]
            return 'o.len(%s.len()); for e in %s.iter() { %s %s }' % (v, v, 'o.put(&[1]);' if fallible(e) else '', can(e, '(*e)') if e[0] in ('enum', 'sc') else can(e, 'e'))
    # reference read of type t whose field sits at position p
    def ref(t, p, base='t.pos'):
        k = t[0]
        if k == 'sc':
            if t[1] == 'bool': return 'let x = b.arr::<1>(%s)?; o.put(&[(x[0] != 0) as u8]);' % p
            return 'let x = b.arr::<%d>(%s)?; o.put(&x);' % (t[2], p)
        if k == 'enum': return 'r_%s(b, %s, o)?;' % (t[1], p)
        if k == 'struct': return 'r_%s(b, %s, o)?;' % (t[1], p)
        if k == 'str': return 'let q = b.off(%s)?; b.str(q, o)?;' % p
        if k == 'table': return 'let q = b.off(%s)?; r_%s(b, %s, q, o)?;' % (p, t[1], base)
        if k == 'vec':
            e = t[1]
            body = ref(e, '(q + %d * i)' % s.sz(e), '(q + %d * i)' % s.sz(e))
            if fallible(e):
                body = 'o.mark(|o| { %s Ok(()) });' % body
            return 'let (q, n) = b.vec(%s, %d, %d)?; o.len(n); for i in 0..n { %s }' % (p, s.sz(e), s.al(e), body.replace('let q = b.off(%s)?; r_' % ('(q + %d * i)' % s.sz(e)), 'let z = b.off((q + 4 * i))?; r_').replace('(q + 4 * i), q, o)', '(q + 4 * i), z, o)'))
        raise SystemExit('ref ' + str(t))
    # dump of what an accessor returned
    def acc(t, v):
        k = t[0]
        if k == 'sc': return can(t, v)
        if k == 'enum': return 'c_%s(%s, o);' % (t[1], v)
        if k == 'struct': return 'a_%s(%s, o)?;' % (t[1], v)
        if k == 'str': return 'o.bytes(%s.as_bytes());' % v
        if k == 'table': return 'a_%s(%s, o)?;' % (t[1], v)
        if k == 'union': return 'a_%s(%s, o)?;' % (t[1], v)
        if k == 'vec':
            e = t[1]
            if e[0] in ('sc',) and e[2] == 1 and e[1] != 'bool':
                return 'o.len(%s.len()); for e in %s.iter() { %s }' % (v, v, acc(e, '(*e)'))
            if fallible(e):
                return 'o.len(%s.len()); for e in %s.iter() { o.mark(|o| { let e = e.map_err(|_| ())?; %s Ok(()) }); }' % (v, v, acc(e, 'e'))
            return 'o.len(%s.len()); for e in %s.iter() { %s }' % (v, v, acc(e, 'e'))
    def gen(t):
        k = t[0]
        if k == 'sc': return 'sym::%s()' % t[1]
        if k == 'str': return 'g.string()'
        if k == 'table': return 'Box::new(g_%s(&mut g.deeper()))' % t[1]
        if k == 'vec': return '{ let n = g.n(); let mut v: %s = Vec::with_capacity(n); for _ in 0..n { v.push(%s%s); } v }' % (owned(t), '*' if t[1][0] == 'table' else '', gen(t[1]))
        return 'g_%s(g)' % t[1]

    for n in s.order:
        if n in s.enums:
            rt, sz, vs = enumpat(n)
            uniq, seen = [], set()
            for v, x in vs:
                if x not in seen: uniq.append((v, x)); seen.add(x)
            w('pub fn c_%s(v: G::%s, o: &mut Out) { let x: %s = match v { %s }; o.put(&x.to_le_bytes()); }' % (n, n, rt, ' '.join('G::%s::%s => %d,' % (n, camel(v), x) for v, x in vs)))
            w('pub fn r_%s(b: &B, p: usize, o: &mut Out) -> R<()> { let x = %s::from_le_bytes(b.arr::<%d>(p)?); if !(%s) { return Err(()); } o.put(&x.to_le_bytes()); Ok(()) }' % (n, rt, sz, ' | '.join('(x == %d)' % x for _, x in uniq)))
            w('pub fn g_%s(_g: &mut Gen) -> G::%s { let i = sym::u8(); sym::assume(i < %d); match i { %s _ => G::%s::%s } }' % (n, n, len(vs), ' '.join('%d => G::%s::%s,' % (i, n, camel(v)) for i, (v, _) in enumerate(vs[:-1])), n, camel(vs[-1][0])))
        elif n in s.structs:
            size, al, fs = s.slay(n)
            w('pub fn c_%s(v: &G::%s, o: &mut Out) { %s }' % (n, n, ' '.join(can(t, 'v.%s' % f) for f, t, _ in fs)))
            # struct accessors return Result for enum members
            w('pub fn a_%s(v: G::%sRef, o: &mut Out) -> R<()> { %s Ok(()) }' % (n, n, ' '.join(acc(t, 'v.%s()%s' % (f, '.map_err(|_| ())?' if t[0] == 'enum' else '')) for f, t, _ in fs)))
            def pads(fs, size):
                r, e = [], 0
                for f, t, off in fs + [(0, None, size)]:
                    if off > e: r.append('b.free(p + %d, %d);' % (e, off - e))
                    e = off + (s.sz(t) if t else 0)
                return ' '.join(r)
            w('pub fn r_%s(b: &B, p: usize, o: &mut Out) -> R<()> { b.need(p, %d)?; b.align(p, %d); %s %s Ok(()) }' % (n, size, al, pads(fs, size), ' '.join('{ %s }' % ref(t, '(p + %d)' % off) for f, t, off in fs)))
            w('pub fn g_%s(g: &mut Gen) -> G::%s { let _ = &g; G::%s { %s } }' % (n, n, n, ', '.join('%s: %s' % (f, gen(t)) for f, t, _ in fs)))
            w('pub const LAY_%s: (usize, usize, &[usize]) = (%d, %d, &[%s]);' % (n, size, al, ', '.join(str(x[2]) for x in fs)))
        elif n in s.unions:
            vs = [(camel(a), s.res(t)) for a, t in s.unions[n]]
            w('pub fn c_%s(v: &G::%s, o: &mut Out) { match v { %s } }' % (n, n, ' '.join('G::%s::%s(x) => { o.put(&[%d]); %s }' % (n, a, i + 1, can(t, 'x')) for i, (a, t) in enumerate(vs))))
            w('pub fn a_%s(v: G::%sRef, o: &mut Out) -> R<()> { match v { %s } Ok(()) }' % (n, n, ' '.join('G::%sRef::%s(x) => { o.put(&[%d]); %s }' % (n, a, i + 1, acc(t, 'x')) for i, (a, t) in enumerate(vs))))
            # every union value, structs and strings included, sits behind an offset
            def uref(t):
                if t[0] == 'struct': return 'let q = b.off(p)?; b.need(q, %d)?; b.mark(q, %d, 1); r_%s(b, q, o)?;' % (s.sz(t), s.sz(t), t[1])
                return ref(t, 'p', 'base')
            w('pub fn r_%s(b: &B, base: usize, tag: u8, p: usize, o: &mut Out) -> R<()> { match tag { %s _ => return Err(()) } Ok(()) }' % (n, ' '.join('%d => { o.put(&[%d]); %s }' % (i + 1, i + 1, uref(t)) for i, (a, t) in enumerate(vs))))
            w('pub fn g_%s(g: &mut Gen) -> G::%s { match sym::pick(%d) { %s _ => G::%s::%s(%s) } }' % (n, n, len(vs), ' '.join('%d => G::%s::%s(%s),' % (i, n, a, gen(t)) for i, (a, t) in enumerate(vs[:-1])), n, vs[-1][0], gen(vs[-1][1])))
            w('pub fn ub_%s(b: &mut Builder, v: &G::%s) -> planus::UnionOffset<G::%s> { match v { %s } }' % (n, n, n, ' '.join('G::%s::%s(x) => G::%s::builder().%s(x).finish(b),' % (n, a, n, snake(a)) for a, t in vs)))
            w('pub fn uc_%s(b: &mut Builder, v: &G::%s) -> planus::UnionOffset<G::%s> { match v { %s } }' % (n, n, n, ' '.join('G::%s::%s(x) => { let y = WriteAsOffset::prepare(%s, b); G::%s::create_%s(b, y) }' % (n, a, 'x.as_str()' if t[0] == 'str' else 'x', n, snake(a)) for a, t in vs)))

    for n in s.order:
        if n not in s.tables: continue
        fs = [f for f in s.slots(n)]
        live = [f for f in fs if 'deprecated' not in f[3]]
        def kind(f, t, d, m):
            """'default' bytes | 'opt' | 'req'"""
            if t[0] in ('sc', 'enum'):
                if d == 'null': return 'opt', None
                if t[0] == 'enum':
                    (rt, sz), vs = s.enums[t[1]]
                    if d is None: v = 0
                    elif re.match(r'-?[0-9]', d): v = int(d, 0)
                    else: v = dict(vs)[d]
                    return 'def', le(v, sz)
                if t[1] in ('f32', 'f64'):
                    return 'def', list(st.pack('<f' if t[1] == 'f32' else '<d', float(d or '0')))
                if t[1] == 'bool': return 'def', [1 if d == 'true' else 0]
                return 'def', le(int(d, 0) if d else 0, t[2])
            if 'required' in m: return 'req', None
            if d == '[]': return 'emptyvec', None
            if d is not None and d[0] == '"': return 'strdef', list(d[1:-1].encode())
            return 'opt', None
        ks = {f[0]: kind(f[0], f[1], f[2], f[3]) for f in live}; KS[n] = ks
        # owned dump
        body = []
        for f, t, d, m, sl, u in live:
            k = ks[f][0]
            if k in ('def', 'req', 'emptyvec', 'strdef'):
                if t[0] == 'sc' and t[1] in ('f32', 'f64'):
                    # IEEE equality decides whether a field equals its default: -0.0 is stored as 0.0
                    dv = t[1] + '::from_le_bytes([%s])' % ', '.join(map(str, ks[f][1]))
                    body.append('{ let x = if o.2 && v.%s == %s { %s } else { v.%s }; %s }' % (f, dv, dv, f, can(t, 'x')))
                else: body.append(can(t, 'v.%s' % f))
            else: body.append('match &v.%s { None => o.put(&[0]), Some(x) => { o.put(&[1]); %s } }' % (f, can(t, '(*x)') if t[0] in ('enum', 'sc') else can(t, 'x')))
        w('pub fn c_%s(v: &G::%s, o: &mut Out) { let _ = (v, &o); %s }' % (n, n, ' '.join(body)))
        # per-field reference and accessor dumps
        for f, t, d, m, sl, u in live:
            k, dv = ks[f]
            if t[0] == 'union':
                inner = 'match b.utag(t, %d)? { Some((tag, p)) => { %%s r_%s(b, t.pos, tag, p, o)?; } None => %%s }' % (sl - 1, t[1])
            elif u:
                inner = 'match b.uvec(t, %d)? { Some((tg, q, n)) => { %%s o.len(n); for i in 0..n { let tag = b.u8(tg + i)?; o.mark(|o| r_%s(b, q + 4 * i, tag, q + 4 * i, o)); } } None => %%s }' % (sl - 1, t[1][1])
            else:
                inner = 'match t.slot(b, %d, %d, %d)? { Some(p) => { %%s %s } None => %%s }' % (sl, s.sz(t), s.al(t), ref(t, 'p').replace('%', '%%'))
            some, none = {'def': ('', '{ o.put(&[%s]); }' % ', '.join(map(str, dv or []))), 'req': ('', 'return Err(()),'),
                          'opt': ('o.put(&[1]);', '{ o.put(&[0]); }'), 'emptyvec': ('', '{ o.len(0); }'), 'strdef': ('', '{ o.bytes(&[%s]); }' % ', '.join(map(str, dv or [])))}[k]
            if k == 'def': some += 'b.nodef(p, &[%s]);' % ', '.join(map(str, dv))
            if k == 'emptyvec': some += ('b.noempty(q);' if u else 'b.nostr(p, &[]);')
            if k == 'strdef': some += 'b.nostr(p, &[%s]);' % ', '.join(map(str, dv))
            w('pub fn rf_%s_%s(b: &B, t: &Tab, o: &mut Out) -> R<()> { %s Ok(()) }' % (n, f, inner % (some, none)))
            x = 'r.%s().map_err(|_| ())?' % f
            if k == 'opt':
                ab = 'match %s { None => o.put(&[0]), Some(x) => { o.put(&[1]); %s } }' % (x, acc(t, 'x'))
            else: ab = 'let x = %s; %s' % (x, acc(t, 'x'))
            w('pub fn af_%s_%s(r: &G::%sRef, o: &mut Out) -> R<()> { %s Ok(()) }' % (n, f, n, ab))
        # deprecated slots still have to be well placed
        w('pub fn r_%s(b: &B, base: usize, p: usize, o: &mut Out) -> R<()> { let t = &b.tab(base, p)?; let _ = (&t, &o); %s %s Ok(()) }' % (n, ' '.join('b.absent(t, %d);' % i for f in fs if 'deprecated' in f[3] for i in ([f[4] - 1, f[4]] if f[5] else [f[4]])), ' '.join('rf_%s_%s(b, t, o)?;' % (n, f[0]) for f in live)))
        w('pub fn a_%s(r: G::%sRef, o: &mut Out) -> R<()> { let r = &r; let _ = (r, &o); %s Ok(()) }' % (n, n, ' '.join('af_%s_%s(r, o)?;' % (n, f[0]) for f in live)))
        # what errors say
        def es(t, v, q):
            if t[0] == 'table': return 'if dep > 0 { er_%s(b, %s, &%s, 0, dep - 1); }' % (t[1], q, v)
            if t[0] == 'struct': return ' '.join('if let Err(e) = %s.%s() { sym::check(loc(&e.source_location, "%sRef", "%s", %s + %d), 130); { let source = e.error_kind; sym::check(%s, 132); }; }' %
                                                 (v, g, t[1], g, q, go, 'b.arr::<%d>(%s + %d).map_or(false, |x| %s::from_le_bytes(x) as i128 == source.tag)' % (s.sz(gt), q, go, s.enums[gt[1]][0][0])) for g, gt, go in s.slay(t[1])[2] if gt[0] == 'enum')
            return ''
        ern = []
        for i, (f, t, d, m, sl, u) in enumerate(live):
            k = ks[f][0]
            ek = lambda what: 'planus::errors::ErrorKind::' + what
            arms = []
            slot = 't.slot(b, %d, %d, %d)' % (sl, s.sz(t), s.al(t))
            if k == 'req': arms.append('planus::errors::ErrorKind::MissingRequired => sym::check(%s, 131),' % ('b.cell(t, %d) == Ok(0) || b.cell(t, %d) == Ok(0) || b.cell(t, %d).and_then(|v| b.u8(pos + v)) == Ok(0)' % (sl - 1, sl, sl - 1) if t[0] == 'union' else 't.vtlen == %d || b.cell(t, %d) == Ok(0) && b.cell(t, %d) == Ok(0)' % (4 + 2 * sl, sl - 1, sl) if u else 'matches!(%s, Ok(None))' % slot))
            else: arms.append('planus::errors::ErrorKind::MissingRequired => sym::check(false, 131),')
            if t[0] == 'enum':
                rt, sz, vs = enumpat(t[1])
                arms.append('planus::errors::ErrorKind::UnknownEnumTag { source } => sym::check(matches!(%s, Ok(Some(p)) if b.arr::<%d>(p).map_or(false, |x| %s::from_le_bytes(x) as i128 == source.tag && !(%s))), 132),' % (slot, sz, rt, ' | '.join('(source.tag == %d)' % z for z in sorted({z for _, z in vs}))))
            else: arms.append('planus::errors::ErrorKind::UnknownEnumTag { .. } => sym::check(false, 132),')
            if t[0] == 'union': arms.append('planus::errors::ErrorKind::UnknownUnionTag { tag } => sym::check(tag > %d && b.cell(t, %d).and_then(|v| b.u8(pos + v)) == Ok(tag), 132),' % (len(s.unions[t[1]]), sl - 1))
            else: arms.append('planus::errors::ErrorKind::UnknownUnionTag { .. } => sym::check(false, 132),')
            if not (t[0] == 'str' or t[0] == 'union'): arms.append('planus::errors::ErrorKind::InvalidUtf8 { .. } => sym::check(false, 133),')
            if not (t[0] == 'vec' and u): arms.append('planus::errors::ErrorKind::UnionVectorLengthsMismatched { .. } => sym::check(false, 133),')
            else: arms.append('planus::errors::ErrorKind::UnionVectorLengthsMismatched { tags_len, values_len } => sym::check(tags_len != values_len && b.cell(t, %d).and_then(|v| b.off(pos + v)).and_then(|q| b.u32(q)) == Ok(tags_len) && b.cell(t, %d).and_then(|v| b.off(pos + v)).and_then(|q| b.u32(q)) == Ok(values_len), 132),' % (sl - 1, sl))
            if t[0] not in ('table', 'union'): arms.append('planus::errors::ErrorKind::InvalidVtableLength { .. } => sym::check(false, 133),')
            more = ''
            if t[0] == 'enum': more = 'if let Ok(Some(p)) = %s { if let Ok(x) = b.arr::<%d>(p) { if !(%s) { sym::check(matches!(e.error_kind, planus::errors::ErrorKind::UnknownEnumTag { .. }), 132); } } }' % (slot, sz, ' | '.join('(%s::from_le_bytes(x) == %d)' % (rt, z) for z in sorted({z for _, z in vs})))
            if k == 'req' and not u: more = 'if let Ok(None) = %s { sym::check(matches!(e.error_kind, planus::errors::ErrorKind::MissingRequired), 131); }' % slot
            ok = ''
            if t[0] == 'table': ok = 'if let Ok(Some(p)) = %s { if let Ok(q) = b.off(p) { %s } }' % (slot, es(t, 'x', 'q'))
            if t[0] == 'struct': ok = 'if let Ok(Some(p)) = %s { %s }' % (slot, es(t, 'x', 'p'))
            if t[0] == 'union': ok = 'if let Ok(q) = b.cell(t, %d).and_then(|v| b.off(pos + v)) { match x { %s _ => () } }' % (sl, ' '.join('G::%sRef::%s(x) => { %s }' % (t[1], camel(a), es(s.res(y), 'x', 'q')) for a, y in s.unions[t[1]] if s.res(y)[0] in ('table', 'struct')))
            if t[0] == 'vec' and t[1][0] in ('table', 'struct', 'enum') and (t[1][0] != 'struct' or es(t[1], 'x', 'q')):
                e = t[1]
                if e[0] == 'table': bd = 'if let (Ok(x), Ok(q)) = (x, b.off(v + 4 * i)) { %s }' % es(e, 'x', 'q')
                elif e[0] == 'struct': bd = 'let q = v + %d * i; %s' % (s.sz(e), es(e, 'x', 'q'))
                else:
                    rt, sz, vs = enumpat(e[1])
                    bd = 'if let Err(e) = x { sym::check(b.arr::<%d>(v + %d * i).map_or(false, |z| %s::from_le_bytes(z) as i128 == e.error_kind.tag), 132); }' % (sz, sz, rt)
                ok = 'if let Ok(Some(p)) = %s { if let Ok((v, _)) = b.vec(p, %d, %d) { for (i, x) in x.iter().enumerate() { %s } } }' % (slot, s.sz(e), s.al(e), bd)
            if ok and k in ('opt',): ok = 'if let Some(x) = x { %s }' % ok
            ern.append('if only == 0 || only == %d { match r.%s() { Err(e) => { sym::check(loc(&e.source_location, "%s", "%s", pos), 130); match e.error_kind { %s _ => () } %s } Ok(x) => { let _ = &x; %s } } }' % (i + 1, f, n, f, ' '.join(arms), more, ok))
        w('pub fn er_%s(b: &B, pos: usize, r: &G::%sRef, only: u64, dep: usize) { if let Ok(tt) = b.tab(pos, pos) { let t = &tt; let _ = (r, dep, only); %s } }' % (n, n, ' '.join(ern)))
        # symbolic values
        def fgen(f, t, m):
            k = ks[f][0]
            if k == 'strdef': return 'if sym::bool() { String::from_utf8(vec![%s]).unwrap() } else { g.string() }' % ', '.join(map(str, ks[f][1]))
            if k == 'emptyvec' and t[1][0] in ('table', 'union'): return 'if g.depth > 0 { %s } else { Vec::new() }' % gen(t)
            if k != 'opt': return gen(t)
            if t[0] in ('sc', 'enum', 'struct'): return 'if sym::bool() { Some(%s) } else { None }' % gen(t)
            if t[0] in ('table', 'union') or (t[0] == 'vec' and t[1][0] in ('table', 'union')): return 'if g.depth > 0 && sym::bool() { Some(%s) } else { None }' % gen(t)
            return 'if sym::bool() { Some(%s) } else { None }' % gen(t)
        w('pub fn g_%s(g: &mut Gen) -> G::%s { let _ = &g; G::%s { %s } }' % (n, n, n, ', '.join('%s: %s' % (f[0], fgen(f[0], f[1], f[3])) for f in live)))
        # the ways to write one
        def arg(f, t, form):
            k = ks[f][0]
            if form == 'val': return '&v.%s' % f, ''
            # children first, then their offsets
            def pre(t, x):
                if t[0] == 'str': return 'b.create_string(%s.as_str())' % x
                if t[0] == 'vec' and t[1][0] == 'union': return 'b.create_union_vector(%s.as_slice())' % x
                if t[0] == 'vec' and t[1][0] in ('str', 'table'): return '{ let os: Vec<_> = %s.iter().map(|e| WriteAsOffset::prepare(e, b)).collect(); b.create_vector(os.as_slice()) }' % x
                if t[0] == 'vec': return 'b.create_vector(%s.as_slice())' % x
                if t[0] == 'table': return 'WriteAsOffset::prepare(%s, b)' % (x)
                if t[0] == 'union': return 'uc_%s(b, %s)' % (t[1], x)
            if t[0] in ('sc', 'enum', 'struct'): return 'v.%s' % f, ''
            if k == 'opt': return 'x_%s' % f, 'let x_%s = match &v.%s { Some(x) => Some(%s), None => None };' % (f, f, pre(t, 'x'))
            if k in ('emptyvec', 'strdef'): return '&v.%s' % f, ''
            return 'x_%s' % f, 'let x_%s = { let x = &v.%s; %s };' % (f, f, pre(t, 'x'))
        order = live
        av = [arg(f[0], f[1], 'val') for f in order]; ao = [arg(f[0], f[1], 'off') for f in order]
        w('''pub fn w_%s(form: usize, b: &mut Builder, v: &G::%s) -> planus::Offset<G::%s> { match form {
 0 => WriteAsOffset::prepare(v, b),
 1 => G::%s::create(b, %s),
 2 => { %s G::%s::create(b, %s) }
 3 => G::%s::builder()%s.finish(b),
 _ => { %s G::%s::builder()%s.finish(b) } } }''' % (n, n, n, n, ', '.join(a for a, _ in av), ' '.join(p for _, p in ao), n, ', '.join(a for a, _ in ao),
            n, ''.join('.%s(%s)' % (f[0], a[0]) for f, a in zip(order, av)), ' '.join(p for _, p in ao), n, ''.join('.%s(%s)' % (f[0], a[0]) for f, a in zip(order, ao))))
        w('pub fn f_%s(b: &mut Builder, v: &G::%s, form: usize, id: Option<[u8; 4]>) { if form == 0 { b.finish(v, id); } else { let o = w_%s(form, b, v); b.finish(o, id); } }' % (n, n, n))
        # everything left at its default
        dfl = all(ks[f[0]][0] != 'req' for f in live)
        if dfl:
            isopt = lambda f: ks[f[0]][0] == 'opt'
            w('''pub fn d_%s(form: usize, b: &mut Builder) -> planus::Offset<G::%s> { match form {
 0 => { let v = <G::%s as Default>::default(); WriteAsOffset::prepare(&v, b) }
 1 => G::%s::builder()%s.finish(b),
 _ => G::%s::create(b, %s) } }''' % (n, n, n, n, ''.join('.%s_as_%s()' % (f[0], 'null' if isopt(f) else 'default') for f in live), n, ', '.join('()' if isopt(f) else 'planus::DefaultValue' for f in live)))
        sl4 = []
        for i, (f, t, d, m, sl, u) in enumerate(live):
            if u:
                sl4 += [(sl - 1, 4 if t[0] == 'vec' else 1, 4 if t[0] == 'vec' else 1, i, t[0] == 'vec'), (sl, 4, 4, i, True)]
            else:
                sl4.append((sl, s.sz(t), s.al(t), i, t[0] in ('str', 'vec', 'table')))
        sl4.sort()
        # entries
        w('''pub struct T_%s;
impl Tbl for T_%s { type O = G::%s;
 fn gen(g: &mut Gen) -> G::%s { g_%s(g) }
 fn canon(v: &G::%s, o: &mut Out) { c_%s(v, o) }
 fn refr(b: &B, p: usize, o: &mut Out) -> R<()> { r_%s(b, 0, p, o) }
 fn finish(b: &mut Builder, v: &G::%s, form: usize, id: Option<[u8; 4]>) { f_%s(b, v, form, id) }
 fn acc(d: &[u8], o: &mut Out) -> R<()> { a_%s(G::%sRef::read_as_root(d).map_err(|_| ())?, o) }
 fn owned(d: &[u8]) -> R<G::%s> { G::%s::try_from(G::%sRef::read_as_root(d).map_err(|_| ())?).map_err(|_| ()) }
 fn fields(d: &[u8], only: u64, f: &mut dyn FnMut(R<Out>, R<Out>, bool)) -> bool {
  let b = B::plain(d); let t = b.off(0).and_then(|p| b.tab(0, p)); let r = G::%sRef::read_as_root(d);
  match (t, r) { (Ok(t), Ok(r)) => { let _ = (&t, &r); %s true } (Err(_), Err(_)) => true, _ => false } }
 fn errs(d: &[u8], only: u64) {
  let b = B::plain(d);
  match G::%sRef::read_as_root(d) { Ok(r) => if let Ok(p) = b.off(0) { er_%s(&b, p, &r, only, 2) }, Err(e) => sym::check(loc(&e.source_location, "[%sRef]", "read_as_root", 0), 130) } }
 const SLOTS: &'static [(usize, usize, usize, usize, bool)] = &[%s];
 fn dflt() -> G::%s { %s }
 fn dwrite(form: usize, b: &mut Builder) { %s }
}''' % ((n,) * 16 + (' '.join('if only == 0 || only == %d { b.back.set(false); let w = out(|o| rf_%s_%s(&b, &t, o)); f(w, out(|o| af_%s_%s(&r, o)), b.back.get()); }' % (i + 1, n, f[0], n, f[0]) for i, f in enumerate(live)),) + (n, n, n) + (', '.join('(%d, %d, %d, %d, %s)' % (a, b, c, i, 'true' if x else 'false') for a, b, c, i, x in sl4), n, '<G::%s as Default>::default()' % n if dfl else 'unreachable!()',
            'let o = d_%s(form, b); b.finish(o, None);' % n if dfl else 'let _ = (form, b); unreachable!()')))
        s.dfl = getattr(s, 'dfl', {}); s.dfl[n] = dfl
    ent = []
    # ---- enums and structs on their own
    def hasenum(n): return any(t[0] == 'enum' or (t[0] == 'struct' and hasenum(t[1])) for _, t, _ in s.slay(n)[2])
    def hasfloat(n): return any(t[0] == 'sc' and t[1][0] == 'f' or (t[0] == 'struct' and hasfloat(t[1])) for _, t, _ in s.slay(n)[2])
    for n in s.order:
        if n in s.enums:
            rt, sz, vs = enumpat(n)
            w("""pub fn e_%s() {
 let x = sym::%s(); let r = G::%s::try_from(x); sym::check(r.is_ok() == (%s), 100);
 match r { Ok(v) => { let o = out(|o| { c_%s(v, o); Ok(()) }); sym::check(same(&o.unwrap().0, &x.to_le_bytes()) && %s::from(v) == x, 101); } Err(e) => sym::check(e.tag == x as i128, 102) }
 sym::check(G::%s::ENUM_VALUES.len() == %d, 103);
 let v = g_%s(&mut Gen::from_params(2)); let x = %s::from(v);
 let o = out(|o| { c_%s(v, o); Ok(()) }); sym::check(same(&o.unwrap().0, &x.to_le_bytes()), 101);
 sym::check(G::%s::try_from(x) .ok() == Some(v), 101); sym::check(G::%s::ENUM_VALUES.iter().filter(|e| **e == v).count() == 1, 103);
 let u = g_%s(&mut Gen::from_params(2)); let y = %s::from(u);
 sym::check((u == v) == (x == y) && v.cmp(&u) == x.cmp(&y) && v.partial_cmp(&u) == Some(x.cmp(&y)), 104);
 sym::check(<G::%s as planus::Primitive>::SIZE == %d && <G::%s as planus::Primitive>::ALIGNMENT == %d, 105);
 let w = prim::<G::%s, %d>(&v); sym::check(same(&w, &x.to_le_bytes()), 106); }""" % (n, rt, n, ' | '.join('(x == %d)' % x for x in sorted({x for _, x in vs})), n, rt, n, len(vs), n, rt, n, n, n, n, rt, n, sz, n, sz, n, sz))
            ent.append('enum_%s%s = e_%s' % (pfx, n, n))
        elif n in s.structs:
            size, al, fs = s.slay(n)
            cmp = ''
            if not hasenum(n):
                lex = 'Some(std::cmp::Ordering::Equal)'
                for f, t, _ in reversed(fs): lex = 'match x.%s.partial_cmp(&y.%s) { Some(std::cmp::Ordering::Equal) => %s, z => z }' % (f, f, lex)
                cmp = """if sym::param(0) == 1 { let d2 = sym::bytes::<%d>(); let r2 = G::%sRef::from(planus::ArrayWithStartOffset { buffer: &d2, offset_from_start: 0 });
 let (x, y) = (G::%s::from(r), G::%s::from(r2)); let eq = %s;
 sym::check((r == r2) == eq && (x == y) == eq, 115); sym::check(r.partial_cmp(&r2) == x.partial_cmp(&y) && x.partial_cmp(&y) == %s, 116);
 %s }""" % (size, n, n, n, ' && '.join('x.%s == y.%s' % (f, f) for f, _, _ in fs), lex,
                '' if hasfloat(n) else 'sym::check(Some(r.cmp(&r2)) == r.partial_cmp(&r2) && Some(x.cmp(&y)) == x.partial_cmp(&y), 116); if eq { sym::check(same(&hashed(&r), &hashed(&r2)), 117); }')
            w("""pub fn s_%s() {
 sym::check(<G::%s as planus::Primitive>::SIZE == %d && <G::%s as planus::Primitive>::ALIGNMENT == %d && <G::%sRef as planus::VectorRead>::STRIDE == %d && <G::%s as planus::VectorWrite<G::%s>>::STRIDE == %d, 110);
 let d = sym::bytes::<%d>(); let r = G::%sRef::from(planus::ArrayWithStartOffset { buffer: &d, offset_from_start: 0 });
 %s
 if sym::param(0) == 0 {
 let b = B::plain(&d); let w = out(|o| r_%s(&b, 0, o)); let a = out(|o| a_%s(r, o));
 sym::check(agree(&w, &a), 111);
 match (G::%s::try_from(r), &w) { (Ok(v), Ok(w)) => { let o = out(|o| { c_%s(&v, o); Ok(()) }); sym::check(like(&o, w), 112); } (Err(_), Err(_)) => (), _ => sym::check(false, 112) }
 let v = g_%s(&mut Gen::from_params(2)); let z = prim::<G::%s, %d>(&v); let b = B::strict(&z); b.mark(0, %d, 1);
 let a = out(|o| r_%s(&b, 0, o)); let o = out(|o| { c_%s(&v, o); Ok(()) }); sym::check(agree(&a, &o), 113); sym::check(b.is_ok() && b.padding_zero(), 114); } }""" %
              (n, n, size, n, al, n, size, n, n, size, size, n, cmp, n, n, n, n, n, n, size, size, n, n))
            ent.append('struct_%s%s = s_%s' % (pfx, n, n))
    # ---- reading with one version of a schema what another one wrote
    def other(n): return 'New' + n[3:] if n[:3] == 'Old' else 'Old' + n[3:] if n[:3] == 'New' else n
    if any(n[:3] == 'Old' for n in s.order):
        def dfd(t, k, dv):
            """What an absent field dumps as."""
            if k == 'def': return 'o.put(&[%s]);' % ', '.join(map(str, dv))
            return {'opt': 'o.put(&[0]);', 'emptyvec': 'o.len(0);', 'strdef': 'o.bytes(&[%s]);' % ', '.join(map(str, dv or [])), 'req': 'return Err(());'}[k]
        def x(t, v):
            """Dump v, of the other schema's type for t, as t's schema sees it."""
            k = t[0]
            if k in ('enum', 'table', 'union'): return 'x_%s(%s, o)?;' % (t[1], v if k == 'enum' else '&' + v)
            if k == 'vec' and t[1][0] in ('enum', 'table', 'union', 'str'):
                return 'o.len(%s.len()); for e in %s.iter() { o.mark(|o| { %s Ok(()) }); }' % (v, v, x(t[1], '(*e)'))
            return can(t, v)
        for n in s.order:
            m_ = other(n)
            if n in s.enums:
                (rt, sz), vs = s.enums[n]
                w('pub fn x_%s(v: G::%s, o: &mut Out) -> R<()> { let y = match v { %s }; if !(%s) { return Err(()); } let y: %s = y; o.put(&y.to_le_bytes()); Ok(()) }' % (n, m_, ' '.join('G::%s::%s => %d,' % (m_, camel(v), z) for v, z in s.enums[m_][1]), ' | '.join('(y == %d)' % z for _, z in vs), rt))
            elif n in s.unions:
                mine = [a for a, _ in s.unions[n]]
                arms = []
                for i, (a, t) in enumerate(s.unions[m_]):
                    if a in mine: arms.append('G::%s::%s(x) => { o.put(&[%d]); %s }' % (m_, camel(a), i + 1, x(s.res(s.unions[n][mine.index(a)][1]), '(*x)')))
                    else: arms.append('G::%s::%s(_) => return Err(()),' % (m_, camel(a)))
                w('pub fn x_%s(v: &G::%s, o: &mut Out) -> R<()> { match v { %s } Ok(()) }' % (n, m_, ' '.join(arms)))
            elif n in s.tables:
                ks = KS[n]; theirs = KS[m_]
                for f, t, d, m, sl, u in s.slots(n):
                    if f not in ks: continue
                    if f not in theirs: body = dfd(t, *ks[f])
                    elif ks[f][0] == 'opt': body = 'match &v.%s { None => o.put(&[0]), Some(x) => { o.put(&[1]); %s } }' % (f, x(t, '(*x)'))
                    else: body = x(t, 'v.%s' % f)
                    w('pub fn xf_%s_%s(v: &G::%s, o: &mut Out) -> R<()> { let _ = &v; %s Ok(()) }' % (n, f, m_, body))
                w('pub fn x_%s(v: &G::%s, o: &mut Out) -> R<()> { let _ = (v, &o); %s Ok(()) }' % (n, m_, ' '.join('xf_%s_%s(v, o)?;' % (n, f) for f in ks)))
                if n[:3] in ('Old', 'New'):
                    w("""pub fn v_%s() { let v; let mut bl = Builder::new(); let k = sym::pick(sym::param(1) + 1); crate::tables::prefix(&mut bl, k);
 v = g_%s(&mut Gen::from_params(2)); f_%s(&mut bl, &v, sym::param(0) as usize, None); let d = bl.as_slice(); sym::obs(d);
 let r = G::%sRef::read_as_root(d); sym::check(r.is_ok(), 120); if let Ok(r) = r { let _ = &r; %s
 let w = out(|o| x_%s(&v, o)); match (G::%s::try_from(r), &w) { (Ok(z), Ok(w)) => { let o = out(|o| { c_%s(&z, o); Ok(()) }); sym::check(like(&o, w), 123); } (Ok(_), Err(_)) => sym::check(false, 123), (Err(_), Ok(w)) => sym::check(w.1, 123), _ => () } } }""" %
                      (n, m_, m_, n, ' '.join('sym::check(agree(&out(|o| xf_%s_%s(&v, o)), &out(|o| af_%s_%s(&r, o))), %d);' % (n, f, n, f, 121 if f in theirs else 122) for f in ks), n, n, n))
                    ent.append('evo_%s%s = v_%s' % (pfx, n, n))
    w('entries! {')
    for e in ent: w(e + ',')
    for n in s.order:
        if n in s.tables:
            for e in ('wire', 'trip', 'any', 'agree', 'conv', 'err') + (('dflt',) if s.dfl[n] else ()): w('%s_%s%s = crate::tables::%s::<T_%s>,' % (e, pfx, n, e, n))
    w('}')
    return '\n'.join(o) + '\n'


if __name__ == '__main__':
    sch = S(open(sys.argv[1]).read())
    open(sys.argv[3], 'w').write(emit(sch, sys.argv[2]))
