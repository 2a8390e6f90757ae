"""What each property's check explores."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fbsgen
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATES = [('rt', ''), ('rt', 'caches'), ('tr', '')]
NEEDGEN = {'rt'}
NOGEN = {'tr'}
NATIVE = {'tr': ROOT + '/harness/tr-native'}
LEVEL = {}
MEANING = {
    1: 'the reference reader cannot read what was written', 2: 'the reference reader reads another value', 3: 'the layout breaks a FlatBuffers rule (alignment, bounds, overlap, terminator, sizes)',
    4: 'padding is not zero', 5: 'the file identifier is not at bytes 4..8', 6: 'a field equal to its default was stored', 10: 'planus cannot read what it wrote', 11: 'planus reads another value through the accessors',
    12: 'the owned conversion of a written buffer fails', 13: 'the owned conversion yields another value', 20: 'reading the root disagrees with the reference reader',
    21: 'a field fails where the reference reads it, or the other way round', 22: 'a field differs from what the reference reads',
    23: 'a nested table whose vtable lies in front of the referring table or vector is refused', 34: 'the same, in the owned conversion',
    31: 'owned value differs from the buffer', 32: 'the owned conversion fails on a readable buffer', 33: 'the owned conversion succeeds on a buffer with unreadable content',
    60: 'indexing, length or emptiness disagrees with the stored elements', 61: 'an iterator yields other items than its model', 62: 'an iterator misstates how many items are left', 63: 'the remainder of an exact-chunk iterator is wrong',
    70: 'the reference reader reads another value than was given in this argument form', 71: 'the layout breaks a FlatBuffers rule', 72: 'padding is not zero', 73: 'a field equal to its default was stored', 74: 'planus reads another value than was given in this argument form',
    80: 'the builder misstates its length or where an object ends up', 81: 'more padding than the alignment needs', 82: 'an object lost its content or overlaps another', 83: 'an object or the finished buffer is not aligned as promised', 84: 'the root offset is wrong', 85: 'the file identifier is not at bytes 4..8', 86: 'padding is not zero', 87: 'a cleared or reused builder behaves unlike a new one',
    90: 'equal cached objects are not shared', 91: 'a cached object has other content', 92: 'an object reads back as something else', 93: 'a cleared builder reuses an object it no longer holds', 94: 'a table written with shared vtables reads as something else',
    100: 'a number is taken for an enum value it is not, or the other way round', 101: 'an enum value and its number do not belong together', 102: 'the error does not carry the unknown number', 103: 'ENUM_VALUES is not the list of variants', 104: 'enum values do not order as their numbers', 105: 'an enum has the wrong size or alignment', 106: 'an enum is written as another number',
    110: 'a struct has the wrong size or alignment', 111: 'a struct accessor reads another value', 112: 'the owned struct differs from the bytes', 113: 'a struct is written with another value or layout', 114: 'padding inside a struct is not zero', 115: 'struct equality is not fieldwise', 116: 'struct ordering is not lexicographic', 117: 'equal structs hash differently',
    120: 'a buffer of the other schema version is not readable', 121: 'a field both versions know reads differently', 122: 'a field the writer did not know does not read as absent', 123: 'the owned value differs from what the other version wrote',
    130: 'an error names another accessor or place than the failing one', 131: 'a missing required field is reported where none is missing, or the other way round', 132: 'an error carries another number than the buffer, or the wrong cause', 133: 'an error has a cause this field cannot have',
    140: 'a literal is refused that the field type can hold, or accepted that it cannot', 141: 'a literal is read as another value', 142: 'a string literal is refused, or one with a broken escape accepted', 143: 'a string literal denotes other text',
    144: 'the default of an enum field is not the value written', 145: 'enum values are refused that are distinct and in range, or accepted that are not', 146: 'an enum variant has another value than declared', 148: 'a declared table is missing',
    150: 'field ids are refused that number the slots completely, or accepted that do not', 151: 'a field ends up in another slot than declared', 152: 'a forced alignment is refused that is a valid one, or the other way round',
    153: 'struct size, offsets or padding are not the FlatBuffers layout', 154: 'a forced alignment of a field is wrongly accepted or refused', 155: 'fields written in their order end up misaligned, or one is missing', 156: 'a table field has the wrong size or tag',
    160: 'a valid schema is not formatted', 161: 'formatting changes, drops or adds a token', 162: 'formatting drops, changes or reorders a comment', 163: 'formatting the formatted schema changes it again',
    170: 'a type name that resolves is refused, or one that does not is accepted', 171: 'a type name resolves to another declaration', 172: 'a declaration or namespace is missing from the namespace around it',
    173: 'a file reachable through includes is not seen, or an unreachable one is',
    180: 'the inspector finds an object elsewhere, another one, or not at all', 181: 'the inspector shows another value than the buffer holds', 182: 'the inspector names an object after another field', 183: 'the check schema is refused',
    184: 'a byte of an object does not lead to that object', 185: 'a line of the inspector says something else than the buffer',
    190: 'a field declaration is refused that is valid, or accepted that is not', 191: 'a field is not required, optional or defaulted as declared', 192: 'a field has another default than declared',
    200: 'generated code is not made of items', 201: 'a declaration or member is not generated as one item in the right place', 202: 'a generated name is no identifier', 203: 'two generated items of one scope share a name', 204: 'a generated path leads nowhere or to another item',
    206: 'a generated type derives Eq, Ord or Hash although it cannot, or lacks it', 207: 'a generated type has a default although it cannot, or lacks it', 208: 'a generated conversion is infallible although it must not be, or the other way round',
    193: 'a doc comment is refused where it documents something, or accepted where it does not', 194: 'a doc comment is attached to something else or changed', 195: 'a doc comment of a namespace is lost or changed',
    200: 'an element ends up in another place, is lost or dropped', 201: 'elements outside the cursor are touched', 202: 'a cursor with elements left can be dropped',
    50: 'the Default value differs from the schema defaults', 51: 'an empty table does not read as the schema defaults', 52: 'a table left at its defaults stores something', 53: 'a table left at its defaults reads as something else',
}
ASSUME = [
    'rustc and LLVM translate the source faithfully to the IR of the release profile with debug assertions and overflow checks on; the executor models that IR and a 64-bit little-endian target',
    'the allocator never fails; uninitialised bytes carry one arbitrary value per reading',
]
ASSUME_P = {}
BOUNDS = {}


def job(entry, params=(), crate='rt', feats='', secs=500, ids=None, must=None, covers=(), minpaths=1, cost=1, extra=()):
    return dict(entry=entry, params=list(params), crate=crate, feats=feats, secs=secs, ids=ids, must=ids if must is None else must, covers=list(covers), minpaths=minpaths, cost=cost, extra=list(extra))


# ---- the tables of the check schemas
class T:
    pass


SCHEMAS = {}
TAB = {}
for _f, _p in (('core', ''), ('more', 'm_'), ('kinds', 'k_')):
    _s = fbsgen.S(open('%s/schemas/%s.fbs' % (ROOT, _f)).read())
    SCHEMAS[_f] = _s

    def has(s, t, what, seen=()):
        """The type reaches a type of kind `what`."""
        if t[0] == what: return True
        if t[0] == 'vec': return has(s, t[1], what, seen)
        if t[0] == 'union': return any(has(s, s.res(x), what, seen) for _, x in s.unions[t[1]])
        if t[0] == 'table':
            if t[1] in seen: return what == 'rec'
            return any(has(s, x[1], what, seen + (t[1],)) for x in s.slots(t[1]))
        return False
    for _n in _s.tables:
        t = T(); t.name = _p + _n; t.s = _s
        t.fields = [x for x in _s.slots(_n) if 'deprecated' not in x[3]]
        t.types = [x[1] for x in t.fields]
        t.has = lambda w, t=t: any(has(t.s, y, w) for y in t.types)
        t.fhas = lambda i, w, t=t: has(t.s, t.types[i], w)
        t.req = [i for i, x in enumerate(t.fields) if 'required' in x[3]]
        t.flat = not any(t.has(w) for w in ('vec', 'str', 'table', 'union'))
        t.nest = t.has('table') and not t.has('vec') or t.has('union')
        t.dfl = not t.req
        TAB[t.name] = t
WIDE = {'m_Wide'}
EVO = fbsgen.S(open(ROOT + '/schemas/evo.fbs').read())


def writes(kind, ids, tier, tabs=None, must=None):
    th = tier == 'thorough'
    r = []
    for form in range(5):
        for t in tabs or TAB.values():
            n = '%s_%s' % (kind, t.name)
            if t.name in WIDE:
                if th or form in (0, 1):
                    r.append(job(n, [form, 7 if th else 1 if form == 0 else 0, 0, 0, 0, 0, 0], ids=ids, must=must, cost=50))
            elif t.flat:
                r.append(job(n, [form, 7 if th or form == 0 else 1, 0, 0, 0, 0, 0], ids=ids, must=must, cost=2))
            elif t.nest:
                r.append(job(n, [form, 3 if th or form == 0 else 0, 1, 2 if t.has('vec') else 1, 1, 0, 0], ids=ids, must=must, cost=6))
            else:
                st = any(x[0] == 'vec' and x[1][0] == 'struct' for x in t.types)
                r.append(job(n, [form, 7 if th or form == 0 else 1, 1, 2 if th or st or form == 0 else 1, 2, 0, 0], ids=ids, must=must, cost=4))
    return r


FORMS = ['scalars', 'text', 'bytes', 'structs', 'tables', 'nested', 'unions', 'uvecs']


def forms(ids, tier, feats=''):
    return [job('form_' + f, [7, 3 if tier == 'thorough' else 1], ids=ids, feats=feats, cost=4) for f in FORMS]


def R01(tier): return writes('trip', [10, 11, 12, 13], tier) + forms([70, 74], tier)
def R02(tier): return writes('wire', [1, 2, 3, 4], tier) + forms([71, 72], tier)


def shapes(t, i, tier):
    """(free bytes, pinned) for a buffer with field i in place."""
    th = tier == 'thorough'
    if t.types[i][0] in ('sc', 'enum', 'struct'): return [(0, 0)]
    if t.fhas(i, 'rec'): return [(8, 0), (12, 1)] + ([(12, 0), (16, 1)] if th else [])
    if t.fhas(i, 'str'):
        if t.types[i][0] == 'vec' and t.types[i][1][0] == 'str': return [(8, 0), (12, 1)] + ([(12, 0), (16, 1)] if th else [])
        return [(8, 0), (12, 1)] + ([(12, 0), (16, 1)] if th else [])
    if t.types[i] [0] == 'vec' and t.types[i][1][0] == 'table': return [(12, 0), (16, 1)] + ([(16, 0), (20, 1)] if th else [])
    if t.types[i] [0] == 'vec' and t.types[i][1][0] == 'enum': return [(12, 0), (16, 1)] + ([(16, 0), (20, 1)] if th else [])
    return [(12, 0), (24, 1)] + ([(16, 0), (28, 1)] if th else [])


def reads(kind, raw, tier, tabs=None, **kw):
    """Jobs over whole tables: arbitrary bytes, and tables in place."""
    r = []
    for t in tabs or TAB.values():
        for n in raw(t):
            r.append(job('%s_%s' % (kind, t.name), [n, 1, 0, 0], cost=n, **kw))
        if t.flat:
            r.append(job('%s_%s' % (kind, t.name), [0, 1, 1, 0], cost=2, **kw))
            continue
        if t.req:
            heavy = sum(t.fhas(i, 'str') for i in range(len(t.types))) > 1 or len(t.types) > 2
            r += [job('%s_%s' % (kind, t.name), [n, 1, 1, p], cost=20, **kw) for n, p in ([(8, 1)] if heavy else [(8, 0), (12, 1)])]
            continue
        for i in range(len(t.types)):
            r += [job('%s_%s' % (kind, t.name), [n, 1, i + 2, p], cost=n + 5, **kw) for n, p in shapes(t, i, tier)]
    return r


def R03(tier):
    th = tier == 'thorough'
    return reads('any', lambda t: [0, 3, 4, 8, 12, 16, 20, 24] if th else [0, 6, 16, 20], tier, ids=[])


def R04(tier):
    return reads('conv', lambda t: [8, 16, 20, 24] if tier == 'thorough' else [16, 20], tier, ids=[31, 32, 33, 34], must=[])


def agrees(tier, pick=lambda t, f: True, ids=(20, 21, 22)):
    th = tier == 'thorough'
    r = []
    for t in TAB.values():
        for f in range(len(t.types)):
            if not pick(t, f): continue
            for n in ([8, 16, 20, 24, 28] if th else [16, 20]):
                r.append(job('agree_' + t.name, [n, f + 1, 0, 0], ids=list(ids), must=[20, 21], cost=n))
            for n, p in shapes(t, f, tier):
                r.append(job('agree_' + t.name, [n, f + 1, f + 2, p], ids=list(ids), must=[20, 21], cost=n + 8))
    return r


def R05(tier): return agrees(tier, ids=(20, 21, 22, 23))


def R06(tier):
    r = [job('dflt_' + t.name, [form, 7], ids=[50, 51, 52, 53]) for t in TAB.values() if t.dfl for form in range(3)]
    return r + forms([73], tier) + writes('wire', [6], tier, [t for t in TAB.values() if any(x[1][0] in ('sc', 'enum') or x[2] for x in t.fields)])


def R08(tier):
    th = tier == 'thorough'
    r = []
    for v in ('longs', 'bools', 'enums', 'structs', 'tables', 'strings', 'unions'):
        for m in range(7):
            ids = [60, 63] if m == 0 else [61, 62]
            for n in (0, 1, 3, 4, 5) + ((2, 7) if th else ()):
                st = 3 if th and n < 7 or n == 3 and v in ('longs', 'unions') else 2
                r.append(job('vec_' + v, [n, m, st], ids=ids, must=ids if n > 1 else [], cost=n * st))
    return r


def R09(tier):
    th = tier == 'thorough'
    f = 'caches'
    r = [job('cache_objects', x, feats=f, ids=[90, 91, 92, 93], must=[90, 91, 92], cost=5) for x in ([2, 2], [3, 1], [3, 2]) + (([4, 1], [3, 3]) if th else ())]
    r += [job('cache_vtables', [n], feats=f, ids=[94], cost=9) for n in ([2, 3] if not th else [2, 3, 4])]
    r += [job('bld_reuse', x, feats=f, ids=[87]) for x in ([0, 4, 4], [1, 4, 5])]
    r += forms([70, 71, 74], tier, f)
    return r + [dict(j, feats=f) for k, ids in (('wire', [1, 2, 3, 4]), ('trip', [10, 11, 12, 13])) for t in TAB.values()
                for j in [job('%s_%s' % (k, t.name), [0, 7 if t.flat else 1, 0 if t.flat else 1, 2 if th else 1, 2, 0, 0], ids=ids, cost=3)]]


BLD = [80, 81, 82, 83, 84, 85, 86]


def R10(tier):
    th = tier == 'thorough'
    r = [job('bld_alignment', x, ids=BLD, cost=4) for x in ([1, 9, 6, 99, 4], [3, 3, 3, 0, 0]) + tuple([2, 8, 6, m, 1] for m in range(6))]
    if th:
        r += [job('bld_alignment', [3, 4, 6, m, 1], ids=BLD, cost=9) for m in range(6)] + [job('bld_alignment', [2, 17, 6, m, 4], ids=BLD, cost=9) for m in range(6)]
    return r + [job('bld_reuse', x, ids=[87]) for x in ([0, 4, 4], [1, 4, 5], [2, 2, 3]) + (([2, 4, 5],) if th else ())]


def R11(tier):
    th = tier == 'thorough'
    tabs = [t for t in TAB.values() if t.name not in WIDE]
    r = [job('bld_alignment', [2, 8, 6, m, 1], ids=[84, 85], cost=4) for m in range(6)]
    for t in tabs if th else tabs[::2]:
        for form in range(5) if th else (0, 2):
            r.append(job('wire_' + t.name, [form, 7 if t.flat or th else 3, 0 if t.flat else 1, 1, 1, 0, 1], ids=[1, 2, 3, 5], must=[2, 5], cost=4))
            r.append(job('trip_' + t.name, [form, 7 if t.flat or th else 3, 0 if t.flat else 1, 1, 1, 0, 1], ids=[10, 11], cost=4))
    return r


def R07(tier):
    th = tier == 'thorough'
    r = []
    for n in EVO.tables:
        if n[:3] not in ('Old', 'New'): continue
        big = n in ('OldG', 'NewG')
        for form in range(5):
            p = [form, 3, 2, 2, 2, 0] if th and not big and n[3:] != 'J' else [form, 3 if th else 0, 1, 1, 1, 0] if big else [form, 1, 1, 1, 1, 0] if n[3:] == 'J' else [form, 7 if form == 0 else 1, 1, 2, 1, 0]
            r.append(job('evo_e_' + n, p, ids=[120, 121, 122, 123], must=[120, 123], cost=30 if big else 5))
    return r


def R12(tier):
    r = []
    for f, pre in (('core', ''), ('more', 'm_'), ('kinds', 'k_')):
        s = SCHEMAS[f]
        def has_enum(n): return any(t[0] == 'enum' or t[0] == 'struct' and has_enum(t[1]) for _, t, _ in s.slay(n)[2])
        for n in s.structs:
            r.append(job('struct_%s%s' % (pre, n), [0, 0, 0, 0, 0], ids=[110, 111, 112, 113, 114]))
            if not has_enum(n):
                r.append(job('struct_%s%s' % (pre, n), [1, 0, 0, 0, 0], ids=[115, 116, 117], must=[115, 116]))
    tabs = [t for t in TAB.values() if t.has('struct') and not t.has('union') and t.name not in WIDE]
    return r + writes('wire', [1, 2, 3, 4], tier, tabs) + writes('trip', [10, 11, 12, 13], tier, tabs)


def R13(tier):
    r = [job('enum_%s%s' % (pre, n), [0, 0, 0, 0, 0], ids=list(range(100, 107)), must=[100, 101, 103, 104, 105, 106]) for f, pre in (('core', ''), ('more', 'm_'), ('kinds', 'k_')) for n in SCHEMAS[f].enums]
    tabs = [t for t in TAB.values() if t.has('enum') and not t.has('union') and not t.has('struct')]
    r += writes('trip', [10, 11, 12, 13], tier, tabs) + writes('wire', [1, 2, 3], tier, tabs)
    return r + agrees(tier, lambda t, f: t.fhas(f, 'enum') and not t.fhas(f, 'struct'))


def R14(tier):
    tabs = [t for t in TAB.values() if t.has('union')]
    r = writes('trip', [10, 11, 12, 13], tier, tabs) + writes('wire', [1, 2, 3], tier, tabs)
    r += agrees(tier, lambda t, f: t.fhas(f, 'union'))
    r += reads('conv', lambda t: [16, 20, 24] if tier == 'thorough' else [20], tier, tabs, ids=[31, 32, 33], must=[])
    return r + [j for j in R07(tier) if j['entry'][-4:] in ('OldC', 'NewC', 'OldJ', 'NewJ')]


def R15(tier):
    return [dict(j, entry='err' + j['entry'][5:], ids=[130, 131, 132, 133], must=[130] if j['params'][2] == 0 and j['params'][0] >= 20 and '_Ke' not in j['entry'] and '_En' not in j['entry'] else []) for j in agrees(tier)]


TR = dict(crate='tr')


def lit(e, p, ids, covers=(1,), cost=2, **kw): return job(e, p, crate='tr', ids=ids, must=ids if 1 in covers else ids[:1], covers=covers, cost=cost, **kw)


def R16(tier):
    th = tier == 'thorough'
    r = []
    for ty, (bits, dig) in enumerate(((8, 3), (8, 3), (16, 5), (16, 5), (32, 10), (32, 10), (64, 20), (64, 19))):
        hx = bits // 4
        k = 4 if th else 3
        for sign in (0, 1, 2, 3) if th else (0, 1) if ty % 2 else (0, 3):
            # a negative number that cannot be zero does not fit an unsigned type
            neg = ty % 2 == 0 and sign & 1
            both = lambda pre: (2,) if neg and pre else (1, 2)
            # decimal: the last digits of the largest value, one digit too many, underscores
            r.append(lit('lit_int', [ty, dig - min(k, dig), min(k, dig), sign, 0, 0], [140, 141], both(dig - min(k, dig))))
            pre, n = (dig - 2, 2) if dig > 3 or th else (0, 3)
            r.append(lit('lit_int', [ty, pre, n, sign, 0, 1], [140, 141], both(pre)))
            r.append(lit('lit_int', [ty, dig, 1, sign, 0, 0], [140], (2,)))
            r.append(lit('lit_int', [ty, hx - min(k, hx), min(k, hx), sign, 1, 1], [140, 141], ()))
            r.append(lit('lit_int', [ty, hx, 1, sign, 1, 0], [140], (2,)))
    if th:
        r += [lit('lit_int', [6, 0, 8, 0, 0, 0], [140, 141], (1,)), lit('lit_int', [7, 0, 8, 1, 0, 0], [140, 141], (1,)), lit('lit_int', [6, 8, 8, 0, 1, 0], [140, 141], (1,))]
    r += [lit('lit_float', [d, f], [140, 141]) for d in (0, 1) for f in range(7)]
    for q in (0, 1):
        r += [lit('lit_string', x + [q], [142, 143], c, cost=4) for x, c in (([2, 0], (1,)), ([1, 1], (1, 2)), ([2, 2], (1, 2)), ([3, 0], (1,)), ([3, 1], (1, 2)), ([3, 2], (1, 2)))]
        r += [lit('lit_string', [4, 3, q], [142, 143], (1, 2), cost=30)]
    if th: r += [lit('lit_string', [4, 0, q], [142, 143], (1, 2), cost=30) for q in (0, 1)] + [lit('lit_string', [5, 3, 0], [142, 143], (1, 2), cost=90)]
    r += [lit('lit_enum', [n, g], [144], (1, 2), cost=4) for n, g in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 1))]
    if th: r += [lit('lit_enum', [3, 1], [144], (1, 2), cost=9), lit('lit_enum', [4, 0], [144], (1, 2), cost=9)]
    return r


def R17(tier):
    th = tier == 'thorough'
    r = []
    for ty in range(8):
        k = 3 if th or ty < 2 else 2
        for mask, signs, pre in ((15, 5, 5), (15, 10, 15), (5, 0, 0), (5, 5, 4), (9, 1, 9), (9, 0, 9), (2, 0, 2), (6, 2, 4), (12, 0, 8)):
            if ty % 2 == 0: signs = 0
            r.append(job('lit_values', [ty, k, mask, signs, pre], crate='tr', ids=[145, 146], must=[145], cost=9 if mask == 15 else 3))
    return r


def R18(tier):
    th = tier == 'thorough'
    r = []
    for n in (1, 2, 3) + ((4,) if th else ()):
        for kinds in (0, 1, 2, 4, 9, 33, 36) + ((6, 18, 24) if th else ()):
            if kinds >> 2 * n: continue
            for mask in ((1 << n) - 1, 0) + ((5,) if n == 3 else (1,) if n == 2 else ()):
                ok = mask in (0, (1 << n) - 1)
                r.append(job('tab_ids', [n, kinds, mask, 1], crate='tr', ids=[150, 151], must=[150, 151] if ok else [150], covers=(1,) if mask == 0 else (1, 2) if ok else (2,), cost=n * n))
    for n, kinds, mask, gone in ((2, 1, 3, 1), (2, 1, 3, 2), (3, 1, 7, 5), (3, 4, 7, 2), (3, 8, 0, 6), (2, 4, 0, 3), (3, 33, 7, 7)):
        r.append(job('tab_ids', [n, kinds, mask, 1, gone], crate='tr', ids=[150, 151], must=[150, 151], covers=(1, 2) if mask else (1,), cost=n * n))
    r += [job('tab_ids', [1, k, 1, d], crate='tr', ids=[150, 151], must=[150], cost=3) for k in (0, 1) for d in (2, 3)]
    r += [job('tab_ids', [2, k, 3, 2], crate='tr', ids=[150, 151], must=[150], cost=9) for k in (0, 1)]
    return r


def R19(tier):
    th = tier == 'thorough'
    L = [[2, 0, 0], [3, 0, 0], [3, 1, 0], [2, 2, 0], [3, 1, 1], [3, 2, 0]] + ([[4, 0, 0], [4, 1, 1], [3, 2, 1], [4, 2, 0]] if th else [])
    r = [job('tab_layout', x, crate='tr', ids=[152, 153], cost=40 if x[1] == 2 else 3) for x in L]
    r += [job('tab_nest', x, crate='tr', ids=[152, 153], covers=[1, 2], cost=5) for x in ([1, 9], [2, 27], [3, 864], [3, 0x3b2]) + (([4, 13653], [4, 0x2d1b]) if th else ())]
    O = [[3, 0, 0, 0], [4, 0, 0, 0x2050], [3, 1, 1, 0], [3, 2, 1, 0], [3, 1, 0, 0x070], [5, 0, 0, 0x71328], [5, 0, 0, 0x10742], [4, 1, 2, 0x8011], [5, 1, 3, 0x06854], [4, 0, 0, 0x8133]]
    if th: O += [[4, 0, 0, 0], [4, 1, 0, 0], [4, 2, 3, 0x0121]]
    return r + [job('tab_order', x, crate='tr', ids=[154, 155, 156], cost=8) for x in O]


NCTX = 24


def R20(tier):
    th = tier == 'thorough'
    r = []
    for c in range(NCTX):
        k = 3 if c in (7, 18, 19, 23) else 2
        if th: k += 1
        r.append(job('text_any', [c, k, 0], crate='tr', ids=[], cost=6, secs=6000 if th else 400))
        r.append(job('text_any', [c, 3 if c in (7, 18, 19, 23) else 2, 1], crate='tr', ids=[], cost=3, secs=6000 if th else 400))
    return r


NTEMPL = 20


def R21(tier):
    th = tier == 'thorough'
    one = [1, 2, 17, 3414, 5, 7, 6] + ([18, 3, 170, 1362, 10, 20, 33, 145] if th else [18])
    two = [(2, 2, 1), (85, 5, 1), (2, 2, 2)] + ([(170, 170, 3), (341, 0, 0), (170, 0, 0), (2, 17, 5), (10, 10, 1), (7, 6, 2)] if th else [])
    r = []
    for t in range(NTEMPL):
        r += [job('fmt_keeps', [t, p, 0, 99, 0, 0], crate='tr', ids=[160, 161, 162, 163], covers=[1], cost=2) for p in one]
        r += [job('fmt_keeps', [t, p, q, 99, s, 0], crate='tr', ids=[160, 161, 162, 163], covers=[1], cost=9) for p, q, s in two]
    return r


def R22(tier):
    th = tier == 'thorough'
    #     namespaces (base 4: third second first), reference, includes, place, kinds, spelling
    J = [[0o0, 1, 3, 0, 6, 0], [21, 1, 1, 0, 0, 0], [21, 2, 1, 0, 0, 0], [22, 1, 5, 0, 0, 1], [26, 1, 6, 0, 4, 2], [22, 1, 3, 1, 0, 0], [22, 1, 3, 2, 1, 0], [38, 1, 63, 0, 3, 0], [18, 1, 5, 0, 2, 1],
         [6, 2, 3, 1, 5, 2], [37, 2, 17, 0, 9, 0], [16, 1, 33, 2, 8, 1], [20, 3, 3, 0, 1, 0], [38, 1, 9, 0, 2, 2], [22, 2, 2, 0, 4, 0], [2, 3, 1, 2, 7, 1]]
    J += [[23, 1, 3, 0, 6, 0], [7, 1, 1, 1, 0, 0], [55, 1, 63, 0, 8, 0], [39, 2, 3, 0, 0, 0], [0, 1, 3, 0, 4, 3], [21, 1, 7, 0, 8, 3]]
    r = [job('names_resolve', x + [2], crate='tr', ids=[170, 171, 172], must=[170], cost=10) for x in J]
    r += [job('names_reach', x, crate='tr', ids=[172, 173], must=[172, 173], covers=(1, 2), cost=20) for x in [[0, 1, 4, 0], [0, 3, 4, 0], [3, 0, 4, 0], [2, 1, 4, 0], [0, 2, 3, 1], [1, 2, 3, 2]] + ([[a, b, 4, 0] for a in range(4) for b in range(4) if a != b] + [[0, 3, 4, 1], [3, 0, 4, 2], [1, 2, 4, 1]] if th else [])]
    if th:
        r += [job('names_resolve', x + [3], crate='tr', ids=[170, 171, 172], must=[170], cost=90, secs=3000) for x in J if (x[0] & 3) + (x[0] >> 2 & 3) + (x[0] >> 4) + x[1] < 5]
        r += [job('names_resolve', x[:2] + [e] + x[3:] + [2], crate='tr', ids=[170, 171, 172], must=[170], cost=12) for x in J for e in (0, 4, 7, 24, 44, 56)]
        r += [job('names_resolve', [26, 2, 5, 0, 4, 2, 2], crate='tr', ids=[170, 171, 172], cost=40), job('names_resolve', [38, 2, 3, 2, 4, 0, 2], crate='tr', ids=[170, 171, 172], cost=40)]
    return r


def R23(tier):
    th = tier == 'thorough'
    I = dict(crate='tr', covers=[1])
    A = 65535
    J = [[A, 1, 0, 0, 0], [A, 2, 2, 0, 0], [A, 2, 0, 1, 1], [A, 0, 1, 0, 1], [24, 3, 0, 1, 0], [A & ~24, 3, 3, 0, 1], [0, 0, 0, 0, 0], [0, 0, 2, 0, 0]]
    if th: J += [[A & ~(1 << i), 1, i & 1, i >> 1 & 1, i >> 2 & 1] for i in range(16)] + [[1 << i, 3, i & 1, i >> 2 & 1, i >> 1 & 1] for i in range(16)] + [[A, 4, 1, v, b] for v in (0, 1) for b in (0, 1)]
    r = [job('insp_shows', x + [0], ids=[180, 181, 182, 183], cost=9, **I) for x in J]
    r += [job('insp_shows', x + [1], ids=[183, 184], cost=6, **I) for x in ([A, 1, 0, 0, 0], [A & ~16, 2, 2, 1, 1], [0x7ef, 1, 1, 0, 1]) + (([A, 2, 1, 1, 0],) if th else ())]
    P = [[1, 0, 0, 0, 0], [4, 1, 0, 1, 0], [8, 1, 2, 0, 0], [16, 2, 0, 1, 1], [32, 2, 0, 1, 0], [59168, 1, 0, 1, 0], [1952, 2, 0, 0, 1], [2, 1, 0, 0, 0], [64, 1, 1, 1, 0]] + ([[65, 1, 0, 0, 0], [24, 1, 0, 1, 0], [36, 3, 1, 0, 1], [4097, 0, 0, 1, 0]] if th else [])
    r += [job('insp_shows', x + [2], ids=[183, 184, 185] if x[0] != 32 else [183, 184, 185], cost=5, **I) for x in P]
    return r


def R24(tier):
    th = tier == 'thorough'
    r = [job('doc_attach', [t, n, f], crate='tr', ids=[193, 194, 195], covers=[1, 2], cost=4 * n * n) for t in range(5) for n, f in ((1, 0), (1, 1), (2, 3), (2, t & 1))]
    return r + ([job('doc_attach', [t, 3, f], crate='tr', ids=[193, 194, 195], covers=[1, 2], cost=50, secs=1500) for t in range(5) for f in range(4)] if th else [])


def R25(tier):
    return [job('field_mode', [t], crate='tr', ids=[190, 191, 192], must=[190] if t > 12 else [190, 191], covers=(2,) if t > 12 else (1, 2), cost=3) for t in range(15)]


GEN_IDS = [200, 201, 202, 203, 204]


def R26(tier):
    th = tier == 'thorough'
    g = lambda e, p, cost, covers=(1,), secs=700: job(e, p, crate='tr', ids=GEN_IDS, must=[202, 203] if e == 'gen_members' and p[0] > 1 else [202, 203, 204], covers=covers, cost=cost, secs=secs)
    r = [g('gen_members', [w, f], 20 if f == 2 else 6, (1, 2) if f == 2 else (1,)) for w in range(4) for f in (2, 10, 11)]
    r += [g('gen_members', [w, 1, 1], 6, (1, 2)) for w in range(4)]
    r += [g('gen_types', [w, 1, k], 3) for w in (4, 5) for k in (2, 4, 11)]
    r += [g('gen_types', [0, 1, 48 + k], 14, (1, 2)) for k in range(16)]
    r += [g('gen_types', [w, 2, k], 25, (1, 2) if w in (0, 3) else (1,)) for w, k in ((0, 0), (0, 14), (1, 0), (1, 7), (2, 14), (3, 0), (3, 14))]
    r += [g('gen_types', [w, f, 4], 6) for w in range(5) for f in (10, 11)]
    if th:
        r += [g('gen_types', [0, 2, 48 + k], 400, (1, 2), 1500) for k in range(16)]
        r += [g('gen_types', [w, 3, k], 400, (1, 2) if w in (0, 3) else (1,), 1500) for w in range(4) for k in (1, 14)]
        r += [g('gen_members', [w, 3], 400, (1, 2), 1500) for w in range(4)]
    return r


def R27(tier):
    th = tier == 'thorough'
    k3 = lambda a, b, c: a | b << 2 | c << 4
    def g(kinds, fields, attrs, allowed, cost, secs=700):
        ks = [kinds >> 2 * i & 3 for i in range(3)]
        m = [206] + ([207, 208] if ks != [3, 3, 3] else [])
        return job('gen_traits', [kinds, fields, attrs, allowed], crate='tr', ids=[200, 201, 206, 207, 208], must=m, covers=[1], cost=cost, secs=secs)
    # one declaration with two fields of any type
    r = [g(k3(a, 3, 3), 2, 0, 0x1fff, 15) for a in range(3)] + [g(k3(0, 3, 3), 1, 1, 0x1fff, 5)]
    # three that refer to each other, int, float and string
    r += [g(k3(a, b, c), k3(1, 1, 1), 0, 0x1c7, 15) for a in range(3) for b in range(3) for c in range(3)]
    # two and one, with vectors and required fields, and the enum without a default
    r += [g(k3(0, b, 3), k3(1, 1, 0), 1, 0x2e2, 15) for b in range(3)]
    r += [g(k3(0, b, 0), k3(2, 1, 1), 0, 0x1c2 if b == 0 else 0x1c6, 15) for b in range(3)]
    if th:
        r += [g(k3(a, b, 3), k3(2, 1, 0), 1, 0x1fff, 400, 1500) for a in range(3) for b in range(3)]
        r += [g(k3(a, b, c), k3(2, 1, 1), 0, 0x1f6, 400, 1500) for a in range(3) for b in range(3) for c in range(3)]
    return r



REG = {k: v for k, v in globals().items() if k[0] == 'R' and k[1:].isdigit()}
def jobs(prop, tier): return REG[prop](tier)
