#!/usr/bin/env python3
"""Generates Rust type definitions that derive FuncMap/TryFuncMap, with generators, observers and families
for the simulator. Deterministic in (seed, count). usage: gentypes.py SEED COUNT OUT [EXCLUDE,...]"""
import random
import sys

CORE1 = ['Option', 'Cell', 'RefCell', 'UnsafeCell', 'Bound', 'Poll', 'Range', 'RangeFrom', 'RangeInclusive',
         'RangeTo', 'RangeToInclusive', 'PhantomData']
ALLOC1 = ['Box', 'Vec', 'VecDeque', 'LinkedList']
PATHS = {'Option': ['Option', '::core::option::Option', 'std::option::Option'], 'Cell': ['Cell', 'core::cell::Cell'],
         'Vec': ['Vec', 'std::vec::Vec', '::std::vec::Vec'], 'Box': ['Box', '::std::boxed::Box'],
         'Poll': ['Poll', 'std::task::Poll']}
ITERS_CORE = ['core::option::IntoIter', 'core::result::IntoIter']
ITERS_ALLOC = ['std::vec::IntoIter', 'std::collections::vec_deque::IntoIter', 'std::collections::linked_list::IntoIter',
               'std::collections::btree_set::IntoIter', 'std::collections::binary_heap::IntoIter']
ITERS_STD = ['std::collections::hash_set::IntoIter']
LITS0 = ['u8', 'u32', "&'static str", '()', 'bool', 'fn(u32) -> u32', 'usize', "&'static [u8]"]


class Ty:
    """s: Rust text; params: set of type parameters; tier; flags; leaf: parameters that must be plain elements;
    keyed: parameters used as keys; parts: for tuples, their elements"""

    def __init__(self, s, params=(), tier=0, hash=False, leaf=(), keyed=(), keeps=False, parts=None, multi=False):
        self.s, self.params, self.tier, self.hash = s, set(params), tier, hash
        self.leaf, self.keyed, self.keeps, self.parts, self.multi = set(leaf), set(keyed), keeps, parts, multi


def combine(s, xs, tier=0, **kw):
    t = Ty(s)
    for x in xs:
        t.params |= x.params
        t.leaf |= x.leaf
        t.keyed |= x.keyed
        t.tier = max(t.tier, x.tier)
        t.hash |= x.hash
        t.keeps |= x.keeps
        t.multi |= x.multi
    t.tier = max(t.tier, tier)
    for k, v in kw.items():
        setattr(t, k, getattr(t, k) | v if isinstance(v, (bool, set)) else v)
    return t


def P(p):
    return Ty(p, [p])


def lit(s):
    return Ty(s, tier=1 if s == 'String' else 0)


KP = Ty('Kp', keeps=True)


def wrap(name, x, path=None):
    return combine(f'{path or name}<{x.s}>', [x], 1 if name in ALLOC1 else 0)


def arr(x, n):
    return combine(f'[{x.s}; {n}]', [x])


def tup(*xs):
    t = combine('(' + ', '.join(x.s for x in xs) + (',)' if len(xs) == 1 else ')'), xs)
    t.parts = list(xs)
    return t


def two(name, a, b):
    return combine(f'{name}<{a.s}, {b.s}>', [a, b])


def bmap(k, v):
    return combine(f'BTreeMap<{k.s}, {v.s}>', [k, v], 1, leaf=set(k.params), keyed=set(k.params))


def hmap(k, v):
    return combine(f'HashMap<{k.s}, {v.s}>', [k, v], 2, leaf=set(k.params), keyed=set(k.params), hash=True)


def kset(name, k, tier):
    return combine(f'{name}<{k.s}>', [k], tier, leaf=set(k.params), keyed=set(k.params), hash='ash' in name)


def it(path, k, tier):
    return combine(f'{path}<{k.s}>', [k], tier, leaf=set(k.params),
                   keyed=set(k.params) if 'btree' in path or 'heap' in path or 'hash' in path else set(), hash='hash' in path)


class Def:
    def __init__(self, name, params, body, attrs='', bounds=None, where='', marks=None, derive='FuncMap, TryFuncMap',
                 pre='', insts=None, raw=None, reuse=True, extra=''):
        """params: list of ('lt'|'ty'|'const', name); body: ('struct', style, fields) | ('enum', [(v, style, fields)]);
        fields: [(name or None, Ty)]"""
        self.name, self.params, self.body, self.attrs = name, params, body, attrs
        self.bounds, self.where, self.derive, self.pre = bounds or {}, where, derive, pre
        self.insts, self.raw, self.reuse, self.extra = insts, raw, reuse, extra
        fs = self.all_fields()
        self.tier = max([t.tier for _, t in fs] + [0])
        self.hash = any(t.hash for _, t in fs)
        self.leaf = set().union(*[t.leaf for _, t in fs]) | set(self.bounds) if fs else set(self.bounds)
        self.keyed = set().union(*[t.keyed for _, t in fs]) if fs else set()
        self.keeps = any(t.keeps for _, t in fs)
        self.type_params = [n for k, n in params if k == 'ty']
        self.consts = [n for k, n in params if k == 'const']
        self.mapped = marks or self.type_params

    def all_fields(self):
        if self.body[0] == 'struct':
            return self.body[2]
        return [f for v in self.body[1] for f in v[2]]

    def marker(self, p):
        return [n for k, n in self.params if k != 'lt'].index(p)

    def use(self, args, consts=(), path=''):
        """the type applied to argument types"""
        it_ = iter(args)
        ic = iter(consts)
        out, used = [], []
        for k, n in self.params:
            if k == 'lt':
                out.append("'static")
            elif k == 'const':
                out.append(str(next(ic)))
            else:
                a = next(it_)
                used.append((n, a))
                out.append(a.s)
        s = f'{path}{self.name}<{", ".join(out)}>' if out else self.name
        t = combine(s, [a for _, a in used], self.tier)
        t.hash |= self.hash
        t.keeps |= self.keeps
        for n, a in used:
            if n in self.leaf:
                t.leaf |= a.params
            if n in self.keyed:
                t.keyed |= a.params
        t.multi = len(self.type_params) > 1
        return t

    # ---- Rust text

    def decl(self):
        if self.raw:
            return self.pre + self.raw
        ps = []
        for k, n in self.params:
            if k == 'lt':
                ps.append(n)
            elif k == 'const':
                ps.append(f'const {n}: usize')
            else:
                ps.append(n + (': ' + self.bounds[n] if n in self.bounds else ''))
        g = f'<{", ".join(ps)}>' if ps else ''
        head = f'#[derive({self.derive})]\n{self.attrs}\n'
        w = f' where {self.where}' if self.where else ''

        def fields(style, fs, pub):
            if style == 'named':
                return ' { ' + ', '.join(f'{pub}{n}: {t.s}' for n, t in fs) + ' }'
            if style == 'tuple':
                return '(' + ', '.join(f'{pub}{t.s}' for _, t in fs) + ')'
            return ''
        if self.body[0] == 'struct':
            _, style, fs = self.body
            b = fields(style, fs, 'pub ')
            if style == 'named':
                return f'{head}pub struct {self.name}{g}{w}{b}\n'
            return f'{head}pub struct {self.name}{g}{b}{w};\n'
        vs = ', '.join(v + fields(style, fs, '') for v, style, fs in self.body[1])
        return f'{head}pub enum {self.name}{g}{w} {{ {vs} }}\n'

    def generics(self, bound):
        ps, use = [], []
        for k, n in self.params:
            if k == 'lt':
                use.append("'static")
            elif k == 'const':
                ps.append(f'const {n}: usize')
                use.append(n)
            else:
                b = 'Leaf' if n in self.leaf else bound
                ps.append(f'{n}: {b}')
                use.append(n)
        return (f'<{", ".join(ps)}>' if ps else ''), (f'<{", ".join(use)}>' if use else '')

    def children(self, t, expr):
        """(pass, expression) pairs for a field"""
        ps = t.params & set(self.type_params)
        if len(ps) > 1:
            if t.parts is None:
                raise ValueError(f'field of {self.name} mixes parameters: {t.s}')
            out = []
            for i, x in enumerate(t.parts):
                out += self.children(x, f'{expr}.{i}')
            return out
        mark = self.marker(next(iter(ps))) if ps else 0
        return [(mark, f'{expr}.obs()')]

    def impls(self):
        multi = len(self.type_params) > 1
        g, u = self.generics('Gen')
        out = f'impl{g} Gen for {self.name}{u} {{ fn gen() -> Self {{ crate::gen::in_one_piece::<Self>(); '

        def build(path, style, fs):
            if style == 'named':
                return f'{path} {{ ' + ', '.join(f'{n}: Gen::gen()' for n, _ in fs) + ' }'
            if style == 'tuple':
                return f'{path}(' + ', '.join('Gen::gen()' for _ in fs) + ')'
            return path
        if self.body[0] == 'struct':
            out += build(self.name, self.body[1], self.body[2])
        else:
            vs = self.body[1]
            out += f'match top().tape.draw({len(vs)}) {{ '
            for i, (v, style, fs) in enumerate(vs):
                out += f'{i if i + 1 < len(vs) else "_"} => {build(self.name + "::" + v, style, fs)}, '
            out += '}'
        out += ' } }\n'
        g, u = self.generics('Obs')
        out += f'impl{g} Obs for {self.name}{u} {{ fn obs(&self) -> Node {{ '

        def node(label, kids):
            if multi:
                return f'Node::Multi("{label}", vec![' + ', '.join(f'({m}, {e})' for m, e in kids) + '])'
            return f'Node::Prod("{label}", vec![' + ', '.join(e for _, e in kids) + '])'
        if self.body[0] == 'struct':
            kids = []
            for i, (n, t) in enumerate(self.body[2]):
                kids += self.children(t, f'self.{n if n is not None else i}')
            out += node(self.name, kids)
        else:
            out += 'match self { '
            for v, style, fs in self.body[1]:
                kids = []
                names = []
                for i, (n, t) in enumerate(fs):
                    names.append(f'x{i}')
                    kids += self.children(t, f'x{i}')
                if style == 'named':
                    pat = f'{self.name}::{v} {{ ' + ', '.join(f'{n}: x{i}' for i, (n, _) in enumerate(fs)) + ' }'
                elif style == 'tuple':
                    pat = f'{self.name}::{v}(' + ', '.join(names) + ')'
                else:
                    pat = f'{self.name}::{v}'
                out += f'{pat} => {node(self.name + "::" + v, kids)}, '
            out += '}'
        return out + ' } }\n'

    def families(self, pairs):
        out, entries = '', []
        insts = self.insts or ([()] if not self.consts else [tuple(n for _ in self.consts) for n in (0, 1, 3)])
        for p in self.mapped:
            for ci, consts in enumerate(insts):
                args = []
                keeps = self.keeps
                for q in self.type_params:
                    if q == p:
                        args.append(Ty('T'))
                    else:
                        args.append(KP)
                        keeps = True
                ty = self.use(args, consts)
                fl = 'd' + ('k' if p in self.keyed else '') + ('h' if self.hash else '') + ('p' if keeps else '')
                f = f'F_{self.name}_{p}_{ci}'.replace('#', '')
                label = ty.s
                out += f'crate::fam!({f}, "{label}", {self.tier}, "{fl}", T => {ty.s}, {self.marker(p)});\n'
                entries.append((self.tier, f, pairs))
        # commuting parameters
        comm = []
        ms = [m for m in self.mapped]
        if len(ms) > 1 and not self.hash:
            for a, b in zip(ms, ms[1:]):
                if a in self.leaf and a in self.keyed or b in self.keyed:
                    continue
                consts = insts[-1]
                def inst(x, y, a=a, b=b):
                    return self.use([Ty(x) if q == a else Ty(y) if q == b else KP for q in self.type_params], consts).s
                comm.append((self.tier, self.name, inst, self.marker(a), self.marker(b)))
        return out, entries, comm


def fields(style, names, tys):
    if style == 'named':
        return list(zip(names, tys))
    return [(None, t) for t in tys]


# ---------------------------------------------------------------- fixed shapes

def fixed():
    T, U, V = P('T'), P('U'), P('V')
    d = []

    def S(name, params, style, fs, **kw):
        ps = [(('lt' if p[0] == "'" else 'const' if p.isupper() and p in ('N', 'M') else 'ty'), p) for p in params]
        d.append(Def(name, ps, ('struct', style, fs), **kw))
        return d[-1]

    def E(name, params, vs, **kw):
        ps = [(('lt' if p[0] == "'" else 'const' if p in ('N', 'M') else 'ty'), p) for p in params]
        d.append(Def(name, ps, ('enum', vs), **kw))
        return d[-1]

    def t(*tys):
        return [(None, x) for x in tys]
    S('D1', ['T'], 'named', [('a', T), ('b', KP), ('c', T), ('d', lit('u32')), ('e', T)])
    S('DUnit', ['T'], 'tuple', t(wrap('PhantomData', T)))
    W = S('DWrap', ['T'], 'tuple', t(T))
    d2 = S('D2', ['T', 'U'], 'named', [('x', T), ('y', U), ('z', T), ('k', KP), ('w', U)])
    S('DTup', ['T'], 'tuple', t(tup(T, KP, T), tup(T), tup(KP), tup(T, tup(T, KP), arr(T, 2)), lit('()')))
    S('DLong', ['T'], 'tuple', t(tup(*([T, KP, T, T] * 3 + [T]))))
    S('DArr', ['T', 'N'], 'named', [('a', arr(T, 'N')), ('b', KP), ('c', arr(arr(T, 2), 3)), ('d', arr(tup(T, KP), 'N')), ('e', arr(KP, 2))])
    S('DConst2', ['T', 'N', 'U', 'M'], 'named',
      [('a', arr(T, 'N')), ('b', arr(U, 'M')), ('c', tup(U, T)), ('k', KP)], insts=[(0, 3), (2, 1)])
    S('DLife2', ["'a", "'b", 'T', 'U'], 'named', [('s', lit("&'a u32")), ('t', T), ('r', lit("&'b u32")), ('u', U), ('o', tup(U, T))])
    S('DLifeConst', ["'a", "'b", "'c", 'N', 'T', 'M', 'U'], 'tuple',
      t(lit("&'a u32"), arr(T, 'N'), lit("&'b u32"), arr(U, 'M'), lit("&'c u32"), U), insts=[(2, 1)])
    S('DConstFirst', ['N', 'M', 'T', 'U'], 'tuple', t(arr(T, 'N'), U, arr(U, 'M'), tup(U, T)), insts=[(1, 2)])
    S('DLife', ["'a", 'T', "U"], 'named', [('s', lit("&'a u32")), ('u', U), ('t', T), ('o', wrap('Option', T))])
    E('EOne', ['T'], [('Unit', 'unit', []), ('Tup', 'tuple', t(T, KP, T)), ('Named', 'named', [('a', KP), ('b', T), ('c', arr(T, 3))])])
    E('ETwo', ['T', 'U'], [('L', 'tuple', t(T, U)), ('R', 'named', [('u', U), ('t', T), ('v', U)]), ('N', 'unit', []), ('K', 'tuple', t(KP))])
    many = [(f'V{i}', ['unit', 'tuple', 'named'][i % 3],
             [] if i % 3 == 0 else t(*[[T, KP, T, lit('u32')][(i + j) % 4] for j in range(1 + i % 4)]) if i % 3 == 1
             else [(f'g{j}', [T, T, KP][(i + j) % 3]) for j in range(1 + i % 3)]) for i in range(40)]
    E('EMany', ['T'], many)
    wide = [(f'f{i}', [T, KP, tup(T, KP), wrap('Option', T), arr(T, 2), lit('u8')][(i * 5 + i // 6) % 6]) for i in range(34)]
    S('DWide', ['T'], 'named', wide)
    # nested derived types, multi-argument types
    S('DNest', ['T'], 'named', [('a', W.use([W.use([W.use([T])])])), ('b', W.use([wrap('Option', T)])), ('c', d2.use([T, KP])), ('e', d2.use([KP, T]))])
    S('DBoth', ['T'], 'tuple', t(d2.use([T, T]), T, d2.use([wrap('Option', T), arr(T, 2)])))
    tri = S('DTri', ['T', 'U', 'V'], 'named', [('v', V), ('u', U), ('t', T), ('m', tup(V, T)), ('w', U)])
    S('DTriUse', ['T'], 'tuple', t(tri.use([T, T, T]), tri.use([KP, T, T]), tri.use([T, KP, wrap('Option', T)])))
    S('DTriTwo', ['T', 'U'], 'tuple', t(tri.use([T, KP, T]), tri.use([KP, U, KP]), tup(U, tup(T, U))))
    S('DEdge', ['T'], 'named', [('r#type', T), ('f', T), ('value', T), ('r#match', KP), ('field_f', T)])
    S('DNames', ['A', 'B', 'F', 'E'], 'named', [('a', P('A')), ('b', P('B')), ('f', P('F')), ('e', P('E')), ('g', tup(P('F'), P('A')))])
    S('DBound', ['T', 'U'], 'tuple', t(T, wrap('Option', U), T), bounds={'T': 'Ord + ::core::fmt::Debug'}, where="U: 'static")
    S('DParams', ['T', 'U'], 'tuple', t(T, U, wrap('Option', U)), attrs='#[funcmap(params(U))]', marks=['U'])
    S('DParams2', ['T', 'U', 'V'], 'tuple', t(V, T, U, wrap('Option', T)), attrs='#[funcmap(params(T, V))]', marks=['T', 'V'])
    S('DCrate', ['T'], 'tuple', t(T, KP), attrs='#[funcmap(crate = "::funcmap")]')
    S('DCore', ['T'], 'named', [('o', wrap('Option', tup(T, wrap('Option', T)))), ('r', two('Result', T, KP)), ('q', two('Result', KP, arr(T, 2))),
                                ('cf', two('ControlFlow', wrap('Option', T), T)), ('p', wrap('Poll', wrap('Bound', T))),
                                ('rg', wrap('Range', T)), ('ri', wrap('RangeInclusive', T)), ('rf', wrap('RangeFrom', tup(T, T))),
                                ('rt', wrap('RangeTo', T)), ('rti', wrap('RangeToInclusive', wrap('Option', T)))])
    S('DCells', ['T'], 'tuple', t(wrap('Cell', T), wrap('RefCell', tup(T, KP)), wrap('UnsafeCell', arr(T, 2)), wrap('Cell', wrap('Cell', T)),
                                  it('core::option::IntoIter', T, 0), it('core::result::IntoIter', T, 0)))
    S('DParen', ['T'], 'tuple', t(combine('(T)', [T]), combine('(Option<(T)>)', [T]), combine('Option<([(T); 2])>', [T])))
    S('DRes2', ['T'], 'tuple', t(two('Result', T, T), two('ControlFlow', T, arr(T, 2)), two('Result', tup(T, T), wrap('Option', T))))
    # large definitions
    S('DMany', ['T'], 'named', [(f'm{i}', [T, KP, wrap('Option', T), lit('u8'), tup(T, KP), T, arr(T, 2)][i % 7]) for i in range(45)])
    S('DMany2', ['T', 'U'], 'tuple', t(*[[T, U, KP, tup(U, T), wrap('Option', U)][i % 5] for i in range(30)]))
    S('DLong2', ['T'], 'tuple', t(tup(*[[T, KP, wrap('Option', T), T][i % 4] for i in range(20)]), T))
    eight = ['A', 'B', 'T', 'U', 'N', 'W', 'X', 'Y', 'Z']
    twelve = ['A', 'B', 'C', 'D', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z', 'Q']
    d12 = S('DTwelve', twelve, 'tuple', t(*[P(q) for q in reversed(twelve)] + [wrap('Option', P(q)) for q in twelve]), reuse=False)
    S('DTwelveUse', ['T'], 'tuple', t(d12.use([KP, T, KP, T] + [KP] * 6 + [T, KP]), d12.use([KP] * 2 + [T] + [KP] * 8 + [T]), T))
    d8 = S('DEight', eight, 'named', [(f'p{i}', P(q)) for i, q in enumerate([q for q in reversed(eight) if q != 'N'] * 2)] + [('arr', arr(P('X'), 'N'))], insts=[(2,)])
    S('DEightUse', ['T'], 'tuple', t(d8.use([T, KP, T, T, KP, T, KP, T], [1]), d8.use([KP] * 7 + [T], [3])))
    deep = T
    for i in range(7):
        deep = wrap('Option', tup(KP, deep)) if i % 2 else wrap('Cell', arr(deep, 2))
    S('DDeep', ['T'], 'tuple', t(deep, T))
    big = [(f'W{i}', *[('tuple', t(T, KP, T)), ('unit', []), ('named', [('k', KP), ('t', T)]), ('tuple', t(KP)), ('tuple', t(arr(T, 3)))][i % 5]) for i in range(270)]
    E('EHuge', ['T'], [(v, st, fs) for v, st, fs in big])
    S('DSame', ['T'], 'tuple', t(d2.use([d2.use([T, T]), d2.use([T, KP])]), d2.use([wrap('Option', T), d2.use([KP, T])])))
    # unusual ways to write a definition: `raw` is the definition as text
    S('DAssoc', ['T', 'U'], 'tuple', t(T, Ty('U::Part', keeps=True), Ty('<U as HasPart>::Part', keeps=True), wrap('Option', T)),
      bounds={'U': 'HasPart'}, marks=['T'], pre='pub trait HasPart { type Part; } impl<X> HasPart for X { type Part = Kp; }\n',
      raw='''#[derive(FuncMap, TryFuncMap)]
#[funcmap(params(T))]
pub struct DAssoc<T, U: HasPart>(pub T, pub U::Part, pub <U as HasPart>::Part, pub Option<T>);
''')
    S('DGat', ['T'], 'named', [('a', T), ('b', combine('<OptShape as Shape>::Of<T>', [T])), ('c', combine('<ArrShape as Shape>::Of<(T, Kp)>', [T, KP]))],
      pre='pub trait Shape { type Of<X>; } pub struct OptShape; impl Shape for OptShape { type Of<X> = Option<X>; }'
          ' pub struct ArrShape; impl Shape for ArrShape { type Of<X> = Result<X, u8>; }\n',
      raw='''#[derive(FuncMap, TryFuncMap)]
pub struct DGat<T> { pub a: T, pub b: <OptShape as Shape>::Of<T>, pub c: <ArrShape as Shape>::Of<(T, Kp)> }
''')
    E('ERepr', ['T'], [('A', 'tuple', t(T)), ('B', 'unit', []), ('C', 'named', [('x', KP), ('t', T)]), ('D', 'tuple', t(KP, arr(T, 2)))],
      raw='''#[repr(u8)]
#[derive(FuncMap, TryFuncMap)]
pub enum ERepr<T> { A(T) = 9, B = 3, C { x: Kp, t: T } = 200, D(Kp, [T; 2]) }
''')
    lens = S('DLens', ['T', 'N'], 'tuple', t(arr(T, 3), arr(T, 3), arr(arr(T, 'N'), 2), T),
             pre='pub const LEN: usize = 3;\n', insts=[(2,), (3,)],
             raw='''#[derive(FuncMap, TryFuncMap)]
#[repr(C, align(32))]
pub struct DLens<T, const N: usize = 2>(pub [T; LEN], pub [T; 1 + 2], pub [[T; N]; { 2 }], pub T) where [T; N]: Sized;
''')
    S('DAttrs', ['T'], 'named', [('a', T), ('k', KP), ('b', wrap('Option', T)), ('c', T)],
      raw='''#[allow(missing_docs)]
#[derive(FuncMap)]
/** a block of docs */
#[derive(TryFuncMap)]
pub struct DAttrs<T> {
    /// docs
    #[allow(dead_code)]
    pub(crate) a: T,
    #[cfg(any())]
    missing: Missing<T>,
    #[cfg(all())]
    k: Kp,
    #[doc(hidden)]
    pub(super) b: Option<T>,
    pub(in super::super) c: T,
}
'''.replace('pub(in super::super)', 'pub(self)').replace('pub(super)', 'pub(crate)'))
    S('DDefault', ['T', 'U'], 'tuple', t(T, U, wrap('Option', T)),
      raw='''#[derive(FuncMap, TryFuncMap)]
pub struct DDefault<T = u32, U = Option<T>>(pub T, pub U, pub Option<T>);
''')
    S('DUseLens', ['T'], 'named', [('a', Ty('DLens<T, { 1 + 1 }>', ['T'])), ('b', lens.use([T], [3])), ('c', Ty('DDefault<T, Kp>', ['T'], keeps=True))])
    S('DWhere', ['T', 'U'], 'named', [('t', T), ('u', U), ('m', wrap('Option', U))], reuse=False,
      raw='''#[derive(FuncMap, TryFuncMap)]
pub struct DWhere<T, U>
where
    Option<T>: Sized,
    for<'x> &'x U: Copy,
    U: 'static,
{
    pub t: T,
    pub u: U,
    pub m: Option<U>,
}
''')
    S('DAlias', ['T'], 'tuple', t(combine('Alias<T>', [T]), combine('Alias<(T, Kp)>', [T, KP]), T),
      pre='pub type Alias<X> = Option<X>;\n',
      raw='''#[derive(FuncMap, TryFuncMap)]
pub struct DAlias<T>(pub Alias<T>, pub Alias<(T, Kp)>, pub T);
''')
    E('EBare', ['T'], [('A', 'tuple', []), ('B', 'named', []), ('C', 'tuple', t(wrap('PhantomData', T), T)), ('D', 'unit', [])],
      raw='''#[derive(FuncMap, TryFuncMap)]
pub enum EBare<T> { A(), B {}, C(PhantomData<T>, T,), D, }
''')
    S('DRel', ['T', 'U'], 'tuple', t(T, U, wrap('Option', T), tup(U, T)), reuse=False,
      pre='pub trait Rel<X> {} impl<X, Y> Rel<X> for Y {}\n',
      raw='''#[derive(FuncMap, TryFuncMap)]
pub struct DRel<T: Rel<U> + Rel<T>, U: Rel<T> + Rel<Option<T>> + Sized>(pub T, pub U, pub Option<T>, pub (U, T))
where
    Option<U>: Rel<T> + Rel<[T; 2]>,
    [T; 2]: Rel<U>;
''')
    S('DMaybe', ['T'], 'tuple', t(combine('Inner<T, str>', [T]), combine('Inner<T, [Kp]>', [T]), T), reuse=False,
      raw='''#[derive(FuncMap, TryFuncMap)]
pub struct Inner<T, U: ?Sized>(pub Option<T>, pub PhantomData<U>);
#[derive(FuncMap, TryFuncMap)]
pub struct Inner2<T: ?Sized, U>(pub PhantomData<T>, pub PhantomData<U>) where U: ?Sized;
#[derive(FuncMap, TryFuncMap)]
pub struct DMaybe<T>(pub Inner<T, str>, pub Inner<T, [Kp]>, pub T);
pub fn over0(v: Inner2<u16, str>) -> Inner2<u32, str> { FuncMap::<u16, u32, funcmap::TypeParam<0>>::func_map(v, |x| x as u32) }
pub fn over1(v: Inner2<str, u16>) -> Inner2<str, u32> { FuncMap::<u16, u32, funcmap::TypeParam<1>>::func_map(v, |x| x as u32) }
''', extra='''impl<T: Obs, U: ?Sized> Obs for Inner<T, U> { fn obs(&self) -> Node { Node::Prod("Inner", vec![self.0.obs()]) } }
impl<T: Gen, U: ?Sized> Gen for Inner<T, U> { fn gen() -> Self { Inner(Gen::gen(), PhantomData) } }
''')
    S('DShadow', ['T'], 'named', [('a', T), ('k', KP), ('o', wrap('Option', T)), ('b', T)],
      raw='''pub mod shadow {
    #![allow(dead_code, non_camel_case_types)]
    use super::Kp;
    pub mod core {}
    pub mod std {}
    pub mod alloc {}
    pub mod funcmap {}
    pub struct Ok;
    pub struct Err;
    pub struct Result;
    pub struct Some;
    pub struct FuncMap;
    pub struct TryFuncMap;
    pub struct TypeParam;
    pub trait FnMut {}
    pub trait FnOnce {}
    pub trait Into {}
    pub trait Other: ::core::marker::Sized { fn func_map(self) {} fn try_func_map(self) {} fn func_map_over(self) {} }
    impl<X> Other for X {}
    pub struct Inner<T>(pub T);
    macro_rules! vec { () => {} }
    #[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]
    pub struct DShadow<T> { pub a: T, pub k: Kp, pub o: ::core::option::Option<T>, pub b: T }
}
pub use shadow::DShadow;
''')
    S('DNotAll', ['T'], 'tuple', t(T, KP, T),
      raw='''pub struct NoMap<T>(pub T);
/// has no mapping, which is no error
#[derive(FuncMap, TryFuncMap)]
pub struct NotAll<T>(pub T, pub NoMap<T>);
/// has one for some of its types
#[derive(FuncMap, TryFuncMap)]
pub struct NotAll2<T, U>(pub T, pub PhantomData<U>, pub NoMap<U>);
pub fn over_t(v: NotAll2<u16, u8>) -> NotAll2<u32, u8> { FuncMap::<u16, u32, funcmap::TypeParam<0>>::func_map(v, |x| x as u32) }
#[derive(FuncMap, TryFuncMap)]
pub struct DNotAll<T>(pub T, pub Kp, pub T);
''')
    # written by hand, as the documentation shows
    hand = S('DHand', ['T', 'U'], 'named', [('t', wrap('Option', T)), ('u', wrap('Option', U))], marks=['T'],
             raw='''pub struct DHand<T, U> { pub t: Option<T>, pub u: Option<U> }
impl<T, U> Drop for DHand<T, U> {
    fn drop(&mut self) {
        drop(self.u.take());
    }
}
impl<A, B, U> FuncMap<A, B, funcmap::TypeParam<0>> for DHand<A, U> {
    type Output = DHand<B, U>;
    fn func_map<F: FnMut(A) -> B>(mut self, f: F) -> DHand<B, U> {
        let t = self.t.take().map(f);
        DHand { t, u: self.u.take() }
    }
}
impl<A, B, U> TryFuncMap<A, B, funcmap::TypeParam<0>> for DHand<A, U> {
    type Output = DHand<B, U>;
    fn try_func_map<E, F: FnMut(A) -> Result<B, E>>(mut self, f: F) -> Result<DHand<B, U>, E> {
        let t = self.t.take().map(f).transpose()?;
        Ok(DHand { t, u: self.u.take() })
    }
}
''', reuse=False)
    S('DHandUse', ['T'], 'tuple', t(hand.use([T, KP]), wrap('Option', hand.use([tup(T, KP), KP])), T))
    # alloc
    # written by hand, as the documentation shows
    dl = E('DList', ['T'], [('Nil', 'unit', []), ('Cons', 'tuple', t(T, Ty('Box<DList<T>>', ['T'], tier=1)))],
      raw='''pub enum DList<T> { Nil, Cons(T, Box<DList<T>>) }
impl<A, B> FuncMap<A, B> for DList<A> {
    type Output = DList<B>;
    fn func_map<F>(self, mut f: F) -> Self::Output
    where
        F: FnMut(A) -> B,
    {
        match self {
            DList::Nil => DList::Nil,
            DList::Cons(head, boxed_tail) => DList::Cons(f(head), boxed_tail.func_map(|tail| tail.func_map(&mut f as &mut dyn FnMut(_) -> _))),
        }
    }
}
impl<A, B> TryFuncMap<A, B> for DList<A> {
    type Output = DList<B>;
    fn try_func_map<E, F>(self, mut f: F) -> Result<Self::Output, E>
    where
        F: FnMut(A) -> Result<B, E>,
    {
        Ok(match self {
            DList::Nil => DList::Nil,
            DList::Cons(head, boxed_tail) => {
                DList::Cons(f(head)?, boxed_tail.try_func_map(|tail| tail.try_func_map(&mut f as &mut dyn FnMut(_) -> Result<_, E>))?)
            }
        })
    }
}
''')
    S('DListUse', ['T'], 'tuple', t(dl.use([T]), wrap('Option', dl.use([wrap('Option', T)])), dl.use([dl.use([T])])))
    S('DAlloc', ['T'], 'named', [('v', wrap('Vec', T)), ('b', wrap('Box', T)), ('d', wrap('VecDeque', tup(T, KP))), ('l', wrap('LinkedList', T)),
                                 ('vv', wrap('Vec', wrap('Vec', T))), ('k', wrap('Vec', KP)), ('s', lit('String'))])
    S('DKeyed', ['T'], 'named', [('s', kset('BTreeSet', T, 1)), ('m', bmap(T, KP)), ('h', kset('BinaryHeap', T, 1)), ('n', bmap(KP, T)),
                                 ('x', kset('BTreeSet', KP, 1))])
    S('DMaps', ['T'], 'tuple', t(bmap(KP, wrap('Vec', T)), bmap(KP, tup(T, KP, T)), wrap('Vec', wrap('Option', wrap('Box', T)))))
    S('DIters', ['T'], 'tuple', t(it('std::vec::IntoIter', T, 1), it('std::collections::vec_deque::IntoIter', T, 1),
                                  it('std::collections::btree_set::IntoIter', T, 1), it('std::collections::linked_list::IntoIter', T, 1)))
    S('DAllocUse', ['T'], 'tuple', t(wrap('Vec', d2.use([T, T])), wrap('Box', tri.use([T, wrap('Vec', T), T])), wrap('Vec', arr(T, 2))))
    E('EAlloc', ['T'], [('A', 'tuple', t(wrap('Vec', T))), ('B', 'named', [('m', wrap('Box', tup(T, T))), ('k', wrap('Box', KP))]), ('C', 'unit', [])])
    # std
    S('DStd', ['T'], 'named', [('m', hmap(KP, T)), ('k', KP), ('s', kset('HashSet', T, 2)), ('h', hmap(T, KP))])
    S('DStd2', ['T'], 'tuple', t(hmap(KP, wrap('Vec', T)), wrap('Vec', hmap(KP, T))))
    return d


# ---------------------------------------------------------------- random shapes

class Maker:
    def __init__(self, rnd, lib):
        self.r, self.lib = rnd, lib

    def ty(self, p, depth, tier):
        """a type that depends on parameter p (leaf: only p itself where a key is needed)"""
        r = self.r
        x = P(p)
        if depth == 0 or r.random() < 0.22:
            return x
        opts = ['core1'] * 4 + ['arr'] * 2 + ['tup'] * 3 + ['two'] * 2 + ['user'] * 3 + ['iter'] + ['paren']
        if tier >= 1:
            opts += ['alloc1'] * 5 + ['bmapv'] * 1 + ['key'] * 2 + ['iter']
        if tier >= 2:
            opts += ['hmapv'] * 2 + ['hkey']
        o = r.choice(opts)
        if o == 'core1':
            n = r.choice(CORE1)
            return wrap(n, self.ty(p, depth - 1, tier), r.choice(PATHS.get(n, [n])))
        if o == 'paren':
            i = self.ty(p, depth - 1, tier)
            t = combine(f'({i.s})', [i])
            t.parts = i.parts
            return t if i.parts is None else i
        if o == 'arr':
            return arr(self.ty(p, depth - 1, tier), r.choice([0, 1, 2, 3, 4]))
        if o == 'tup':
            n = r.choice([1, 2, 2, 3, 4, 6])
            xs = [self.ty(p, depth - 1, tier) if r.random() < 0.6 else self.other(tier) for _ in range(n)]
            if not any(p in y.params for y in xs):
                xs[r.randrange(n)] = x
            return tup(*xs)
        if o == 'two':
            n = r.choice(['Result', 'ControlFlow'])
            a, b = self.ty(p, depth - 1, tier), self.ty(p, depth - 1, tier) if r.random() < 0.5 else self.other(tier)
            return two(n, *((a, b) if r.random() < 0.5 else (b, a)))
        if o == 'user':
            c = [d for d in self.lib if d.tier <= tier and d.reuse and not d.bounds and set(d.mapped) == set(d.type_params)]
            if not c:
                return x
            d = r.choice(c)
            args = []
            for q in d.type_params:
                if q in d.leaf:
                    args.append(x if r.random() < 0.7 else KP)
                else:
                    args.append(self.ty(p, depth - 1, tier) if r.random() < 0.7 else KP)
            if not any(p in a.params for a in args):
                args[r.randrange(len(args))] = x
            return d.use(args, [r.choice([1, 2]) for _ in d.consts], r.choice(['', '', 'self::']))
        if o == 'alloc1':
            n = r.choice(ALLOC1)
            return wrap(n, self.ty(p, depth - 1, tier), r.choice(PATHS.get(n, [n])))
        if o == 'bmapv':
            return bmap(KP, self.ty(p, depth - 1, tier))
        if o == 'key':
            return r.choice([kset('BTreeSet', x, 1), kset('BinaryHeap', x, 1), bmap(x, KP), bmap(x, wrap('Option', KP))])
        if o == 'iter':
            return it(r.choice(ITERS_CORE if tier == 0 else ITERS_ALLOC + ITERS_CORE), x, 0 if tier == 0 else 1)
        if o == 'hmapv':
            return hmap(KP, self.ty(p, depth - 1, tier))
        return r.choice([kset('HashSet', x, 2), hmap(x, KP), it(ITERS_STD[0], x, 2)])

    def other(self, tier):
        r = self.r
        o = r.randrange(6)
        if o <= 2:
            return KP
        if o == 3:
            return lit(r.choice(LITS0))
        if o == 4 and tier >= 1:
            return r.choice([wrap('Vec', KP), wrap('Box', KP), lit('String'), wrap('Option', KP)])
        return r.choice([wrap('Option', KP), tup(KP, lit('u32')), arr(KP, 2), wrap('Cell', KP)])

    def definition(self, name):
        r = self.r
        tier = r.choice([0, 0, 1, 1, 2])
        shape = r.random()
        nt = r.choice([1, 1, 1, 2, 2, 3])
        names = r.choice([['T', 'U', 'V'], ['A', 'B', 'C'], ['F', 'E', 'X'], ['K', 'Value', 'Z_']])[:nt]
        params = [('ty', n) for n in names]
        if r.random() < 0.2:
            params.insert(r.randrange(len(params) + 1), ('const', 'N'))
        if r.random() < 0.2:
            params.insert(0, ('lt', "'a"))

        def fld():
            o = r.random()
            if o < 0.28:
                return self.other(tier)
            if nt > 1 and o < 0.4:
                ps = r.sample(names, 2)
                return tup(*[self.ty(q, 1, tier) for q in ps])
            return self.ty(r.choice(names), r.choice([1, 2, 2, 3]), tier)
        idents = ['a', 'b', 'c', 'f', 'value', 'r#type', 'x1', 'inner', 'key', 'self_', 'mapped', 'err', 'output', 'd', 'e', 'g', 'h']

        def body(least):
            style = r.choice(['named', 'named', 'tuple', 'tuple', 'unit'] if not least else ['named', 'tuple'])
            if style == 'unit':
                return style, []
            n = r.choice([1, 1, 2, 3, 4, 5, 7]) if style != 'unit' else 0
            tys = [fld() for _ in range(n)]
            ns = r.sample(idents, n)
            return style, fields(style, ns, tys)
        if shape < 0.55:
            style, fs = body(True)
            used = set().union(*[t.params for _, t in fs])
            for q in names:
                if q not in used:
                    fs.append((r.choice(['z' + q.lower()]) if style == 'named' else None, P(q)))
            extra = fs
            b = ['struct', style, fs]
        else:
            vs = []
            for i in range(r.choice([1, 2, 3, 3, 4, 6])):
                style, fs = body(False)
                vs.append([f'V{i}', style, fs])
            used = set().union(*[t.params for v in vs for _, t in v[2]] or [set()])
            vs.append(['Last', 'tuple', [(None, P(q)) for q in names if q not in used] or [(None, P(names[0]))]])
            extra = vs[-1][2]
            b = ['enum', vs]
        if any(k == 'const' for k, _ in params) or any(k == 'lt' for k, _ in params):
            last = b[2] if b[0] == 'struct' else vs[-1][2]
            style = b[1] if b[0] == 'struct' else 'tuple'
            if any(k == 'const' for k, _ in params):
                last.append(('arr_n' if style == 'named' else None, arr(P(names[-1]), 'N')))
            if any(k == 'lt' for k, _ in params):
                last.append(('life' if style == 'named' else None, lit("&'a u32")))
        b = tuple(b) if b[0] == 'struct' else ('enum', [tuple(v) for v in b[1]])
        kw = {}
        if r.random() < 0.15:
            kw['bounds'] = {names[0]: r.choice(['Ord', "'static + Ord", '::core::fmt::Debug'])}
        if len(names) > 1 and r.random() < 0.25:
            m = sorted(r.sample(names, r.randrange(1, len(names) + 1)), key=names.index)
            kw['attrs'] = f'#[funcmap(params({", ".join(r.sample(m, len(m)))}))]'
            kw['marks'] = m
        d = Def(name, params, b, **kw)
        for _, t in d.all_fields():
            for q in d.type_params:
                if 'Leaf' in ():
                    pass
            d.children(t, 'x')  # raises if it mixes parameters
        return d


PRELUDE = '''// generated by tools/gentypes.py: do not edit
#[allow(unused_imports)]
use crate::{fams::Entry, gen::{Gen, Obs}, node::Node, rt::top, tok::*};
#[allow(unused_imports)]
use core::{cell::{Cell, RefCell, UnsafeCell}, marker::PhantomData, task::Poll};
#[allow(unused_imports)]
use core::ops::{Bound, ControlFlow, Range, RangeFrom, RangeInclusive, RangeTo, RangeToInclusive};
#[allow(unused_imports)]
use funcmap::{FuncMap, TryFuncMap};
#[allow(unused_imports)]
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};

'''


def definitions(seed, count):
    ds = fixed()
    rnd = random.Random(seed * 7919 + 13)
    m = Maker(rnd, list(ds))
    i = 0
    tries = 0
    while i < count and tries < count * 50:
        tries += 1
        try:
            d = m.definition(f'G{i}')
        except ValueError:
            continue
        if len(d.decl()) > 1500:
            continue
        ds.append(d)
        m.lib.append(d)
        i += 1
    return ds


def deps(d, names):
    import re
    text = d.decl()
    return {n for n in names if n != d.name and re.search(r'\b' + n + r'\b', text)}


USES = '''#![allow(unused, non_camel_case_types, unused_parens)]
use core::{cell::{Cell, RefCell, UnsafeCell}, marker::PhantomData, task::Poll};
use core::ops::{Bound, ControlFlow, Range, RangeFrom, RangeInclusive, RangeTo, RangeToInclusive};
use funcmap::{FuncMap, TryFuncMap};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
pub struct Kp;
'''


def standalone(ds, name):
    """source text of a crate with one definition and those it uses, and source text of uses of its mappings"""
    by = {d.name: d for d in ds}
    need, todo = [], [name]
    while todo:
        n = todo.pop()
        if n not in need:
            need.append(n)
            todo += sorted(deps(by[n], set(by)))
    decls = USES + ''.join(by[n].decl() for n in reversed(need))
    text = ''
    d = by[name]
    consts = (d.insts or [tuple(2 for _ in d.consts)])[-1]
    for i, p in enumerate(d.mapped):
        a = d.use([Ty('u16' if q == p else 'Kp' if q not in d.bounds else 'u8') for q in d.type_params], consts).s
        b = d.use([Ty('u32' if q == p else 'Kp' if q not in d.bounds else 'u8') for q in d.type_params], consts).s
        m = d.marker(p)
        text += f'pub fn map{i}(v: {a}) -> {b} {{ FuncMap::<u16, u32, funcmap::TypeParam<{m}>>::func_map(v, |x| x as u32) }}\n'
        text += (f'pub fn try_map{i}(v: {a}) -> Result<{b}, ()> '
                 f'{{ TryFuncMap::<u16, u32, funcmap::TypeParam<{m}>>::try_func_map(v, |x| Ok(x as u32)) }}\n')
    return decls, text


def write(seed, count, out, exclude=()):
    ds = definitions(seed, count)
    names = {d.name for d in ds}
    bad = set(exclude)
    changed = True
    while changed:
        changed = False
        for d in ds:
            if d.name not in bad and deps(d, names) & bad:
                bad.add(d.name)
                changed = True
    text = PRELUDE
    ents = {0: [], 1: [], 2: []}
    comms = []
    for i, d in enumerate(ds):
        if d.name in bad:
            continue
        gate = {0: '', 1: '#[cfg(feature = "alloc")]\n', 2: '#[cfg(feature = "std")]\n'}[d.tier]
        f, es, comm = d.families('three' if i % 7 == 0 and not d.keyed else 'one')
        text += gate + f'pub mod m_{d.name.lower()} {{\n    use super::*;\n    ' + (d.decl() + d.extra + d.impls() + f).replace('\n', '\n    ') + '\n}\n'
        text += '#[allow(unused_imports)]\n' + gate + f'pub use m_{d.name.lower()}::{d.name};\n'
        for t, n, p in es:
            ents[t].append(f'entry!(m_{d.name.lower()}::{n}, {p})')
        comms += comm
    text += 'pub fn add(t: &mut Vec<Entry>, tier: u8) {\n    use crate::entry;\n'
    for t in (0, 1, 2):
        gate = {0: '', 1: '#[cfg(feature = "alloc")]\n    ', 2: '#[cfg(feature = "std")]\n    '}[t]
        text += f'    {gate}if tier == {t} {{ t.extend([{", ".join(ents[t])}]); }}\n'
    text += '}\n'
    # commutation of parameters
    gens = ''
    rows = []
    for tier, name, inst, a, b in comms:
        gate = {0: '', 1: '#[cfg(feature = "alloc")]\n', 2: '#[cfg(feature = "std")]\n'}[tier]
        fn = f'comm_{name.lower()}_{a}_{b}'
        gens += f'''{gate}pub fn {fn}(sx: u64) {{
    crate::laws::commute::<{inst("S", "H")}, {inst("F", "H")}, {inst("S", "F")}, {inst("F", "F")}>("{name}", sx,
        |v| TryFuncMap::<S, F, funcmap::TypeParam<{a}>>::try_func_map(v, crate::laws::stage::<S, F>(0)),
        |v| TryFuncMap::<H, F, funcmap::TypeParam<{b}>>::try_func_map(v, crate::laws::stage::<H, F>(1)),
        |v| TryFuncMap::<H, F, funcmap::TypeParam<{b}>>::try_func_map(v, crate::laws::stage::<H, F>(1)),
        |v| TryFuncMap::<S, F, funcmap::TypeParam<{a}>>::try_func_map(v, crate::laws::stage::<S, F>(0)));
}}
'''
        rows.append((tier, fn))
    text += gens
    text += 'pub fn commuting() -> Vec<fn(u64)> {\n    #[allow(unused_mut)]\n    let mut v: Vec<fn(u64)> = vec![];\n'
    for tier, fn in rows:
        gate = {0: '', 1: '#[cfg(feature = "alloc")] ', 2: '#[cfg(feature = "std")] '}[tier]
        text += f'    {gate}v.push({fn});\n'
    text += '    v\n}\n'
    text += f'pub const TYPES: usize = {len(ds) - len(bad)};\n'
    old = None
    try:
        old = open(out).read()
    except OSError:
        pass
    if old != text:
        open(out, 'w').write(text)
    return ds, bad


if __name__ == '__main__':
    ds, bad = write(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4].split(',') if len(sys.argv) > 4 and sys.argv[4] else [])
    print(len(ds), 'types', len(bad), 'left out')
