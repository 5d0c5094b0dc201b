#!/usr/bin/env python3
"""Generates inputs of the derive macros: accepted definitions and definitions with one or several errors.
Deterministic in (seed, count). usage: geninputs.py SEED COUNT OUT"""
import random
import re
import sys

import gentypes

NAMES = ['T', 'U', 'V', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'K', 'S', 'X', 'Z', 'Type', 'Item', 'r#where', 'Größe', 'T1', 'a']
LTS = ["'a", "'b", "'x", "'static_", "'de", "'r"]
TRAITS = ['Clone', 'Copy', '::core::fmt::Debug', 'Ord', 'Tr<{p}>', 'Tr<Option<{p}>>', 'Iterator<Item = {p}>', 'Into<[{p}; 2]>', 'Q<{q}>', 'Q<({p}, {q})>',
          'for<\'z> Hr<\'z, {p}>', 'Sized', '?Sized', "{l}", 'Fn({p}) -> {q}', 'Send', 'Sync', '::std::hash::Hash', 'Tr<{p}> ']
BAD = ['&{l} {p}', 'fn({p})', '*const {p}', '[{p}]', 'dyn Tr<{p}>', 'Vec<{p}, {p}, Al>', '<{p} as Iterator>::Item', 'impl Tr<{p}>', 'm!({p})', '!',
       "&'static mut {p}", 'unsafe extern "C" fn({p}) -> {p}', 'fn({q}) -> ({p},)', 'dyn Fn({p})', '({p}, &{l} {p})', 'Option<&{l} {p}>', '(({p}))',
       'Foo<{l}, {p}, 3>', 'Fn({p})', '_', 'Box<dyn Tr<{p}>>', '[&{l} {p}; 2]', 'a::b::<{p}>::C<{p}>', 'X<Assoc = {p}>', 'X<{{ 3 }}, {p}>']
GOOD = ['{p}', '{p}', 'Option<{p}>', 'Vec<{p}>', '({p}, {q})', '[{p}; 3]', 'Box<{p}>', 'Result<{p}, {q}>', 'HashMap<{p}, {q}>', 'Foo<{p}, {p}>',
        'some::path::Foo<{p}>', '::abs::Foo<{q}, {p}>', 'Foo<Bar<{p}>, Baz<{p}, {q}>>', 'u32', '({p},)', '()', 'PhantomData<{p}>', "Foo<'static, {p}>",
        'Foo<{p}, 3>', 'Tup<({p}, ({q}, {p}))>', '[Option<{p}>; {n}]', 'Q<Option<{p}>>', '({p})', 'Cell<[{p}; 2]>', 'BTreeMap<{q}, Vec<{p}>>']
ATTRS = ['#[funcmap(crate = "my::funcmap")]', '#[funcmap(crate = "::x")]', '#[funcmap(params({p}))]', '#[funcmap(params({p}, {q}))]', '#[derive(Debug)]', '#[repr(C)]',
         '/// text']
BADATTRS = ['#[funcmap(crate = "1x")]', '#[funcmap(crate = "a", crate = "b")]', '#[funcmap]', '#[funcmap()]', '#[funcmap(params())]', '#[funcmap(params({p}, {p}))]',
            '#[funcmap(params({l}))]', '#[funcmap(params({n}))]', '#[funcmap(params(Nope))]', '#[funcmap(params(Nope, Other, {p}))]', '#[funcmap(other)]', '#[funcmap = "x"]',
            '#[funcmap(params({p}, Nope, {p}, {l}, {n}))]', '#[funcmap(crate = "a")] #[funcmap(crate = "b")]']


class Inputs:
    def __init__(self, r):
        self.r = r

    def fill(self, s):
        r = self.r
        p = r.choice(self.ps) if self.ps else 'Nix'
        q = r.choice(self.ps) if self.ps else 'Nix'
        return s.format(p=p, q=q, l=r.choice(self.ls) if self.ls else "'static", n=r.choice(self.ns) if self.ns else '4')

    def ty(self, bad):
        r = self.r
        s = self.fill(r.choice(BAD if bad else GOOD))
        if r.random() < 0.15:
            s = f'Option<{s}>'
        return s

    def one(self, bad):
        """a definition with about `bad` errors"""
        r = self.r
        many = r.random() < 0.2
        names = NAMES + [chr(65 + i) for i in range(26)] if many else NAMES
        self.ps = r.sample(sorted(set(names)), r.randint(0 if bad and r.random() < .1 else 1, 12 if many else 4))
        if r.random() < .04:
            # no letters left, perhaps no prefixed ones either
            letters = [chr(65 + i) for i in range(26)]
            self.ps = r.sample(letters, r.randint(22, 26))
            if r.random() < .4:
                self.ps += ['__FUNCMAP_' + c for c in r.sample(letters, r.randint(1, 26))]
        self.ls = r.sample(LTS, r.choice([0, 0, 1, 2, 4, 6]))
        self.ns = r.sample(['N', 'M', 'LEN'], r.choice([0, 0, 0, 1, 2]))
        self.ns = [n for n in self.ns if n not in self.ps]
        gs = [l + (': ' + ' + '.join(r.choice(self.ls) for _ in range(r.randint(1, 3))) if r.random() < .2 else '') for l in self.ls]
        rest = []
        for p in self.ps:
            b = [self.fill(r.choice(TRAITS)) for _ in range(r.choice([0, 0, 0, 1, 2, 4]))]
            rest.append(p + (': ' + ' + '.join(b) if b else '') + (f' = {r.choice(["u8", "()"])}' if r.random() < .05 else ''))
        for n in self.ns:
            rest.append(f'const {n}: usize')
        if r.random() < .7:
            r.shuffle(rest)
        gs += rest
        attrs, errs = [], bad
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            attrs.append(self.fill(r.choice(ATTRS)))
        while errs and r.random() < .35:
            attrs.append(self.fill(r.choice(BADATTRS)))
            errs -= 1
        preds = []
        for _ in range(r.choice([0, 0, 1, 2, 3, 6, 10])):
            k = r.random()
            if k < .15 and self.ls:
                preds.append(f"{r.choice(self.ls)}: " + ' + '.join(r.choice(self.ls) for _ in range(r.choice([0, 1, 1, 1, 2, 4]))))
            elif k < .25:
                preds.append(self.fill("for<'h> {p}: Hr<'h, {q}>"))
            else:
                lhs = self.fill(r.choice(['{p}', '{p}', 'Option<{p}>', 'Vec<{q}>', '({p}, {q})', 'u8', '{q}', '&{l} {p}', '<{p} as Tr<{q}>>::Out', '{p}::Item']))
                preds.append(lhs + ': ' + ' + '.join(self.fill(r.choice(TRAITS)) for _ in range(r.choice([1, 1, 2, 3]))))
        w = f' where {", ".join(preds)}' if preds else ''
        n = r.choice([0, 1, 2, 3, 5, 9, 20] + ([60] if r.random() < .1 else []))
        fs = [False] * n + [True] * errs
        r.shuffle(fs)

        def fields(fs, pub):
            if not fs:
                return r.choice(['', '()', '{}']), 'unit'
            fattr = lambda: (self.fill(r.choice(['#[funcmap(params({p}))] ', '#[funcmap] ', '#[cfg(x)] '])) if bad and r.random() < .1 else '')
            if r.random() < .5:
                return '{ ' + ', '.join(f'{fattr()}{pub}f{i}: {self.ty(b)}' for i, b in enumerate(fs)) + ' }', 'named'
            return '(' + ', '.join(fattr() + pub + self.ty(b) for b in fs) + ')', 'tuple'
        name = r.choice(['Item', 'Q', 'Name', 'A', 'Foo', 'Output'])
        g = f'<{", ".join(gs)}>' if gs else ''
        kind = r.random()
        head = ' '.join(attrs)
        if '///' in head:
            head = head.replace('/// text', '#[doc = "text"]')
        if kind < .5:
            body, st = fields(fs, r.choice(['', 'pub ', 'pub(crate) ']))
            if st == 'named' or body == '{}':
                return f'{head} pub struct {name}{g}{w} {body}'
            return f'{head} struct {name}{g}{body}{w};'
        if kind < .95 or not bad:
            k = r.choice([0, 1, 2, 3, 6, 12])
            parts = [[] for _ in range(max(k, 1))]
            for b in fs:
                r.choice(parts).append(b)
            vs = ', '.join((self.fill(r.choice(['#[funcmap(params({p}))] ', '#[funcmap(crate = "x")] '])) if bad and r.random() < .08 else '')
                           + f'V{i}' + fields(x, '')[0] for i, x in enumerate(parts))
            return f'{head} enum {name}{g}{w} {{ {vs} }}'
        return f'{head} union {name}{g}{w} {{ ' + ', '.join(f'f{i}: {self.ty(b)}' for i, b in enumerate(fs or [False])) + ' }'


def items(text, derive):
    """what is derived for, item by item"""
    text = '\n'.join(l for l in text.splitlines() if not l.strip().startswith('//'))
    first, *rest = text.split(derive)
    for i, t in enumerate(rest):
        depth, end = 0, len(t)
        for k, c in enumerate(t):
            depth += (c in '{([') - (c in '})]')
            if depth == 0 and (c == ';' or c == '}' and not re.match(r'\s*(,|>|where|\()', t[k + 1:])):
                end = k + 1
                break
        yield (first.split(';')[-1].split('}')[-1] if i == 0 and first.strip().endswith(']') else '') + t[:end]


def generate(seed, count):
    r = random.Random(seed * 104729 + 5)
    out = []
    ds = gentypes.definitions(seed, count // 4)
    for d in ds:
        for t in items(d.decl(), f'#[derive({d.derive})]'):
            out.append(' '.join(t.split()))
    g = Inputs(r)
    while len(out) < count:
        bad = r.choice([0, 0, 0, 1, 2, 3, 5, 8])
        out.append(' '.join(g.one(bad).split()))
    for s in ['', 'struct', 'fn f() {}', 'struct A<T>(T', 'struct A<T> { a T }', 'pub enum E<T> { A(T) B }', 'struct A<T>(T)', '#[funcmap(params(T))] trait X {}']:
        out.append(s)
    return out


if __name__ == '__main__':
    xs = generate(int(sys.argv[1]), int(sys.argv[2]))
    open(sys.argv[3], 'w').write('\n'.join(xs) + '\n')
    print(len(xs), 'inputs')
