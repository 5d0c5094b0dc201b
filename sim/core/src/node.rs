//! The reference model: abstract values, the visiting order the closure must see, and the value a
//! successful call must produce.

use crate::rt::HashMap;

pub type Id = u32;
/// identity of a zero-sized token: there is none
pub const ANON: Id = u32::MAX;
/// matches any token
pub const WILD: Id = u32::MAX - 1;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    /// an occurrence of the mapped parameter
    Hit(Id, u16),
    /// a tracked value that does not depend on the mapped parameter
    Keep(Id, u16),
    /// plain data that does not depend on the mapped parameter
    Lit(u64),
    /// fixed structure, visited in order
    Prod(&'static str, Vec<Node>),
    /// like `Prod`, but children are visited grouped by the type argument they belong to
    Multi(&'static str, Vec<(u8, Node)>),
    /// sorted set / map, hashed set / map, heap
    OSet(Vec<Node>),
    OMap(Vec<(Node, Node)>),
    HSet(Vec<Node>),
    HMap(Vec<(Node, Node)>),
    Heap(Vec<Node>),
}

/// The child each identity belongs to, and those with values without identity (from the first that may not be done).
#[derive(Clone, Debug, Default)]
pub struct Index {
    of: HashMap<Id, usize>,
    anon: Vec<usize>,
    from: usize,
}

/// What the closure may see next.
#[derive(Clone, Debug)]
pub enum Visit {
    One(Id, bool),
    Seq(Vec<Visit>, usize),
    /// any order, one child at a time; with the child an identity belongs to, when there are many
    Any(Vec<Visit>, Option<usize>, usize, Option<Index>),
}

impl Visit {
    fn done(&self) -> bool {
        match self {
            Visit::One(_, d) => *d,
            Visit::Seq(v, i) => *i >= v.len(),
            Visit::Any(v, cur, n, _) => cur.is_none() && *n >= v.len(),
        }
    }
    fn settle(&mut self) {
        match self {
            Visit::Seq(v, i) => {
                while *i < v.len() && v[*i].done() {
                    *i += 1;
                }
            }
            Visit::Any(v, cur, n, _) => {
                if let Some(c) = *cur {
                    if v[c].done() {
                        *cur = None;
                        *n += 1;
                    }
                }
            }
            _ => {}
        }
    }
    /// may `id` be visited now? advances if so
    pub fn advance(&mut self, id: Id) -> bool {
        let ok = match self {
            Visit::One(x, d) => {
                if !*d && (*x == id || id == ANON || *x == ANON) {
                    *d = true;
                    true
                } else {
                    false
                }
            }
            Visit::Seq(v, i) => *i < v.len() && v[*i].advance(id),
            Visit::Any(v, cur, _, index) => match (*cur, index) {
                (Some(c), _) => v[c].advance(id),
                (None, Some(x)) if id == ANON => {
                    while x.from < x.anon.len() && v[x.anon[x.from]].done() {
                        x.from += 1;
                    }
                    let k = x.anon[x.from..].iter().copied().find(|k| !v[*k].done() && v[*k].advance(id));
                    *cur = k;
                    k.is_some()
                }
                (None, Some(index)) => match index.of.get(&id) {
                    Some(k) if !v[*k].done() && v[*k].advance(id) => {
                        *cur = Some(*k);
                        true
                    }
                    _ => false,
                },
                (None, None) => {
                    let mut r = false;
                    for (k, c) in v.iter_mut().enumerate() {
                        if !c.done() && c.advance(id) {
                            *cur = Some(k);
                            r = true;
                            break;
                        }
                    }
                    r
                }
            },
        };
        if ok {
            self.settle();
        }
        ok
    }
    fn seq(mut v: Vec<Visit>) -> Visit {
        v.retain(|x| !x.done());
        Visit::Seq(v, 0)
    }
    fn any(mut v: Vec<Visit>) -> Visit {
        v.retain(|x| !x.done());
        let mut index = Index::default();
        if v.len() > 16 {
            let mut ids = vec![];
            for (k, c) in v.iter().enumerate() {
                c.ids(&mut ids);
                for id in ids.drain(..) {
                    if id != ANON {
                        index.of.insert(id, k);
                    } else if index.anon.last() != Some(&k) {
                        index.anon.push(k);
                    }
                }
            }
        }
        let index = (v.len() > 16).then_some(index);
        Visit::Any(v, None, 0, index)
    }
    fn ids(&self, out: &mut Vec<Id>) {
        match self {
            Visit::One(id, _) => out.push(*id),
            Visit::Seq(v, _) | Visit::Any(v, ..) => v.iter().for_each(|x| x.ids(out)),
        }
    }
}

impl Node {
    pub fn visit(&self) -> Visit {
        match self {
            Node::Hit(id, _) => Visit::One(*id, false),
            Node::Keep(..) | Node::Lit(_) => Visit::Seq(vec![], 0),
            Node::Prod(_, c) => Visit::seq(c.iter().map(|n| n.visit()).collect()),
            Node::Multi(_, c) => {
                let mut idx: Vec<_> = c.iter().collect();
                idx.sort_by_key(|(p, _)| *p);
                Visit::seq(idx.into_iter().map(|(_, n)| n.visit()).collect())
            }
            Node::OSet(c) => Visit::seq(c.iter().map(|n| n.visit()).collect()),
            Node::OMap(c) => Visit::seq(
                c.iter().map(|(k, v)| Visit::seq(vec![k.visit(), v.visit()])).collect(),
            ),
            Node::HSet(c) | Node::Heap(c) => Visit::any(c.iter().map(|n| n.visit()).collect()),
            Node::HMap(c) => Visit::any(
                c.iter().map(|(k, v)| Visit::seq(vec![k.visit(), v.visit()])).collect(),
            ),
        }
    }

    /// all leaves: (id, is_hit)
    pub fn leaves(&self, out: &mut Vec<(Id, bool)>) {
        match self {
            Node::Hit(i, _) => out.push((*i, true)),
            Node::Keep(i, _) => out.push((*i, false)),
            Node::Lit(_) => {}
            Node::Prod(_, c) | Node::OSet(c) | Node::HSet(c) | Node::Heap(c) => {
                c.iter().for_each(|n| n.leaves(out))
            }
            Node::Multi(_, c) => c.iter().for_each(|(_, n)| n.leaves(out)),
            Node::OMap(c) | Node::HMap(c) => c.iter().for_each(|(k, v)| {
                k.leaves(out);
                v.leaves(out)
            }),
        }
    }

    pub fn hits(&self) -> usize {
        let mut v = vec![];
        self.leaves(&mut v);
        v.iter().filter(|x| x.1).count()
    }

    pub fn has_keyed(&self) -> bool {
        match self {
            Node::Hit(..) | Node::Keep(..) | Node::Lit(_) => false,
            Node::Prod(_, c) => c.iter().any(|n| n.has_keyed()),
            Node::Multi(_, c) => c.iter().any(|(_, n)| n.has_keyed()),
            _ => true,
        }
    }

    /// canonical digest, with token identities passed through `f`; hashed and heap children as multisets
    pub fn digest(&self, f: &dyn Fn(Id, u16, bool) -> u64) -> u64 {
        fn mix(a: u64, b: u64) -> u64 {
            let mut x = a.rotate_left(23) ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15);
            x ^= x >> 29;
            x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
            x ^ (x >> 32)
        }
        fn s(t: &str) -> u64 {
            t.bytes().fold(7, |a, b| mix(a, b as u64))
        }
        match self {
            Node::Hit(i, k) => mix(1, f(*i, *k, true)),
            Node::Keep(i, k) => mix(2, f(*i, *k, false)),
            Node::Lit(x) => mix(3, *x),
            Node::Prod(t, c) => c.iter().fold(mix(4, s(t)), |a, n| mix(a, n.digest(f))),
            Node::Multi(t, c) => c.iter().fold(mix(5, s(t)), |a, (_, n)| mix(a, n.digest(f))),
            Node::OSet(c) => c.iter().fold(6, |a, n| mix(a, n.digest(f))),
            Node::OMap(c) => {
                c.iter().fold(7, |a, (k, v)| mix(mix(a, k.digest(f)), v.digest(f)))
            }
            Node::HSet(c) | Node::Heap(c) => {
                c.iter().fold(c.len() as u64, |a, n| a.wrapping_add(mix(8, n.digest(f))))
            }
            Node::HMap(c) => c.iter().fold(c.len() as u64, |a, (k, v)| {
                a.wrapping_add(mix(mix(9, k.digest(f)), v.digest(f)))
            }),
        }
    }

    pub fn show(&self, out: &mut String, depth: usize) {
        use std::fmt::Write;
        if out.len() > 1500 {
            if !out.ends_with("...") {
                out.push_str("...");
            }
            return;
        }
        let id = |i: &Id| if *i == ANON { "z".to_string() } else { format!("{}", i & 0xfffff) };
        match self {
            Node::Hit(i, k) => write!(out, "#{}:{}", id(i), k).unwrap(),
            Node::Keep(i, _) => write!(out, "keep{}", id(i)).unwrap(),
            Node::Lit(x) => write!(out, "{x}").unwrap(),
            Node::Prod(t, c) => list(out, t, c.iter().map(|n| (None, n)), depth),
            Node::Multi(t, c) => list(out, t, c.iter().map(|(_, n)| (None, n)), depth),
            Node::OSet(c) => list(out, "sorted", c.iter().map(|n| (None, n)), depth),
            Node::HSet(c) => list(out, "hashed", c.iter().map(|n| (None, n)), depth),
            Node::Heap(c) => list(out, "heap", c.iter().map(|n| (None, n)), depth),
            Node::OMap(c) => list(out, "sortedmap", c.iter().map(|(k, v)| (Some(k), v)), depth),
            Node::HMap(c) => list(out, "hashmap", c.iter().map(|(k, v)| (Some(k), v)), depth),
        }
    }
}

fn list<'a>(
    out: &mut String,
    t: &str,
    c: impl Iterator<Item = (Option<&'a Node>, &'a Node)>,
    depth: usize,
) {
    out.push_str(t);
    out.push('(');
    for (i, (k, v)) in c.enumerate() {
        if i > 0 {
            out.push(' ');
        }
        if let Some(k) = k {
            k.show(out, depth + 1);
            out.push('=');
        }
        v.show(out, depth + 1);
    }
    out.push(')');
}

/// What one successful call did to the occurrences.
pub struct Done<'a> {
    /// argument id -> (call index, new id, new key)
    pub map: &'a HashMap<Id, (usize, Id, u16)>,
    /// produced tokens in call order, for zero-sized arguments
    pub produced: &'a [(Id, u16)],
    /// is a token alive after the call?
    pub live: &'a dyn Fn(Id) -> bool,
}

/// The value a successful call must have produced, and (in `lost`) whether some collapsed group of keys
/// did not leave exactly one survivor.
pub fn expected(n: &Node, d: &Done, lost: &mut Vec<String>) -> Node {
    let mut counter = 0;
    expect(n, d, lost, &mut counter, false)
}

fn expect(n: &Node, d: &Done, lost: &mut Vec<String>, ctr: &mut usize, any: bool) -> Node {
    match n {
        Node::Hit(id, _) => {
            let k = *ctr;
            *ctr += 1;
            if *id == ANON {
                if any {
                    return Node::Hit(WILD, 0);
                }
                match d.produced.get(k) {
                    Some((i, key)) => Node::Hit(*i, *key),
                    None => Node::Hit(WILD, 0),
                }
            } else {
                match d.map.get(id) {
                    Some((_, i, key)) => Node::Hit(*i, *key),
                    None => Node::Hit(WILD, 0),
                }
            }
        }
        Node::Keep(..) | Node::Lit(_) => n.clone(),
        Node::Prod(t, c) => {
            Node::Prod(t, c.iter().map(|x| expect(x, d, lost, ctr, any)).collect())
        }
        Node::Multi(t, c) => {
            let mut order: Vec<usize> = (0..c.len()).collect();
            order.sort_by_key(|i| c[*i].0);
            let mut out: Vec<Option<Node>> = vec![None; c.len()];
            for i in order {
                out[i] = Some(expect(&c[i].1, d, lost, ctr, any));
            }
            Node::Multi(t, c.iter().zip(out).map(|((p, _), n)| (*p, n.unwrap())).collect())
        }
        Node::Heap(c) => {
            // a bag: which zero-sized argument gave which value does not matter
            Node::Heap(c.iter().map(|x| expect(x, d, lost, ctr, any)).collect())
        }
        Node::OSet(c) | Node::HSet(c) => {
            let mut v: Vec<(usize, Node)> = c
                .iter()
                .map(|x| (call_index(x, d), expect(x, d, lost, ctr, any)))
                .collect();
            if matches!(n, Node::HSet(_)) {
                v.sort_by_key(|x| x.0);
            }
            let pairs: Vec<_> = v.into_iter().map(|(_, k)| (k, Node::Lit(0))).collect();
            if unknown(&pairs) {
                return Node::Hit(WILD, 0);
            }
            let keys: Vec<Node> = collapse(pairs, d, lost).into_iter().map(|x| x.0).collect();
            if matches!(n, Node::OSet(_)) {
                Node::OSet(keys)
            } else {
                Node::HSet(keys)
            }
        }
        Node::OMap(c) | Node::HMap(c) => {
            let hashed = matches!(n, Node::HMap(_));
            let mut v: Vec<(usize, (Node, Node))> = c
                .iter()
                .map(|(k, x)| {
                    let i = call_index(k, d);
                    let nk = expect(k, d, lost, ctr, any || hashed);
                    let nv = expect(x, d, lost, ctr, any || hashed);
                    (i, (nk, nv))
                })
                .collect();
            let keyed = c.iter().any(|(k, _)| k.hits() > 0);
            if hashed {
                v.sort_by_key(|x| x.0);
            }
            let mut pairs: Vec<_> = v.into_iter().map(|x| x.1).collect();
            if keyed {
                if unknown(&pairs) {
                    return Node::Hit(WILD, 0);
                }
                pairs = collapse(pairs, d, lost);
            }
            if hashed {
                Node::HMap(pairs)
            } else {
                Node::OMap(pairs)
            }
        }
    }
}

/// Is there a key among several of which is not known what it became? (Values of one byte that found no slot.)
fn unknown(pairs: &[(Node, Node)]) -> bool {
    pairs.len() > 1 && pairs.iter().any(|p| matches!(p.0, Node::Hit(WILD, _)))
}

fn call_index(n: &Node, d: &Done) -> usize {
    match n {
        Node::Hit(id, _) => d.map.get(id).map_or(0, |x| x.0),
        _ => 0,
    }
}

pub fn key_of(n: &Node) -> u16 {
    match n {
        Node::Hit(_, k) | Node::Keep(_, k) => *k,
        _ => 0,
    }
}

/// Keys that became equal: one entry, the value visited last, any one of the equal keys (the one that is
/// still alive).
fn collapse(mut pairs: Vec<(Node, Node)>, d: &Done, lost: &mut Vec<String>) -> Vec<(Node, Node)> {
    pairs.sort_by_key(|p| key_of(&p.0));
    let mut out: Vec<(Node, Node)> = Vec::new();
    let mut i = 0;
    while i < pairs.len() {
        let mut j = i + 1;
        while j < pairs.len() && key_of(&pairs[j].0) == key_of(&pairs[i].0) {
            j += 1;
        }
        let group = &pairs[i..j];
        let value = group.last().unwrap().1.clone();
        let anon = group.iter().filter(|p| matches!(p.0, Node::Hit(ANON | WILD, _))).count();
        let key = if anon == group.len() || group.len() == 1 {
            group[0].0.clone()
        } else if anon > 0 {
            Node::Hit(WILD, key_of(&group[0].0))
        } else {
            let alive: Vec<&Node> = group
                .iter()
                .map(|p| &p.0)
                .filter(|k| matches!(k, Node::Hit(id, _) | Node::Keep(id, _) if (d.live)(*id)))
                .collect();
            if alive.len() != 1 {
                lost.push(format!(
                    "{} equal keys collapsed into {} survivors",
                    group.len(),
                    alive.len()
                ));
            }
            alive.first().copied().unwrap_or(&group[0].0).clone()
        };
        out.push((key, value));
        i = j;
    }
    out
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Diff {
    Structure,
    Hit,
    Keep,
}

/// First difference between the expected and the observed value.
pub fn compare(e: &Node, o: &Node) -> Option<(Diff, bool, String)> {
    let d = |k, m: String| Some((k, false, m));
    match (e, o) {
        (Node::Hit(WILD, _), _) => None,
        (Node::Hit(a, ka), Node::Hit(b, kb)) => {
            if *a == WILD || (a == b && (ka == kb || *b == ANON)) {
                None
            } else {
                d(Diff::Hit, format!("expected {e:?}, found {o:?}"))
            }
        }
        (Node::Keep(a, _), Node::Keep(b, _)) if a == b => None,
        (Node::Keep(..), Node::Keep(..)) => d(Diff::Keep, format!("expected {e:?}, found {o:?}")),
        (Node::Lit(a), Node::Lit(b)) if a == b => None,
        (Node::Lit(_), Node::Lit(_)) => d(Diff::Keep, format!("expected {e:?}, found {o:?}")),
        (Node::Prod(s, a), Node::Prod(t, b)) => {
            if s != t || a.len() != b.len() {
                return d(Diff::Structure, format!("expected {s}/{}, found {t}/{}", a.len(), b.len()));
            }
            a.iter().zip(b).find_map(|(x, y)| compare(x, y))
        }
        (Node::Multi(s, a), Node::Multi(t, b)) => {
            if s != t || a.len() != b.len() {
                return d(Diff::Structure, format!("expected {s}/{}, found {t}/{}", a.len(), b.len()));
            }
            a.iter().zip(b).find_map(|((_, x), (_, y))| compare(x, y))
        }
        (Node::OSet(a), Node::OSet(b)) => seq(a, b),
        (Node::HSet(a), Node::HSet(b)) | (Node::Heap(a), Node::Heap(b)) => {
            let (mut a, mut b) = (a.clone(), b.clone());
            a.sort_by_key(leaf_sort);
            b.sort_by_key(leaf_sort);
            if a.iter().any(|n| matches!(n, Node::Hit(WILD, _))) {
                return if a.len() == b.len() {
                    None
                } else {
                    Some((Diff::Structure, true, format!("expected {} elements, found {}", a.len(), b.len())))
                };
            }
            seq(&a, &b)
        }
        (Node::OMap(a), Node::OMap(b)) => pairs(a, b),
        (Node::HMap(a), Node::HMap(b)) => {
            let (mut a, mut b) = (a.clone(), b.clone());
            a.sort_by_key(|p| leaf_sort(&p.0));
            b.sort_by_key(|p| leaf_sort(&p.0));
            pairs(&a, &b)
        }
        _ => d(Diff::Structure, format!("expected {e:?}, found {o:?}")),
    }
}

fn leaf_sort(n: &Node) -> (u16, u32) {
    match n {
        Node::Hit(i, k) | Node::Keep(i, k) => (*k, *i),
        _ => (0, 0),
    }
}

fn seq(a: &[Node], b: &[Node]) -> Option<(Diff, bool, String)> {
    if a.len() != b.len() {
        return Some((Diff::Structure, true, format!("expected {} elements, found {}", a.len(), b.len())));
    }
    a.iter().zip(b).find_map(|(x, y)| compare(x, y)).map(|(k, _, m)| (k, true, m))
}

fn pairs(a: &[(Node, Node)], b: &[(Node, Node)]) -> Option<(Diff, bool, String)> {
    if a.len() != b.len() {
        return Some((Diff::Structure, true, format!("expected {} entries, found {}", a.len(), b.len())));
    }
    a.iter()
        .zip(b)
        .find_map(|((k, v), (l, w))| compare(k, l).or_else(|| compare(v, w)))
        .map(|(k, _, m)| (k, true, m))
}
