@file lib/src/all_refs.rs => all_refs
@header
use crate::vx::iter::{Iterator, IterExt, VecIter};
use crate::back_map::{hash_at, places, same, lemma_same};
use crate::obscure::{hidden, seen, fits};
use crate::{room, agrees, true_ref, maximal};
@ghost
/// the hash zlib and gzip keep their chains by, of 15 bits
pub open spec fn hash3(b0: u8, b1: u8, b2: u8) -> u16 {
    ((((((b0 as u16) << 5) ^ (b1 as u16)) << 5) ^ (b2 as u16)) & 0x7fff) as u16
}
/// the three bytes at p are those at pos
pub open spec fn alike(w: Seq<u8>, pos: int) -> spec_fn(usize) -> bool {
    |p: usize| w[p as int] == w[pos] && w[p + 1] == w[pos + 1] && w[p + 2] == w[pos + 2]
}
pub open spec fn near(pos: int) -> spec_fn(usize) -> bool { |p: usize| pos - p <= 32768 }
/// how long the copy from dist back goes on, from n on
pub open spec fn run_from(w: Seq<u8>, pos: int, dist: int, n: int) -> int
    decreases room(w, pos) - n
{
    if n >= room(w, pos) || w[pos + n] != w[pos + n - dist] { n } else { run_from(w, pos, dist, n + 1) }
}
pub proof fn lemma_run_from(w: Seq<u8>, pos: int, dist: int, n: int, k: int)
    requires 0 <= k <= n <= room(w, pos), agrees(w, pos, dist, n), n == room(w, pos) || w[pos + n] != w[pos + n - dist]
    ensures run_from(w, pos, dist, k) == n
    decreases n - k
{
    if k < n { assert(w[pos + k] == w[pos + k - dist]); lemma_run_from(w, pos, dist, n, k + 1); }
}
/// the references to those positions
pub open spec fn cands(w: Seq<u8>, pos: int, os: Seq<Obscure>, limit: int) -> Seq<Ref> {
    let e = eligible(w, pos, os, limit);
    Seq::new(e.len(), |i: int| Ref { dist: (pos - e[i]) as u16, run_minus_3: (run_from(w, pos, pos - e[i], 0) - 3) as u8 })
}
pub proof fn lemma_cands(w: Seq<u8>, pos: int, os: Seq<Obscure>, limit: int, it: Seq<Ref>)
    requires
        forall|i: int| 0 <= i < it.len() ==> true_ref(w, pos, #[trigger] it[i]) && maximal(w, pos, it[i]),
        points_at(eligible(w, pos, os, limit), pos, it),
    ensures it == cands(w, pos, os, limit)
{
    assert forall|i: int| 0 <= i < it.len() implies (#[trigger] it[i]) == cands(w, pos, os, limit)[i] by {
        lemma_run_from(w, pos, it[i].dist as int, it[i].len() as int, 0);
    }
    assert(it =~= cands(w, pos, os, limit));
}
/// C12: the positions proposed for pos, nearest first
pub open spec fn eligible(w: Seq<u8>, pos: int, os: Seq<Obscure>, limit: int) -> Seq<usize> {
    let s = same(w, hash_at(w, pos), pos).filter(seen(os));
    (if limit >= s.len() { s } else { s.take(limit) }).filter(near(pos)).filter(alike(w, pos))
}
pub open spec fn points_at(s: Seq<usize>, pos: int, r: Seq<Ref>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).dist == pos - s[i]
}

pub open spec fn below(pos: int) -> spec_fn(usize) -> bool { |p: usize| p < pos }
pub open spec fn first_n(s: Seq<usize>, n: int) -> Seq<usize> { if n >= s.len() { s } else { s.take(n) } }

pub proof fn lemma_filter_all(s: Seq<usize>, q: spec_fn(usize) -> bool, good: spec_fn(usize) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> good(#[trigger] s[i])
    ensures forall|i: int| 0 <= i < s.filter(q).len() ==> good(#[trigger] s.filter(q)[i]) && q(s.filter(q)[i])
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies good(#[trigger] t[i]) by { assert(t[i] == s[i]); }
        lemma_filter_all(t, q, good);
        assert(good(s[s.len() - 1]));
        let f = s.filter(q);
        let g = t.filter(q);
        assert forall|i: int| 0 <= i < f.len() implies good(#[trigger] f[i]) && q(f[i]) by {
            if i < g.len() { assert(f[i] == g[i]); } else { assert(f[i] == s.last()); }
        }
    }
}
pub proof fn lemma_filter_cons(a: usize, s: Seq<usize>, q: spec_fn(usize) -> bool)
    ensures (seq![a] + s).filter(q) == (if q(a) { seq![a] + s.filter(q) } else { s.filter(q) })
    decreases s.len()
{
    reveal(Seq::filter);
    let x = seq![a] + s;
    if s.len() == 0 {
        assert(x.drop_last() =~= Seq::empty());
        assert(Seq::<usize>::empty().filter(q) =~= Seq::empty());
        assert(x.last() == a);
        assert(x.filter(q) =~= if q(a) { seq![a] + s.filter(q) } else { s.filter(q) });
    } else {
        assert(x.drop_last() =~= seq![a] + s.drop_last());
        assert(x.last() == s.last());
        lemma_filter_cons(a, s.drop_last(), q);
        assert(x.filter(q) =~= if q(a) { seq![a] + s.filter(q) } else { s.filter(q) });
    }
}
/// of all positions with a hash, those below pos are the same positions counted from pos
pub proof fn lemma_same_below(w: Seq<u8>, h: int, n: int, pos: int)
    requires n <= places(w), w.len() <= usize::MAX
    ensures same(w, h, n).filter(below(pos)) == same(w, h, if pos < n { pos } else { n })
    decreases n
{
    reveal(Seq::filter);
    if n > 1 {
        lemma_same_below(w, h, n - 1, pos);
        if hash_at(w, n - 1) == h { lemma_filter_cons((n - 1) as usize, same(w, h, n - 1), below(pos)); }
    }
}
pub open spec fn earlier(pos: int) -> spec_fn(usize) -> bool { |p: usize| 1 <= p < pos }
/// what holds for the positions that come through each step
pub proof fn lemma_steps(w: Seq<u8>, pos: int, os: Seq<Obscure>, limit: int)
    requires 1 <= pos, pos + 2 < w.len() <= usize::MAX, limit >= 0
    ensures ({
        let h = hash_at(w, pos);
        let all = same(w, h, places(w));
        let a = same(w, h, pos);
        let b = a.filter(seen(os));
        let c = first_n(b, limit);
        let d = c.filter(near(pos));
        let e = d.filter(alike(w, pos));
        &&& all.len() > 0
        &&& all.filter(below(pos)) == a
        &&& forall|i: int| 0 <= i < c.len() ==> 1 <= #[trigger] c[i] < pos
        &&& forall|i: int| 0 <= i < d.len() ==> 1 <= #[trigger] d[i] < pos && pos - d[i] <= 32768
        &&& forall|i: int| 0 <= i < e.len() ==> 1 <= #[trigger] e[i] < pos && pos - e[i] <= 32768 && alike(w, pos)(e[i])
        &&& e == eligible(w, pos, os, limit)
    })
{
    let h = hash_at(w, pos);
    let a = same(w, h, pos);
    let b = a.filter(seen(os));
    let c = first_n(b, limit);
    let d = c.filter(near(pos));
    lemma_some(w, h, pos, places(w));
    lemma_same_below(w, h, places(w), pos);
    lemma_same(w, h, pos);
    let good = earlier(pos);
    assert forall|i: int| 0 <= i < a.len() implies good(#[trigger] a[i]) by {}
    lemma_filter_all(a, seen(os), good);
    assert forall|i: int| 0 <= i < c.len() implies good(#[trigger] c[i]) by { assert(c[i] == b[i]); assert(good(b[i])); }
    lemma_filter_all(c, near(pos), good);
    assert forall|i: int| 0 <= i < d.len() implies 1 <= #[trigger] d[i] < pos && pos - d[i] <= 32768 by { assert(good(d[i]) && near(pos)(d[i])); }
    let both = |p: usize| 1 <= p < pos && pos - p <= 32768;
    assert forall|i: int| 0 <= i < d.len() implies both(#[trigger] d[i]) by { assert(good(d[i]) && near(pos)(d[i])); }
    lemma_filter_all(d, alike(w, pos), both);
    let e = d.filter(alike(w, pos));
    assert forall|i: int| 0 <= i < e.len() implies 1 <= #[trigger] e[i] < pos && pos - e[i] <= 32768 && alike(w, pos)(e[i]) by { assert(both(e[i])); }
}
pub proof fn lemma_some(w: Seq<u8>, h: int, p: int, n: int)
    requires 1 <= p < n <= places(w), hash_at(w, p) == h
    ensures same(w, h, n).len() > 0
    decreases n
{
    if n - 1 > p { lemma_some(w, h, p, n - 1); }
}

/// bytes that repeat every d can be read from the first d
pub proof fn lemma_period(w: Seq<u8>, pos: int, d: int, n: int, j: int)
    requires 0 <= pos, 1 <= d <= pos, 0 <= j <= n, agrees(w, pos, d, n)
    ensures 0 <= j % d < d, j >= d ==> w[pos + j - d] == w[pos + j % d], j < n ==> w[pos + j % d] == w[pos + j], j < d ==> j % d == j
    decreases j
{
    vstd::arithmetic::div_mod::lemma_mod_bound(j, d);
    if j >= d {
        lemma_period(w, pos, d, n, j - d);
        vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(j, d);
        assert(w[pos + (j - d)] == w[pos + (j - d) % d]);
        if j < n { assert(w[pos + j] == w[pos + j - d]); }
    } else {
        vstd::arithmetic::div_mod::lemma_small_mod(j as nat, d as nat);
    }
}

pub proof fn lemma_none_first(w: Seq<u8>, os: Seq<Obscure>, limit: int)
    requires limit >= 0
    ensures eligible(w, 0, os, limit).len() == 0
{
    reveal(Seq::filter);
    let e = Seq::<usize>::empty();
    assert(e.filter(seen(os)) =~= e);
    assert(first_n(e, limit) =~= e);
    assert(e.filter(near(0)) =~= e);
    assert(e.filter(alike(w, 0)) =~= e);
}
impl vstd::std_specs::convert::FromSpecImpl<(u8, u8, u8)> for Key {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: (u8, u8, u8)) -> Key { Key { b0: v.0, b1: v.1, b2: v.2 } }
}
@implghost impl Key
    pub open spec fn hash(&self) -> int { hash3(self.b0, self.b1, self.b2) as int }
@implghost impl AllRefs
    pub open spec fn w(&self) -> Seq<u8> { self.preroll@ + self.data@ }
    pub closed spec fn mapped(&self) -> bool { self.map.maps(self.w()) }
    pub open spec fn wf(&self) -> bool { self.mapped() && self.w().len() + 300 <= usize::MAX }
    pub closed spec fn lim(&self) -> int { self.limit as int }

@fn AllRefs::with_sixteen
@spec
    requires preroll@.len() + data@.len() + 300 <= usize::MAX
    ensures r.wf(), r.preroll == preroll, r.data == data, r.lim() == limit
@fn AllRefs::data_len
@spec
    requires self.wf()
    ensures r == self.w().len()
@fn AllRefs::key
@spec
    requires self.wf(), data_pos <= usize::MAX - 3
    ensures
        r is Some <==> data_pos + 2 < self.w().len(),
        r matches Some(k) ==> k.b0 == self.w()[data_pos as int] && k.b1 == self.w()[data_pos + 1] && k.b2 == self.w()[data_pos + 2],
@fn AllRefs::get
@spec
    requires pos < self.w().len()
    ensures r == self.w()[pos as int]
@fn AllRefs::get_at_dist
@spec
    requires dist <= data_pos, data_pos - dist < self.w().len()
    ensures r == self.w()[data_pos - dist]
@fn AllRefs::at
@rename iter => vx_iter
@rettype Option<Box<VecIter<Ref>>>
@spec
    requires self.wf(), fits(obscura@), pos <= usize::MAX - 3
    ensures
        r is None <==> pos + 2 >= self.w().len(),
        r matches Some(it) ==> forall|i: int| 0 <= i < it@.len() ==> true_ref(self.w(), pos as int, #[trigger] it@[i]), //@ C11 C14 C12? C13? C09?
        r matches Some(it) ==> forall|i: int| 0 <= i < it@.len() ==> maximal(self.w(), pos as int, #[trigger] it@[i]), //@ C11 C12? C13? C09?
        r matches Some(it) ==> points_at(eligible(self.w(), pos as int, obscura@, self.lim()), pos as int, it@), //@ C12 C13? C09?
        r matches Some(it) ==> it@ == cands(self.w(), pos as int, obscura@, self.lim()), //@ C13? C12? C09?
@at bindtail
    proof { if __ret is Some { lemma_cands(__w, pos as int, __os, self.lim(), __ret->0@); } } //@ C13? C12? C09?
@at start
    let ghost __w = self.w();
    let ghost __os = obscura@;
    proof { assert(iter::derefs(iter::refs::<Obscure>(__os)) =~= __os); }
    proof { if 1 <= pos && pos + 2 < __w.len() { lemma_steps(__w, pos as int, __os, self.lim()); } if pos == 0 { lemma_none_first(__w, __os, self.lim()); } } //@ C12 C13? C09?
@closure 0 params{__p: &usize} (b: bool)
    ensures
        b ==> *__p < pos,
        b == below(pos as int)(*__p), //@ C12 C13? C09?
---
    let $PAT = __p;
@closure 1 params{__p: &usize} (b: bool)
    requires *__p <= pos
    ensures
        b ==> pos - *__p <= 32768,
        b == near(pos as int)(*__p), //@ C12 C13? C09?
---
    let $PAT = __p;
@closure 2 params{__p: &usize} (b: bool)
    requires *__p + 2 < self.w().len(), *__p < pos, pos + 2 < self.w().len(),
        key.b0 == self.w()[pos as int], key.b1 == self.w()[pos + 1], key.b2 == self.w()[pos + 2],
    ensures
        b ==> alike(self.w(), pos as int)(*__p),
        b == alike(self.w(), pos as int)(*__p), //@ C12 C13? C09?
---
    let $PAT = __p;
@closure 3 params{__p: usize} (r: Ref)
    requires self.wf(), __p < pos, pos - __p <= 32768, pos + 2 < self.w().len(), alike(self.w(), pos as int)(__p)
    ensures true_ref(self.w(), pos as int, r), maximal(self.w(), pos as int, r), r.dist == pos - __p
---
    let $PAT = __p;
@fn AllRefs::possible_run_length_at
@spec
    requires
        self.wf(), 1 <= dist <= 32768, dist <= pos, pos + 3 <= self.w().len(),
        agrees(self.w(), pos as int, dist as int, 3),
    ensures
        3 <= r <= room(self.w(), pos as int),
        agrees(self.w(), pos as int, dist as int, r as int),
        r == room(self.w(), pos as int) || self.w()[pos + r] != self.w()[pos + r - dist],
@at start
    let ghost __w = self.w();
    let ghost __room = room(__w, pos as int);
    proof { lemma_period(__w, pos as int, dist as int, 3, 2); }
@closure 0 params{__p: u16} (b: u8)
    requires pos + __p < self.w().len()
    ensures b == self.w()[pos + __p]
---
    let $PAT = __p;
@loop 0 iter=__i
    invariant
        self.wf(), 1 <= dist <= 32768, dist <= pos, pos + 3 <= __w.len(), __w == self.w(), __room == room(__w, pos as int),
        __room == upcoming_data_len, upcoming_data@.len() == __room,
        forall|i: int| 0 <= i < __room ==> #[trigger] upcoming_data@[i] == __w[pos + i],
        agrees(__w, pos as int, dist as int, 3 + __i.index@),
@at loop0.start
    proof { assert(cur == 3 + __i.index@); }
@loop 1 iter=__j
    invariant
        self.wf(), 1 <= dist <= 32768, dist <= pos, pos + 3 <= __w.len(), __w == self.w(), __room == room(__w, pos as int),
        __room == upcoming_data_len, upcoming_data@.len() == __room,
        forall|i: int| 0 <= i < __room ==> #[trigger] upcoming_data@[i] == __w[pos + i],
        agrees(__w, pos as int, dist as int, 3),
        agrees(__w, pos as int, dist as int, if dist + __j.index@ < __room { dist + __j.index@ } else { __room }),
@at loop1.start
    proof { lemma_period(__w, pos as int, dist as int, cur as int, cur as int); }
@gsubst R-range (0..upcoming_data_len) ==> iter::vx_range(0, upcoming_data_len)
@fn key_from_bytes
@spec
    requires from@.len() >= 3
@fn Key::sixteen_hash_16
@spec
    ensures r == self.hash(), 0 <= r < 32768
@at start
    proof { let (a, b, c) = (self.b0 as u16, self.b1 as u16, self.b2 as u16);
        assert(((((a << 5) ^ b) << 5) ^ c) & 0x7fff < 32768) by (bit_vector);
        assert(((((0u16 ^ a) << 5) ^ b) << 5) ^ c == (((a << 5) ^ b) << 5) ^ c) by (bit_vector);
    }
@fn From<(u8,u8,u8)> for Key::from
@spec
    ensures r == (Key { b0: tuple.0, b1: tuple.1, b2: tuple.2 })
@skip normal_char
