@file lib/src/back_map.rs => back_map
@header
use crate::vx::iter::Iterator;
use crate::all_refs::hash3;
@ghost
/// the hash of the three bytes at p
pub open spec fn hash_at(w: Seq<u8>, p: int) -> int { hash3(w[p], w[p + 1], w[p + 2]) as int }
/// how many positions have three bytes
pub open spec fn places(w: Seq<u8>) -> int { if w.len() >= 3 { w.len() - 2 } else { 0 } }
/// the positions below n, but never 0, that share hash h: nearest first
pub open spec fn same(w: Seq<u8>, h: int, n: int) -> Seq<usize>
    decreases n
{
    if n <= 1 { Seq::empty() }
    else if hash_at(w, n - 1) == h { seq![(n - 1) as usize] + same(w, h, n - 1) }
    else { same(w, h, n - 1) }
}
/// the nearest of them, 0 if there is none
pub open spec fn last(w: Seq<u8>, h: int, n: int) -> int
    decreases n
{
    if n <= 1 { 0 } else if hash_at(w, n - 1) == h { n - 1 } else { last(w, h, n - 1) }
}
pub open spec fn links(t: Seq<usize>, p: int) -> Seq<usize>
    decreases p
{
    if p < 0 || p >= t.len() { Seq::empty() }
    else if t[p] == 0 || t[p] >= p { seq![p as usize] }
    else { seq![p as usize] + links(t, t[p] as int) }
}
pub open spec fn links_down(t: Seq<usize>) -> bool { forall|p: int| 0 <= p < t.len() ==> (#[trigger] t[p]) < p || t[p] == 0 }

pub proof fn lemma_last(w: Seq<u8>, h: int, n: int)
    requires n <= places(w), w.len() <= usize::MAX
    ensures
        0 <= last(w, h, n), n >= 1 ==> last(w, h, n) < n, n <= 0 ==> last(w, h, n) == 0,
        last(w, h, n) == 0 ==> same(w, h, n).len() == 0,
        last(w, h, n) != 0 ==> same(w, h, n) == seq![last(w, h, n) as usize] + same(w, h, last(w, h, n)) && hash_at(w, last(w, h, n)) == h,
    decreases n
{
    if n > 1 { lemma_last(w, h, n - 1); }
}
pub proof fn lemma_links(w: Seq<u8>, t: Seq<usize>, h: int, n: int)
    requires
        n <= places(w), w.len() <= usize::MAX, t.len() == w.len(), last(w, h, n) != 0,
        forall|p: int| 0 <= p < places(w) ==> (#[trigger] t[p]) == last(w, hash_at(w, p), p),
    ensures links(t, last(w, h, n)) == same(w, h, n)
    decreases n
{
    lemma_last(w, h, n);
    let p = last(w, h, n);
    assert(t[p] == last(w, h, p));
    lemma_last(w, h, p);
    if t[p] != 0 { lemma_links(w, t, h, p); } else { assert(same(w, h, n) =~= seq![p as usize]); }
}
/// every one of them is a position below n with that hash
pub proof fn lemma_same(w: Seq<u8>, h: int, n: int)
    requires n <= places(w), w.len() <= usize::MAX
    ensures
        forall|i: int| 0 <= i < same(w, h, n).len() ==> 1 <= (#[trigger] same(w, h, n)[i]) < n && hash_at(w, same(w, h, n)[i] as int) == h,
    decreases n
{
    if n > 1 {
        lemma_same(w, h, n - 1);
        let s = same(w, h, n);
        let t = same(w, h, n - 1);
        assert forall|i: int| 0 <= i < s.len() implies 1 <= (#[trigger] s[i]) < n && hash_at(w, s[i] as int) == h by {
            if hash_at(w, n - 1) == h { if i > 0 { assert(s[i] == t[i - 1]); } } else { assert(s[i] == t[i]); }
        }
    }
}

@implghost impl BackMap
    pub closed spec fn maps(&self, w: Seq<u8>) -> bool {
        &&& w.len() <= usize::MAX
        &&& self.pos_to_pos@.len() == w.len()
        &&& forall|h: int| 0 <= h < 32768 ==> (#[trigger] self.hash_to_pos@[h]) == last(w, h, places(w))
        &&& forall|p: int| 0 <= p < places(w) ==> (#[trigger] self.pos_to_pos@[p]) == last(w, hash_at(w, p), p)
        &&& forall|p: int| places(w) <= p < w.len() ==> (#[trigger] self.pos_to_pos@[p]) == 0
    }
    /// the tables when the first n positions are in
    pub closed spec fn partly(&self, w: Seq<u8>, n: int) -> bool {
        &&& w.len() <= usize::MAX
        &&& self.pos_to_pos@.len() == w.len()
        &&& forall|h: int| 0 <= h < 32768 ==> (#[trigger] self.hash_to_pos@[h]) == last(w, h, n)
        &&& forall|p: int| 0 <= p < n ==> (#[trigger] self.pos_to_pos@[p]) == last(w, hash_at(w, p), p)
        &&& forall|p: int| n <= p < w.len() ==> (#[trigger] self.pos_to_pos@[p]) == 0
    }
@implghost impl Iterator for Chain
    closed spec fn items(&self) -> Seq<usize> { match self.next { None => Seq::empty(), Some(p) => links(self.pos_to_pos@, p as int) } }
    closed spec fn ok(&self) -> bool { links_down(self.pos_to_pos@) && (self.next matches Some(p) ==> p < self.pos_to_pos@.len()) }

@fn BackMap::from_window
@rename into_iter => vx_iter
@rename into_boxed_slice => vx_into_boxed_slice
@spec
    requires preroll@.len() + data@.len() <= usize::MAX
    ensures r.maps(preroll@ + data@)
@at start
    let ghost __w = preroll@ + data@;
@desugar 0
@loop 0
    invariant
        __w == preroll@ + data@, __w.len() <= usize::MAX,
        __it0@.len() <= places(__w),
        forall|i: int| 0 <= i < __it0@.len() ==> #[trigger] __it0@[i] == ((__i + i) as usize, (__w[__i + i], __w[__i + i + 1], __w[__i + i + 2])),
        __i == places(__w) - __it0@.len(),
        table.partly(__w, __i),
    ensures table.partly(__w, places(__w)),
    decreases __it0@.len()
@at loop0.init
    let ghost mut __i: int = 0;
@at loop0.end
    proof { __i = __i + 1; }
@fn BackMap::get
@spec
    requires exists|w: Seq<u8>| #[trigger] self.maps(w) && w.len() > 0
    ensures
        r.ok(),
        forall|w: Seq<u8>| #[trigger] self.maps(w) && w.len() > 0 ==> {
            let s = same(w, key.hash(), places(w));
            r.items() == if s.len() == 0 { seq![0usize] } else { s }
        },
@at start
    proof {
        let w = choose|w: Seq<u8>| #[trigger] self.maps(w) && w.len() > 0;
        assert forall|p: int| 0 <= p < w.len() implies (#[trigger] self.pos_to_pos@[p]) < p || self.pos_to_pos@[p] == 0 by {
            if p < places(w) { lemma_last(w, hash_at(w, p), p); }
        }
        assert forall|w: Seq<u8>| #[trigger] self.maps(w) && w.len() > 0 implies ({
            let l = last(w, key.hash(), places(w));
            let s = same(w, key.hash(), places(w));
            l < w.len() && links(self.pos_to_pos@, l) == if s.len() == 0 { seq![0usize] } else { s }
        }) by {
            lemma_last(w, key.hash(), places(w));
            if last(w, key.hash(), places(w)) != 0 { lemma_links(w, self.pos_to_pos@, key.hash(), places(w)); }
            else { assert(self.pos_to_pos@[0] == 0) by { if places(w) > 0 { lemma_last(w, hash_at(w, 0), 0); } } }
        }
    }
