@file lib/src/circles.rs => circles
@ghost
/// the window a buffer of capacity `cap` must show after the bytes `h` have gone in
pub open spec fn window(h: Seq<u8>, cap: nat) -> Seq<u8> { tail(h, cap) }

/// n bytes read from distance d, each appended before the next is read; only the last `cap` are kept
pub open spec fn copied(h: Seq<u8>, d: int, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { h } else { let p = copied(h, d, (n - 1) as nat); p.push(p[p.len() - d]) }
}

pub proof fn lemma_copied_len(h: Seq<u8>, d: int, n: nat)
    ensures copied(h, d, n).len() == h.len() + n, h.is_prefix_of(copied(h, d, n))
    decreases n
{
    if n > 0 { lemma_copied_len(h, d, (n - 1) as nat); }
}

pub proof fn lemma_copied_mono(h: Seq<u8>, d: int, n: nat, m: nat)
    requires n <= m
    ensures copied(h, d, n).is_prefix_of(copied(h, d, m))
    decreases m
{
    if n < m { lemma_copied_mono(h, d, n, (m - 1) as nat); lemma_copied_len(h, d, (m - 1) as nat); lemma_copied_len(h, d, n); }
}

/// copying inside the window is copying in the whole history
pub proof fn lemma_copied_window(h: Seq<u8>, d: int, n: nat, cap: nat)
    requires 1 <= d <= tail(h, cap).len(), cap > 0
    ensures
        tail(copied(tail(h, cap), d, n), cap) == tail(copied(h, d, n), cap),
        copied(tail(h, cap), d, n).skip(tail(h, cap).len() as int) == copied(h, d, n).skip(h.len() as int),
    decreases n
{
    let w = tail(h, cap);
    lemma_copied_len(h, d, n);
    lemma_copied_len(w, d, n);
    if n > 0 {
        lemma_copied_window(h, d, (n - 1) as nat, cap);
        lemma_copied_len(h, d, (n - 1) as nat);
        lemma_copied_len(w, d, (n - 1) as nat);
        let a = copied(h, d, (n - 1) as nat);
        let b = copied(w, d, (n - 1) as nat);
        assert(tail(a, cap)[tail(a, cap).len() - d] == a[a.len() - d]);
        assert(tail(b, cap)[tail(b, cap).len() - d] == b[b.len() - d]);
        lemma_tail_push(a, a[a.len() - d], cap);
        lemma_tail_push(b, b[b.len() - d], cap);
        assert(b.push(b[b.len() - d]).skip(w.len() as int) =~= b.skip(w.len() as int).push(b[b.len() - d]));
        assert(a.push(a[a.len() - d]).skip(h.len() as int) =~= a.skip(h.len() as int).push(a[a.len() - d]));
    } else {
        assert(w.skip(w.len() as int) =~= h.skip(h.len() as int));
    }
}

/// C08, as one statement over histories: whatever the history `h` so far, the window of capacity
/// cap shows exactly its last bytes before and after each operation
pub proof fn lemma_history(h: Seq<u8>, v: Seq<u8>, b: u8, bs: Seq<u8>, cap: nat)
    requires cap > 0, v == window(h, cap)
    ensures
        tail(v.push(b), cap) == window(h.push(b), cap),
        tail(v + bs, cap) == window(h + bs, cap),
        forall|d: int| 1 <= d <= v.len() ==> #[trigger] v[v.len() - d] == h[h.len() - d],
        v.len() == if h.len() < cap { h.len() } else { cap },
{
    lemma_tail_push(h, b, cap);
    lemma_tail_add(h, bs, cap);
}

pub proof fn lemma_mod_small(a: int, n: int)
    requires 0 <= a < 2 * n, n > 0
    ensures a % n == (if a < n { a } else { a - n })
{
    if a < n {
        vstd::arithmetic::div_mod::lemma_small_mod(a as nat, n as nat);
    } else {
        vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(a, n);
        vstd::arithmetic::div_mod::lemma_small_mod((a - n) as nat, n as nat);
    }
}

@implghost impl CircularBuffer
    pub open spec fn wf(&self) -> bool {
        &&& 0 < self.data@.len() <= 65535
        &&& self.idx < self.data@.len()
        &&& self.valid_cap <= self.data@.len()
        &&& self.valid_cap < self.data@.len() ==> self.idx == self.valid_cap
    }
    pub open spec fn cap(&self) -> nat { self.data@.len() }
    pub open spec fn slot(&self, i: int) -> int {
        let t = self.idx - self.valid_cap + i;
        if t >= 0 { t } else { t + self.data@.len() }
    }
    pub open spec fn view(&self) -> Seq<u8> {
        Seq::new(self.valid_cap as nat, |i: int| self.data@[self.slot(i)])
    }

@fn CircularBuffer::new
@spec
    ensures
        r.wf(), r.view() == Seq::<u8>::empty(),
        r.cap() == 32768, //@ C02 C08?
@at bindtail
    proof { assert(__ret.view() =~= Seq::<u8>::empty()); }

@fn CircularBuffer::with_capacity
@spec
    requires cap > 0
    ensures r.wf(), r.cap() == cap, r.view() == Seq::<u8>::empty()
@at bindtail
    proof { assert(__ret.view() =~= Seq::<u8>::empty()); }

@fn CircularBuffer::push
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).cap() == old(self).cap(),
        final(self).view() == tail(old(self).view().push(val), old(self).cap()),
        final(self).idx == (if old(self).idx + 1 == old(self).cap() { 0 } else { old(self).idx + 1 }),
@at start
    proof { lemma_mod_small(self.idx + 1, self.data@.len() as int); }
@at end
    proof {
        let a = self.view();
        let b = tail(old(self).view().push(val), old(self).cap());
        let c = old(self).cap() as int;
        assert(self.data@ =~= old(self).data@.update(old(self).idx as int, val));
        assert(a.len() == b.len());
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            if old(self).valid_cap < c {
                assert(self.slot(i) == i || old(self).valid_cap + 1 == c);
                assert(self.slot(i) == i);
            } else if i == c - 1 {
                assert(self.slot(i) == old(self).idx);
            } else {
                assert(self.slot(i) == old(self).slot(i + 1));
                assert(self.slot(i) != old(self).idx);
            }
        }
        assert(a =~= b);
    }

@fn CircularBuffer::extend
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).cap() == old(self).cap(),
        final(self).view() == tail(old(self).view() + val@, old(self).cap()),
@loop 0 iter=__i
    invariant
        self.wf(), self.cap() == old(self).cap(),
        self.view() == tail(old(self).view() + val@.take(__i.index()), old(self).cap()),
@at loop0.start
    let ghost __h = old(self).view() + val@.take(__i.index());
@at loop0.end
    proof {
        lemma_tail_push(__h, *byte, self.cap());
        assert(__h.push(*byte) =~= old(self).view() + val@.take(__i.index() + 1));
    }
@at loop0.before
    proof { assert(self.view() =~= tail(old(self).view() + val@.take(0), old(self).cap())); }
@at end
    proof { assert(val@.take(val@.len() as int) =~= val@); }

@fn CircularBuffer::copy
@byref into
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).cap() == old(self).cap(),
        (*final(into)).faulty() == (*old(into)).faulty(),
        r is Err ==> !(1 <= dist <= old(self).view().len()) || (*old(into)).faulty(),
        // refused: nothing changes
        !(1 <= dist <= old(self).view().len()) ==> r is Err && final(self).view() == old(self).view()
            && (*final(into)).written() == (*old(into)).written(),
        r is Ok ==> {
            let after = copied(old(self).view(), dist as int, len as nat);
            &&& final(self).view() == tail(after, old(self).cap())
            &&& (*final(into)).written() == (*old(into)).written() + after.skip(old(self).view().len() as int)
        },
        r is Err ==> (*old(into)).written().is_prefix_of((*final(into)).written()),
        // nothing but the right bytes, even if the writer fails half way
        1 <= dist <= old(self).view().len() ==> (*final(into)).written().is_prefix_of((*old(into)).written() + copied(old(self).view(), dist as int, len as nat).skip(old(self).view().len() as int)),
@at loop0.before
    proof {
        assert forall|n: nat| n <= len implies (#[trigger] copied(self.view(), dist as int, n)).is_prefix_of(copied(self.view(), dist as int, len as nat)) by { lemma_copied_mono(self.view(), dist as int, n, len as nat); }
        lemma_mod_small(self.idx - dist + self.data@.len(), self.data@.len() as int);
        assert(read_from == self.slot(self.view().len() - dist));
        assert(self.view() =~= tail(copied(old(self).view(), dist as int, 0), self.cap()));
        assert((*old(into)).written() + copied(old(self).view(), dist as int, 0).skip(old(self).view().len() as int) =~= into.written());
    }
@loop 0 iter=__i
    invariant
        old(self).wf(), self.wf(), self.cap() == old(self).cap(), 1 <= dist <= self.view().len(),
        dist <= old(self).view().len(),
        read_from == self.slot(self.view().len() - dist),
        into.faulty() == (*old(into)).faulty(),
        forall|n: nat| n <= len ==> (#[trigger] copied(old(self).view(), dist as int, n)).is_prefix_of(copied(old(self).view(), dist as int, len as nat)),
        self.view() == tail(copied(old(self).view(), dist as int, __i.index() as nat), self.cap()),
        into.written() == (*old(into)).written() + copied(old(self).view(), dist as int, __i.index() as nat).skip(old(self).view().len() as int),
@at loop0.start
    let ghost __v = old(self).view();
    let ghost __p = copied(__v, dist as int, __i.index() as nat);
    proof {
        lemma_mod_small(read_from + 1, self.data@.len() as int);
        lemma_copied_len(__v, dist as int, __i.index() as nat);
        lemma_copied_len(__v, dist as int, len as nat);
        let m = copied(__v, dist as int, (__i.index() + 1) as nat);
        let c = copied(__v, dist as int, len as nat);
        assert(m == __p.push(__p[__p.len() - dist]));
        assert(m.is_prefix_of(c) && m.skip(__v.len() as int).is_prefix_of(c.skip(__v.len() as int)));
        lemma_tail_push(__p, __p[__p.len() - dist], self.cap());
        assert(self.view()[self.view().len() - dist] == __p[__p.len() - dist]);
    }
@at loop0.end
    proof {
        assert(__p.push(b).skip(__v.len() as int) =~= __p.skip(__v.len() as int).push(b));
        assert(copied(__v, dist as int, (__i.index() + 1) as nat) == __p.push(b));
        assert(read_from == self.slot(self.view().len() - dist));
    }

@fn CircularBuffer::get_at_dist
@spec
    requires self.wf(), 1 <= dist <= self.view().len()
    ensures r == self.view()[self.view().len() - dist]

@fn CircularBuffer::capacity
@spec
    requires self.wf()
    ensures r == self.cap()

@fn CircularBuffer::len
@spec
    requires self.wf()
    ensures r == self.view().len()

@fn CircularBuffer::vec
@spec
    requires self.wf()
    ensures r@ == self.view()
@loop 0 iter=__i
    invariant
        self.wf(), 
        ret@ == self.view().take(__i.index()),
@at loop0.before
    proof { assert(ret@ =~= self.view().take(0)); }
@at loop0.start
    proof { assert(self.view().take(__i.index() + 1) =~= self.view().take(__i.index()).push(self.view()[__i.index()])); }
@at loop0.after
    proof { assert(self.view().take(self.view().len() as int) =~= self.view()); }
