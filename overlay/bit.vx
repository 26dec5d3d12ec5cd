@file lib/src/bit.rs => bit
@header
use vstd::arithmetic::power2::*;
use crate::rfc::stored_len;
use crate::vx::fmt;
use crate::vx::io::{Show, Val, shown, shown_by_std, bits_shown, digits, axiom_digits, lemma_digits};
@gsubst R-assert assert_eq! ==> vx_assert_eq!
@gsubst R-path std::u16::MAX ==> u16::MAX
@derive_clone BitVec
    ensures r@ == self@, self.wf() ==> r.wf(), r.bytes@ == self.bytes@, r.len == self.len
@require_derive BitVec PartialEq Clone
@skip BitVec::pretty_print
@inherent Iterator for StackIterator
@inherent Debug for BitVec
@gsubst R-op word.bitor_assign(1 << (bit)) ==> *word |= 1 << (bit)
@ghost
/// no stream in memory or on disk reaches 2^60 bytes (an assumption on callers, so that bit counts fit usize)
pub open spec fn sane_len(n: nat) -> bool { n < 0x0fff_ffff_ffff_fff0 }

pub proof fn lemma_bit8_facts_u8()
    ensures
        forall|x: u8, bit: u8, k: int| 0 <= bit < 8 && 0 <= k < 8 ==> #[trigger] bit8(x | (1u8 << bit), k) == (bit8(x, k) || bit == k),
        forall|x: u8, bit: u8, k: int| 0 <= bit < 8 && 0 <= k < 8 ==> #[trigger] bit8(x & !(1u8 << bit), k) == (bit8(x, k) && bit != k),
        forall|x: u8, bit: u8| 0 <= bit < 8 ==> (((#[trigger] (x & (1u8 << bit))) == (1u8 << bit)) == bit8(x, bit as int)) && (((x & (1u8 << bit)) != 0) == bit8(x, bit as int)),
{
    assert forall|x: u8, bit: u8, k: int| 0 <= bit < 8 && 0 <= k < 8 implies #[trigger] bit8(x | (1u8 << bit), k) == (bit8(x, k) || bit == k) by {
        let c = k as u8; let b = bit as u8;
        assert((((x | (1u8 << bit)) >> c) & 1 == 1) == ((x >> c) & 1 == 1 || b == c)) by (bit_vector) requires c < 8, 0 <= bit < 8, b == bit as u8;
    }
    assert forall|x: u8, bit: u8, k: int| 0 <= bit < 8 && 0 <= k < 8 implies #[trigger] bit8(x & !(1u8 << bit), k) == (bit8(x, k) && bit != k) by {
        let c = k as u8; let b = bit as u8;
        assert((((x & !(1u8 << bit)) >> c) & 1 == 1) == ((x >> c) & 1 == 1 && b != c)) by (bit_vector) requires c < 8, 0 <= bit < 8, b == bit as u8;
    }
    assert forall|x: u8, bit: u8| 0 <= bit < 8 implies (((#[trigger] (x & (1u8 << bit))) == (1u8 << bit)) == bit8(x, bit as int)) && (((x & (1u8 << bit)) != 0) == bit8(x, bit as int)) by {
        let b = bit as u8;
        assert(((x & (1u8 << bit)) == (1u8 << bit)) == ((x >> b) & 1 == 1)) by (bit_vector) requires 0 <= bit < 8, b == bit as u8;
        assert(((x & (1u8 << bit)) != 0) == ((x >> b) & 1 == 1)) by (bit_vector) requires 0 <= bit < 8, b == bit as u8;
    }
}
pub proof fn lemma_bit8_zero()
    ensures forall|k: int| 0 <= k < 8 ==> !(#[trigger] bit8(0u8, k))
{
    assert forall|k: int| 0 <= k < 8 implies !(#[trigger] bit8(0u8, k)) by {
        let c = k as u8;
        assert((0u8 >> c) & 1 == 0) by (bit_vector);
    }
}
pub proof fn lemma_bit16_facts()
    ensures
        forall|x: u16, i: u8| i < 16 ==> ((#[trigger] (x & (1u16 << i)) != 0) == bit16(x, i as int)),
{
    assert forall|x: u16, i: u8| i < 16 implies ((#[trigger] (x & (1u16 << i)) != 0) == bit16(x, i as int)) by {
        let b = i as u16;
        assert(((x & (1u16 << i)) != 0) == ((x >> b) & 1 == 1)) by (bit_vector) requires b < 16, b == i as u16;
    }
}

pub proof fn lemma_or16_u8(res: u16, i: u8)
    requires i < 16, res < pow2(i as nat)
    ensures (res | (1u16 << i)) == res + pow2(i as nat), (res | (0u16 << i)) == res
{
    assert((res | (0u16 << i)) == res) by (bit_vector) requires i < 16;
    lemma_or16(res, i as u16);
    let j = i as u16;
    assert((1u16 << i) == (1u16 << j)) by (bit_vector) requires j == i as u16, i < 16;
}

/// C07: derive(PartialEq) compares the fields; for well-formed vectors that is equality of the sequences
pub proof fn lemma_eq_is_view_eq(a: BitVec, b: BitVec)
    requires a.wf(), b.wf()
    ensures (a.bytes@ == b.bytes@ && a.len == b.len) <==> a@ == b@
{
    if a@ == b@ {
        assert(a@.len() == b@.len());
        assert forall|k: int| 0 <= k < a.bytes@.len() implies a.bytes@[k] == b.bytes@[k] by {
            assert forall|i: int| 0 <= i < 8 implies byte_bits(a.bytes@[k])[i] == byte_bits(b.bytes@[k])[i] by {
                let p = 8 * k + i;
                assert(p / 8 == k && p % 8 == i);
                if p < a.len { assert(a@[p] == b@[p]); }
                else { assert(!bit8(a.bytes@[p / 8], p % 8)); assert(!bit8(b.bytes@[p / 8], p % 8)); }
            }
            assert(byte_bits(a.bytes@[k]) =~= byte_bits(b.bytes@[k]));
            lemma_byte_bits_inj(a.bytes@[k], b.bytes@[k]);
        }
        assert(a.bytes@ =~= b.bytes@);
    }
}

/// C07/C01: what a writer put out, followed by any bytes, is what a reader of those bytes returns
pub proof fn lemma_write_then_read(bits: Seq<bool>, bytes: Seq<u8>, trailer: Seq<u8>)
    requires bytes_bits(bytes) == bits
    ensures bytes_bits(bytes + trailer).take(bits.len() as int) == bits,
        bytes_bits(bytes + trailer).skip(bits.len() as int) == bytes_bits(trailer),
{
    lemma_bytes_bits_cat(bytes, trailer);
    assert((bits + bytes_bits(trailer)).take(bits.len() as int) =~= bits);
    assert((bits + bytes_bits(trailer)).skip(bits.len() as int) =~= bytes_bits(trailer));
}

pub open spec fn zeros(n: nat) -> Seq<bool> { Seq::new(n, |i: int| false) }

/// how many bits are missing to a whole byte
pub open spec fn pad_len(n: nat) -> nat { ((8 - n % 8) % 8) as nat }

@implghost impl BitReader
    pub open spec fn bits(&self) -> Seq<bool> {
        Seq::new(self.remaining_bits as nat, |i: int| bit8(self.current, 8 - self.remaining_bits + i))
            + bytes_bits(self.inner.rest())
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.remaining_bits <= 7
        &&& self.track is None
        &&& sane_len(self.inner.rest().len())
    }

@implghost impl BitWriter
    pub open spec fn wf(&self) -> bool { self.current.wf() && self.current@.len() < 8 }
    /// everything written so far, whole bytes and the bits still held back
    pub open spec fn out(&self) -> Seq<bool> { bytes_bits(self.inner.written()) + self.current@ }

@implghost impl BitVec
    /// the representation: just enough bytes, and nothing set past the end
    pub open spec fn wf(&self) -> bool {
        &&& self.bytes@.len() == (self.len + 7) / 8
        &&& forall|i: int| self.len <= i < 8 * self.bytes@.len() ==> !bit8(self.bytes@[#[trigger] (i / 8)], i % 8)
    }
    pub open spec fn view(&self) -> Seq<bool> {
        Seq::new(self.len as nat, |i: int| bit8(self.bytes@[i / 8], i % 8))
    }

@ghost
impl Show for BitVec { open spec fn val(&self) -> Val { Val::Bits(self@) } }
impl<'a> StackIterator<'a> {
    pub open spec fn wf(&self) -> bool { self.inner.wf() && self.pos <= self.inner.len }
    pub open spec fn rest(&self) -> Seq<bool> { self.inner@.skip(self.pos as int) }
}

@implghost trait BitSource
    /// the bits still to come
    spec fn bits(&self) -> Seq<bool>;
    spec fn faulty(&self) -> bool;
    /// the end is a panic, not an error
    spec fn runs_out(&self) -> bool;
    spec fn src_ok(&self) -> bool;
    /// what else a read keeps
    #[verifier::prophetic]
    spec fn frame(a: Self, b: Self, ok: bool) -> bool where Self: Sized;
    proof fn frame_refl(a: Self) where Self: Sized
        ensures Self::frame(a, a, true), Self::frame(a, a, false);
    proof fn frame_trans(a: Self, b: Self, c: Self, ok: bool) where Self: Sized
        requires Self::frame(a, b, true), Self::frame(b, c, ok)
        ensures Self::frame(a, c, ok);
    proof fn frame_weaken(a: Self, b: Self) where Self: Sized
        requires Self::frame(a, b, true)
        ensures Self::frame(a, b, false);

@fn trait BitSource::read_bit
@spec
    where Self: Sized
    requires old(self).src_ok(), old(self).runs_out() ==> old(self).bits().len() > 0
    ensures
        final(self).src_ok(), final(self).faulty() == old(self).faulty(), final(self).runs_out() == old(self).runs_out(),
        Self::frame(*old(self), *final(self), r is Ok),
        r matches Ok(b) ==> {
            &&& old(self).bits().len() > 0
            &&& b == old(self).bits()[0]
            &&& final(self).bits() == old(self).bits().skip(1)
        },
        r is Err ==> old(self).faulty() || old(self).bits().len() == 0,
        final(self).bits().len() <= old(self).bits().len(),

@fn trait BitSource::read_part
@spec
    where Self: Sized
    requires old(self).src_ok(), bits <= 16, old(self).runs_out() ==> old(self).bits().len() >= bits
    ensures
        final(self).src_ok(), final(self).faulty() == old(self).faulty(), final(self).runs_out() == old(self).runs_out(),
        Self::frame(*old(self), *final(self), r is Ok),
        r matches Ok(v) ==> {
            &&& old(self).bits().len() >= bits
            &&& v == bits_val(old(self).bits().take(bits as int))
            &&& v < pow2(bits as nat)
            &&& final(self).bits() == old(self).bits().skip(bits as int)
        },
        r is Err ==> old(self).faulty() || old(self).bits().len() < bits,
        final(self).bits().len() <= old(self).bits().len(),
@at start
    broadcast use group_skip;
    let ghost __w = self.bits();
    proof { Self::frame_refl(*self); lemma2_to64(); }
@loop 0 iter=__i
    invariant
        bits <= 16, self.src_ok(), __w == old(self).bits(), self.faulty() == old(self).faulty(), self.runs_out() == old(self).runs_out(),
        Self::frame(*old(self), *self, true),
        self.runs_out() ==> __w.len() >= bits,
        self.bits().len() <= __w.len(),
        __i.index() <= __w.len(),
        self.bits() == __w.skip(__i.index()),
        res == bits_val(__w.take(__i.index())),
        res < pow2(__i.index() as nat),
@at loop0.start
    broadcast use group_skip;
    let ghost __s = *self;
    proof {
        assert(i < 16);
        assert forall|c: Self| #[trigger] Self::frame(__s, c, false) implies Self::frame(*old(self), c, false) by { Self::frame_trans(*old(self), __s, c, false); }
        lemma_or16_u8(res, i);
        lemma_pow2_unfold((i + 1) as nat);
        if i < __w.len() { lemma_bits_val_push(__w.take(i as int), __w[i as int]); }
    }
@at loop0.end
    proof {
        Self::frame_trans(*old(self), __s, *self, true);
    }

@fn BitSource for BitReader::read_bit
@fn BitSource for StackIterator::read_bit
@fn BitSource for BitCollector::read_bit
@at bindtail
    proof {
        assert(self.data@ + (*self.inner).bits() =~= old(self).data@ + (*old(self).inner).bits());
    }

@implghost impl BitSource for BitReader
    open spec fn bits(&self) -> Seq<bool> { BitReader::bits(self) }
    open spec fn faulty(&self) -> bool { self.inner.faulty() }
    open spec fn runs_out(&self) -> bool { false }
    open spec fn src_ok(&self) -> bool { self.wf() }
    #[verifier::prophetic]
    open spec fn frame(a: Self, b: Self, ok: bool) -> bool { true }
    proof fn frame_refl(a: Self) {}
    proof fn frame_trans(a: Self, b: Self, c: Self, ok: bool) {}
    proof fn frame_weaken(a: Self, b: Self) {}

@implghost impl BitSource for StackIterator
    open spec fn bits(&self) -> Seq<bool> { self.rest() }
    open spec fn faulty(&self) -> bool { false }
    open spec fn runs_out(&self) -> bool { true }
    open spec fn src_ok(&self) -> bool { self.wf() }
    #[verifier::prophetic]
    open spec fn frame(a: Self, b: Self, ok: bool) -> bool { a.inner == b.inner }
    proof fn frame_refl(a: Self) {}
    proof fn frame_trans(a: Self, b: Self, c: Self, ok: bool) {}
    proof fn frame_weaken(a: Self, b: Self) {}

@implghost impl BitSource for BitCollector
    open spec fn bits(&self) -> Seq<bool> { (*self.inner).bits() }
    open spec fn faulty(&self) -> bool { (*self.inner).faulty() }
    open spec fn runs_out(&self) -> bool { (*self.inner).runs_out() }
    open spec fn src_ok(&self) -> bool {
        (*self.inner).src_ok() && self.data.wf() && self.data@.len() + (*self.inner).bits().len() < usize::MAX
    }
    /// nothing read is lost: it is in data, in order; and the borrowed source is still the same one
    #[verifier::prophetic]
    open spec fn frame(a: Self, b: Self, ok: bool) -> bool {
        &&& *final(a.inner) == *final(b.inner)
        &&& B::frame(*a.inner, *b.inner, ok)
        &&& ok ==> a.data@ + (*a.inner).bits() == b.data@ + (*b.inner).bits()
    }
    proof fn frame_refl(a: Self) { B::frame_refl(*a.inner); }
    proof fn frame_trans(a: Self, b: Self, c: Self, ok: bool) { B::frame_trans(*a.inner, *b.inner, *c.inner, ok); }
    proof fn frame_weaken(a: Self, b: Self) { B::frame_weaken(*a.inner, *b.inner); }

@fn BitReader::new
@spec
    requires sane_len(inner.rest().len())
    ensures r.wf(), r.bits() == bytes_bits(inner.rest()), r.inner == inner, r.remaining_bits == 0
@at bindtail
    proof { assert(__ret.bits() =~= bytes_bits(inner.rest())); }

@fn BitReader::position
@spec
    requires self.remaining_bits <= 7
    ensures r == (8 - self.remaining_bits) % 8, r == pad_pos(self.remaining_bits as int)
@ghost
pub open spec fn pad_pos(rem: int) -> int { if rem == 0 { 0 } else { 8 - rem } }

@fn BitReader::read_bit
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).inner.faulty() == old(self).inner.faulty(),
        r matches Ok(b) ==> {
            &&& old(self).bits().len() > 0
            &&& b == old(self).bits()[0]
            &&& final(self).bits() == old(self).bits().skip(1)
            &&& old(self).remaining_bits > 0 ==> final(self).remaining_bits == old(self).remaining_bits - 1 && final(self).inner == old(self).inner
        },
        r is Err ==> old(self).inner.faulty() || old(self).bits().len() == 0,
        final(self).bits().len() <= old(self).bits().len(),
        old(self).remaining_bits > 0 ==> r is Ok,
@at start
    broadcast use group_skip;
    let ghost __w = self.inner.rest();
    proof {
        if __w.len() > 0 { lemma_bytes_bits_skip(__w, 1); lemma_bytes_bits_one(__w[0]); lemma_bytes_bits_cat(seq![__w[0]], __w.skip(1)); assert(seq![__w[0]] + __w.skip(1) =~= __w); }
    }
@at end
    proof {
        assert(self.bits() =~= old(self).bits().skip(1));
    }

@fn BitReader::align
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).inner == old(self).inner,
        ({
            let p = old(self).bits().len() % 8;
            &&& r is Ok <==> (forall|i: int| 0 <= i < p ==> !old(self).bits()[i])
            &&& r is Ok ==> final(self).bits() == old(self).bits().skip(p as int) && final(self).remaining_bits == 0
                && final(self).bits() == bytes_bits(old(self).inner.rest())
        }),
@at start
    broadcast use group_skip;
    let ghost __w = self.bits();
    proof { assert(__w.len() % 8 == self.remaining_bits as nat); }
@loop 0
    invariant
        self.wf(), __w == old(self).bits(), self.inner == old(self).inner, old(self).wf(),
        self.remaining_bits <= old(self).remaining_bits,
        self.bits() == __w.skip(old(self).remaining_bits - self.remaining_bits),
        forall|i: int| 0 <= i < old(self).remaining_bits - self.remaining_bits ==> !__w[i],
        __w.len() % 8 == old(self).remaining_bits as nat,
    decreases self.remaining_bits
@at loop0.start
    broadcast use group_skip;
@at end
    proof { assert(self.bits() =~= bytes_bits(old(self).inner.rest())); }

@fn BitReader::read_part
@spec
    requires old(self).wf(), bits <= 16
    ensures
        final(self).wf(), final(self).inner.faulty() == old(self).inner.faulty(),
        r matches Ok(v) ==> {
            &&& old(self).bits().len() >= bits
            &&& v == bits_val(old(self).bits().take(bits as int))
            &&& v < pow2(bits as nat)
            &&& final(self).bits() == old(self).bits().skip(bits as int)
        },
        r is Err ==> old(self).inner.faulty() || old(self).bits().len() < bits,

@fn BitReader::read_length_prefixed
@spec
    requires old(self).wf(), old(self).remaining_bits == 0
    ensures
        final(self).wf(), final(self).inner.faulty() == old(self).inner.faulty(),
        r matches Ok(v) ==> {
            let w = old(self).inner.rest();
            &&& stored_len(w) == Some(v@.len())
            &&& v@ == w.skip(4).take(v@.len() as int)
            &&& final(self).inner.rest() == w.skip(4 + v@.len() as int)
            &&& final(self).remaining_bits == 0
        },
        r is Err ==> old(self).inner.faulty() || stored_len(old(self).inner.rest()) is None,
@at start
    broadcast use group_skip;
    let ghost __w = self.inner.rest();
    broadcast use group_not16;
@closure 0 (__e: Error)

@fn BitReader::read_aligned_u16
@spec
    requires old(self).wf(), old(self).remaining_bits == 0
    ensures
        final(self).wf(), final(self).remaining_bits == 0, final(self).inner.faulty() == old(self).inner.faulty(),
        r matches Ok(v) ==> {
            let w = old(self).inner.rest();
            &&& w.len() >= 2
            &&& v == le16(w[0], w[1])
            &&& final(self).inner.rest() == w.skip(2)
        },
        r is Err ==> old(self).inner.faulty() || old(self).inner.rest().len() < 2,
@at start
    broadcast use group_le16;

@fn BitReader::into_inner
@spec
    requires self.wf(), self.remaining_bits == 0
    ensures r == self.inner

@fn BitWriter::new
@spec
    ensures r.wf(), r.out() == bytes_bits(inner.written()), r.inner == inner, r.current@.len() == 0
@at bindtail
    proof { assert(__ret.out() =~= bytes_bits(inner.written())); }

@fn BitWriter::write_bit
@spec
    requires old(self).wf()
    ensures
        final(self).inner.faulty() == old(self).inner.faulty(),
        r is Ok ==> final(self).wf() && final(self).out() == old(self).out().push(bit)
            && final(self).current@.len() == (old(self).current@.len() + 1) % 8,
        r is Err ==> old(self).inner.faulty(),
@at start
    let ghost __v = self.current@.push(bit);
    let ghost __o = self.inner.written();
@at end
    proof {
        if old(self).current@.len() == 7 {
            let n = self.inner.written();
            let b = n.last();
            assert(n =~= __o + seq![b]);
            lemma_bytes_bits_cat(__o, seq![b]);
            lemma_bytes_bits_one(b);
            assert(byte_bits(b) =~= __v);
            assert(self.current@ =~= Seq::<bool>::empty());
        }
        assert(self.out() =~= old(self).out().push(bit));
    }

@fn BitWriter::write_bits_val
@spec
    requires old(self).wf(), bits <= 16
    ensures
        final(self).inner.faulty() == old(self).inner.faulty(),
        r is Ok ==> final(self).wf() && final(self).out() == old(self).out() + val_bits(val, bits as nat),
        r is Err ==> old(self).inner.faulty(),
@at start
    proof { lemma_bit16_facts(); }
@loop 0 iter=__i
    invariant
        bits <= 16, self.wf(), self.inner.faulty() == old(self).inner.faulty(),
        self.out() == old(self).out() + val_bits(val, __i.index() as nat),
        forall|x: u16, i: u8| i < 16 ==> ((#[trigger] (x & (1u16 << i)) != 0) == bit16(x, i as int)),
@at loop0.before
    proof { assert(old(self).out() + val_bits(val, 0) =~= self.out()); }
@at loop0.end
    proof { assert(val_bits(val, (i + 1) as nat) =~= val_bits(val, i as nat).push(bit16(val, i as int)));
        assert(self.out() =~= old(self).out() + val_bits(val, (i + 1) as nat)); }

@fn BitWriter::align
@spec
    requires old(self).wf()
    ensures
        final(self).inner.faulty() == old(self).inner.faulty(),
        r is Ok ==> final(self).wf() && final(self).current@.len() == 0
            && final(self).out() == old(self).out() + zeros(pad_len(old(self).out().len()))
            && final(self).out() == bytes_bits(final(self).inner.written()),
        r is Err ==> old(self).inner.faulty(),
@at start
    let ghost mut __n: nat = 0;
    proof { assert(self.out() =~= old(self).out() + zeros(0)); lemma_pad_at(self.inner.written(), self.current@); }
@loop 0
    invariant
        self.wf(), old(self).wf(), self.inner.faulty() == old(self).inner.faulty(),
        self.out() == old(self).out() + zeros(__n),
        old(self).current@.len() == 0 ==> __n == 0 && self.current@.len() == 0,
        old(self).current@.len() > 0 ==> old(self).current@.len() + __n <= 8
            && self.current@.len() == if old(self).current@.len() + __n == 8 { 0 } else { old(self).current@.len() + __n },
        pad_len(old(self).out().len()) == if old(self).current@.len() == 0 { 0 } else { 8 - old(self).current@.len() },
    decreases 8 - __n
@at loop0.end
    proof { __n = __n + 1; assert(self.out() =~= old(self).out() + zeros(__n)); }
@at end
    proof { assert(self.out() =~= bytes_bits(self.inner.written())); }

@ghost
pub proof fn lemma_pad_at(w: Seq<u8>, c: Seq<bool>)
    requires c.len() < 8
    ensures pad_len((bytes_bits(w) + c).len()) == if c.len() == 0 { 0 } else { 8 - c.len() }
{
    let n = (bytes_bits(w) + c).len() as int;
    assert(n == 8 * w.len() + c.len());
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, 8, w.len() as int, c.len() as int);
}

@fn BitWriter::write_vec
@desugar 0
@spec
    requires old(self).wf(), vec.wf()
    ensures
        final(self).inner.faulty() == old(self).inner.faulty(),
        r is Ok ==> final(self).wf() && final(self).out() == old(self).out() + vec@,
        r is Err ==> old(self).inner.faulty(),
@loop 0
    invariant
        self.wf(), self.inner.faulty() == old(self).inner.faulty(),
        __it0.wf(), __it0.inner@ == vec@,
        self.out() == old(self).out() + vec@.take(__it0.pos as int),
    ensures __it0.pos == vec@.len()
    decreases vec@.len() - __it0.pos
@at loop0.init
    proof { assert(self.out() =~= old(self).out() + vec@.take(0)); }
@at loop0.end
    proof {
        let p = __it0.pos as int;
        assert(vec@.take(p) =~= vec@.take(p - 1).push(vec@[p - 1]));
        assert(self.out() =~= old(self).out() + vec@.take(p));
    }
@at end
    proof { assert(vec@.take(vec@.len() as int) =~= vec@); }

@fn BitWriter::write_length_prefixed
@spec
    requires old(self).wf()
    ensures
        final(self).inner.faulty() == old(self).inner.faulty(),
        r is Ok ==> final(self).wf() && data@.len() <= 65535 && final(self).current@.len() == 0
            && final(self).out() == old(self).out() + zeros(pad_len(old(self).out().len())) + bytes_bits(stored_header(data@.len()) + data@),
        r is Err ==> old(self).inner.faulty() || data@.len() > 65535,
@at start
    broadcast use group_not16;
@at end
    proof {
        let a = old(self).out() + zeros(pad_len(old(self).out().len()));
        let m = stored_header(data@.len());
        let w0 = self.inner.written().take(self.inner.written().len() - data@.len() - 4);
        assert(self.inner.written() =~= w0 + (m + data@));
        lemma_bytes_bits_cat(w0, m + data@);
        assert(self.out() =~= a + bytes_bits(m + data@));
    }
@ghost
/// LEN and NLEN of RFC 1951 3.2.4
pub open spec fn stored_header(n: nat) -> Seq<u8> {
    seq![(n % 256) as u8, (n / 256) as u8, ((65535 - n) % 256) as u8, ((65535 - n) / 256) as u8]
}

@fn BitWriter::write_aligned_u16
@spec
    ensures
        final(self).inner.faulty() == old(self).inner.faulty(), final(self).current == old(self).current,
        r is Ok ==> final(self).inner.written() == old(self).inner.written() + seq![(val % 256) as u8, (val / 256) as u8],
        r is Err ==> old(self).inner.faulty(),
@at start
    proof {
        assert((val & 0xFF) == val % 256 && (val >> 8) == val / 256 && (val >> 8) <= 255 && (val & 0xFF) <= 255) by (bit_vector);
    }

@fn BitWriter::into_inner
@spec
    requires self.wf(), self.current@.len() == 0
    ensures r == self.inner, self.out() == bytes_bits(r.written())
@at bindtail
    proof { assert(self.out() =~= bytes_bits(__ret.written())); }

@fn BitVec::new
@spec
    ensures r.wf(), r@ == Seq::<bool>::empty()
@at bindtail
    proof { assert(__ret@ =~= Seq::<bool>::empty()); }

@fn BitVec::from_slice
@spec
    requires sane_len(bytes@.len())
    ensures r.wf(), r@ == bytes_bits(bytes@)
@at bindtail
    proof { assert(__ret@ =~= bytes_bits(bytes@)); }

@fn BitVec::push
@spec
    requires old(self).wf(), old(self)@.len() < usize::MAX
    ensures final(self).wf(), final(self)@ == old(self)@.push(val)
@at start
    proof { lemma_bit8_facts_u8(); lemma_bit8_zero(); }
    let ghost __b = self.bytes@;
    let ghost __l = self.len;
@at end
    proof {
        let w = __l / 8;
        assert forall|i: int| 0 <= i < 8 * self.bytes@.len() implies bit8(self.bytes@[#[trigger] (i / 8)], i % 8) == (if i == __l { val } else if i < __l { bit8(__b[i / 8], i % 8) } else { false }) by {
            if i / 8 != w { assert(self.bytes@[i / 8] == __b[i / 8]); }
            else if w < __b.len() { assert(i < __l || !bit8(__b[i / 8], i % 8)); }
        }
        assert(self@ =~= old(self)@.push(val));
    }

@fn BitVec::get
@spec
    requires self.wf(), pos < self@.len()
    ensures r == self@[pos as int]
@at start
    proof { lemma_bit8_facts_u8(); lemma_bit8_zero(); }

@fn BitVec::pop
@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
@at start
    proof { lemma_bit8_facts_u8(); lemma_bit8_zero(); }
    let ghost __b = self.bytes@;
    let ghost __l = self.len;
@at end
    proof {
        assert forall|i: int| 0 <= i < 8 * self.bytes@.len() implies bit8(self.bytes@[#[trigger] (i / 8)], i % 8) == (i < __l - 1 && bit8(__b[i / 8], i % 8)) by {
            if i >= __l { assert(!bit8(__b[i / 8], i % 8)); }
            if i / 8 != (__l - 1) / 8 { assert(self.bytes@[i / 8] == __b[i / 8]); }
        }
        assert(self@ =~= old(self)@.drop_last());
    }

@fn BitVec::bytes
@spec
    ensures r@ == self.bytes@

@fn BitVec::len
@spec
    ensures r == self@.len()

@fn BitVec::is_empty
@spec
    requires self.wf()
    ensures r == (self@.len() == 0)

@fn BitVec::pop_byte
@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        old(self)@.len() < 8 ==> r is None && final(self)@ == old(self)@,
        old(self)@.len() >= 8 ==> {
            let n = old(self)@.len() - 8;
            &&& r is Some
            &&& byte_bits(r->0) == old(self)@.skip(n)
            &&& final(self)@ == old(self)@.take(n)
        },
@at start
    proof { lemma_bit8_facts_u8(); lemma_bit8_zero(); }
@loop 0 iter=__i
    invariant
        old(self)@.len() >= 8, self.wf(),
        self@ == old(self)@.take(old(self)@.len() - __i.index()),
        forall|k: int| 0 <= k < 8 ==> (#[trigger] bit8(ret, k)) == (k > 7 - __i.index() && old(self)@[old(self)@.len() - 8 + k]),
@at loop0.before
    proof { assert(self@ =~= old(self)@.take(old(self)@.len() as int)); }
@at loop0.start
    proof { lemma_bit8_facts_u8(); lemma_bit8_zero(); }
    let ghost __r = ret;
@at loop0.end
    proof {
        assert(self@ =~= old(self)@.take(old(self)@.len() - (__i.index() + 1)));
        assert forall|k: int| 0 <= k < 8 implies (#[trigger] bit8(ret, k)) == (k > 7 - (__i.index() + 1) && old(self)@[old(self)@.len() - 8 + k]) by {
            assert(bit8(__r, k) == (k > 7 - __i.index() && old(self)@[old(self)@.len() - 8 + k]));
        }
    }
@at end
    proof { assert(byte_bits(ret) =~= old(self)@.skip(old(self)@.len() - 8)); }

@fn BitVec::iter
@spec
    requires self.wf()
    ensures r.wf(), r.inner == self, r.pos == 0, r.rest() == self@
@at bindtail
    proof { assert(__ret.rest() =~= self@); }

@fn Iterator for StackIterator::next
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).inner == old(self).inner,
        old(self).rest().len() == 0 ==> r is None && final(self).pos == old(self).pos && final(self).rest() == old(self).rest(),
        old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).pos == old(self).pos + 1 && final(self).rest() == old(self).rest().skip(1)
            && r == Some(old(self).inner@[old(self).pos as int]),
@at start
    broadcast use group_skip;

@fn Debug for BitVec::fmt
@desugar 0
@spec
    requires self.wf()
    ensures
        !old(f).faulty() ==> r is Ok,
        r is Ok ==> final(f).text() == old(f).text() + shown("?"@, self.val()),
@at start
    proof { axiom_digits(); lemma_digits(); }
    let ghost __w0 = f.text();
    let ghost __head = "BitVec: "@ + shown_by_std(""@, Val::Num(self@.len() as int)) + ": "@;
@at loop0.before
    proof { assert(self@.take(0) =~= Seq::<bool>::empty()); assert(f.text() =~= __w0 + (__head + digits(self@.take(0)))); }
@loop 0
    invariant
        shown_by_std(""@, Val::Num(0)) == "0"@, shown_by_std(""@, Val::Num(1)) == "1"@, "0"@ == seq!['0'], "1"@ == seq!['1'],
        __it0.wf(), __it0.inner == self, __it0.pos <= self@.len(), self@.len() == self.len,
        f.faulty() == old(f).faulty(),
        f.text() == __w0 + (__head + digits(self@.take(__it0.pos as int))),
    ensures __it0.pos == self@.len()
    decreases self@.len() - __it0.pos
@at loop0.end
    proof {
        let n = __it0.pos as int;
        assert(self@.take(n).drop_last() =~= self@.take(n - 1));
        assert(f.text() =~= __w0 + (__head + digits(self@.take(n))));
    }
@at bindtail
    proof { assert(self@.take(self@.len() as int) =~= self@); }

@fn BitCollector::new
@spec
    requires (*old(inner)).src_ok(), old(inner).bits().len() < usize::MAX
    ensures *r.inner == *old(inner), *final(r.inner) == *final(inner), r.data@ == Seq::<bool>::empty(), r.src_ok()

@fn BitCollector::into_data
@spec
    requires self.data.wf()
    ensures r == self.data, r.wf(), *final(self.inner) == *old(self.inner)
