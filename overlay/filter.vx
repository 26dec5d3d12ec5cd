@file lib/src/filter.rs => filter
@gsubst R-path sha2::Sha512 ==> crate::vx::sha2::Sha512
@implghost impl Read for FilterRead
    open spec fn rest(&self) -> Seq<u8> { self.inner.rest() }
    open spec fn faulty(&self) -> bool { self.inner.faulty() }
    /// C18: the same call on the wrapped stream, and the digest fed exactly what was read
    open spec fn did_read(pre: Self, b: Seq<u8>, post: Self, b2: Seq<u8>, r: Result<usize>) -> bool {
        &&& R::did_read(pre.inner, b, post.inner, b2, r)
        &&& r matches Ok(n) ==> post.hash.fed() == pre.hash.fed() + b2.take(n as int)
        &&& r is Err ==> post.hash.fed() == pre.hash.fed()
    }
@implghost impl Write for FilterWrite
    open spec fn written(&self) -> Seq<u8> { self.inner.written() }
    open spec fn faulty(&self) -> bool { self.inner.faulty() }
    /// C18: the same call on the wrapped stream, and the digest fed exactly what was accepted
    open spec fn did_write(pre: Self, b: Seq<u8>, post: Self, r: Result<usize>) -> bool {
        &&& W::did_write(pre.inner, b, post.inner, r)
        &&& r matches Ok(n) ==> post.hash.fed() == pre.hash.fed() + b.take(n as int)
        &&& r is Err ==> post.hash.fed() == pre.hash.fed()
    }
    open spec fn did_flush(pre: Self, post: Self, r: Result<()>) -> bool {
        &&& W::did_flush(pre.inner, post.inner, r)
        &&& post.hash.fed() == pre.hash.fed()
    }
@fn Read for FilterRead::read
@fn Write for FilterWrite::write
@fn Write for FilterWrite::flush
@fn FilterRead::new
@spec
    ensures r.inner == inner, r.hash.fed() == Seq::<u8>::empty()
@fn FilterRead::into_inner
@spec
    ensures r == self.inner
@fn FilterRead::hash
@rename collect => collect_vec
@spec
    ensures r@ == crate::vx::sha2::sha512(self.hash.fed())
@fn FilterWrite::new
@spec
    ensures r.inner == inner, r.hash.fed() == Seq::<u8>::empty()
@fn FilterWrite::into_inner
@spec
    ensures r == self.inner
@fn FilterWrite::hash
@rename collect => collect_vec
@spec
    ensures r@ == crate::vx::sha2::sha512(self.hash.fed())
@ghost
/// C18 over any sequence of calls: a trace of reads, each either a count with its buffer or an error
pub open spec fn passed(calls: Seq<(Seq<u8>, Option<nat>)>) -> Seq<u8>
    decreases calls.len()
{
    if calls.len() == 0 { Seq::empty() }
    else {
        let (b, r) = calls.last();
        passed(calls.drop_last()) + match r { Some(n) => b.take(n as int), None => Seq::empty() }
    }
}
pub proof fn lemma_fed_is_passed(calls: Seq<(Seq<u8>, Option<nat>)>, fed: Seq<Seq<u8>>)
    requires
        fed.len() == calls.len() + 1, fed[0] == Seq::<u8>::empty(),
        forall|i: int| 0 <= i < calls.len() ==> #[trigger] fed[i + 1] == fed[i] + match calls[i].1 { Some(n) => calls[i].0.take(n as int), None => Seq::empty() },
    ensures fed.last() == passed(calls)
    decreases calls.len()
{
    if calls.len() > 0 {
        assert forall|i: int| 0 <= i < calls.drop_last().len() implies #[trigger] fed.drop_last()[i + 1] == fed.drop_last()[i] + match calls.drop_last()[i].1 { Some(n) => calls.drop_last()[i].0.take(n as int), None => Seq::empty() } by {
            assert(fed[i + 1] == fed[i] + match calls[i].1 { Some(n) => calls[i].0.take(n as int), None => Seq::empty() });
        }
        lemma_fed_is_passed(calls.drop_last(), fed.drop_last());
        let i = calls.len() - 1;
        assert(fed[i + 1] == fed[i] + match calls[i].1 { Some(n) => calls[i].0.take(n as int), None => Seq::empty() });
    }
}
