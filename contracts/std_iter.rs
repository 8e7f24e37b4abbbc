// Two iterator methods vstd has no contract for. The extraction turns `.copied()` and
// `.collect::<Result<..>>()` into these; each body is the call it stands for.
pub trait QvCopied { type Out; fn qv_copied(self) -> Self::Out; }
impl<'a, T: Copy> QvCopied for core::slice::Iter<'a, T> {
    type Out = std::vec::IntoIter<T>;
    #[verifier::external_body]
    fn qv_copied(self) -> (r: std::vec::IntoIter<T>)
        ensures
            r.remaining().len() == self.remaining().len(),
            forall|i: int| 0 <= i < self.remaining().len() ==> #[trigger] r.remaining()[i] == *self.remaining()[i],
    { self.copied().collect::<Vec<T>>().into_iter() }
}
#[verifier::external_body]
fn qv_try_collect<T, E, I: Iterator<Item = Result<T, E>>>(it: I) -> (r: Result<Vec<T>, E>)
    ensures match r {
        Ok(v) => {
            &&& it.will_return_none()
            &&& v@.len() == it.remaining().len()
            &&& forall|i: int| #![trigger v@[i]] #![trigger it.remaining()[i]] 0 <= i < v@.len() ==> it.remaining()[i] == Ok::<T, E>(v@[i])
        },
        Err(e) => exists|i: int| 0 <= i < it.remaining().len() && #[trigger] it.remaining()[i] == Err::<T, E>(e)
            && forall|j: int| 0 <= j < i ==> #[trigger] it.remaining()[j] is Ok,
    }
{ it.collect() }
