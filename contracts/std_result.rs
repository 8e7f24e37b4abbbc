// two of the standard library
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (r: Result<T, E>, d: T) -> (v: T)
    where E: core::marker::Destruct, T: core::marker::Destruct
    ensures v == (match r { Ok(x) => x, Err(_) => d });
pub assume_specification [<i64 as From<bool>>::from] (b: bool) -> (r: i64) ensures r == if b { 1int } else { 0int };
