// std contracts vstd does not ship (trusted; listed in the evidence)
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (this: Result<T, E>, d: T) -> (r: T)
    where E: core::marker::Destruct, T: core::marker::Destruct,
    ensures r == (match this { Ok(v) => v, Err(_) => d }),
;
