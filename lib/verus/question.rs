// `?` converts the error with `From::from` (the language's definition; trusted)
pub mod vx_q {
    use vstd::prelude::*;
    pub broadcast axiom fn ax_question<S: From<T>, T>(t: T, s: S)
        ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(t, s) ==> call_ensures(<S as From<T>>::from, (t,), s);
}
