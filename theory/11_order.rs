// ---------------------------------------------------------------- the order of arrays
pub open spec fn vord<const N: usize>(a: Array<N>, b: Array<N>) -> Ordering {
    if a == b { Ordering::Equal } else if klt(a, b) { Ordering::Less } else { Ordering::Greater }
}

pub open spec fn tref_ord<const N: usize>(a: TreeRef<N>, b: TreeRef<N>) -> Ordering {
    vord(a.key, b.key)
}

/// trusted: arrays compare lexicographically
pub axiom fn axiom_arr_lex<const N: usize>(a: Array<N>, b: Array<N>)
    ensures
        arr_lt(a, b) == blt(a@, b@, N as int),
        <Array<N> as OrdSpec>::cmp_spec(&a, &b) == (if a@ == b@ { Ordering::Equal } else if blt(a@, b@, N as int) { Ordering::Less } else { Ordering::Greater }),
        <Array<N> as PartialOrdSpec>::partial_cmp_spec(&a, &b) == Some(<Array<N> as OrdSpec>::cmp_spec(&a, &b)),
        <Array<N> as PartialEqSpec>::eq_spec(&a, &b) == (a@ == b@);

pub broadcast axiom fn axiom_arr_obeys_cmp<const N: usize>()
    ensures #[trigger] <Array<N> as OrdSpec>::obeys_cmp_spec();

pub broadcast axiom fn axiom_arr_obeys_partial_cmp<const N: usize>()
    ensures #[trigger] <Array<N> as PartialOrdSpec>::obeys_partial_cmp_spec();

pub broadcast axiom fn axiom_arr_obeys_eq<const N: usize>()
    ensures #[trigger] <Array<N> as PartialEqSpec>::obeys_eq_spec();

// slices and vectors of bytes are equal when their bytes are
pub broadcast axiom fn axiom_bytes_eq(a: &[u8], b: &[u8])
    ensures #[trigger] <[u8] as PartialEqSpec>::eq_spec(a, b) == (a@ == b@);

pub broadcast axiom fn axiom_bytes_obeys_eq()
    ensures #[trigger] <[u8] as PartialEqSpec>::obeys_eq_spec();

pub broadcast axiom fn axiom_vec_eq(a: Vec<u8>, b: Vec<u8>)
    ensures #[trigger] <Vec<u8> as PartialEqSpec>::eq_spec(&a, &b) == (a@ == b@);

pub broadcast axiom fn axiom_vec_obeys_eq()
    ensures #[trigger] <Vec<u8> as PartialEqSpec>::obeys_eq_spec();

pub broadcast proof fn lemma_arr_lt<const N: usize>(a: Array<N>, b: Array<N>)
    ensures #[trigger] arr_lt(a, b) == klt(a, b),
{
    axiom_arr_lex(a, b);
    lemma_blt_klt(a, b);
}

pub broadcast proof fn lemma_arr_cmp<const N: usize>(a: Array<N>, b: Array<N>)
    ensures #[trigger] <Array<N> as OrdSpec>::cmp_spec(&a, &b) == vord(a, b),
{
    axiom_arr_lex(a, b);
    lemma_blt_klt(a, b);
    assert((a@ =~= b@) == (a == b)) by { if a@ =~= b@ { lemma_arr_ext(a, b); } }
}

pub broadcast proof fn lemma_arr_partial_cmp<const N: usize>(a: Array<N>, b: Array<N>)
    ensures #[trigger] <Array<N> as PartialOrdSpec>::partial_cmp_spec(&a, &b) == Some(vord(a, b)),
{
    axiom_arr_lex(a, b);
    lemma_arr_cmp(a, b);
}

pub broadcast proof fn lemma_arr_eq<const N: usize>(a: Array<N>, b: Array<N>)
    ensures #[trigger] <Array<N> as PartialEqSpec>::eq_spec(&a, &b) == (a == b),
{
    axiom_arr_lex(a, b);
    assert((a@ =~= b@) == (a == b)) by { if a@ =~= b@ { lemma_arr_ext(a, b); } }
}

pub broadcast group group_arrays {
    lemma_arr_lt, lemma_arr_cmp, lemma_arr_partial_cmp, lemma_arr_eq,
    axiom_arr_obeys_cmp, axiom_arr_obeys_partial_cmp, axiom_arr_obeys_eq, axiom_array_key_model,
    axiom_bytes_eq, axiom_bytes_obeys_eq, axiom_vec_eq, axiom_vec_obeys_eq,
}
