// Trusted interface to the standard library and to the crates outside the verifier's reach.
broadcast use {
    vstd::std_specs::hash::group_hash_axioms,
    vstd::array::group_array_axioms,
    vstd::slice::group_slice_axioms,

};
