// ---------------------------------------------------------------- bits of keys
pub open spec fn bitb(b: u8, i: int) -> bool {
    ((b >> ((7 - i) as u8)) & 1u8) == 1u8
}

/// Bit `i` of a key, most significant first.
pub open spec fn bit<const N: usize>(k: Array<N>, i: int) -> bool {
    bitb(k@[i / 8], i % 8)
}

/// The keys have the same first `n` bits.
pub open spec fn agree<const N: usize>(a: Array<N>, b: Array<N>, n: int) -> bool {
    forall|i: int| #![trigger bit(a, i)] #![trigger bit(b, i)] 0 <= i < n ==> bit(a, i) == bit(b, i)
}

/// `d` is the first bit at which the keys differ.
pub open spec fn is_diff<const N: usize>(a: Array<N>, b: Array<N>, d: int) -> bool {
    0 <= d < 8 * N && agree(a, b, d) && bit(a, d) != bit(b, d)
}

/// Key order: 0 before 1 at the first difference.
pub open spec fn klt<const N: usize>(a: Array<N>, b: Array<N>) -> bool {
    exists|d: int| #[trigger] is_diff(a, b, d) && !bit(a, d)
}

pub open spec fn kle<const N: usize>(a: Array<N>, b: Array<N>) -> bool {
    a == b || klt(a, b)
}

/// Lexicographic order on bytes, as documented for arrays and slices in the standard library.
pub open spec fn blt(a: Seq<u8>, b: Seq<u8>, n: int) -> bool {
    exists|j: int| #![trigger a[j]] 0 <= j < n && a[j] < b[j] && forall|i: int| 0 <= i < j ==> a[i] == b[i]
}

pub proof fn lemma_byte_ext(x: u8, y: u8)
    requires forall|i: int| 0 <= i < 8 ==> bitb(x, i) == bitb(y, i),
    ensures x == y,
{
    assert(bitb(x, 0) == bitb(y, 0)); assert(bitb(x, 1) == bitb(y, 1));
    assert(bitb(x, 2) == bitb(y, 2)); assert(bitb(x, 3) == bitb(y, 3));
    assert(bitb(x, 4) == bitb(y, 4)); assert(bitb(x, 5) == bitb(y, 5));
    assert(bitb(x, 6) == bitb(y, 6)); assert(bitb(x, 7) == bitb(y, 7));
    assert(x == y) by (bit_vector)
        requires
            ((x >> 0u8) & 1u8 == 1u8) == ((y >> 0u8) & 1u8 == 1u8),
            ((x >> 1u8) & 1u8 == 1u8) == ((y >> 1u8) & 1u8 == 1u8),
            ((x >> 2u8) & 1u8 == 1u8) == ((y >> 2u8) & 1u8 == 1u8),
            ((x >> 3u8) & 1u8 == 1u8) == ((y >> 3u8) & 1u8 == 1u8),
            ((x >> 4u8) & 1u8 == 1u8) == ((y >> 4u8) & 1u8 == 1u8),
            ((x >> 5u8) & 1u8 == 1u8) == ((y >> 5u8) & 1u8 == 1u8),
            ((x >> 6u8) & 1u8 == 1u8) == ((y >> 6u8) & 1u8 == 1u8),
            ((x >> 7u8) & 1u8 == 1u8) == ((y >> 7u8) & 1u8 == 1u8);
}

pub proof fn lemma_arr_ext<const N: usize>(a: Array<N>, b: Array<N>)
    requires a@ =~= b@,
    ensures a == b,
{
    assert(a =~= b);
}

pub proof fn lemma_agree_bytes<const N: usize>(a: Array<N>, b: Array<N>, n: int, j: int)
    requires agree(a, b, n), 0 <= j, 8 * j + 8 <= n, j < N,
    ensures a@[j] == b@[j],
{
    assert forall|i: int| 0 <= i < 8 implies bitb(a@[j], i) == bitb(b@[j], i) by {
        assert(bit(a, 8 * j + i) == bit(b, 8 * j + i));
        assert((8 * j + i) / 8 == j && (8 * j + i) % 8 == i);
    }
    lemma_byte_ext(a@[j], b@[j]);
}

pub proof fn lemma_key_ext<const N: usize>(a: Array<N>, b: Array<N>)
    requires agree(a, b, 8 * N),
    ensures a == b,
{
    assert forall|j: int| 0 <= j < N implies a@[j] == b@[j] by {
        lemma_agree_bytes(a, b, 8 * N, j);
    }
    assert(a@ =~= b@);
    lemma_arr_ext(a, b);
}

pub proof fn lemma_agree_all<const N: usize>(a: Array<N>, b: Array<N>)
    ensures agree(a, b, 8 * N) ==> a == b, a@ == b@ ==> a == b,
{
    if agree(a, b, 8 * N) { lemma_key_ext(a, b); }
    if a@ == b@ { lemma_arr_ext(a, b); }
}

/// Position of the highest set bit of a byte.
pub open spec fn is_log(x: u8, r: u8) -> bool {
    r < 8 && (x >> r) == 1u8
}

pub proof fn lemma_first_bit(x: u8, y: u8, r: u8)
    requires is_log(x ^ y, r),
    ensures
        bitb(x, 7 - r) != bitb(y, 7 - r),
        forall|i: int| 0 <= i < 7 - r ==> bitb(x, i) == bitb(y, i),
        x < y <==> !bitb(x, 7 - r),
        x != y,
{
    assert(((x >> r) & 1u8 == 1u8) != ((y >> r) & 1u8 == 1u8)) by (bit_vector) requires r < 8u8, ((x ^ y) >> r) == 1u8;
    assert(x < y <==> !((x >> r) & 1u8 == 1u8)) by (bit_vector) requires r < 8u8, ((x ^ y) >> r) == 1u8;
    assert forall|i: int| 0 <= i < 7 - r implies bitb(x, i) == bitb(y, i) by {
        let s = (7 - i) as u8;
        assert(((x >> s) & 1u8 == 1u8) == ((y >> s) & 1u8 == 1u8)) by (bit_vector)
            requires r < 8u8, ((x ^ y) >> r) == 1u8, r < s, s < 8u8;
    }
    assert(7 - (7 - r) == r);
}

pub proof fn lemma_log_exists(x: u8) -> (r: u8)
    requires x != 0,
    ensures is_log(x, r),
{
    assert(x >> 0u8 == 1u8 || x >> 1u8 == 1u8 || x >> 2u8 == 1u8 || x >> 3u8 == 1u8 || x >> 4u8 == 1u8
        || x >> 5u8 == 1u8 || x >> 6u8 == 1u8 || x >> 7u8 == 1u8) by (bit_vector) requires x != 0u8;
    if x >> 0u8 == 1u8 { 0 } else if x >> 1u8 == 1u8 { 1 } else if x >> 2u8 == 1u8 { 2 }
    else if x >> 3u8 == 1u8 { 3 } else if x >> 4u8 == 1u8 { 4 } else if x >> 5u8 == 1u8 { 5 }
    else if x >> 6u8 == 1u8 { 6 } else { 7 }
}

pub proof fn lemma_xor(x: u8, y: u8)
    ensures x != y <==> (x ^ y) != 0,
{
    assert(x != y <==> (x ^ y) != 0u8) by (bit_vector);
}

/// First difference from the first differing byte and the logarithm of the xor.
pub proof fn lemma_diff_at_byte<const N: usize>(a: Array<N>, b: Array<N>, j: int, r: u8)
    requires
        0 <= j < N,
        forall|i: int| 0 <= i < j ==> a@[i] == b@[i],
        is_log(a@[j] ^ b@[j], r),
    ensures
        is_diff(a, b, 8 * j + 7 - r),
        a@[j] < b@[j] <==> !bit(a, 8 * j + 7 - r),
        a@[j] != b@[j],
        a != b,
{
    lemma_first_bit(a@[j], b@[j], r);
    let d = 8 * j + 7 - r;
    assert(d / 8 == j && d % 8 == 7 - r);
    assert forall|i: int| 0 <= i < d implies bit(a, i) == bit(b, i) by {
        if i < 8 * j {
            assert(i / 8 < j);
        } else {
            assert(i / 8 == j && i % 8 < 7 - r);
        }
    }
}

/// First position at which sequences differ.
pub proof fn lemma_first_byte(a: Seq<u8>, b: Seq<u8>, n: int) -> (j: int)
    requires exists|i: int| 0 <= i < n && a[i] != b[i],
    ensures 0 <= j < n, a[j] != b[j], forall|i: int| 0 <= i < j ==> a[i] == b[i],
    decreases n,
{
    if exists|i: int| 0 <= i < n - 1 && a[i] != b[i] {
        lemma_first_byte(a, b, n - 1)
    } else {
        n - 1
    }
}

pub proof fn lemma_diff_exists<const N: usize>(a: Array<N>, b: Array<N>) -> (d: int)
    requires a != b,
    ensures is_diff(a, b, d), is_diff(b, a, d),
{
    if !(exists|i: int| 0 <= i < N && a@[i] != b@[i]) {
        assert(a@ =~= b@);
        lemma_arr_ext(a, b);
    }
    let j = lemma_first_byte(a@, b@, N as int);
    lemma_xor(a@[j], b@[j]);
    let r = lemma_log_exists(a@[j] ^ b@[j]);
    lemma_diff_at_byte(a, b, j, r);
    8 * j + 7 - r
}

pub proof fn lemma_blt_klt<const N: usize>(a: Array<N>, b: Array<N>)
    ensures blt(a@, b@, N as int) <==> klt(a, b),
{
    if blt(a@, b@, N as int) {
        let j = choose|j: int| #![trigger a@[j]] 0 <= j < N && a@[j] < b@[j] && forall|i: int| 0 <= i < j ==> a@[i] == b@[i];
        lemma_xor(a@[j], b@[j]);
        let r = lemma_log_exists(a@[j] ^ b@[j]);
        lemma_diff_at_byte(a, b, j, r);
    }
    if klt(a, b) {
        let d = choose|d: int| #[trigger] is_diff(a, b, d) && !bit(a, d);
        assert(a != b);
        if !(exists|i: int| 0 <= i < N && a@[i] != b@[i]) {
            assert(a@ =~= b@);
            lemma_arr_ext(a, b);
        }
        let j = lemma_first_byte(a@, b@, N as int);
        lemma_xor(a@[j], b@[j]);
        let r = lemma_log_exists(a@[j] ^ b@[j]);
        lemma_diff_at_byte(a, b, j, r);
        lemma_diff_unique(a, b, d, 8 * j + 7 - r);
        assert(a@[j] < b@[j]);
    }
}

pub proof fn lemma_diff_unique<const N: usize>(a: Array<N>, b: Array<N>, d: int, e: int)
    requires is_diff(a, b, d), is_diff(a, b, e),
    ensures d == e,
{
    if d < e { assert(bit(a, d) == bit(b, d)); }
    if e < d { assert(bit(a, e) == bit(b, e)); }
}

pub proof fn lemma_agree_sym<const N: usize>(a: Array<N>, b: Array<N>, n: int)
    ensures agree(a, b, n) == agree(b, a, n),
{
}

pub proof fn lemma_diff_sym<const N: usize>(a: Array<N>, b: Array<N>, d: int)
    ensures is_diff(a, b, d) == is_diff(b, a, d),
{
    lemma_agree_sym(a, b, d);
}

pub proof fn lemma_agree_trans<const N: usize>(a: Array<N>, b: Array<N>, c: Array<N>, n: int)
    requires agree(a, b, n), agree(b, c, n),
    ensures agree(a, c, n),
{
    assert forall|i: int| 0 <= i < n implies bit(a, i) == bit(c, i) by {
        assert(bit(a, i) == bit(b, i));
        assert(bit(b, i) == bit(c, i));
    }
}

pub proof fn lemma_klt_total<const N: usize>(a: Array<N>, b: Array<N>)
    ensures
        a == b || klt(a, b) || klt(b, a),
        !(klt(a, b) && klt(b, a)),
        !klt(a, a),
        klt(a, b) ==> a != b,
{
    if a != b {
        let d = lemma_diff_exists(a, b);
        if !bit(a, d) { assert(klt(a, b)); } else { assert(klt(b, a)); }
    }
    if klt(a, b) && klt(b, a) {
        let d = choose|d: int| #[trigger] is_diff(a, b, d) && !bit(a, d);
        let e = choose|e: int| #[trigger] is_diff(b, a, e) && !bit(b, e);
        lemma_diff_sym(b, a, e);
        lemma_diff_unique(a, b, d, e);
    }
}

pub proof fn lemma_klt_trans<const N: usize>(a: Array<N>, b: Array<N>, c: Array<N>)
    requires klt(a, b), klt(b, c),
    ensures klt(a, c),
{
    let d = choose|d: int| #[trigger] is_diff(a, b, d) && !bit(a, d);
    let e = choose|e: int| #[trigger] is_diff(b, c, e) && !bit(b, e);
    let m = if d < e { d } else { e };
    assert forall|i: int| 0 <= i < m implies bit(a, i) == bit(c, i) by {
        assert(bit(a, i) == bit(b, i));
        assert(bit(b, i) == bit(c, i));
    }
    if d < e { assert(bit(b, d) == bit(c, d)); }
    if e < d { assert(bit(a, e) == bit(b, e)); }
    assert(is_diff(a, c, m));
}

/// Among sorted keys, whatever agrees with both ends agrees with everything in between.
pub proof fn lemma_between<const N: usize>(a: Array<N>, b: Array<N>, c: Array<N>, n: int)
    requires kle(a, b), kle(b, c), agree(a, c, n), 0 <= n <= 8 * N,
    ensures agree(a, b, n), agree(b, c, n),
{
    if a == b || b == c {
    } else {
        let d = choose|d: int| #[trigger] is_diff(a, b, d) && !bit(a, d);
        let e = choose|e: int| #[trigger] is_diff(b, c, e) && !bit(b, e);
        if d < n {
            assert(bit(a, d) == bit(c, d));
            assert(bit(b, d));
            // c has a zero at d, b a one
            assert(bit(b, d) != bit(c, d));
            if e > d { assert(bit(b, d) == bit(c, d)); }
            if e == d { assert(false); }
            // e < d < n: a and b agree at e, a and c agree at e
            assert(bit(a, e) == bit(b, e));
            assert(bit(a, e) == bit(c, e));
            assert(false);
        }
        assert(agree(a, b, n));
        assert forall|i: int| 0 <= i < n implies bit(b, i) == bit(c, i) by {
            assert(bit(a, i) == bit(b, i));
            assert(bit(a, i) == bit(c, i));
        }
    }
}

pub open spec fn ksorted<const N: usize>(s: Seq<Array<N>>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < s.len() ==> kle(#[trigger] s[i], #[trigger] s[j])
}

pub open spec fn kstrict<const N: usize>(s: Seq<Array<N>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> klt(#[trigger] s[i], #[trigger] s[j])
}
