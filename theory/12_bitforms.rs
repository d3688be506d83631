// ---------------------------------------------------------------- ways to compute bits
pub proof fn lemma_log2_all(num: u8)
    ensures
        ({
            let a = num | (num >> 1u8);
            let b = a | (a >> 2u8);
            let c = b | (b >> 4u8);
            let i = ((0x1d_usize * c as usize) as u8 >> 5u8);
            i < 8 && (num != 0 ==> is_log(num, MULTIPLY_DE_BRUIJN_BIT_POSITION[i as int]))
        }),
{
    let a = num | (num >> 1u8);
    let b = a | (a >> 2u8);
    let c = b | (b >> 4u8);
    let i = ((0x1d_usize * c as usize) as u8 >> 5u8);
    let p = MULTIPLY_DE_BRUIJN_BIT_POSITION;
    assert(p[0] == 0 && p[1] == 5 && p[2] == 1 && p[3] == 6 && p[4] == 4 && p[5] == 3 && p[6] == 2 && p[7] == 7);
    assert(i < 8 && (num != 0 ==> (i == 0 ==> num >> 0u8 == 1) && (i == 1 ==> num >> 5u8 == 1) && (i == 2 ==> num >> 1u8 == 1)
        && (i == 3 ==> num >> 6u8 == 1) && (i == 4 ==> num >> 4u8 == 1) && (i == 5 ==> num >> 3u8 == 1)
        && (i == 6 ==> num >> 2u8 == 1) && (i == 7 ==> num >> 7u8 == 1))) by (bit_vector)
        requires
            a == num | (num >> 1u8),
            b == a | (a >> 2u8),
            c == b | (b >> 4u8),
            i == ((0x1d_usize * c as usize) as u8 >> 5u8);
}

/// A shifted byte, in the forms code may use.
pub proof fn lemma_bit_forms()
    ensures
        forall|v: u8, t: usize| t < 8 ==> (#[trigger] ((v as usize >> t) & 1usize)) == (if bitb(v, 7 - t) { 1usize } else { 0usize }),
        forall|v: u8, t: usize| t < 8 ==> (#[trigger] ((v >> t) & 1u8)) == (if bitb(v, 7 - t) { 1u8 } else { 0u8 }),
        forall|v: u8, t: usize| t < 8 ==> ((#[trigger] (v & (1u8 << t))) == 0u8) == !bitb(v, 7 - t),
        forall|v: u8, t: usize| t < 8 ==> ((#[trigger] (v & (128u8 >> t))) == 0u8) == !bitb(v, t as int),
        forall|v: u8, t: usize| t < 8 ==> ((#[trigger] (v as usize & (1usize << t))) == 0usize) == !bitb(v, 7 - t),
        forall|v: u8, t: usize| t < 8 ==> ((#[trigger] (v as usize & (128usize >> t))) == 0usize) == !bitb(v, t as int),
        forall|v: u8, t: usize| t < 8 ==> ((#[trigger] (v << t)) & 128u8 == 0u8) == !bitb(v, t as int),
        forall|b: usize| #[trigger] (b >> 3usize) == b / 8,
        forall|b: usize| #[trigger] (b & 7usize) == b % 8,
        forall|b: usize| b <= 0x1fff_ffff_ffff_ffff ==> #[trigger] (b << 3usize) == b * 8,
{
    assert forall|v: u8, t: usize| t < 8 implies (#[trigger] ((v as usize >> t) & 1usize)) == (if bitb(v, 7 - t) { 1usize } else { 0usize }) by {
        let s = t as u8;
        assert(((v as usize >> t) & 1usize) == ((v >> s) & 1u8) as usize) by (bit_vector) requires t < 8usize, s == t as u8;
        assert((v >> s) & 1u8 == 0u8 || (v >> s) & 1u8 == 1u8) by (bit_vector);
        assert((7 - (7 - t)) as u8 == s);
    }
    assert forall|v: u8, t: usize| t < 8 implies (#[trigger] ((v >> t) & 1u8)) == (if bitb(v, 7 - t) { 1u8 } else { 0u8 }) by {
        let s = t as u8;
        assert((v >> t) & 1u8 == (v >> s) & 1u8) by (bit_vector) requires t < 8usize, s == t as u8;
        assert((v >> s) & 1u8 == 0u8 || (v >> s) & 1u8 == 1u8) by (bit_vector);
        assert((7 - (7 - t)) as u8 == s);
    }
    assert forall|v: u8, t: usize| t < 8 implies ((#[trigger] (v & (1u8 << t))) == 0u8) == !bitb(v, 7 - t) by {
        let s = t as u8;
        assert((v & (1u8 << t) == 0u8) == ((v >> s) & 1u8 != 1u8)) by (bit_vector) requires t < 8usize, s == t as u8;
        assert((7 - (7 - t)) as u8 == s);
    }
    assert forall|v: u8, t: usize| t < 8 implies ((#[trigger] (v & (128u8 >> t))) == 0u8) == !bitb(v, t as int) by {
        let s = (7 - t) as u8;
        assert((v & (128u8 >> t) == 0u8) == ((v >> s) & 1u8 != 1u8)) by (bit_vector) requires t < 8usize, s == (7 - t) as u8;
    }
    assert forall|v: u8, t: usize| t < 8 implies ((#[trigger] (v as usize & (1usize << t))) == 0usize) == !bitb(v, 7 - t) by {
        let s = t as u8;
        assert((v as usize & (1usize << t) == 0usize) == ((v >> s) & 1u8 != 1u8)) by (bit_vector) requires t < 8usize, s == t as u8;
        assert((7 - (7 - t)) as u8 == s);
    }
    assert forall|v: u8, t: usize| t < 8 implies ((#[trigger] (v as usize & (128usize >> t))) == 0usize) == !bitb(v, t as int) by {
        let s = (7 - t) as u8;
        assert((v as usize & (128usize >> t) == 0usize) == ((v >> s) & 1u8 != 1u8)) by (bit_vector) requires t < 8usize, s == (7 - t) as u8;
    }
    assert forall|v: u8, t: usize| t < 8 implies ((#[trigger] (v << t)) & 128u8 == 0u8) == !bitb(v, t as int) by {
        let s = (7 - t) as u8;
        assert(((v << t) & 128u8 == 0u8) == ((v >> s) & 1u8 != 1u8)) by (bit_vector) requires t < 8usize, s == (7 - t) as u8;
    }
    assert forall|b: usize| #[trigger] (b >> 3usize) == b / 8 by {
        assert(b >> 3usize == b / 8) by (bit_vector);
    }
    assert forall|b: usize| #[trigger] (b & 7usize) == b % 8 by {
        assert(b & 7usize == b % 8) by (bit_vector);
    }
    assert forall|b: usize| b <= 0x1fff_ffff_ffff_ffff implies #[trigger] (b << 3usize) == b * 8 by {
        assert(b << 3usize == b * 8) by (bit_vector) requires b <= 0x1fff_ffff_ffff_ffffusize;
    }
}
