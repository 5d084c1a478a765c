// ---- integer prelude: specification vocabulary, machine/mathematical bridging lemmas ----
pub open spec fn modulus(lw: int) -> int { if lw==0 {2} else if lw==1 {4} else if lw==2 {16} else if lw==3 {256} else if lw==4 {65536} else if lw==5 {0x1_0000_0000} else {0x1_0000_0000_0000_0000} }
pub open spec fn nbits(lw: int) -> int { if lw==0 {1} else if lw==1 {2} else if lw==2 {4} else if lw==3 {8} else if lw==4 {16} else if lw==5 {32} else {64} }
/// the signed reading of the bit pattern v
pub open spec fn sread(lw: int, v: int) -> int { if v >= modulus(lw)/2 { v - modulus(lw) } else { v } }
/// the bit pattern of an integer (two's-complement wrap-around)
pub open spec fn wrap(lw: int, x: int) -> int { x % modulus(lw) }
pub open spec fn in_u(lw: int, v: int) -> bool { 0 <= lw <= 6 && 0 <= v < modulus(lw) }
pub open spec fn in_s(lw: int, v: int) -> bool { 0 <= lw <= 6 && -(modulus(lw)/2) <= v < modulus(lw)/2 }

pub broadcast proof fn lemma_u64_i64(x: u64)
  ensures #[trigger] (x as i64) == (if x < 0x8000_0000_0000_0000 { x as int } else { x - 0x1_0000_0000_0000_0000 })
{ assert((x as i64) == (if x < 0x8000_0000_0000_0000 { x as int } else { x - 0x1_0000_0000_0000_0000 })) by(bit_vector); }
pub broadcast proof fn lemma_i64_u64(x: i64)
  ensures #[trigger] (x as u64) == (if x >= 0 { x as int } else { x + 0x1_0000_0000_0000_0000 })
{ assert((x as u64) == (if x >= 0 { x as int } else { x + 0x1_0000_0000_0000_0000 })) by(bit_vector); }
pub broadcast proof fn lemma_shl_u8(lw: u8)
  requires lw <= 6
  ensures #![trigger (1u8 << lw)] (1u8 << lw) == nbits(lw as int)
{
  assert(lw <= 6 ==> (1u8 << lw) == (if lw==0 {1u8} else if lw==1 {2} else if lw==2 {4} else if lw==3 {8} else if lw==4 {16} else if lw == 5 {32} else {64})) by(bit_vector);
}
pub broadcast proof fn lemma_shl_1u64_u8(w: u8)
  requires w <= 6 || w == 8 || w == 16 || w == 32 || w == 63
  ensures #![trigger (1u64 << w)] (1u64 << w) == (if w==0 {1u64} else if w==1 {2} else if w==2 {4} else if w==3 {8} else if w==4 {16} else if w==5 {32} else if w==6 {64} else if w==8 {256} else if w==16 {65536} else if w==32 {0x1_0000_0000} else {0x8000_0000_0000_0000})
{ assert(w <= 6 || w == 8 || w == 16 || w == 32 || w == 63 ==> (1u64 << w) == (if w==0 {1u64} else if w==1 {2} else if w==2 {4} else if w==3 {8} else if w==4 {16} else if w==5 {32} else if w==6 {64} else if w==8 {256} else if w==16 {65536} else if w==32 {0x1_0000_0000} else {0x8000_0000_0000_0000})) by(bit_vector); }
pub broadcast proof fn lemma_shl_1u64_u64(w: u64)
  requires w <= 6 || w == 8 || w == 16 || w == 32 || w == 63
  ensures #![trigger (1u64 << w)] (1u64 << w) == (if w==0 {1u64} else if w==1 {2} else if w==2 {4} else if w==3 {8} else if w==4 {16} else if w==5 {32} else if w==6 {64} else if w==8 {256} else if w==16 {65536} else if w==32 {0x1_0000_0000} else {0x8000_0000_0000_0000})
{ assert(w <= 6 || w == 8 || w == 16 || w == 32 || w == 63 ==> (1u64 << w) == (if w==0 {1u64} else if w==1 {2} else if w==2 {4} else if w==3 {8} else if w==4 {16} else if w==5 {32} else if w==6 {64} else if w==8 {256} else if w==16 {65536} else if w==32 {0x1_0000_0000} else {0x8000_0000_0000_0000})) by(bit_vector); }
/// shifting by the widths below a supported one (used as 2^(N-1))
pub broadcast proof fn lemma_shl_1i64_u8(w: u8)
  requires w==0||w==1||w==2||w==3||w==4||w==7||w==8||w==15||w==16||w==31||w==32
  ensures #![trigger (1i64 << w)] (1i64 << w) == (if w==0 {1i64} else if w==1 {2i64} else if w==2 {4} else if w==3 {8} else if w==4 {16} else if w==7 {128} else if w==8 {256} else if w==15 {32768} else if w==16 {65536} else if w==31 {0x8000_0000} else {0x1_0000_0000})
{ assert(1i64<<0u8==1 && 1i64<<1u8 == 2 && 1i64 << 2u8 == 4 && 1i64<<3u8==8 && 1i64<<4u8==16&&1i64<<7u8==128 && 1i64<<8u8==256&& 1i64<<15u8==32768 && 1i64<<16u8==65536&&1i64<<31u8==0x8000_0000i64 && 1i64<<32u8==0x1_0000_0000i64) by(bit_vector); }
/// the sign test ((v << 1) >> w) == 0
pub broadcast proof fn lemma_sign(v: u64, w: u8)
  ensures #![trigger ((v << 1) >> w)]
    w==1 && v < 2 ==> (((v << 1) >> w) == 0 <==> v < 1),
    w==2 && v < 4 ==> (((v << 1) >> w) == 0 <==> v < 2),
    w==4 && v < 16 ==> (((v << 1) >> w) == 0 <==> v < 8),
    w==8 && v < 256 ==> (((v << 1) >> w) == 0 <==> v < 128),
    w==16 && v < 65536 ==> (((v << 1) >> w) == 0 <==> v < 32768),
    w==32 && v < 0x1_0000_0000 ==> (((v << 1) >> w) == 0 <==> v < 0x8000_0000),
{
    assert(w==1 && v < 2 ==> (((v << 1) >> w) == 0 <==> v < 1)) by(bit_vector);
    assert(w==2 && v < 4 ==> (((v << 1) >> w) == 0 <==> v < 2)) by(bit_vector);
    assert(w==4 && v < 16 ==> (((v << 1) >> w) == 0 <==> v < 8)) by(bit_vector);
    assert(w==8 && v < 256 ==> (((v << 1) >> w) == 0 <==> v < 128)) by(bit_vector);
    assert(w==16 && v < 65536 ==> (((v << 1) >> w) == 0 <==> v < 32768)) by(bit_vector);
    assert(w==32 && v < 0x1_0000_0000 ==> (((v << 1) >> w) == 0 <==> v < 0x8000_0000)) by(bit_vector);
}
pub broadcast group ints { lemma_u64_i64, lemma_i64_u64, lemma_shl_u8, lemma_shl_1u64_u8, lemma_shl_1u64_u64, lemma_shl_1i64_u8, lemma_sign }
/// uniqueness of the signed reading, and that it names the same bit pattern
pub proof fn lemma_sread(lw: int, v: int)
  requires in_u(lw, v)
  ensures in_s(lw, sread(lw, v)), wrap(lw, sread(lw, v)) == v, forall|x: int| in_s(lw, x) && wrap(lw, x) == v ==> x == sread(lw, v)
{
  assert forall|x: int| in_s(lw, x) && wrap(lw, x) == v implies x == sread(lw, v) by { lemma_wrap_s(lw, x); }
  if v >= modulus(lw)/2 { lemma_mod_is(v - modulus(lw), modulus(lw), -1, v); } else { lemma_mod_is(v, modulus(lw), 0, v); }
}
pub proof fn lemma_wrap_s(lw: int, x: int)
  requires in_s(lw, x)
  ensures wrap(lw, x) == (if x >= 0 { x } else { x + modulus(lw) }), sread(lw, wrap(lw, x)) == x
{
  if x < 0 { lemma_mod_is(x, modulus(lw), -1, x + modulus(lw)); } else { lemma_mod_is(x, modulus(lw), 0, x); }
}

/// x = q*m + r with 0 <= r < m determines quotient and remainder
pub proof fn lemma_mod_is(x: int, m: int, q: int, r: int)
  requires 0 <= r < m, x == q * m + r
  ensures x % m == r, x / m == q
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, m, q, r); }
