// ---- bit-level / arithmetic bridging lemmas ----
pub open spec fn m64() -> int { 0x1_0000_0000_0000_0000 }
/// masking with 2^w - 1 is the remainder modulo 2^w
pub broadcast proof fn lemma_mask(x: u64, m: u64)
  ensures #![trigger (x & m)]
    m == 1 ==> (x & m) == x as int % 2, m == 3 ==> (x & m) == x as int % 4, m == 15 ==> (x & m) == x as int % 16,
    m == 255 ==> (x & m) == x as int % 256, m == 65535 ==> (x & m) == x as int % 65536,
    m == 0xffff_ffff ==> (x & m) == x as int % 0x1_0000_0000, m == u64::MAX ==> (x & m) == x,
    (x & m) <= m, (x & m) <= x,
{
  assert(m == 1 ==> (x & m) == x % 2) by(bit_vector); assert(m == 3 ==> (x & m) == x % 4) by(bit_vector);
  assert(m == 15 ==> (x & m) == x % 16) by(bit_vector); assert(m == 255 ==> (x & m) == x % 256) by(bit_vector);
  assert(m == 65535 ==> (x & m) == x % 65536) by(bit_vector); assert(m == 0xffff_ffff ==> (x & m) == x % 0x1_0000_0000) by(bit_vector);
  assert(m == 0xffff_ffff_ffff_ffffu64 ==> (x & m) == x) by(bit_vector);
  assert((x & m) <= m && (x & m) <= x) by(bit_vector);
}
/// reducing modulo 2^64 first does not change the result modulo a smaller width
pub proof fn lemma_mod_mod(lw: int, x: int)
  requires 0 <= lw <= 6
  ensures (x % m64()) % modulus(lw) == wrap(lw, x)
{
  let m = modulus(lw);
  let k = m64() / m;
  assert(m * k == m64());
  vstd::arithmetic::div_mod::lemma_mod_mod(x, m, k);
}
pub open spec fn p2(k: int) -> int { vstd::arithmetic::power2::pow2(k as nat) as int }
pub proof fn lemma_shl(n: u64, k: u64)
  requires k < 64
  ensures (n << k) as int == (n * p2(k as int)) % m64()
  decreases k
{
  vstd::arithmetic::power2::lemma2_to64();
  if k == 0 { assert((n << 0u64) == n) by(bit_vector); assert(p2(k as int) == 1); assert(n * p2(k as int) == n) by(nonlinear_arith) requires p2(k as int) == 1; lemma_mod_is(n as int, m64(), 0, n as int); }
  else {
    let j = (k - 1) as u64; let y = n << j;
    lemma_shl(n, j);
    assert(1 <= k < 64 ==> (n << k) == ((n << sub(k, 1)) << 1)) by(bit_vector);
    assert((n << k) == (y << 1));
    assert(y < 0x8000_0000_0000_0000 ==> (y << 1) == mul(y, 2)) by(bit_vector);
    assert(y >= 0x8000_0000_0000_0000 ==> (y << 1) == mul(sub(y, 0x8000_0000_0000_0000), 2)) by(bit_vector);
    assert((y << 1) as int == (2 * y) % m64()) by {
      if y >= 0x8000_0000_0000_0000u64 { lemma_mod_is(2 * y, m64(), 1, 2 * y - m64()); } else { lemma_mod_is(2 * y, m64(), 0, 2 * y as int); }
    }
    vstd::arithmetic::power2::lemma_pow2_unfold(k as nat);
    assert(n * p2(k as int) == 2 * (n * p2(j as int))) by(nonlinear_arith) requires p2(k as int) == 2 * p2(j as int);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(2, n * p2(j as int), m64());
  }
}
pub proof fn lemma_p2_pos(k: int) requires k >= 0 ensures p2(k) >= 1 { vstd::arithmetic::power2::lemma_pow2_pos(k as nat); }
pub proof fn lemma_p2_big(k: int) requires k >= 64 ensures p2(k) == p2(k - 64) * m64(), p2(k) >= m64()
{ vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma_pow2_adds((k - 64) as nat, 64); lemma_p2_pos(k - 64);
  assert(p2(k) >= m64()) by(nonlinear_arith) requires p2(k) == p2(k - 64) * m64(), p2(k - 64) >= 1; }
/// shifting by 64 or more moves every bit out
pub proof fn lemma_shl_big(n: int, k: int)
  requires 0 <= n < m64(), k >= 64
  ensures (n * p2(k)) % m64() == 0, n / p2(k) == 0
{ lemma_p2_big(k);
  assert(n * p2(k) == (n * p2(k - 64)) * m64()) by(nonlinear_arith) requires p2(k) == p2(k - 64) * m64();
  lemma_mod_is(n * p2(k), m64(), n * p2(k - 64), 0); 
  lemma_mod_is(n, p2(k), 0, n); }
pub proof fn lemma_shr(n: u64, k: u64)
  requires k < 64
  ensures (n >> k) as int == n as int / p2(k as int)
{ vstd::bits::lemma_u64_shr_is_div(n, k); }
pub proof fn lemma_rotl(lw: int, n: u64, k: u64, w: u64, m: u64)
  requires in_u(lw, n as int), w == nbits(lw), m == modulus(lw) - 1, k < w
  ensures in_u(lw, rotl(lw, n as int, k as int)),
    k == 0 ==> rotl(lw, n as int, 0) == n && (((n << k) & m) | (if w < 64 { n >> w } else { 0 })) == n && ((if w < 64 { n << w } else { 0u64 }) & m) | (n >> k) == n,
    k > 0 ==> (((n << k) & m) | (n >> ((w - k) as u64))) == rotl(lw, n as int, k as int),
{
  vstd::arithmetic::power2::lemma2_to64();
  assert(p2(nbits(lw)) == modulus(lw));
  if k > 0 {
    lemma_shl(n, k); lemma_shr(n, (w - k) as u64); lemma_or_is_add(n, k, w, m); lemma_mask(n << k, m); lemma_mod_mod(lw, n * p2(k as int));
    lemma_mod_is((n << k) as int, m64(), 0, (n << k) as int);
    let x = ((n << k) & m) | (n >> ((w - k) as u64));
    assert(((n << k) & m) <= m) by(bit_vector);
    let j = (w - k) as u64;
    assert(n <= m && 0 < k < w && j == sub(w, k) && ((w == 2 && m == 3) || (w == 4 && m == 15) || (w == 8 && m == 255) || (w == 16 && m == 65535) || (w == 32 && m == 0xffff_ffff) || (w == 64 && m == 0xffff_ffff_ffff_ffff)) ==> (n >> j) <= m) by(bit_vector);
    lemma_or_bound(lw, (n << k) & m, n >> j);
  } else {
    lemma_shr(n, 0); lemma_shl(n, 0);
    assert((n << 0u64) == n && (n >> 0u64) == n) by(bit_vector);
    assert(n <= m ==> (n & m) <= m) by(bit_vector);
    lemma_mask(n, m);
    lemma_mod_is(n as int, modulus(lw), 0, n as int);
    assert(n * p2(0) == n) by(nonlinear_arith) requires p2(0) == 1;
    lemma_mod_is(n as int, p2(nbits(lw)), 0, n as int);
    assert(rotl(lw, n as int, 0) == n);
    assert(n <= m && (n & m) == n && ((w == 1 && m == 1) || (w == 2 && m == 3) || (w == 4 && m == 15) || (w == 8 && m == 255) || (w == 16 && m == 65535) || (w == 32 && m == 0xffff_ffff)) ==> (n >> w) == 0 && ((n << w) & m) == 0) by(bit_vector);
    assert((0u64 & m) == 0 && (n | 0) == n && (0u64 | n) == n) by(bit_vector);
  }
}
/// rotating an lw-width pattern left by 0 <= k < width: the k highest bits come back in at the bottom
pub open spec fn rotl(lw: int, n: int, k: int) -> int { wrap(lw, n * p2(k)) + n / p2(nbits(lw) - k) }
/// the two parts of a rotation occupy disjoint bits, so | is +
pub proof fn lemma_or_is_add(n: u64, k: u64, w: u64, m: u64)
  requires n <= m, 0 < k < w,
   (w == 2 && m == 3) || (w == 4 && m == 15) || (w == 8 && m == 255) || (w == 16 && m == 65535) || (w == 32 && m == 0xffff_ffff) || (w == 64 && m == u64::MAX)
  ensures (((n << k) & m) | (n >> ((w - k) as u64))) == ((n << k) & m) + (n >> ((w - k) as u64))
{
  let j = (w - k) as u64;
  assert(n <= m && 0 < k < w && j == sub(w, k) && ((w == 2 && m == 3) || (w == 4 && m == 15) || (w == 8 && m == 255) || (w == 16 && m == 65535) || (w == 32 && m == 0xffff_ffff) || (w == 64 && m == 0xffff_ffff_ffff_ffff))
    ==> (((n << k) & m) & (n >> j)) == 0) by(bit_vector);
  lemma_disjoint((n << k) & m, n >> j);
}
pub proof fn lemma_disjoint(a: u64, b: u64)
  requires (a & b) == 0
  ensures (a | b) == a + b
{ assert((a & b) == 0 ==> (a | b) == add(a, b) && (a | b) == a + b) by(bit_vector); }
pub proof fn lemma_or_bound(lw: int, a: u64, b: u64)
  requires in_u(lw, a as int), in_u(lw, b as int)
  ensures in_u(lw, (a | b) as int), in_u(lw, (a ^ b) as int)
{
  assert(a < 2 && b < 2 ==> (a | b) < 2 && (a ^ b) < 2) by(bit_vector); assert(a < 4 && b < 4 ==> (a | b) < 4 && (a ^ b) < 4) by(bit_vector);
  assert(a < 16 && b < 16 ==> (a | b) < 16 && (a ^ b) < 16) by(bit_vector); assert(a < 256 && b < 256 ==> (a | b) < 256 && (a ^ b) < 256) by(bit_vector);
  assert(a < 65536 && b < 65536 ==> (a | b) < 65536 && (a ^ b) < 65536) by(bit_vector);
  assert(a < 0x1_0000_0000 && b < 0x1_0000_0000 ==> (a | b) < 0x1_0000_0000 && (a ^ b) < 0x1_0000_0000) by(bit_vector);
}
pub proof fn lemma_not(m: u64, x: u64)
  requires x <= m, m == 1 || m == 3 || m == 15 || m == 255 || m == 65535 || m == 0xffff_ffff || m == u64::MAX
  ensures (m & !x) == m - x
{ assert(x <= m && (m == 1 || m == 3 || m == 15 || m == 255 || m == 65535 || m == 0xffff_ffff || m == 0xffff_ffff_ffff_ffff) ==> (m & !x) == sub(m, x)) by(bit_vector); }
pub open spec fn pow(b: int, e: int) -> int { vstd::arithmetic::power::pow(b, e as nat) }
pub broadcast proof fn lemma_odd(k: u64) ensures #![trigger (k & 1)] (k & 1) == k % 2 { assert((k & 1) == k % 2) by(bit_vector); }
pub broadcast proof fn lemma_half(k: u64) ensures #![trigger (k >> 1)] (k >> 1) == k / 2 { assert((k >> 1) == k / 2) by(bit_vector); }
/// b^k is (b*b)^(k/2), times b when k is odd
pub proof fn lemma_square(b: int, k: int)
  requires k >= 1
  ensures pow(b, k) == (if k % 2 == 1 { b * pow(b * b, k / 2) } else { pow(b * b, k / 2) })
{
  let h = k / 2;
  assert(b * b == vstd::arithmetic::power::pow(b, 2)) by { vstd::arithmetic::power::lemma_pow1(b); vstd::arithmetic::power::lemma_square_is_pow2(b); }
  vstd::arithmetic::power::lemma_pow_multiplies(b, 2, h as nat);
  assert(pow(b * b, h) == pow(b, 2 * h));
  if k % 2 == 1 { assert(k == 2 * h + 1); reveal(vstd::arithmetic::power::pow); }
}
/// one round of square-and-multiply keeps result * base^k (mod 2^64)
pub proof fn lemma_pow_round(res: int, base: int, k: int, target: int, res2: int, base2: int)
  requires k >= 1, (res * pow(base, k)) % m64() == target % m64(),
    res2 == (if k % 2 == 1 { (res * base) % m64() } else { res }), base2 == (base * base) % m64()
  ensures (res2 * pow(base2, k / 2)) % m64() == target % m64()
{
  let p = pow(base * base, k / 2); let q = pow(base2, k / 2); let m = m64();
  lemma_square(base, k);
  vstd::arithmetic::power::lemma_pow_mod_noop(base * base, (k / 2) as nat, m);
  assert(q % m == p % m);
  if k % 2 == 1 {
    assert(res * (base * p) == (res * base) * p) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_general(res2, q, m);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_general(res * base, p, m);
    assert(res2 % m == (res * base) % m) by { vstd::arithmetic::div_mod::lemma_mod_twice(res * base, m); }
  } else {
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(res, q, m);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(res, p, m);
  }
}
pub broadcast group bits { lemma_mask, lemma_odd, lemma_half }
