(* sets of bit positions held in an array of 64-bit words *)
module Bits
  use base.Base
  use int.Int
  use int.EuclideanDivision
  use map.Map
  (* the i-th bit of a non-negative number *)
  predicate bit (x i: int)
  constant w64 : int = 0x1_0000_0000_0000_0000
  axiom bit_low : forall x [bit x 0]. x >= 0 -> (bit x 0 <-> mod x 2 = 1)
  axiom bit_zero : forall i [bit 0 i]. not (bit 0 i)
  function abit int : int   (* a set position of a positive number *)
  axiom bit_some : forall x [abit x]. x > 0 -> 0 <= abit x /\ bit x (abit x)
  axiom bit_small : forall x i [bit x i]. 0 <= x < w64 -> 0 <= i -> bit x i -> i < 64
  axiom bit_bor : forall x y i [bit (bor x y) i]. x >= 0 -> y >= 0 -> 0 <= i -> (bit (bor x y) i <-> bit x i \/ bit y i)
  axiom bor_w64 : forall x y [bor x y]. 0 <= x < w64 -> 0 <= y < w64 -> 0 <= bor x y < w64
  axiom bit_shl1 : forall k i [bit (shl 1 k) i]. 0 <= k < 64 -> 0 <= i -> (bit (shl 1 k) i <-> i = k)
  axiom shl1_w64 : forall k [shl 1 k]. 0 <= k < 64 -> 0 < shl 1 k < w64
  axiom band_shl1 : forall x k [band x (shl 1 k)]. 0 <= x < w64 -> 0 <= k < 64 -> (band x (shl 1 k) <> 0 <-> bit x k)
  axiom shr_w64 : forall x k [shr x k]. 0 <= x < w64 -> 0 <= k < 64 -> 0 <= shr x k < w64
  axiom bit_shr : forall x k i [bit (shr x k) i]. 0 <= x < w64 -> 0 <= k < 64 -> 0 <= i -> (bit (shr x k) i <-> bit x (i + k))
  predicate words (m: map int int) (n: int) = forall w. 0 <= w < n -> 0 <= m[w] < w64
  predicate has (m: map int int) (p: int) = bit m[div p 64] (mod p 64)
  let lemma pos_split (p: int) ensures { p = 64 * div p 64 + mod p 64 /\ 0 <= mod p 64 < 64 } = ()
  let lemma same_pos (p q: int) requires { div p 64 = div q 64 /\ mod p 64 = mod q 64 } ensures { p = q } = pos_split p; pos_split q
  let lemma word_bit (w k: int) requires { 0 <= k < 64 } ensures { div (64 * w + k) 64 = w /\ mod (64 * w + k) 64 = k } = ()
  let lemma div_bound (p n: int) requires { 0 <= p < 64 * n } ensures { 0 <= div p 64 < n } = pos_split p
  (* no set position in [lo, hi) *)
  predicate none (m: map int int) (lo hi: int) = forall q. lo <= q < hi -> not (has m q)
  let ghost word_none (m: map int int) (w lo: int) requires { 0 <= lo } requires { m[w] = 0 } ensures { none m (64 * w) (64 * w + 64) } =
    assert { forall q. 64 * w <= q < 64 * w + 64 -> div q 64 = w by q = 64 * w + (q - 64 * w) }
  let ghost rest_bit (m: map int int) (n p t q: int) requires { 0 <= p < 64 * n } requires { words m n }
    requires { if mod p 64 = 63 then t = 0 else t = shr m[div p 64] (mod p 64 + 1) } requires { t = 0 }
    requires { p < q < 64 * (div p 64) + 64 } ensures { not (has m q) } =
    pos_split p; div_bound p n; word_bit (div p 64) (q - 64 * div p 64);
    let i = q - 64 * div p 64 - (mod p 64 + 1) in
    assert { not (bit 0 i) };
    assert { bit (shr m[div p 64] (mod p 64 + 1)) i <-> bit m[div p 64] (i + (mod p 64 + 1)) };
    assert { i + (mod p 64 + 1) = mod q 64 }
  let rec ghost word_rest (m: map int int) (n p t hi: int) requires { 0 <= p < 64 * n } requires { words m n }
    requires { if mod p 64 = 63 then t = 0 else t = shr m[div p 64] (mod p 64 + 1) } requires { t = 0 }
    requires { hi <= 64 * (div p 64) + 64 } ensures { none m (p + 1) hi } variant { hi - p } =
    if hi > p + 1 then begin word_rest m n p t (hi - 1); rest_bit m n p t (hi - 1) end
end
