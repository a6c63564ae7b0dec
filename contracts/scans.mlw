module Scan
  use base.Base

  (* chunk boundary t of k chunks over n elements: chunk t is cb t .. cb (t+1) *)
  let rec ghost function cb (n k t: int) : int
    variant { t }
  = if t <= 0 then 0 else if t >= k then n else cb n k (t-1) + div n k

  let rec ghost cb_mul (n k t: int)
    requires { k >= 1 /\ 0 <= t < k }
    ensures { cb n k t = t * div n k }
    variant { t }
  = if t > 0 then cb_mul n k (t-1)

  let ghost cb_last (n k: int)
    requires { n >= 0 /\ k >= 1 }
    ensures { 0 <= div n k /\ 0 <= cb n k (k-1) <= n }
  = cb_mul n k (k-1);
    assert { n = k * div n k + mod n k };
    assert { 0 <= div n k };
    assert { (k-1) * div n k = k * div n k - div n k }

  let rec ghost cb_mono1 (n k t u: int)
    requires { n >= 0 /\ k >= 1 /\ 0 <= t <= u <= k }
    ensures { cb n k t <= cb n k u }
    variant { u - t }
  = cb_last n k;
    if t < u then cb_mono1 n k t (u-1)
  let lemma cb_mono (n k t u: int)
    requires { n >= 0 /\ k >= 1 /\ 0 <= t <= u <= k }
    ensures { cb n k t <= cb n k u }
  = cb_mono1 n k t u
  let lemma cb_bounds (n k t: int)
    requires { n >= 0 /\ k >= 1 /\ 0 <= t <= k }
    ensures { 0 <= cb n k t <= n }
  = cb_mono1 n k 0 t; cb_mono1 n k t k

  (* the thread whose chunk holds position i *)
  let rec ghost function which (n k i t: int) : int
    variant { t }
  = if t <= 0 then 0 else if cb n k t <= i then t else which n k i (t-1)
  let rec lemma which_ok (n k i t: int)
    requires { n >= 0 /\ k >= 1 /\ 0 <= t < k /\ 0 <= i < n }
    requires { i < cb n k (t+1) }
    ensures { 0 <= which n k i t <= t }
    ensures { cb n k (which n k i t) <= i < cb n k (which n k i t + 1) }
    variant { t }
  = if t > 0 && cb n k t > i then which_ok n k i (t-1)

  let rec ghost sum_split (m: imap) (lo mid hi: int)
    requires { lo <= mid <= hi }
    ensures { sum m lo hi = sum m lo mid + sum m mid hi }
    variant { hi - mid }
  = if mid < hi then sum_split m lo mid (hi-1)

  (* partial sums of chunks add up to the prefix *)
  let rec ghost sum_chunks (src ps: imap) (n k t: int)
    requires { n >= 0 /\ k >= 1 /\ 0 <= t < k }
    requires { forall u. 0 <= u < t -> ps[u] = sum src (cb n k u) (cb n k (u+1)) }
    ensures { sum ps 0 t = sum src 0 (cb n k t) }
    variant { t }
  = if t > 0 then begin
      sum_chunks src ps n k (t-1);
      sum_split src 0 (cb n k (t-1)) (cb n k t)
    end

  let rec ghost sum_ext (a b: imap) (lo hi: int)
    requires { forall i. lo <= i < hi -> a[i] = b[i] }
    ensures { sum a lo hi = sum b lo hi }
    variant { hi - lo }
  = if lo < hi then sum_ext a b lo (hi-1)
end
