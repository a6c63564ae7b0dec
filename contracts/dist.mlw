module Dist
  use base.Base

  let rec lemma lbnd_range (p: imap) (n v: int)
    requires { 0 <= n }
    ensures { 0 <= lbnd p 0 n v <= n }
    variant { n }
  = if n > 0 then lbnd_range p (n-1) v

  (* std::lower_bound's definition determines lbnd: nothing more is assumed of it *)
  let rec ghost lbnd_unique (p: imap) (lo n v r: int)
    requires { lo <= r <= n }
    requires { forall i. lo <= i < r -> p[i] < v }
    requires { forall i. r <= i < n -> v <= p[i] }
    ensures { lbnd p lo n v = r }
    variant { n - lo }
  = if n > r then lbnd_unique p lo (n-1) v r
    else if n > lo then assert { p[n-1] < v }

  let rec ghost lbnd_mono (p: imap) (n v w: int)
    requires { 0 <= n /\ v <= w }
    ensures { lbnd p 0 n v <= lbnd p 0 n w }
    variant { n }
  = if n > 0 then lbnd_mono p (n-1) v w

  (* first row of thread t of k; the rows of thread t are dw t .. dw (t+1) *)
  let ghost function dw (p: imap) (tot n k t: int) : int
  = if t <= 0 then 0 else if t >= k then n else lbnd p 0 n (div tot k * t)

  let ghost dw_step (p: imap) (tot n k t: int)
    requires { 0 <= n /\ 0 <= tot /\ 1 <= k /\ 0 <= t < k }
    ensures { 0 <= dw p tot n k t <= dw p tot n k (t+1) <= n }
  = assert { 0 <= div tot k };
    assert { div tot k * (t+1) = div tot k * t + div tot k };
    lbnd_mono p n (div tot k * t) (div tot k * (t+1))

  let rec ghost dw_mono (p: imap) (tot n k t u: int)
    requires { 0 <= n /\ 0 <= tot /\ 1 <= k /\ 0 <= t <= u <= k }
    ensures { 0 <= dw p tot n k t <= dw p tot n k u <= n }
    variant { u - t }
  = if t < u then begin dw_mono p tot n k t (u-1); dw_step p tot n k (u-1) end

  (* the thread that owns row i *)
  let rec ghost function owner (p: imap) (tot n k i t: int) : int
    variant { t }
  = if t <= 0 then 0 else if dw p tot n k t <= i then t else owner p tot n k i (t-1)
  let rec ghost owner_ok (p: imap) (tot n k i t: int)
    requires { 0 <= n /\ 0 <= tot /\ 1 <= k /\ 0 <= t < k /\ 0 <= i < n }
    requires { i < dw p tot n k (t+1) }
    ensures { 0 <= owner p tot n k i t <= t }
    ensures { dw p tot n k (owner p tot n k i t) <= i < dw p tot n k (owner p tot n k i t + 1) }
    variant { t }
  = if t > 0 && dw p tot n k t > i then owner_ok p tot n k i (t-1)

  (* property C08: the ranges of the k threads partition 0..n *)
  let ghost partition_first_last (p: imap) (tot n k: int)
    requires { 0 <= n /\ 0 <= tot /\ 1 <= k }
    ensures { dw p tot n k 0 = 0 /\ dw p tot n k k = n }
  = ()
  let ghost partition_ordered (p: imap) (tot n k: int)
    requires { 0 <= n /\ 0 <= tot /\ 1 <= k }
    ensures { forall t. 0 <= t < k -> 0 <= dw p tot n k t <= dw p tot n k (t+1) <= n }
  = let lemma f (t: int) requires { 0 <= t < k } ensures { 0 <= dw p tot n k t <= dw p tot n k (t+1) <= n } = dw_step p tot n k t in ()
  let ghost partition_covers (p: imap) (tot n k: int)
    requires { 0 <= n /\ 0 <= tot /\ 1 <= k }
    ensures { forall i. 0 <= i < n -> let t = owner p tot n k i (k-1) in 0 <= t < k /\ dw p tot n k t <= i < dw p tot n k (t+1) }
  = let lemma f (i: int) requires { 0 <= i < n } ensures { let t = owner p tot n k i (k-1) in 0 <= t < k /\ dw p tot n k t <= i < dw p tot n k (t+1) } = owner_ok p tot n k i (k-1) in ()
  let ghost partition_disjoint (p: imap) (tot n k: int)
    requires { 0 <= n /\ 0 <= tot /\ 1 <= k }
    ensures { forall i t u. 0 <= t < k -> 0 <= u < k -> dw p tot n k t <= i < dw p tot n k (t+1) -> dw p tot n k u <= i < dw p tot n k (u+1) -> t = u }
  = let lemma f (t u: int) requires { 0 <= t < u < k } ensures { dw p tot n k (t+1) <= dw p tot n k u } = dw_mono p tot n k (t+1) u in ()

  (* per-thread totals add up to the total *)
  let rec ghost sum_app (m: imap) (lo mid hi: int)
    requires { lo <= mid <= hi }
    ensures { sum m lo hi = sum m lo mid + sum m mid hi }
    variant { hi - mid }
  = if mid < hi then sum_app m lo mid (hi-1)
  let rec ghost sum_pos (m: imap) (lo hi: int)
    requires { forall i. lo <= i < hi -> 0 <= m[i] }
    ensures { 0 <= sum m lo hi }
    variant { hi - lo }
  = if lo < hi then sum_pos m lo (hi-1)
  let rec ghost sum_eq (a b: imap) (lo hi: int)
    requires { forall i. lo <= i < hi -> a[i] = b[i] }
    ensures { sum a lo hi = sum b lo hi }
    variant { hi - lo }
  = if lo < hi then sum_eq a b lo (hi-1)
  let rec ghost sum_threads (nv tn p: imap) (tot n k t: int)
    requires { 0 <= n /\ 0 <= tot /\ 1 <= k /\ 0 <= t <= k }
    requires { forall u. 0 <= u < t -> tn[u] = sum nv (dw p tot n k u) (dw p tot n k (u+1)) }
    ensures { sum tn 0 t = sum nv 0 (dw p tot n k t) }
    variant { t }
  = if t > 0 then begin
      sum_threads nv tn p tot n k (t-1);
      dw_mono p tot n k 0 (t-1); dw_step p tot n k (t-1);
      sum_app nv 0 (dw p tot n k (t-1)) (dw p tot n k t)
    end
end
