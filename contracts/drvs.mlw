(* The product a driver must assemble, from what its row algorithm produces row by row. *)
module Drv
  use base.Base
  use dist.Dist

  (* the operands of the call under consideration *)
  val constant gAp : imap
  val constant gAc : imap
  val constant gAv : vmap
  val constant gBp : imap
  val constant gBc : imap
  val constant gBv : vmap
  val constant gMp : imap
  val constant gMc : imap
  val constant gn : int
  val constant gm : int
  (* what the row algorithm yields: rz[r] entries in row r, the k-th of them is (rcol r k, rval r k) *)
  val constant rz : imap
  val function rcol (r k: int) : int
  val function rval (r k: int) : nt
  (* scratch memory an accumulator asks for, and what releasing a buffer of that size reports as not clean *)
  val function memreq (a b c d: int) : int
  val function released (size: int) : int

  (* entry x of the concatenation of rows lo..hi *)
  let rec ghost function fcol (lo hi x: int) : int variant { hi - lo }
  = if hi <= lo then 0 else if x >= sum rz lo (hi-1) then rcol (hi-1) (x - sum rz lo (hi-1)) else fcol lo (hi-1) x
  let rec ghost function fval (lo hi x: int) : nt variant { hi - lo }
  = if hi <= lo then nt_zero else if x >= sum rz lo (hi-1) then rval (hi-1) (x - sum rz lo (hi-1)) else fval lo (hi-1) x

  predicate rz_ok (n: int) = forall r. 0 <= r < n -> 0 <= rz[r]

  let rec ghost sum_mono (lo hi: int)
    requires { rz_ok hi /\ 0 <= lo <= hi }
    ensures { 0 <= sum rz lo hi /\ sum rz 0 lo <= sum rz 0 hi }
    variant { hi - lo }
  = if lo < hi then sum_mono lo (hi-1)
  let rec ghost f_shift (lo hi x: int)
    requires { rz_ok hi /\ 0 <= lo <= hi /\ 0 <= x < sum rz lo hi }
    ensures { fcol 0 hi (sum rz 0 lo + x) = fcol lo hi x /\ fval 0 hi (sum rz 0 lo + x) = fval lo hi x }
    variant { hi - lo }
  = if lo < hi then begin sum_app rz 0 lo (hi-1); if x < sum rz lo (hi-1) then f_shift lo (hi-1) x end
  let rec ghost f_prefix (hi n x: int)
    requires { rz_ok n /\ 0 <= hi <= n /\ 0 <= x < sum rz 0 hi }
    ensures { fcol 0 n x = fcol 0 hi x /\ fval 0 n x = fval 0 hi x }
    variant { n - hi }
  = if hi < n then begin sum_mono hi (n-1); f_prefix hi (n-1) x end
  (* C.row(r)[k] is the k-th entry the row algorithm yields for row r *)
  let ghost f_at (n r k: int)
    requires { rz_ok n /\ 0 <= r < n /\ 0 <= k < rz[r] }
    ensures { fcol 0 n (sum rz 0 r + k) = rcol r k /\ fval 0 n (sum rz 0 r + k) = rval r k }
  = assert { sum rz 0 (r+1) = sum rz 0 r + rz[r] }; sum_mono 0 r; f_prefix (r+1) n (sum rz 0 r + k)
  let ghost f_piece (lo hi n: int)
    requires { rz_ok n /\ 0 <= lo <= hi <= n }
    ensures { forall x. 0 <= x < sum rz lo hi -> fcol 0 n (sum rz 0 lo + x) = fcol lo hi x /\ fval 0 n (sum rz 0 lo + x) = fval lo hi x }
    ensures { forall e. sum rz 0 lo <= e < sum rz 0 hi -> fcol 0 n e = fcol lo hi (e - sum rz 0 lo) /\ fval 0 n e = fval lo hi (e - sum rz 0 lo) }
    ensures { sum rz 0 hi = sum rz 0 lo + sum rz lo hi }
  = sum_app rz 0 lo hi; sum_mono 0 lo;
    let lemma f (x: int) requires { 0 <= x < sum rz lo hi } ensures { fcol 0 n (sum rz 0 lo + x) = fcol lo hi x /\ fval 0 n (sum rz 0 lo + x) = fval lo hi x }
    = f_shift lo hi x; f_prefix hi n (sum rz 0 lo + x) in
    assert { forall e. sum rz 0 lo <= e < sum rz 0 hi -> let x = e - sum rz 0 lo in 0 <= x < sum rz lo hi && e = sum rz 0 lo + x && fcol 0 n (sum rz 0 lo + x) = fcol lo hi x }

  let ghost f_row (r n: int)
    requires { rz_ok n /\ 0 <= r < n }
    ensures { forall e. sum rz 0 r <= e < sum rz 0 (r+1) -> fcol 0 n e = rcol r (e - sum rz 0 r) }
    ensures { forall e. sum rz 0 r <= e < sum rz 0 (r+1) -> fval 0 n e = rval r (e - sum rz 0 r) }
    ensures { sum rz 0 (r+1) = sum rz 0 r + rz[r] }
  = let lemma f (e: int) requires { sum rz 0 r <= e < sum rz 0 (r+1) } ensures { fcol 0 n e = rcol r (e - sum rz 0 r) /\ fval 0 n e = rval r (e - sum rz 0 r) }
    = f_at n r (e - sum rz 0 r) in ()

  let rec ghost sum_eq_all (a b: imap) (lo hi: int)
    requires { forall i. lo <= i < hi -> a[i] = b[i] }
    ensures { forall i. lo <= i <= hi -> sum a lo i = sum b lo i }
    variant { hi - lo }
  = if lo < hi then sum_eq_all a b lo (hi-1)
  let ghost sum_app_all (a: imap) (lo mid hi: int)
    requires { lo <= mid <= hi }
    ensures { forall i. mid <= i <= hi -> sum a lo i = sum a lo mid + sum a mid i }
  = let lemma f (i: int) requires { mid <= i <= hi } ensures { sum a lo i = sum a lo mid + sum a mid i } = sum_app a lo mid i in ()
  (* prefix sums of non-negative work are ordered *)
  let rec ghost prefix_le (m: imap) (i j: int)
    requires { 0 <= i <= j } requires { forall x. i <= x < j -> 0 <= m[x] } ensures { sum m 0 i <= sum m 0 j } variant { j - i }
  = if i < j then prefix_le m i (j-1)
  let ghost prefix_sorted (m c: imap) (n: int)
    requires { forall x. 0 <= x < n -> 0 <= m[x] } requires { forall x. 0 <= x < n -> c[x] = sum m 0 x } ensures { sorted_le c 0 n } ensures { 0 <= sum m 0 n \/ n < 0 }
  = let lemma f (i j: int) requires { 0 <= i <= j < n } ensures { c[i] <= c[j] } = prefix_le m i j in if n >= 0 then prefix_le m 0 n
  (* entries before row dw t; the thread that owns entry x *)
  let ghost function fb (p: imap) (tot n k t: int) : int = sum rz 0 (dw p tot n k t)
  let rec ghost function fown (p: imap) (tot n k x t: int) : int variant { t }
  = if t <= 0 then 0 else if fb p tot n k t <= x then t else fown p tot n k x (t-1)
  let rec ghost fown_ok (p: imap) (tot n k x t: int)
    requires { 0 <= n /\ 0 <= tot /\ 1 <= k /\ 0 <= t < k /\ 0 <= x < fb p tot n k (t+1) }
    ensures { 0 <= fown p tot n k x t <= t /\ fb p tot n k (fown p tot n k x t) <= x < fb p tot n k (fown p tot n k x t + 1) }
    variant { t }
  = if t > 0 && fb p tot n k t > x then fown_ok p tot n k x (t-1)
  let ghost fb_covers (p: imap) (tot n k: int)
    requires { 0 <= n /\ 0 <= tot /\ 1 <= k }
    ensures { forall x. 0 <= x < sum rz 0 n -> let t = fown p tot n k x (k-1) in 0 <= t < k /\ fb p tot n k t <= x < fb p tot n k (t+1) }
  = let lemma f (x: int) requires { 0 <= x < sum rz 0 n } ensures { let t = fown p tot n k x (k-1) in 0 <= t < k /\ fb p tot n k t <= x < fb p tot n k (t+1) } = fown_ok p tot n k x (k-1) in ()
  let ghost fb_ordered (p: imap) (tot n k: int)
    requires { rz_ok n /\ 0 <= n /\ 0 <= tot /\ 1 <= k }
    ensures { forall t u. 0 <= t <= u <= k -> 0 <= fb p tot n k t <= fb p tot n k u <= sum rz 0 n }
    ensures { forall t u. 0 <= t <= u <= k -> 0 <= dw p tot n k t <= dw p tot n k u <= n }
  = let lemma f (t u: int) requires { 0 <= t <= u <= k } ensures { 0 <= fb p tot n k t <= fb p tot n k u <= sum rz 0 n /\ 0 <= dw p tot n k t <= dw p tot n k u <= n }
    = dw_mono p tot n k 0 t; dw_mono p tot n k t u; dw_mono p tot n k u k; sum_mono 0 (dw p tot n k t);
      sum_mono (dw p tot n k u) n;
      assert { rz_ok (dw p tot n k u) }; sum_mono (dw p tot n k t) (dw p tot n k u) in ()
end
module DrvP
  use base.Base
  use spec.Spec
  use work.Work
  use Drv
  axiom rz_def: forall r. rz[r] = rank gAc gAv gBp gBc gBv gAp[r] gAp[r+1] gMc gMp[r] gMp[r+1]
  (* no row has more entries than the estimate of its work *)
  let ghost rz_bound (fl: imap) (n: int)
    requires { forall i. 0 <= i < n -> fl[i] = mfl gAp gAc gBp gMp i }
    requires { forall i. 0 <= i < n -> distinct gMc gMp[i] gMp[i+1] }
    requires { forall i. 0 <= i < n -> gMp[i] <= gMp[i+1] /\ gAp[i] <= gAp[i+1] }
    requires { forall i. 0 <= i < n -> forall j. gAp[i] <= j < gAp[i+1] -> gBp[gAc[j]] <= gBp[gAc[j]+1] }
    ensures { rz_ok n } ensures { forall i. 0 <= i < n -> rz[i] <= fl[i] }
  = let lemma f (i: int) requires { 0 <= i < n } ensures { 0 <= rz[i] <= fl[i] } = rank_le_rfl gAc gAv gBp gBc gBv gAp[i] gAp[i+1] gMc gMp[i] gMp[i+1] in ()
  let rec ghost tr_sum (lo hi: int) ensures { trank gAp gAc gAv gBp gBc gBv gMp gMc lo hi = sum rz lo hi } variant { hi - lo }
  = if lo < hi then tr_sum lo (hi-1)
end
module DrvC
  use base.Base
  use spec.Spec
  use work.Work
  use Drv
  axiom rz_def: forall r. rz[r] = crank gAc gAv gBp gBc gBv gAp[r] gAp[r+1] gMc gMp[r] gMp[r+1] 0 gn
  let ghost rz_bound (fl: imap) (n: int)
    requires { 0 <= gn }
    requires { forall i. 0 <= i < n -> fl[i] = rfl gAc gBp gAp[i] gAp[i+1] }
    requires { forall i. 0 <= i < n -> gAp[i] <= gAp[i+1] }
    requires { forall i. 0 <= i < n -> forall j. gAp[i] <= j < gAp[i+1] -> gBp[gAc[j]] <= gBp[gAc[j]+1] }
    ensures { rz_ok n } ensures { forall i. 0 <= i < n -> rz[i] <= fl[i] }
  = let lemma f (i: int) requires { 0 <= i < n } ensures { 0 <= rz[i] <= fl[i] } = crank_le_rfl gAc gAv gBp gBc gBv gAp[i] gAp[i+1] gMc gMp[i] gMp[i+1] gn in ()
  let rec ghost tr_sum (lo hi: int) ensures { tcrank gAp gAc gAv gBp gBc gBv gMp gMc gn lo hi = sum rz lo hi } variant { hi - lo }
  = if lo < hi then tr_sum lo (hi-1)
end
module DrvI
  use base.Base
  use spec.Spec
  use work.Work
  use dot.Dot
  use Drv
  (* row r of the inner-product algorithm: mask entry p contributes the (irk r p)-th entry when its dot product is defined; gBp and gBc are B's column pointers and row ids *)
  let ghost function idot (r p: int) : option nt = dot gAc gAv gAp[r] gAp[r+1] gBc gBv gBp[gMc[p]] gBp[gMc[p]+1]
  let ghost function irk (r hi: int) : int = irank gAc gAv gAp[r] gAp[r+1] gBp gBc gBv gMc gMp[r] hi
  axiom rz_def: forall r. rz[r] = irk r gMp[r+1]
  axiom rcol_def: forall r p. gMp[r] <= p < gMp[r+1] -> idot r p <> None -> rcol r (irk r p) = gMc[p]
  axiom rval_def: forall r p v. gMp[r] <= p < gMp[r+1] -> idot r p = Some v -> rval r (irk r p) = v
  let ghost rz_bound (n: int)
    requires { forall i. 0 <= i < n -> gMp[i] <= gMp[i+1] }
    ensures { rz_ok n } ensures { forall i. 0 <= i < n -> rz[i] <= gMp[i+1] - gMp[i] }
  = let lemma f (i: int) requires { 0 <= i < n } ensures { 0 <= rz[i] <= gMp[i+1] - gMp[i] } = irank_bounds gAc gAv gAp[i] gAp[i+1] gBp gBc gBv gMc gMp[i] gMp[i+1] in ()
  (* the mask entry behind entry k of row r *)
  let rec ghost ipos (r k hi: int) : int
    requires { gMp[r] <= hi /\ 0 <= k < irk r hi }
    ensures { gMp[r] <= result < hi /\ idot r result <> None /\ irk r result = k }
    variant { hi - gMp[r] }
  = if irk r (hi-1) <= k then hi - 1 else ipos r k (hi-1)
  let ghost row_content (cm: imap) (vm: vmap) (oc ov r: int)
    requires { gMp[r] <= gMp[r+1] }
    requires { forall p. gMp[r] <= p < gMp[r+1] -> dot gAc gAv gAp[r] gAp[r+1] gBc gBv gBp[gMc[p]] gBp[gMc[p]+1] <> None -> cm[oc + irank gAc gAv gAp[r] gAp[r+1] gBp gBc gBv gMc gMp[r] p] = gMc[p] }
    requires { forall p. gMp[r] <= p < gMp[r+1] -> match dot gAc gAv gAp[r] gAp[r+1] gBc gBv gBp[gMc[p]] gBp[gMc[p]+1] with None -> true | Some v -> vm[ov + irank gAc gAv gAp[r] gAp[r+1] gBp gBc gBv gMc gMp[r] p] = v end }
    ensures { forall k. 0 <= k < rz[r] -> cm[oc + k] = rcol r k }
    ensures { forall k. 0 <= k < rz[r] -> vm[ov + k] = rval r k }
    ensures { forall x. oc <= x < oc + rz[r] -> cm[x] = rcol r (x - oc) }
    ensures { forall x. ov <= x < ov + rz[r] -> vm[x] = rval r (x - ov) }
  = let lemma f (k: int) requires { 0 <= k < rz[r] } ensures { cm[oc + k] = rcol r k /\ vm[ov + k] = rval r k }
    = let p = ipos r k gMp[r+1] in assert { match idot r p with None -> false | Some v -> vm[ov + k] = v /\ rval r k = v end } in
    assert { forall x. oc <= x < oc + rz[r] -> cm[oc + (x - oc)] = rcol r (x - oc) };
    assert { forall x. ov <= x < ov + rz[r] -> vm[ov + (x - ov)] = rval r (x - ov) }
  let rec ghost irk_zero (r hi: int)
    requires { gMp[r] <= hi /\ gAp[r] <= gAp[r+1] }
    requires { forall p. gMp[r] <= p < hi -> gBp[gMc[p]] <= gBp[gMc[p]+1] }
    requires { dwk (gAp[r+1] - gAp[r]) gMc gBp gMp[r] hi = 0 }
    ensures { irk r hi = 0 }
    variant { hi - gMp[r] }
  = if gMp[r] < hi then begin
      dwk_pos (gAp[r+1] - gAp[r]) gMc gBp gMp[r] (hi-1);
      let c = gMc[hi-1] in
      if gBp[c] = gBp[c+1] then dot_empty_col gAc gAv gAp[r] gAp[r+1] gBc gBv gBp[c] gBp[c+1] else assert { idot r (hi-1) = None };
      irk_zero r (hi-1) end
  (* rows whose entries fit between their mask offsets *)
  let rec ghost fits (lo hi: int)
    requires { 0 <= lo <= hi } requires { forall i. lo <= i < hi -> gMp[i] <= gMp[i+1] }
    ensures { 0 <= sum rz lo hi <= gMp[hi] - gMp[lo] } variant { hi - lo }
  = if lo < hi then begin fits lo (hi-1); irank_bounds gAc gAv gAp[hi-1] gAp[hi] gBp gBc gBv gMc gMp[hi-1] gMp[hi] end
end
