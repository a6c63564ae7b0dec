module Hash
  use base.Base
  use spec.Spec
  use map.Const

  (* capacity for t keys: the first of s, 2s, 4s ... that is at least 4t *)
  let rec ghost function grow (s t: int) : int
    requires { s > 0 }
    variant { 4*t - s }
  = if 4*t <= s then s else grow (2*s) t
  let rec lemma grow_props (s t: int)
    requires { s > 0 }
    ensures { grow s t >= s /\ grow s t >= 4*t }
    variant { 4*t - s }
  = if 4*t > s then grow_props (2*s) t
  let rec ghost grow_pow2 (s t: int)
    requires { s > 0 /\ is_pow2 s }
    ensures { is_pow2 (grow s t) }
    variant { 4*t - s }
  = if 4*t > s then grow_pow2 (2*s) t
  let rec ghost grow_mono (s t u: int)
    requires { s > 0 /\ t <= u }
    ensures { grow s t <= grow s u }
    variant { 4*u - s }
  = if 4*u > s then grow_mono (2*s) t u

  (* linear probing; -1 marks a free slot *)
  function hsh (k n: int) : int = mod (k * 107) n
  function nx (i n: int) : int = if i + 1 = n then 0 else i + 1
  function dist (a b n: int) : int = if a <= b then b - a else b - a + n
  predicate cyc (h x i: int) = if h <= i then h <= x < i else (h <= x \/ x < i)
  predicate paths (tk: imap) (n: int) = forall i x. 0 <= i < n -> 0 <= x < n -> tk[i] <> -1 -> cyc (hsh tk[i] n) x i -> tk[x] <> -1
  predicate dkeys (tk: imap) (n: int) = forall i j. 0 <= i < n -> 0 <= j < n -> tk[i] <> -1 -> tk[i] = tk[j] -> i = j
  predicate nonneg (tk: imap) (n: int) = forall i. 0 <= i < n -> -1 <= tk[i]
  predicate has (tk: imap) (n k: int) = exists i. 0 <= i < n /\ tk[i] = k
  predicate tab (tk: imap) (n: int) = n >= 1 /\ is_pow2 n /\ paths tk n /\ dkeys tk n /\ nonneg tk n /\ cnt tk (-1) 0 n > 0
  predicate probed (tk: imap) (n k i: int) = 0 <= i < n /\ forall x. 0 <= x < n -> cyc (hsh k n) x i -> tk[x] <> -1 /\ tk[x] <> k

  let ghost nxt (i n: int)
    requires { 0 <= i < n /\ is_pow2 n }
    ensures { band (i + 1) (n - 1) = nx i n }
  = assert { mod (i + 1) n = nx i n }
  let ghost home (k n: int)
    requires { k >= 0 /\ n >= 1 /\ is_pow2 n }
    ensures { band (k * 107) (n - 1) = hsh k n /\ 0 <= hsh k n < n }
  = ()
  let rec ghost function free_slot (tk: imap) (n: int) : int
    requires { cnt tk (-1) 0 n > 0 }
    ensures { 0 <= result < n /\ tk[result] = -1 }
    variant { n }
  = if tk[n-1] = -1 then n - 1 else free_slot tk (n-1)
  let ghost probe_step (tk: imap) (n k i e: int)
    requires { probed tk n k i /\ tk[i] <> -1 /\ tk[i] <> k /\ 0 <= e < n /\ (tk[e] = -1 \/ tk[e] = k) /\ 0 <= hsh k n < n }
    ensures { probed tk n k (nx i n) /\ dist (nx i n) e n < dist i e n }
  = assert { not (cyc (hsh k n) e i) }
  (* the probe stopped on a free slot: the key is not stored *)
  let ghost probe_miss (tk: imap) (n k i: int)
    requires { tab tk n /\ probed tk n k i /\ tk[i] = -1 /\ k >= 0 }
    ensures { not (has tk n k) }
  = ()
  let ghost probe_fill (tk: imap) (n k i: int)
    requires { tab tk n /\ probed tk n k i /\ tk[i] = -1 /\ k >= 0 /\ cnt tk (-1) 0 n > 1 }
    ensures { tab tk[i <- k] n /\ cnt tk[i <- k] (-1) 0 n = cnt tk (-1) 0 n - 1 }
    ensures { forall x. x <> -1 -> (has tk[i <- k] n x <-> has tk n x \/ x = k) }
  = cnt_upd tk (-1) 0 n i k;
    probe_miss tk n k i;
    let t2 = tk[i <- k] in
    assert { paths t2 n };
    assert { dkeys t2 n };
    assert { forall x. has tk n x -> x <> -1 -> has t2 n x };
    assert { t2[i] = k }

  (* position of each stored key *)
  let rec ghost function slots (tk: imap) (n: int) : imap
    variant { n } = if n <= 0 then const (-1) else (slots tk (n-1))[tk[n-1] <- n-1]
  let rec ghost slots_spec (tk: imap) (n: int)
    requires { dkeys tk n }
    ensures { forall x. x <> -1 -> (slots tk n)[x] = -1 \/ (0 <= (slots tk n)[x] < n /\ tk[(slots tk n)[x]] = x) }
    ensures { forall i. 0 <= i < n -> tk[i] <> -1 -> (slots tk n)[tk[i]] = i }
    variant { n }
  = if n > 0 then slots_spec tk (n-1)
end
module Hash2
  use base.Base
  use spec.Spec
  use map.Const
  use Hash

  let rec ghost function key_slot (tk: imap) (n k: int) : int
    requires { has tk n k }
    ensures { 0 <= result < n /\ tk[result] = k }
    variant { n }
  = if tk[n-1] = k then n - 1 else key_slot tk (n-1) k
  predicate fprobed (tk: imap) (n k i: int) = 0 <= i < n /\ forall x. 0 <= x < n -> cyc (hsh k n) x i -> tk[x] <> k
  let ghost force_step (tk: imap) (n k i e: int)
    requires { fprobed tk n k i /\ tk[i] <> k /\ 0 <= e < n /\ tk[e] = k /\ 0 <= hsh k n < n }
    ensures { fprobed tk n k (nx i n) /\ dist (nx i n) e n < dist i e n }
  = assert { not (cyc (hsh k n) e i) }

  (* removal with backward shift: hole is the slot being vacated, sh the last slot looked at *)
  predicate unheld (tk: imap) (n hole: int) = forall i x. 0 <= i < n -> 0 <= x < n -> i <> hole -> tk[i] <> -1 -> cyc (hsh tk[i] n) x i -> tk[x] <> -1
  predicate scanned (tk: imap) (n hole sh: int) = forall i. 0 <= i < n -> dist hole i n <= dist hole sh n -> tk[i] <> -1 /\ (i = hole \/ not (cyc (hsh tk[i] n) hole i))
  predicate dkeysx (tk: imap) (n hole: int) = forall i j. 0 <= i < n -> 0 <= j < n -> i <> hole -> j <> hole -> tk[i] <> -1 -> tk[i] = tk[j] -> i = j
  predicate posx (tk: imap) (n hole k: int) (pos pos0: imap) =
    (forall i. 0 <= i < n -> i <> hole -> tk[i] <> -1 -> tk[i] <> k /\ pos[tk[i]] = i) /\
    (forall x. x <> -1 -> x <> k -> (pos[x] = -1 <-> pos0[x] = -1) /\ (pos[x] <> -1 -> 0 <= pos[x] < n /\ pos[x] <> hole /\ tk[pos[x]] = x))

  let ghost shift_next (tk: imap) (n hole sh e: int)
    requires { 0 <= hole < n /\ 0 <= sh < n /\ scanned tk n hole sh /\ 0 <= e < n /\ tk[e] = -1 }
    ensures { dist hole (nx sh n) n = dist hole sh n + 1 /\ 0 <= nx sh n < n /\ nx sh n <> hole /\ dist hole sh n < dist hole e n }
    ensures { dist (nx sh n) e n = dist sh e n - 1 \/ sh = e }
  = assert { dist hole sh n < dist hole e n }
  let ghost shift_keep (tk: imap) (n hole sh e: int)
    requires { 0 <= hole < n /\ 0 <= sh < n /\ scanned tk n hole sh /\ tk[nx sh n] <> -1 /\ 0 <= e < n /\ tk[e] = -1 }
    requires { not (cyc (hsh tk[nx sh n] n) hole (nx sh n)) }
    ensures { scanned tk n hole (nx sh n) }
  = shift_next tk n hole sh e;
    assert { forall i. 0 <= i < n -> dist hole i n = dist hole (nx sh n) n -> i = nx sh n }
  let ghost shift_move (tk: imap) (n hole sh e: int)
    requires { 0 <= hole < n /\ 0 <= sh < n /\ scanned tk n hole sh /\ unheld tk n hole /\ tk[nx sh n] <> -1 /\ 0 <= e < n /\ tk[e] = -1 }
    requires { 0 <= hsh tk[nx sh n] n < n }
    requires { cyc (hsh tk[nx sh n] n) hole (nx sh n) }
    ensures { let s = nx sh n in let t = tk[hole <- tk[s]] in unheld t n s /\ scanned t n s s }
  = shift_next tk n hole sh e;
    let s = nx sh n in let t = tk[hole <- tk[s]] in
    assert { tk[hole] <> -1 by dist hole hole n = 0 };
    assert { forall x. 0 <= x < n -> (t[x] = -1 <-> tk[x] = -1) };
    assert { forall x. 0 <= x < n -> cyc (hsh t[hole] n) x hole -> t[x] <> -1 by cyc (hsh tk[s] n) x s };
    assert { unheld t n s };
    assert { forall i. 0 <= i < n -> dist s i n <= 0 -> i = s }
  let ghost shift_done (tk: imap) (n hole sh e: int)
    requires { 0 <= hole < n /\ 0 <= sh < n /\ scanned tk n hole sh /\ unheld tk n hole /\ tk[nx sh n] = -1 /\ 0 <= e < n /\ tk[e] = -1 }
    requires { forall i. 0 <= i < n -> tk[i] <> -1 -> 0 <= hsh tk[i] n < n }
    ensures { paths tk[hole <- -1] n }
  = shift_next tk n hole sh e;
    let s = nx sh n in let t = tk[hole <- -1] in
    assert { forall i. 0 <= i < n -> i <> hole -> tk[i] <> -1 -> dist hole i n > dist hole sh n -> dist hole i n > dist hole s n };
    assert { forall i. 0 <= i < n -> i <> hole -> tk[i] <> -1 -> dist hole i n > dist hole sh n -> cyc (hsh tk[i] n) hole i -> cyc (hsh tk[i] n) s i };
    assert { forall i. 0 <= i < n -> i <> hole -> tk[i] <> -1 -> not (cyc (hsh tk[i] n) hole i) }
end
module Hash3
  use base.Base
  use spec.Spec
  use map.Const
  use Hash
  use Hash2

  predicate hasx (tk: imap) (n hole k: int) = exists i. 0 <= i < n /\ i <> hole /\ tk[i] = k
  predicate keepx (tk: imap) (n hole key: int) (t0: imap) =
    nonneg tk n /\ dkeysx tk n hole /\ cnt tk (-1) 0 n = cnt t0 (-1) 0 n /\ (forall x. x <> -1 -> (hasx tk n hole x <-> has t0 n x /\ x <> key))
  (* the entry with key x at slot j of the old table is at slot i of the new one with the same value *)
  predicate movedx (tk: imap) (n hole: int) (v: map int 'a) (t0: imap) (v0: map int 'a) =
    forall i j. 0 <= i < n -> 0 <= j < n -> i <> hole -> tk[i] <> -1 -> tk[i] = t0[j] -> v[i] = v0[j]
  predicate moved (tk: imap) (n: int) (v: map int 'a) (t0: imap) (v0: map int 'a) =
    forall i j. 0 <= i < n -> 0 <= j < n -> tk[i] <> -1 -> tk[i] = t0[j] -> v[i] = v0[j]
  let ghost predicate pcyc (h x i: int) = (h <= i && h <= x && x < i) || (h > i && (h <= x || x < i))
  let ghost erase_start (tk: imap) (n hole key: int) (e: int)
    requires { tab tk n /\ 0 <= hole < n /\ tk[hole] = key /\ key <> -1 /\ 0 <= e < n /\ tk[e] = -1 }
    ensures { keepx tk n hole key tk /\ unheld tk n hole /\ scanned tk n hole hole /\ e <> hole }
  = assert { forall i. 0 <= i < n -> dist hole i n <= 0 -> i = hole };
    assert { forall x. x <> -1 -> has tk n x -> x <> key -> hasx tk n hole x }
  let ghost erase_move (tk: imap) (n hole s key: int) (t0: imap)
    requires { keepx tk n hole key t0 /\ 0 <= hole < n /\ 0 <= s < n /\ s <> hole /\ tk[s] <> -1 /\ tk[hole] <> -1 }
    ensures { keepx tk[hole <- tk[s]] n s key t0 }
  = let t = tk[hole <- tk[s]] in
    cnt_upd tk (-1) 0 n hole tk[s];
    assert { t[hole] = tk[s] };
    assert { forall x. x <> -1 -> hasx tk n hole x -> hasx t n s x by (forall i. 0 <= i < n -> i <> hole -> tk[i] = x -> (i <> s -> t[i] = x) /\ (i = s -> t[hole] = x)) };
    assert { forall x. x <> -1 -> hasx t n s x -> hasx tk n hole x by (forall i. 0 <= i < n -> i <> s -> t[i] = x -> (i <> hole -> tk[i] = x) /\ (i = hole -> tk[s] = x)) }
  let ghost erase_end (tk: imap) (n hole key: int) (t0: imap)
    requires { keepx tk n hole key t0 /\ 0 <= hole < n /\ tk[hole] <> -1 /\ tab t0 n /\ has t0 n key /\ key <> -1 /\ paths tk[hole <- -1] n }
    ensures { tab tk[hole <- -1] n }
    ensures { cnt tk[hole <- -1] (-1) 0 n = cnt t0 (-1) 0 n + 1 }
    ensures { forall x. x <> -1 -> (has tk[hole <- -1] n x <-> has t0 n x /\ x <> key) }
  = let t = tk[hole <- -1] in
    cnt_upd tk (-1) 0 n hole (-1);
    assert { forall x. x <> -1 -> hasx tk n hole x -> has t n x };
    assert { forall x. x <> -1 -> has t n x -> hasx tk n hole x }
  lemma pcyc_cyc: forall h x i. pcyc h x i <-> cyc h x i
  let ghost home2 (k n: int)
    requires { k >= 0 /\ n >= 1 /\ is_pow2 n }
    ensures { band (band (k * 107) (n - 1)) (n - 1) = hsh k n /\ 0 <= hsh k n < n }
  = home k n; assert { mod (hsh k n) n = hsh k n }
end
module HashFill
  use base.Base
  use spec.Spec
  use Hash
  let lemma fill (tk: imap) (n k i: int)
    requires { tab tk n /\ probed tk n k i /\ tk[i] = -1 /\ k >= 0 /\ cnt tk (-1) 0 n > 1 }
    ensures { tab tk[i <- k] n /\ cnt tk[i <- k] (-1) 0 n = cnt tk (-1) 0 n - 1 }
  = probe_fill tk n k i
end
module HashRow
  use base.Base
  use spec.Spec
  use map.Const
  use Hash
  use Hash2
  use Hash3
  use work.Work

  let rec lemma cnt_all (tk: imap) (v lo hi: int)
    requires { lo <= hi /\ forall i. lo <= i < hi -> tk[i] = v }
    ensures { cnt tk v lo hi = hi - lo }
    variant { hi - lo }
  = if lo < hi then cnt_all tk v lo (hi-1)
  let ghost tab_empty (tk: imap) (n: int)
    requires { n >= 1 /\ is_pow2 n /\ forall i. 0 <= i < n -> tk[i] = -1 }
    ensures { tab tk n /\ cnt tk (-1) 0 n = n /\ (forall x. x <> -1 -> not (has tk n x)) }
  = cnt_all tk (-1) 0 n
  let ghost no_keys (tk: imap) (n: int)
    requires { nonneg tk n /\ (forall x. x <> -1 -> not (has tk n x)) }
    ensures { forall i. 0 <= i < n -> tk[i] = -1 }
  = assert { forall i. 0 <= i < n -> has tk n tk[i] }

  let ghost slots_has (tk: imap) (n: int)
    requires { dkeys tk n }
    ensures { forall x. x <> -1 -> ((slots tk n)[x] = -1 <-> not (has tk n x)) }
  = slots_spec tk n;
    assert { forall x. x <> -1 -> has tk n x -> (slots tk n)[x] <> -1 by forall i. 0 <= i < n -> tk[i] = x -> (slots tk n)[x] = i }
  let rec ghost cpos_ext (mc s1 s2: imap) (v lo hi: int)
    requires { forall p. lo <= p < hi -> (s1[mc[p]] = v <-> s2[mc[p]] = v) }
    ensures { cpos mc s1 v lo hi = cpos mc s2 v lo hi }
    variant { hi - lo }
  = if lo < hi then cpos_ext mc s1 s2 v lo (hi-1)
  let rec ghost cpos_one (mc s1 s2: imap) (v lo hi q: int)
    requires { lo <= q < hi /\ s1[mc[q]] <> v /\ s2[mc[q]] = v }
    requires { forall p. lo <= p < hi -> p <> q -> (s1[mc[p]] = v <-> s2[mc[p]] = v) }
    ensures { cpos mc s2 v lo hi = cpos mc s1 v lo hi + 1 }
    variant { hi - lo }
  = if q < hi - 1 then cpos_one mc s1 s2 v lo (hi-1) q else cpos_ext mc s1 s2 v lo (hi-1)
  let rec ghost function where (mc: imap) (lo hi k: int) : int
    requires { is_in mc lo hi k }
    ensures { lo <= result < hi /\ mc[result] = k }
    variant { hi - lo }
  = if mc[hi-1] = k then hi - 1 else where mc lo (hi-1) k
  (* removing a stored key (all of them mask columns) *)
  let ghost cpos_erase (mc t1 t2: imap) (n lo hi k: int)
    requires { dkeys t1 n /\ dkeys t2 n /\ distinct mc lo hi /\ k >= 0 }
    requires { forall p. lo <= p < hi -> mc[p] >= 0 }
    requires { forall x. x <> -1 -> (has t2 n x <-> has t1 n x /\ x <> k) }
    requires { has t1 n k -> is_in mc lo hi k }
    ensures { has t1 n k -> cpos mc (slots t2 n) (-1) lo hi = cpos mc (slots t1 n) (-1) lo hi + 1 }
    ensures { not (has t1 n k) -> cpos mc (slots t2 n) (-1) lo hi = cpos mc (slots t1 n) (-1) lo hi }
  = slots_has t1 n; slots_has t2 n;
    let s = slots t1 n in
    if s[k] <> -1 then cpos_one mc s (slots t2 n) (-1) lo hi (where mc lo hi k)
    else cpos_ext mc s (slots t2 n) (-1) lo hi

  (* a duplicate-free list of columns *)
  let rec ghost function ind (d: imap) (m: int) : imap
    variant { m } = if m <= 0 then const 0 else (ind d (m-1))[d[m-1] <- 1]
  let rec ghost ind_spec (d: imap) (m n: int)
    requires { 0 <= m /\ 0 <= n /\ distinct d 0 m /\ forall q. 0 <= q < m -> 0 <= d[q] < n }
    ensures { forall c. (ind d m)[c] = 1 <-> is_in d 0 m c }
    ensures { cnt (ind d m) 1 0 n = m }
    variant { m }
  = if m > 0 then begin ind_spec d (m-1) n; assert { not (is_in d 0 (m-1) d[m-1]) }; cnt_upd (ind d (m-1)) 1 0 n d[m-1] 1 end
    else cnt_zero (ind d m) 1 0 n
  let ghost list_crank (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (mlo mhi: int) (d: imap) (m n: int)
    requires { 0 <= m /\ 0 <= n /\ distinct d 0 m /\ forall q. 0 <= q < m -> 0 <= d[q] < n }
    requires { forall c. 0 <= c < n -> (is_in d 0 m c <-> (not (is_in mc mlo mhi c) /\ foldj ac av bp bc bv alo ahi c <> None)) }
    ensures { m = crank ac av bp bc bv alo ahi mc mlo mhi 0 n }
  = ind_spec d m n; cnt_crank ac av bp bc bv alo ahi mc mlo mhi (ind d m) 1 0 n
  (* clear the mask columns *)
  let rec ghost function mset (st mc: imap) (lo hi: int) : imap
    variant { hi - lo } = if hi <= lo then st else (mset st mc lo (hi-1))[mc[hi-1] <- 0]
  let rec ghost mset_spec (st mc: imap) (lo hi: int)
    ensures { forall c. (mset st mc lo hi)[c] = (if is_in mc lo hi c then 0 else st[c]) }
    variant { hi - lo }
  = if lo < hi then mset_spec st mc lo (hi-1)
  let rec ghost rfl_mono (ac bp: imap) (lo p hi: int)
    requires { lo <= p <= hi /\ forall j. p <= j < hi -> bp[ac[j]] <= bp[ac[j]+1] }
    ensures { rfl ac bp lo p <= rfl ac bp lo hi }
    variant { hi - p }
  = if p < hi then rfl_mono ac bp lo p (hi-1)
  (* the slot of key d[g] is emptied; the rest of the list is still stored *)
  let ghost list_drop (tk: imap) (n i: int) (d: imap) (g m: int)
    requires { dkeys tk n /\ 0 <= i < n /\ 0 <= g < m /\ tk[i] = d[g] /\ distinct d g m }
    requires { forall q. g <= q < m -> d[q] >= 0 /\ has tk n d[q] }
    requires { forall y. 0 <= y < n -> tk[y] <> -1 -> is_in d g m tk[y] }
    ensures { forall q. g < q < m -> has tk[i <- -1] n d[q] }
    ensures { forall y. 0 <= y < n -> tk[i <- -1][y] <> -1 -> is_in d (g+1) m tk[y] }
    ensures { dkeys tk[i <- -1] n }
  = assert { forall q. g < q < m -> d[q] <> d[g] };
    assert { forall q. g < q < m -> has tk[i <- -1] n d[q] by (forall y. 0 <= y < n -> tk[y] = d[q] -> y <> i /\ tk[i <- -1][y] = d[q]) }
  let ghost rows_ok (ap ac bp: imap) (m nnz n bn row: int)
    requires { wf_rowptr ap m nnz /\ in_range ac nnz n /\ wf_rowptr bp n bn /\ 0 <= row < m }
    ensures { forall j. ap[row] <= j < ap[row+1] -> bp[ac[j]] <= bp[ac[j]+1] }
    ensures { 0 <= rfl ac bp ap[row] ap[row+1] }
  = assert { forall j. ap[row] <= j < ap[row+1] -> 0 <= ac[j] < n };
    rfl_pos ac bp ap[row] ap[row+1]
  let ghost drop_has (tk: imap) (n i k: int)
    requires { dkeys tk n /\ 0 <= i < n /\ tk[i] = k /\ k <> -1 }
    ensures { forall x. x <> -1 -> (has tk[i <- -1] n x <-> has tk n x /\ x <> k) }
    ensures { dkeys tk[i <- -1] n }
    ensures { forall y. 0 <= y < n -> tk[y] = k -> y = i }
  = let t = tk[i <- -1] in
    assert { forall x. x <> -1 -> has tk n x -> x <> k -> has t n x by (forall y. 0 <= y < n -> tk[y] = x -> t[y] = x) };
    assert { forall x. x <> -1 -> has t n x -> has tk n x /\ x <> k by (forall y. 0 <= y < n -> t[y] = x -> y <> i /\ tk[y] = x) }
  let rec ghost cnt_ext (s1 s2: imap) (v lo hi: int)
    requires { forall i. lo <= i < hi -> s1[i] = s2[i] }
    ensures { cnt s1 v lo hi = cnt s2 v lo hi }
    variant { hi - lo }
  = if lo < hi then cnt_ext s1 s2 v lo (hi-1)
  (* only the keys of the earlier table tm are left *)
  let ghost restore (tm tk: imap) (n: int)
    requires { tab tm n /\ dkeys tk n /\ (forall i. 0 <= i < n -> tm[i] <> -1 -> tk[i] = tm[i]) }
    requires { forall i. 0 <= i < n -> tk[i] <> -1 -> has tm n tk[i] }
    ensures { tab tk n }
    ensures { forall x. has tk n x <-> has tm n x }
  = assert { forall i. 0 <= i < n -> tk[i] = tm[i] };
    cnt_ext tm tk (-1) 0 n
  let rec ghost predicate has_b (tk: imap) (n k: int)
    ensures { result <-> has tk n k }
    variant { n }
  = n > 0 && (tk[n-1] = k || has_b tk (n-1) k)
  let rec ghost foldk_some (o: option nt) (a: nt) (bc: imap) (bv: vmap) (lo k hi c: int)
    requires { k <= hi /\ foldk o a bc bv lo k c <> None }
    ensures { foldk o a bc bv lo hi c <> None }
    variant { hi - k }
  = if k < hi then foldk_some o a bc bv lo k (hi-1) c
  let rec ghost foldj_some (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo j hi c: int)
    requires { j <= hi /\ foldj ac av bp bc bv lo j c <> None }
    requires { forall x. j <= x < hi -> bp[ac[x]] <= bp[ac[x]+1] }
    ensures { foldj ac av bp bc bv lo hi c <> None }
    variant { hi - j }
  = if j < hi then begin foldj_some ac av bp bc bv lo j (hi-1) c;
      if lo < hi then foldk_some (foldj ac av bp bc bv lo (hi-1) c) av[hi-1] bc bv bp[ac[hi-1]] bp[ac[hi-1]] bp[ac[hi-1]+1] c end
  let rec ghost crank_ind (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (mlo mhi: int) (st: imap) (clo chi: int)
    requires { forall c. clo <= c < chi -> st[c] = 1 -> (not (is_in mc mlo mhi c) /\ foldj ac av bp bc bv alo ahi c <> None) }
    ensures { cnt st 1 clo chi <= crank ac av bp bc bv alo ahi mc mlo mhi clo chi }
    variant { chi - clo }
  = if clo < chi then crank_ind ac av bp bc bv alo ahi mc mlo mhi st clo (chi-1)
  (* columns reached so far, listed without repetition, are no more than the final ones *)
  let ghost list_le_crank (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo j ahi:int) (a: nt) (blo k bhi: int) (mc: imap) (mlo mhi: int) (d: imap) (m n: int)
    requires { alo <= j < ahi /\ blo <= k <= bhi /\ a = av[j] /\ blo = bp[ac[j]] /\ bhi = bp[ac[j]+1] }
    requires { forall x. alo <= x < ahi -> bp[ac[x]] <= bp[ac[x]+1] }
    requires { 0 <= m /\ 0 <= n /\ distinct d 0 m /\ forall q. 0 <= q < m -> 0 <= d[q] < n }
    requires { forall q. 0 <= q < m -> not (is_in mc mlo mhi d[q]) /\ foldk (foldj ac av bp bc bv alo j d[q]) a bc bv blo k d[q] <> None }
    ensures { m <= crank ac av bp bc bv alo ahi mc mlo mhi 0 n }
  = let rec fin (q: int)
      requires { 0 <= q <= m }
      ensures { forall i. 0 <= i < q -> foldj ac av bp bc bv alo ahi d[i] <> None }
      variant { q }
    = if q > 0 then begin fin (q-1);
        foldk_some (foldj ac av bp bc bv alo j d[q-1]) a bc bv blo k bhi d[q-1];
        foldj_some ac av bp bc bv alo (j+1) ahi d[q-1] end in
    fin m;
    ind_spec d m n;
    crank_ind ac av bp bc bv alo ahi mc mlo mhi (ind d m) 0 n
end
module HashLive
  use base.Base
  use spec.Spec
  let rec ghost function live (tk: imap) (w: map int bool) (n: int) : int
    variant { n } = if n <= 0 then 0 else live tk w (n-1) + (if tk[n-1] <> -1 && w[n-1] then 1 else 0)
  let rec lemma live_pos (tk: imap) (w: map int bool) (n: int)
    ensures { 0 <= live tk w n } variant { n } = if n > 0 then live_pos tk w (n-1)
  let rec ghost live_mono (tk: imap) (w: map int bool) (p n: int)
    requires { p <= n } ensures { live tk w p <= live tk w n } variant { n - p } = if p < n then live_mono tk w p (n-1)
end
