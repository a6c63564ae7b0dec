module Conv
  use base.Base
  (* stable counting sort: entry j of a list of keys goes to  csum c m c[j] + cnt c j c[j] *)
  let rec ghost function cnt (c: imap) (m v: int) : int
    variant { m } = if m <= 0 then 0 else cnt c (m-1) v + (if c[m-1] = v then 1 else 0)
  let rec ghost function csum (c: imap) (m v: int) : int
    variant { v } = if v <= 0 then 0 else csum c m (v-1) + cnt c m (v-1)
  let ghost function place (c: imap) (m j: int) : int = csum c m c[j] + cnt c j c[j]

  let rec lemma cnt_pos (c: imap) (m v: int)
    ensures { 0 <= cnt c m v } ensures { m >= 0 -> cnt c m v <= m }
    variant { m } = if m > 0 then cnt_pos c (m-1) v
  let rec ghost cnt_mono (c: imap) (l m v: int)
    requires { l <= m } ensures { cnt c l v <= cnt c m v }
    variant { m - l } = if l < m then cnt_mono c l (m-1) v
  let ghost cnt_lt (c: imap) (l m: int)
    requires { 0 <= l < m } ensures { cnt c l c[l] < cnt c m c[l] }
  = cnt_mono c (l+1) m c[l]
  let rec ghost cnt_ext (a b: imap) (m v: int)
    requires { forall i. 0 <= i < m -> a[i] = b[i] } ensures { cnt a m v = cnt b m v }
    variant { m } = if m > 0 then cnt_ext a b (m-1) v
  let rec ghost csum_mono (c: imap) (m u v: int)
    requires { u <= v } ensures { csum c m u <= csum c m v }
    variant { v - u } = if u < v then csum_mono c m u (v-1)
  let rec ghost csum_nil (c: imap) (v: int)
    ensures { csum c 0 v = 0 } variant { v } = if v > 0 then csum_nil c (v-1)
  let rec ghost csum_step (c: imap) (m v: int)
    requires { m >= 0 /\ c[m] >= 0 }
    ensures { csum c (m+1) v = csum c m v + (if c[m] < v then 1 else 0) }
    variant { v } = if v > 0 then csum_step c m (v-1)
  let rec ghost csum_all (c: imap) (m n: int)
    requires { m >= 0 /\ n >= 0 } requires { forall i. 0 <= i < m -> 0 <= c[i] < n }
    ensures { csum c m n = m }
    variant { m } = if m <= 0 then csum_nil c n else begin csum_all c (m-1) n; csum_step c (m-1) n end
  let rec ghost sum_csum (w c: imap) (m n: int)
    requires { forall v. 0 <= v < n -> w[v] = cnt c m v }
    ensures { sum w 0 n = csum c m n }
    variant { n } = if n > 0 then sum_csum w c m (n-1)
  let rec ghost sums_csum (w c: imap) (m n k: int)
    requires { k <= n } requires { forall v. 0 <= v < n -> w[v] = cnt c m v }
    ensures { forall v. 0 <= v <= k -> sum w 0 v = csum c m v }
    variant { k } = if k > 0 then sums_csum w c m n (k-1); sum_csum w c m k

  (* every entry lands in the block of its key, in bounds, and no two in the same place *)
  let ghost place_range (c: imap) (m n j: int)
    requires { 0 <= j < m /\ n >= 0 } requires { forall i. 0 <= i < m -> 0 <= c[i] < n }
    ensures { csum c m c[j] <= place c m j < csum c m (c[j]+1) } ensures { 0 <= place c m j < m }
  = cnt_lt c j m; csum_mono c m 0 c[j]; csum_mono c m (c[j]+1) n; csum_all c m n
  let ghost place_inj (c: imap) (m n i j: int)
    requires { 0 <= i < j < m /\ n >= 0 } requires { forall q. 0 <= q < m -> 0 <= c[q] < n }
    ensures { place c m i <> place c m j } ensures { c[i] = c[j] -> place c m i < place c m j }
  = place_range c m n i; place_range c m n j; cnt_lt c i j;
    if c[i] < c[j] then csum_mono c m (c[i]+1) c[j] else if c[j] < c[i] then csum_mono c m (c[j]+1) c[i]
  let rec ghost places_before (c: imap) (m n j k: int)
    requires { 0 <= k <= j < m /\ n >= 0 } requires { forall q. 0 <= q < m -> 0 <= c[q] < n }
    ensures { forall i. 0 <= i < k -> place c m i <> place c m j }
    variant { k }
  = if k > 0 then begin places_before c m n j (k-1); place_inj c m n (k-1) j end
  (* and every place is filled: the entry in place x of block v *)
  let rec ghost function nth (c: imap) (m v x: int) : int
    variant { m } = if m <= 0 then 0 else if c[m-1] = v && cnt c (m-1) v = x then m-1 else nth c (m-1) v x
  let rec ghost nth_ok (c: imap) (m v x: int)
    requires { 0 <= x < cnt c m v }
    ensures { 0 <= nth c m v x < m /\ c[nth c m v x] = v /\ cnt c (nth c m v x) v = x }
    variant { m }
  = if m > 0 && not (c[m-1] = v && cnt c (m-1) v = x) then nth_ok c (m-1) v x
  predicate sorted_keys (c: imap) (m n: int) = m >= 0 /\ n >= 0 /\ forall i. 0 <= i < m -> 0 <= c[i] < n
  let rec ghost csum_monos (c: imap) (m n: int)
    ensures { forall u v. 0 <= u <= v <= n -> csum c m u <= csum c m v }
    variant { n } = if n > 0 then begin csum_monos c m (n-1); csum_mono c m (n-1) n end

  (* offsets *)
  predicate offsets (p: imap) (n m: int) = n >= 0 /\ p[0] = 0 /\ p[n] = m /\ forall i. 0 <= i < n -> p[i] <= p[i+1]
  let rec ghost offsets_mono (p: imap) (n m i j: int)
    requires { offsets p n m /\ 0 <= i <= j <= n } ensures { p[i] <= p[j] }
    variant { j - i } = if i < j then offsets_mono p n m i (j-1)
  let rec ghost offsets_monos1 (p: imap) (n m k: int)
    requires { offsets p n m /\ k <= n }
    ensures { forall i j. 0 <= i <= j <= k -> p[i] <= p[j] }
    variant { k } = if k > 0 then offsets_monos1 p n m (k-1)
  let ghost offsets_monos (p: imap) (n m: int)
    requires { offsets p n m }
    ensures { forall i j. 0 <= i <= j <= n -> p[i] <= p[j] } ensures { forall i. 0 <= i <= n -> 0 <= p[i] <= m }
  = offsets_monos1 p n m n
  let ghost csum_offsets (c: imap) (m n: int)
    requires { m >= 0 /\ n >= 0 } requires { forall i. 0 <= i < m -> 0 <= c[i] < n }
    ensures { forall v. 0 <= v <= n -> 0 <= csum c m v <= m } ensures { csum c m n = m } ensures { forall u v. 0 <= u <= v <= n -> csum c m u <= csum c m v }
  = csum_all c m n; csum_monos c m n; assert { csum c m 0 = 0 }
  (* the column an entry belongs to *)
  let rec ghost function colof (p: imap) (n q: int) : int
    variant { n } = if n <= 0 then 0 else if p[n-1] <= q then n-1 else colof p (n-1) q
  let rec ghost colof_ok (p: imap) (n m k q: int)
    requires { offsets p n m /\ 0 <= k <= n /\ 0 <= q < p[k] }
    ensures { 0 <= colof p k q < k /\ p[colof p k q] <= q < p[colof p k q + 1] }
    variant { k } = if k > 0 && p[k-1] > q then colof_ok p n m (k-1) q
  let ghost colof_mono (p: imap) (n m a b: int)
    requires { offsets p n m /\ 0 <= a <= b < m }
    ensures { colof p n a <= colof p n b }
  = colof_ok p n m n a; colof_ok p n m n b;
    if colof p n a > colof p n b then offsets_mono p n m (colof p n b + 1) (colof p n a)
  (* out holds the columns of a stable rearrangement by the keys c *)
  predicate rearranged (c p out: imap) (m n w: int) =
    m >= 0 /\ n >= 0 /\ (forall i. 0 <= i < m -> 0 <= c[i] < n) /\ (m > 0 -> offsets p w m) /\
    forall i q. 0 <= i < w -> 0 <= q -> p[i] <= q < p[i+1] -> q < m -> out[place c m q] = i
  let ghost row_pair (c p out: imap) (m n w v x y: int)
    requires { rearranged c p out m n w /\ m > 0 /\ 0 <= v < n /\ csum c m v <= x <= y < csum c m (v+1) }
    ensures { out[x] <= out[y] }
  = nth_ok c m v (x - csum c m v); nth_ok c m v (y - csum c m v);
    let a = nth c m v (x - csum c m v) in let b = nth c m v (y - csum c m v) in
    if a > b then (cnt_lt c b a; cnt_mono c b a v);
    colof_ok p w m w a; colof_ok p w m w b; colof_mono p w m a b;
    assert { place c m a = x /\ place c m b = y };
    assert { out[place c m a] = colof p w a };
    assert { out[place c m b] = colof p w b }
  let rec ghost row_xs (c p out: imap) (m n w v y k: int)
    requires { rearranged c p out m n w /\ m > 0 /\ 0 <= v < n /\ csum c m v <= y < csum c m (v+1) /\ k <= y }
    ensures { forall x. csum c m v <= x <= k -> out[x] <= out[y] }
    variant { k - csum c m v + 1 }
  = if k >= csum c m v then begin row_xs c p out m n w v y (k-1); row_pair c p out m n w v k y end
  let rec ghost row_ys (c p out: imap) (m n w v k: int)
    requires { rearranged c p out m n w /\ m > 0 /\ 0 <= v < n /\ k < csum c m (v+1) }
    ensures { forall x y. csum c m v <= x <= y <= k -> out[x] <= out[y] }
    variant { k - csum c m v + 1 }
  = if k >= csum c m v then begin row_ys c p out m n w v (k-1); row_xs c p out m n w v k k end
  predicate row_sorted (c out: imap) (m v: int) = forall x y. csum c m v <= x <= y < csum c m (v+1) -> out[x] <= out[y]
  let rec ghost rows_sorted (c p out: imap) (m n w k: int)
    requires { rearranged c p out m n w /\ k <= n }
    ensures { forall v. 0 <= v < k -> row_sorted c out m v }
    variant { k }
  = if k > 0 then begin
      rows_sorted c p out m n w (k-1);
      if m > 0 then row_ys c p out m n w (k-1) (csum c m k - 1) else begin csum_nil c k; csum_nil c (k-1) end
    end
  (* the entry that lands in position x *)
  let rec ghost function entry_at (c: imap) (m x k: int) : int
    variant { k } = if k <= 0 then -1 else if place c m (k-1) = x then k-1 else entry_at c m x (k-1)
  let rec ghost entry_at_place1 (c: imap) (m n j k: int)
    requires { m >= 0 /\ n >= 0 } requires { forall i. 0 <= i < m -> 0 <= c[i] < n } requires { 0 <= j < k <= m }
    ensures { entry_at c m (place c m j) k = j }
    variant { k }
  = if k - 1 > j then begin place_inj c m n j (k-1); entry_at_place1 c m n j (k-1) end
  let ghost entry_at_place (c: imap) (m n j: int)
    requires { m >= 0 /\ n >= 0 } requires { forall i. 0 <= i < m -> 0 <= c[i] < n } requires { 0 <= j < m }
    ensures { entry_at c m (place c m j) m = j }
  = entry_at_place1 c m n j m
  (* columns built by placing the entries and sorting each column *)
  predicate placed (c r: imap) (w: map int 'a) (f: imap) (g: map int 'a) (m k: int) =
    forall q. 0 <= q < k -> f[place c m q] = r[q] /\ g[place c m q] = w[q]
  predicate colok (f: imap) (g: map int 'a) (o: imap) (u: map int 'a) (p: imap) (c: int) =
    sorted_le o p[c] p[c+1] /\ rearr f g o u p[c] p[c+1]
  let ghost colok_frame (f: imap) (g: map int 'a) (o: imap) (u: map int 'a) (o2: imap) (u2: map int 'a) (p: imap) (c: int)
    requires { colok f g o u p c } requires { forall x. p[c] <= x < p[c+1] -> o[x] = o2[x] /\ u[x] = u2[x] }
    ensures { colok f g o2 u2 p c }
  = assert { forall z. rearr_by z f g o u p[c] p[c+1] -> rearr_by z f g o2 u2 p[c] p[c+1] }
  let rec ghost colok_frames (f: imap) (g: map int 'a) (o: imap) (u: map int 'a) (o2: imap) (u2: map int 'a) (p: imap) (n m k: int)
    requires { offsets p n m /\ k <= n } requires { forall c. 0 <= c < k -> colok f g o u p c }
    requires { forall x. 0 <= x < p[k] -> o[x] = o2[x] /\ u[x] = u2[x] }
    ensures { forall c. 0 <= c < k -> colok f g o2 u2 p c }
    variant { k }
  = if k > 0 then begin offsets_mono p n m 0 (k-1); colok_frames f g o u o2 u2 p n m (k-1); colok_frame f g o u o2 u2 p (k-1) end
  let ghost colok_new (f: imap) (g: map int 'a) (f1: imap) (g1: map int 'a) (f2: imap) (g2: map int 'a) (o: imap) (u: map int 'a) (p: imap) (c: int)
    requires { forall x. p[c] <= x < p[c+1] -> f1[x] = f[x] /\ g1[x] = g[x] }
    requires { sorted_le f2 p[c] p[c+1] /\ rearr f1 g1 f2 g2 p[c] p[c+1] }
    requires { forall x. p[c] <= x < p[c+1] -> o[x] = f2[x] /\ u[x] = g2[x] }
    ensures { colok f g o u p c }
  = assert { forall z. rearr_by z f1 g1 f2 g2 p[c] p[c+1] -> rearr_by z f g o u p[c] p[c+1] }
end
