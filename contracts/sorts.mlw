module Sorts
  use base.Base
  predicate sorted_ge (m: imap) (lo hi: int) = forall i j. lo <= i < j < hi -> m[j] <= m[i]
  let ghost function idmap () : imap = fun x -> x
  let lemma rearr_refl (f: imap) (g: map int 'a) (lo hi: int)
    ensures { rearr f g f g lo hi }
  = assert { rearr_by (fun x -> x) f g f g lo hi }
  let ghost function fl (m r q: int) : int = if q <= m then q else m + 1 + r - q
  let ghost function comp (z p: imap) (l m r: int) : imap = fun x -> if l <= x <= r then z[fl m r p[x]] else z[x]
  (* both halves are copied, the second one backwards, and come back in the order p *)
  let ghost merge_rearr (kb: imap) (vb: map int 'a) (k2: imap) (v2: map int 'a) (k3: imap) (v3: map int 'a) (p: imap) (l m r lo hi: int)
    requires { rearr kb vb k2 v2 lo hi } requires { lo <= l <= m < r < hi }
    requires { forall x. l <= x <= r -> l <= p[x] <= r /\ k3[x] = k2[fl m r p[x]] /\ v3[x] = v2[fl m r p[x]] }
    requires { forall x y. l <= x < y <= r -> p[x] <> p[y] }
    requires { forall x. not (l <= x <= r) -> k3[x] = k2[x] /\ v3[x] = v2[x] }
    ensures { rearr kb vb k3 v3 lo hi }
  = assert { forall x. l <= x <= r -> l <= fl m r p[x] <= r };
    assert { forall x y. l <= x < y <= r -> fl m r p[x] <> fl m r p[y] };
    assert { forall z. rearr_by z kb vb k2 v2 lo hi -> (forall x. lo <= x < hi -> lo <= (comp z p l m r)[x] < hi /\ k3[x] = kb[(comp z p l m r)[x]] /\ v3[x] = vb[(comp z p l m r)[x]]) };
    assert { forall z. rearr_by z kb vb k2 v2 lo hi -> forall x y. lo <= x <= hi -> lo <= y < hi -> x < hi -> x <> y -> z[x] <> z[y] };
    assert { forall z. rearr_by z kb vb k2 v2 lo hi -> (forall x y. lo <= x < y < hi -> (comp z p l m r)[x] <> (comp z p l m r)[y]) };
    assert { forall z. rearr_by z kb vb k2 v2 lo hi -> rearr_by (comp z p l m r) kb vb k3 v3 lo hi }
  predicate taken (i j l r q: int) = l <= q < i \/ j < q <= r
end
module Rows
  use base.Base
  use convs.Conv
  let rec ghost sorted_shift (f k2: imap) (lo n: int)
    requires { 0 <= n /\ sorted_le f 0 n /\ forall x. lo <= x < lo + n -> k2[x] = f[x - lo] }
    ensures { sorted_le k2 lo (lo + n) }
    variant { n }
  = if n > 0 then sorted_shift f k2 lo (n-1)
  (* a row copied out, sorted as pairs, and copied back *)
  let ghost rearr_shift (k1: imap) (v1: map int 'a) (f0: imap) (g0: map int 'a) (f: imap) (g: map int 'a) (k2: imap) (v2: map int 'a) (lo n: int)
    requires { 0 <= n /\ (forall x. 0 <= x < n -> f0[x] = k1[lo + x] /\ g0[x] = v1[lo + x]) /\ rearr f0 g0 f g 0 n }
    requires { forall x. lo <= x < lo + n -> k2[x] = f[x - lo] /\ v2[x] = g[x - lo] }
    ensures { rearr k1 v1 k2 v2 lo (lo + n) }
  = assert { forall z. rearr_by z f0 g0 f g 0 n -> forall x. lo <= x < lo + n -> 0 <= z[x - lo] < n /\ k2[x] = f0[z[x - lo]] /\ v2[x] = g0[z[x - lo]] };
    assert { forall z. rearr_by z f0 g0 f g 0 n -> rearr_by (fun x -> lo + z[x - lo]) k1 v1 k2 v2 lo (lo + n) }
  let ghost row_sorted_back (k0: imap) (v0: map int 'a) (k1: imap) (v1: map int 'a) (f0: imap) (g0: map int 'a) (f: imap) (g: map int 'a) (k2: imap) (v2: map int 'a) (p: imap) (c: int)
    requires { p[c] <= p[c+1] /\ forall x. p[c] <= x < p[c+1] -> k1[x] = k0[x] /\ v1[x] = v0[x] }
    requires { forall x. 0 <= x < p[c+1] - p[c] -> f0[x] = k1[p[c] + x] /\ g0[x] = v1[p[c] + x] }
    requires { sorted_le f 0 (p[c+1] - p[c]) /\ rearr f0 g0 f g 0 (p[c+1] - p[c]) }
    requires { forall x. p[c] <= x < p[c+1] -> k2[x] = f[x - p[c]] /\ v2[x] = g[x - p[c]] }
    ensures { colok k0 v0 k2 v2 p c }
  = sorted_shift f k2 p[c] (p[c+1] - p[c]); rearr_shift k0 v0 f0 g0 f g k2 v2 p[c] (p[c+1] - p[c])
end
