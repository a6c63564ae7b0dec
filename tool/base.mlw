module Base
  use export int.Int
  use export int.EuclideanDivision
  use export int.MinMax
  use export ref.Ref
  use export map.Map
  use export option.Option

  type nt
  function mulf nt nt : nt
  function addf nt nt : nt
  function nt_plus nt nt : nt
  function nt_times nt nt : nt
  function nt_minus nt nt : nt
  function nt_of_int int : nt
  constant nt_ff : nt
  constant nt_zero : nt = nt_of_int 0
  constant nt_arb : nt

  type imap = map int int
  type vmap = map int nt
  type bmap = map int bool

  function band int int : int
  function bor int int : int
  function shl int int : int
  function shr int int : int
  function lcm int int : int
  axiom lcm_pos : forall a b. a > 0 -> b > 0 -> lcm a b > 0 /\ mod (lcm a b) a = 0 /\ mod (lcm a b) b = 0
  (* a & (2^k - 1), the only masks the code uses: see pow2mask *)
  predicate is_pow2 int
  axiom band_mask : forall h m [band h (m-1)]. is_pow2 m -> h >= 0 -> 0 <= band h (m-1) < m /\ band h (m-1) = mod h m
  axiom pow2_16: is_pow2 16
  axiom pow2_double: forall m [is_pow2 (2*m)]. is_pow2 m -> is_pow2 (2*m)
  axiom pow2_pos : forall m [is_pow2 m]. is_pow2 m -> m >= 1

  let rec ghost function sum (m: imap) (lo hi: int) : int
    variant { hi - lo } = if hi <= lo then 0 else sum m lo (hi-1) + m[hi-1]

  val ghost std_copy (d: ref (map int 'a)) (o: int) (s: map int 'a) (lo hi: int) : unit
    writes { d }
    ensures { forall i. !d[i] = (if o <= i < o + (hi - lo) then s[lo + (i - o)] else (old !d)[i]) }
  val ghost std_fill (d: ref (map int 'a)) (lo hi: int) (v: 'a) : unit
    writes { d }
    ensures { forall i. !d[i] = (if lo <= i < hi then v else (old !d)[i]) }
  val ghost std_havoc (d: ref (map int 'a)) (lo hi: int) : unit
    writes { d }
    ensures { forall i. not (lo <= i < hi) -> !d[i] = (old !d)[i] }
  (* std::lower_bound on a range partitioned with respect to < v *)
  predicate sorted_le (m: imap) (lo hi: int) = forall i j. lo <= i <= j < hi -> m[i] <= m[j]
  let rec ghost function lbnd (m: imap) (lo hi v: int) : int
    variant { hi - lo }
  = if hi <= lo then lo else if m[hi-1] < v then hi else lbnd m lo (hi-1) v
  val ghost std_lower_bound (m: imap) (lo hi v: int) : int
    requires { lo <= hi /\ sorted_le m lo hi }
    ensures { lo <= result <= hi }
    ensures { forall i. lo <= i < result -> m[i] < v }
    ensures { forall i. result <= i < hi -> v <= m[i] }
    ensures { result = lbnd m lo hi v }
  predicate is_in (c: imap) (lo hi x: int) = exists i. lo <= i < hi /\ c[i] = x
  predicate distinct (c: imap) (lo hi: int) = forall i j. lo <= i < j < hi -> c[i] <> c[j]
  predicate sorted_lt (m: imap) (lo hi: int) = forall i j. lo <= i < j < hi -> m[i] < m[j]
  (* std::sort: a sorted rearrangement *)
  val ghost std_sort (m: ref imap) (lo hi: int) : unit
    requires { lo <= hi }
    writes { m }
    ensures { sorted_le !m lo hi }
    ensures { forall i. not (lo <= i < hi) -> !m[i] = (old !m)[i] }
    ensures { forall x. is_in !m lo hi x <-> is_in (old !m) lo hi x }
    ensures { distinct (old !m) lo hi -> distinct !m lo hi }
  (* std::sort of (key, value) pairs: the same pairs, ordered by key *)
  predicate rearr_by (p: imap) (f: imap) (g: map int 'a) (f2: imap) (g2: map int 'a) (lo hi: int) =
    (forall x. lo <= x < hi -> lo <= p[x] < hi /\ f2[x] = f[p[x]] /\ g2[x] = g[p[x]]) /\ (forall x y. lo <= x < y < hi -> p[x] <> p[y])
  predicate rearr (f: imap) (g: map int 'a) (f2: imap) (g2: map int 'a) (lo hi: int) = exists p: imap. rearr_by p f g f2 g2 lo hi
  val ghost std_sort_pairs (f: ref imap) (g: ref (map int 'a)) (lo hi: int) : unit
    requires { lo <= hi }
    writes { f, g }
    ensures { sorted_le !f lo hi }
    ensures { forall i. not (lo <= i < hi) -> !f[i] = (old !f)[i] /\ !g[i] = (old !g)[i] }
    ensures { rearr (old !f) (old !g) !f !g lo hi }
  val ghost std_sort_perm (m: ref imap) (lo hi: int) : unit
    requires { lo <= hi }
    writes { m }
    ensures { sorted_le !m lo hi }
    ensures { forall i. not (lo <= i < hi) -> !m[i] = (old !m)[i] }
    ensures { rearr (old !m) (old !m) !m !m lo hi }
  val ghost some_team_size () : int ensures { 1 <= result <= 65536 }
  val ghost some_thread (n: int) : int requires { 1 <= n } ensures { 0 <= result < n }
  val ghost absurd_thread_end () : unit ensures { false }
end
