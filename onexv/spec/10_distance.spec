# ---------------------------------------------------------------------------
# Series as values, warped distance, lower bounds
# ---------------------------------------------------------------------------
%% type view = { vm : map int dbl; vo : int; vl : int }
%% function tv (t: int) : view = { vm = @dmem[(@TimeSeries.data[t]).pb]; vo = (@TimeSeries.data[t]).po + @TimeSeries.start[t]; vl = @TimeSeries.length[t] }
%% sym vat (v: view) (i: int) : dbl
%% axiom vat_def : forall v: view, i: int [vat v i]. vat v i = v.vm[v.vo + i]

# squared difference of two points
%% function pd (a b: view) (i j: int) : dbl = fmul (fsub (vat a i) (vat b j)) (fsub (vat a i) (vat b j))
%% axiom fmul_comm : forall x y: dbl [fmul x y]. fmul x y = fmul y x

# Sakoe-Chiba band
%% function rawband (len: int) (ratio: dbl) : int = trunc_int (ffloor (fmul (of_int len) ratio))
%% function band (len: int) (ratio: dbl) : int = min2 (rawband len ratio) (len - 1)
%% predicate ratio_ok = 0.0 <=. dv @gv_warpingBandRatio <=. 1.0
%% axiom trunc_floor : forall x: dbl [trunc_int (ffloor x)]. dv x >=. 0.0 -> trunc_int (ffloor x) = trunc_int x
%% axiom trunc_of_int : forall n: int [of_int n]. -9007199254740992 <= n <= 9007199254740992 -> trunc_int (of_int n) = n
%% axiom floor_fin : forall x: dbl [ffloor x]. fin x -> fin (ffloor x)
%% axiom band_arg : forall n: int, ratio: dbl [fmul (of_int n) ratio]. 0 <= n <= 2147483647 -> 0.0 <=. dv ratio <=. 1.0 ->
   0.0 <=. dv (fmul (of_int n) ratio) <=. from_int n
%% axiom band_raw : forall n: int, ratio: dbl [rawband n ratio]. 0 <= n <= 2147483647 -> 0.0 <=. dv ratio <=. 1.0 -> 0 <= rawband n ratio <= n

# Accumulated cost of the cheapest warping path to (i,j): the recurrence
%% sym cell (a b: view) (r i j: int) : dbl
%% axiom cell_out : forall a b: view, r i j: int [cell a b r i j]. i < 0 \/ j < 0 \/ i - j > r \/ j - i > r -> cell a b r i j = inf
%% axiom cell_start : forall a b: view, r: int [cell a b r 0 0]. r >= 0 -> cell a b r 0 0 = pd a b 0 0
%% assume cell_step (a b: view) (r i j: int) : unit
  requires { i >= 0 /\ j >= 0 /\ i - j <= r /\ j - i <= r /\ i + j > 0 }
  ensures { cell a b r i j = fadd (dmin (dmin (cell a b r (i-1) (j-1)) (cell a b r i (j-1))) (cell a b r (i-1) j)) (pd a b i j) }

%% function dnorm (c: dbl) (l: int) : dbl = fdiv (fsqrt c) (of_int (2 * l))
# the warped distance as a function of the two sequences
%% function dtw (a b: view) (ratio: dbl) : dbl =
  dnorm (cell a b (band (max2 a.vl b.vl) ratio) (a.vl - 1) (b.vl - 1)) (max2 a.vl b.vl)
# a cutoff after one round trip through its own normalisation
%% function icut (x: dbl) (l: int) : dbl = fmul (fmul (fmul x (of_int 2)) (of_int l)) (fmul (fmul x (of_int 2)) (of_int l))
%% function rcut (x: dbl) (l: int) : dbl = dnorm (icut x l) l

%% lemma cell_nonneg (a b: view) (r i j: int) : unit
  requires { r >= 0 }
  ensures { dv (cell a b r i j) >=. 0.0 }
  variant { i + j }
= if i >= 0 && j >= 0 && i - j <= r && j - i <= r && i + j > 0 then begin
    cell_step a b r i j;
    if i > 0 && j > 0 then cell_nonneg a b r (i-1) (j-1);
    if j > 0 then cell_nonneg a b r i (j-1);
    if i > 0 then cell_nonneg a b r (i-1) j end

# every path to a later row passes row i0: the minimum of that row bounds every later cell
%% lemma row_bound (a b: view) (r i0 i j: int) (lo: dbl) : unit
  requires { r >= 0 /\ 0 <= i0 <= i /\ 0 <= j }
  requires { forall k: int [cell a b r i0 k]. 0 <= k <= j -> dv lo <=. dv (cell a b r i0 k) }
  ensures { dv lo <=. dv (cell a b r i j) }
  variant { i + j }
= if i > i0 && i - j <= r && j - i <= r then begin
    cell_step a b r i j; cell_nonneg a b r (i-1) (j-1); cell_nonneg a b r i (j-1); cell_nonneg a b r (i-1) j;
    if j > 0 then begin row_bound a b r i0 (i-1) (j-1) lo; row_bound a b r i0 i (j-1) lo end;
    row_bound a b r i0 (i-1) j lo end

# ---- C01: the recurrence is the minimum over all warping paths
# a path of k steps visits (p i, q i) for 0 <= i <= k
%% predicate wpath (r: int) (p q: map int int) (k: int) =
  k >= 0 /\ p[0] = 0 /\ q[0] = 0 /\ (forall i: int [p[i]|q[i]]. 0 <= i <= k -> p[i] >= 0 /\ q[i] >= 0 /\ p[i] - q[i] <= r /\ q[i] - p[i] <= r)
  /\ (forall i: int. 0 <= i < k -> (p[i+1] = p[i] + 1 /\ q[i+1] = q[i] + 1) \/ (p[i+1] = p[i] + 1 /\ q[i+1] = q[i]) \/ (p[i+1] = p[i] /\ q[i+1] = q[i] + 1))
%% sym pcost (a b: view) (p q: map int int) (k: int) : dbl
%% axiom pcost_zero : forall a b: view, p q: map int int [pcost a b p q 0]. pcost a b p q 0 = pd a b p[0] q[0]
%% assume pcost_step (a b: view) (p q: map int int) (k: int) : unit
  requires { k > 0 } ensures { pcost a b p q k = fadd (pcost a b p q (k-1)) (pd a b p[k] q[k]) }
%% lemma pcost_nonneg (a b: view) (p q: map int int) (k: int) : unit
  requires { k >= 0 } ensures { dv (pcost a b p q k) >=. 0.0 } variant { k }
= if k > 0 then begin pcost_step a b p q k; pcost_nonneg a b p q (k-1) end
%% lemma c01_no_path_is_cheaper (a b: view) (r: int) (p q: map int int) (k: int) : unit
  requires { wpath r p q k /\ r >= 0 }
  ensures { [@expl:C01|lemma|no path inside the band costs less than the computed cell] dv (cell a b r p[k] q[k]) <=. dv (pcost a b p q k) }
  variant { k }
= if k > 0 then begin
    let i = pure { p[k] } in let j = pure { q[k] } in
    pcost_step a b p q k; c01_no_path_is_cheaper a b r p q (k-1); pcost_nonneg a b p q (k-1);
    cell_nonneg a b r (i-1) (j-1); cell_nonneg a b r i (j-1); cell_nonneg a b r (i-1) j;
    assert { (p[k-1] = i-1 /\ q[k-1] = j-1) \/ (p[k-1] = i-1 /\ q[k-1] = j) \/ (p[k-1] = i /\ q[k-1] = j-1) };
    cell_step a b r i j end
%% lemma pcost_ext (a b: view) (p q p2 q2: map int int) (k: int) : unit
  requires { k >= 0 /\ forall i: int. 0 <= i <= k -> p[i] = p2[i] /\ q[i] = q2[i] }
  ensures { pcost a b p q k = pcost a b p2 q2 k } variant { k }
= if k > 0 then begin pcost_step a b p q k; pcost_step a b p2 q2 k; pcost_ext a b p q p2 q2 (k-1) end
%% lemma extend_path (a b: view) (r: int) (p q: map int int) (k i j: int) : (p2: map int int, q2: map int int)
  requires { wpath r p q k /\ i - j <= r /\ j - i <= r /\ ((i = p[k] + 1 /\ j = q[k] + 1) \/ (i = p[k] + 1 /\ j = q[k]) \/ (i = p[k] /\ j = q[k] + 1)) }
  ensures { wpath r p2 q2 (k+1) /\ p2[k+1] = i /\ q2[k+1] = j /\ pcost a b p2 q2 (k+1) = fadd (pcost a b p q k) (pd a b i j) }
= let p2 = pure { p[k+1 <- i] } in let q2 = pure { q[k+1 <- j] } in
  pcost_ext a b p q p2 q2 k; pcost_step a b p2 q2 (k+1); (p2, q2)
%% sym zeros : map int int
%% axiom zeros_def : forall i: int [zeros[i]]. zeros[i] = 0
%% lemma c01_some_path_attains (a b: view) (r i j: int) : (p: map int int, q: map int int, k: int)
  requires { r >= 0 /\ i >= 0 /\ j >= 0 /\ i - j <= r /\ j - i <= r }
  ensures { [@expl:C01|lemma|some path inside the band costs as much as the computed cell] wpath r p q k /\ p[k] = i /\ q[k] = j
     /\ pcost a b p q k = cell a b r i j }
  variant { i + j }
= if i = 0 && j = 0 then (zeros, zeros, 0)
  else begin
    cell_step a b r i j;
    cell_nonneg a b r (i-1) (j-1); cell_nonneg a b r i (j-1); cell_nonneg a b r (i-1) j;
    let c11 = cell a b r (i-1) (j-1) in let c01 = cell a b r i (j-1) in let c10 = cell a b r (i-1) j in
    let (i2, j2) = if i > 0 && j > 0 && (fle c11 c01 || i - (j-1) > r) && (fle c11 c10 || j - (i-1) > r) then (i-1, j-1)
      else if i = 0 || (j > 0 && fle c01 c10 && i - (j-1) <= r) || j - (i-1) > r then (i, j-1) else (i-1, j) in
    let (p, q, k) = c01_some_path_attains a b r i2 j2 in
    let (p2, q2) = extend_path a b r p q k i j in (p2, q2, k+1)
  end

# ---- symmetry and identity (C18)
%% lemma cell_sym (a b: view) (r i j: int) : unit
  ensures { [@expl:C18|lemma|accumulated cost does not depend on the order of the series] cell a b r i j = cell b a r j i }
  variant { i + j }
= if i >= 0 && j >= 0 && i - j <= r && j - i <= r then begin
    if i + j > 0 then begin
      cell_step a b r i j; cell_step b a r j i;
      if i > 0 && j > 0 then cell_sym a b r (i-1) (j-1);
      if j > 0 then cell_sym a b r i (j-1);
      if i > 0 then cell_sym a b r (i-1) j end
    else assert { cell a b r i j = pd a b 0 0 /\ cell b a r j i = pd b a 0 0 } end
%% lemma c18_dtw_sym (a b: view) (ratio: dbl) : unit
  ensures { [@expl:C18|lemma|warped distance is symmetric] dtw a b ratio = dtw b a ratio }
= cell_sym a b (band (max2 a.vl b.vl) ratio) (a.vl - 1) (b.vl - 1)
%% lemma cell_diag (a b: view) (r i: int) : unit
  requires { 0 <= i < a.vl /\ r >= 0 /\ forall k: int [vat a k]. 0 <= k < a.vl -> vat a k = vat b k /\ fin (vat a k) }
  ensures { dv (cell a b r i i) = 0.0 }
  variant { i }
= if i > 0 then begin
    cell_step a b r i i; cell_diag a b r (i-1);
    cell_nonneg a b r (i-1) (i-1); cell_nonneg a b r i (i-1); cell_nonneg a b r (i-1) i; cell_nonneg a b r i i;
    assert { vat a i = vat b i /\ dv (pd a b i i) = 0.0 }
  end else assert { vat a 0 = vat b 0 /\ dv (pd a b 0 0) = 0.0 }
%% lemma c18_dtw_zero (a b: view) (ratio: dbl) : unit
  requires { 0 < a.vl <= 2147483647 /\ a.vl = b.vl /\ 0.0 <=. dv ratio <=. 1.0 }
  requires { forall k: int [vat a k]. 0 <= k < a.vl -> vat a k = vat b k /\ fin (vat a k) }
  ensures { [@expl:C18|lemma|warped distance of equal series is zero] dv (dtw a b ratio) = 0.0 }
= cell_diag a b (band (max2 a.vl b.vl) ratio) (a.vl - 1)
%% lemma c18_dtw_nonneg (a b: view) (ratio: dbl) : unit
  requires { 0 < a.vl <= 2147483647 /\ 0 < b.vl <= 2147483647 /\ 0.0 <=. dv ratio <=. 1.0 }
  ensures { [@expl:C18|lemma|warped distance is not negative] dv (dtw a b ratio) >=. 0.0 }
= cell_nonneg a b (band (max2 a.vl b.vl) ratio) (a.vl - 1) (b.vl - 1)

fn calculateWarpingBandSize (length)
  requires [ratio in range] { ratio_ok }
  requires [length is positive] { 0 < p_length <= 2147483647 }
  ensures C01,C02,C03,C04,C07,C08,C18 [the band is the capped product of ratio and length] { result = band p_length @gv_warpingBandRatio }
  noraise

fn warpedDistance (a, b, dropout)
  requires [the series have valid storage] { ts_ok p_a /\ ts_ok p_b }
  requires [the series are not empty] { @TimeSeries.length[p_a] > 0 /\ @TimeSeries.length[p_b] > 0 }
  requires [ratio in range] { ratio_ok }
  requires [the cutoff is not negative] { dv p_dropout >=. 0.0 }
  ensures C01,C18 [without a cutoff the result is the banded warping distance] { p_dropout = inf -> result = dtw (tv p_a) (tv p_b) @gv_warpingBandRatio }
  ensures C02,C07 [the result is exact or the exact value is not below the cutoff]
    { result = dtw (tv p_a) (tv p_b) @gv_warpingBandRatio \/
      (result = inf /\ dv (rcut p_dropout (max2 @TimeSeries.length[p_a] @TimeSeries.length[p_b])) <=. dv (dtw (tv p_a) (tv p_b) @gv_warpingBandRatio)) }
  ensures C18 [the result is not negative] { dv result >=. 0.0 }
  noraise
  exit { cell_nonneg (tv p_a) (tv p_b) (band (max2 @TimeSeries.length[p_a] @TimeSeries.length[p_b]) @gv_warpingBandRatio) (@TimeSeries.length[p_a] - 1) (@TimeSeries.length[p_b] - 1) }
  loop 1
  invariant [first column counter] { 1 <= $i /\ ($i <= $r + 1 \/ $i = 1) /\ $i <= $m }
  invariant [first column holds the accumulated costs] { forall k: int. 0 <= k < $i -> mc $cost k 0 = cell (tv p_a) (tv p_b) $r k 0 }
  invariant [end cell preset] { in_band $r ($m - 1) ($n - 1) \/ mc $cost ($m - 1) ($n - 1) = inf }
  variant { $m - $i }
  modifies vec_dbl: { $cost < o_ <= $cost + @TimeSeries.length[p_a] }
  end { cell_step (tv p_a) (tv p_b) $r $i 0 }
  loop 2
  invariant [first row counter] { 1 <= $j /\ ($j <= $r + 1 \/ $j = 1) /\ $j <= $n }
  invariant [first row holds the accumulated costs] { forall k: int. 0 <= k < $j -> mc $cost 0 k = cell (tv p_a) (tv p_b) $r 0 k }
  invariant [first column stays] { forall k: int. 0 <= k < $m -> k <= $r -> mc $cost k 0 = cell (tv p_a) (tv p_b) $r k 0 }
  invariant [end cell preset] { in_band $r ($m - 1) ($n - 1) \/ mc $cost ($m - 1) ($n - 1) = inf }
  variant { $n - $j }
  modifies vec_dbl: { $cost < o_ <= $cost + @TimeSeries.length[p_a] }
  end { cell_step (tv p_a) (tv p_b) $r 0 $j }
  loop 3
  invariant [row counter] { 1 <= $i <= $m }
  invariant [not dropped so far] { $dropped = false }
  invariant [finished rows hold the accumulated costs] { forall x y: int. 0 <= x < $i -> 0 <= y < $n -> in_band $r x y -> mc $cost x y = cell (tv p_a) (tv p_b) $r x y }
  invariant [first column stays] { forall k: int. 0 <= k < $m -> k <= $r -> mc $cost k 0 = cell (tv p_a) (tv p_b) $r k 0 }
  invariant [end cell preset] { in_band $r ($m - 1) ($n - 1) \/ mc $cost ($m - 1) ($n - 1) = inf }
  variant { $m - $i }
  modifies vec_dbl: { $cost < o_ <= $cost + @TimeSeries.length[p_a] }
  loop 4
  invariant [column counter] { 0 <= $j /\ $i - $r <= $j /\ ($j <= $i + $r + 1) /\ ($j <= $n \/ $j <= $i - $r) }
  invariant [finished rows hold the accumulated costs] { forall x y: int. 0 <= x < $i -> 0 <= y < $n -> in_band $r x y -> mc $cost x y = cell (tv p_a) (tv p_b) $r x y }
  invariant [finished part of the row holds the accumulated costs] { forall y: int. 0 <= y < $j -> y < $n -> in_band $r $i y -> mc $cost $i y = cell (tv p_a) (tv p_b) $r $i y }
  invariant [first column stays] { forall k: int. 0 <= k < $m -> k <= $r -> mc $cost k 0 = cell (tv p_a) (tv p_b) $r k 0 }
  invariant [end cell preset] { in_band $r ($m - 1) ($n - 1) \/ mc $cost ($m - 1) ($n - 1) = inf }
  invariant [best value of the row so far] { forall y: int [cell (tv p_a) (tv p_b) $r $i y]. 0 <= y < $j -> y < $n -> dv $bestSoFar <=. dv (cell (tv p_a) (tv p_b) $r $i y) }
  variant { $n - $j }
  modifies vec_dbl: { $cost < o_ <= $cost + @TimeSeries.length[p_a] }
  begin { cell_step (tv p_a) (tv p_b) $r $i $j;
    cell_nonneg (tv p_a) (tv p_b) $r ($i - 1) ($j - 1); cell_nonneg (tv p_a) (tv p_b) $r ($i - 1) $j; cell_nonneg (tv p_a) (tv p_b) $r $i ($j - 1) }
  after { row_bound (tv p_a) (tv p_b) $r $i ($m - 1) ($n - 1) $bestSoFar }

%% function mc (c i j: int) : dbl = @v_dbl[@v_v_dbl[c][i]][j]
%% predicate in_band (r i j: int) = i - j <= r /\ j - i <= r
%% axiom fmul_inf : forall y: dbl [fmul inf y]. dv y >. 0.0 -> fmul inf y = inf
