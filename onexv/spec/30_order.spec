# ---------------------------------------------------------------------------
# Lengths that can be compared with a query
# ---------------------------------------------------------------------------
%% function gap (l q: int) : int = if l >= q then l - q else q - l
# the band of the longer one permits an alignment
%% predicate compat (l q: int) (ratio: dbl) = gap l q <= band (max2 l q) ratio
# lengths up to 2^26: the rounded product of ratio and length grows by at most one whole step per element (ratio at most 1)
%% axiom band_step : forall n: int, ratio: dbl [rawband n ratio]. 0 <= n <= 67108863 -> 0.0 <=. dv ratio <=. 1.0 -> rawband (n + 1) ratio <= rawband n ratio + 1
%% lemma compat_up (q h l: int) (ratio: dbl) : unit
  requires { 2 <= q <= h <= l <= 67108863 /\ 0.0 <=. dv ratio <=. 1.0 /\ not compat h q ratio }
  ensures { not compat l q ratio }
  variant { l }
= if l > h then begin compat_up q h (l - 1) ratio; band_raw_at l ratio; band_raw_at (l - 1) ratio end
%% lemma compat_up_all (q h t: int) (ratio: dbl) : unit
  requires { 2 <= q <= h /\ t <= 67108863 /\ 0.0 <=. dv ratio <=. 1.0 /\ not compat h q ratio }
  ensures { forall l: int [compat l q ratio]. h <= l <= t -> not compat l q ratio }
  variant { t - h + 1 }
= if h <= t then begin if t > h then compat_up_all q h (t - 1) ratio; compat_up q h t ratio end
%% lemma band_raw_at (n: int) (ratio: dbl) : unit
  requires { 1 <= n <= 67108863 /\ 0.0 <=. dv ratio <=. 1.0 }
  ensures { rawband n ratio <= rawband (n - 1) ratio + 1 /\ 0 <= rawband n ratio }
= ()
%% predicate all_compat (v: map int int) (n q t: int) (ratio: dbl) = forall k: int [v[k]]. 0 <= k < n -> 2 <= v[k] <= t /\ compat v[k] q ratio
%% predicate distinct_upto (v: map int int) (n: int) = forall j k: int [v[j], v[k]]. 0 <= j < k < n -> v[j] <> v[k]
%% opaque holds_all (v: map int int) (n q t lo hi: int) (ratio: dbl) = forall l: int [compat l q ratio]. lo < l < hi -> 2 <= l <= t -> compat l q ratio -> exists k: int. 0 <= k < n /\ v[k] = l
%% lemma holds_first (w: map int int) (m q t: int) (ratio: dbl) : unit
  requires { q > t \/ (m = 1 /\ w[0] = q) }
  ensures { holds_all w m q t (q - 1) (q + 1) ratio }
= holds_all_def w m q t (q - 1) (q + 1) ratio
# one length more at either end, added when it is within the dataset
%% lemma holds_grow (v w: map int int) (n m q t lo hi lo2 hi2: int) (ratio: dbl) : unit
  requires { holds_all v n q t lo hi ratio /\ 0 <= n <= m /\ forall k: int [v[k]|w[k]]. 0 <= k < n -> w[k] = v[k] }
  requires { lo2 = lo \/ (lo2 = lo - 1 /\ (lo > t \/ (m > n /\ w[n] = lo))) }
  requires { hi2 = hi \/ (hi2 = hi + 1 /\ (hi > t \/ (m > n /\ w[m - 1] = hi))) }
  ensures { holds_all w m q t lo2 hi2 ratio }
= holds_all_def v n q t lo hi ratio; holds_all_def w m q t lo2 hi2 ratio
%% lemma holds_every (v: map int int) (n q t lo hi: int) (ratio: dbl) : unit
  requires { holds_all v n q t lo hi ratio /\ 2 <= q <= 67108862 /\ lo < q < hi /\ t <= 67108862 /\ 0.0 <=. dv ratio <=. 1.0 }
  requires { (lo < 2 \/ not compat lo q ratio) /\ (hi > t \/ not compat hi q ratio) }
  ensures { forall l: int. 2 <= l <= t -> compat l q ratio -> exists k: int. 0 <= k < n /\ v[k] = l }
= holds_all_def v n q t lo hi ratio; if hi <= t then compat_up_all q hi t ratio

fn generateTraverseOrder (queryLength, totalLength)
  requires [ratio in range] { ratio_ok }
  requires [the query has at least two values] { 2 <= p_queryLength <= 67108862 /\ p_totalLength <= 67108862 }
  ensures C08,C07 [only lengths of the dataset that the band permits] { all_compat @v_int[result] @n_int[result] p_queryLength p_totalLength @gv_warpingBandRatio }
  ensures C08,C07 [every such length] { forall l: int. 2 <= l <= p_totalLength -> compat l p_queryLength @gv_warpingBandRatio -> exists k: int. 0 <= k < @n_int[result] /\ @v_int[result][k] = l }
  ensures C08 [each length once] { distinct_upto @v_int[result] @n_int[result] }
  ensures C19 [a new vector] { not (old @alive)[result] /\ @alive[result] /\ @n_int[result] >= 0 }
  noraise
  loop 1
  before { let ghost ord = pure { $order } in let ghost ratio = pure { @gv_warpingBandRatio } in
    holds_first (pure { @v_int[ord] }) (pure { @n_int[ord] }) p_queryLength p_totalLength ratio }
  invariant [range of the scan] { 1 <= $low < p_queryLength < $high <= max2 p_totalLength p_queryLength + 1 /\ @n_int[ord] >= 0 }
  invariant [the scan stops where the band ends] { ($lowStop -> $low < 2 \/ not compat $low p_queryLength @gv_warpingBandRatio) /\ ($highStop -> $high > p_totalLength \/ not compat $high p_queryLength @gv_warpingBandRatio) }
  invariant [only permitted lengths] { all_compat @v_int[ord] @n_int[ord] p_queryLength p_totalLength @gv_warpingBandRatio }
  invariant [inside the scanned range] { forall k: int [@v_int[ord][k]]. 0 <= k < @n_int[ord] -> $low < @v_int[ord][k] < $high }
  invariant [each length once] { distinct_upto @v_int[ord] @n_int[ord] }
  invariant [every permitted length so far] { holds_all @v_int[ord] @n_int[ord] p_queryLength p_totalLength $low $high @gv_warpingBandRatio }
  modifies vec: { o_ = ord }
  variant { $low + (if $high > p_totalLength then 0 else p_totalLength + 1 - $high) + (if $lowStop then 0 else 1) + (if $highStop then 0 else 1) }
  begin { let ghost v0 = pure { @v_int[ord] } in let ghost n0 = pure { @n_int[ord] } in let ghost lo0 = $low in let ghost hi0 = $high in }
  end { holds_grow v0 (pure { @v_int[ord] }) n0 (pure { @n_int[ord] }) p_queryLength p_totalLength lo0 hi0 $low $high ratio }
  after { holds_every (pure { @v_int[ord] }) (pure { @n_int[ord] }) p_queryLength p_totalLength $low $high ratio }
