# ---------------------------------------------------------------------------
# Datasets
# ---------------------------------------------------------------------------
%% predicate ds_cls (s: int) = cls s = cls_TimeSeriesSet \/ cls s = cls_GroupableTimeSeriesSet
%% predicate ds_ok (s: int) = s > 0 /\ @alive[s] /\ ds_cls s /\ 0 <= @TimeSeriesSet.itemLength[s] <= 268435455 /\ 0 <= @TimeSeriesSet.itemCount[s]
  /\ @TimeSeriesSet.itemCount[s] * @TimeSeriesSet.itemLength[s] <= 2147483647 /\ ds_data s
  /\ (if @TimeSeriesSet.data[s] = null_ptr then @TimeSeriesSet.itemCount[s] = 0 /\ @TimeSeriesSet.itemLength[s] = 0
      else @TimeSeriesSet.itemCount[s] > 0 /\ @TimeSeriesSet.itemLength[s] > 0)
# the values are an array that belongs to this dataset
%% predicate ds_data (s: int) = @TimeSeriesSet.data[s] = null_ptr \/
   ((@TimeSeriesSet.data[s]).pb <> 0 /\ (@TimeSeriesSet.data[s]).po = 0 /\ @dkind[(@TimeSeriesSet.data[s]).pb] = 1 /\ @bown[(@TimeSeriesSet.data[s]).pb] = s
    /\ @TimeSeriesSet.itemCount[s] * @TimeSeriesSet.itemLength[s] <= @dlen[(@TimeSeriesSet.data[s]).pb])
%% function dsn (s: int) : int = @TimeSeriesSet.itemCount[s] * @TimeSeriesSet.itemLength[s]
%% function dsm (s: int) : map int dbl = @dmem[(@TimeSeriesSet.data[s]).pb]
%% predicate ds_fin (s: int) = forall k: int [(dsm s)[k]]. 0 <= k < dsn s -> fin (dsm s)[k]
# facts about rows of equal length
%% lemma row_in (r c n l: int) : unit
  requires { 0 <= r < n /\ 0 <= c <= l }
  ensures { 0 <= r * l /\ r * l + l <= n * l /\ r * l + c <= n * l }
= assert { (r + 1) * l <= n * l }
%% lemma rows_below (s l: int) : unit
  requires { l >= 0 }
  ensures { forall r: int [r * l]. 0 <= r < s -> 0 <= r * l /\ r * l + l <= s * l }
= assert { forall r: int [r * l]. 0 <= r < s -> (r + 1) * l <= s * l }
%% lemma mul_pos (a b: int) : unit
  requires { a >= 0 /\ b >= 0 } ensures { a * b >= 0 }
= ()

fn TimeSeriesSet::TimeSeriesSet ()
  requires [the object is live] { this > 0 /\ @alive[this] /\ ds_cls this }
  ensures C14,C19 [a new dataset is empty] { ds_ok this /\ @TimeSeriesSet.data[this] = null_ptr /\ @TimeSeriesSet.normalized[this] = false }
  noraise
fn TimeSeriesSet::clearData ()
  requires C19 [the dataset owns its values] { this > 0 /\ @alive[this] /\ ds_cls this /\ ds_data this }
  ensures C11,C14,C16 [the dataset is empty] { ds_ok this /\ @TimeSeriesSet.data[this] = null_ptr /\ @TimeSeriesSet.normalized[this] = false }
  ensures C19 [the values are released] { (old @TimeSeriesSet.data[this]).pb <> 0 -> @dkind[(old @TimeSeriesSet.data[this]).pb] = 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  modifies TimeSeriesSet: this
  modifies own: { o_ <> 0 /\ o_ = (@TimeSeriesSet.data[this]).pb }
  noraise
fn TimeSeriesSet::~TimeSeriesSet ()
  requires C19 [the dataset owns its values] { this > 0 /\ @alive[this] /\ ds_cls this /\ ds_data this }
  ensures C19 [the values are released] { (old @TimeSeriesSet.data[this]).pb <> 0 -> @dkind[(old @TimeSeriesSet.data[this]).pb] = 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  modifies TimeSeriesSet: this
  modifies own: { o_ <> 0 /\ o_ = (@TimeSeriesSet.data[this]).pb }
  noraise

# a series that shows positions a..e-1 of row i of dataset s
%% predicate ts_row (t s i a e: int) = @TimeSeries.data[t] = { pb = (@TimeSeriesSet.data[s]).pb; po = i * @TimeSeriesSet.itemLength[s] } /\ @TimeSeries.index[t] = i
  /\ @TimeSeries.start[t] = a /\ @TimeSeries.end[t] = e /\ @TimeSeries.length[t] = e - a /\ @TimeSeries.isOwnerOfData[t] = false
fn TimeSeriesSet::getTimeSeries (index, start, end)
  requires [the dataset is valid] { ds_ok this }
  ensures C07,C15 [exactly the requested values] { not (old @alive)[result] /\ result > 0 /\ @alive[result] /\ 0 <= p_index < @TimeSeriesSet.itemCount[this]
    /\ (if p_start < 0 /\ p_end < 0 then ts_row result this p_index 0 @TimeSeriesSet.itemLength[this]
        else 0 <= p_start < p_end <= @TimeSeriesSet.itemLength[this] /\ ts_row result this p_index p_start p_end) }
  ensures C15,C19 [a valid series of its own] { ts_use result /\ ts_fresh result }
  ensures C15,C19 [other series stay as they are] { forall t: int [@TimeSeries.length[t]]. old (ts_use t) -> ts_use t /\ tv t = old (tv t) }
  raises E_onex C15 [refused exactly for positions outside the dataset] { p_index < 0 \/ p_index >= @TimeSeriesSet.itemCount[this] \/
     (not (p_start < 0 /\ p_end < 0) /\ (p_start < 0 \/ p_start >= p_end \/ p_end > @TimeSeriesSet.itemLength[this])) }
  raises E_onex C14,C16 [a refused request changes nothing] { @alive = old @alive /\ @dkind = old @dkind /\ @dlen = old @dlen /\ @dmem = old @dmem /\ @bown = old @bown /\ @TimeSeries.data = old @TimeSeries.data /\ @TimeSeries.start = old @TimeSeries.start /\ @TimeSeries.end = old @TimeSeries.end /\ @TimeSeries.length = old @TimeSeries.length /\ @TimeSeries.isOwnerOfData = old @TimeSeries.isOwnerOfData /\ @TimeSeries.keoghLower = old @TimeSeries.keoghLower /\ @TimeSeries.keoghUpper = old @TimeSeries.keoghUpper /\ @TimeSeries.keoghCacheValid = old @TimeSeries.keoghCacheValid /\ @TimeSeries.cachedWarpingBand = old @TimeSeries.cachedWarpingBand }
  entry { if p_index >= 0 && p_index < @TimeSeriesSet.itemCount[this] then row_in p_index 0 (pure { @TimeSeriesSet.itemCount[this] }) (pure { @TimeSeriesSet.itemLength[this] }) }

# ---- normalisation
%% axiom fsub_zero_eq : forall x y: dbl [fsub x y]. fin x -> fin y -> dv (fsub x y) = 0.0 -> dv x = dv y
%% axiom fneg_def : forall x: dbl [fneg x]. dv (fneg x) = -. dv x
%% axiom div_le_one : forall x y: dbl [fdiv x y]. dv x <=. dv y -> dv y >. 0.0 -> fin y -> dv (fdiv x y) <=. 1.0
%% opaque low_of (m: map int dbl) (n: int) (x: dbl) = forall k: int [m[k]]. 0 <= k < n -> dv x <=. dv m[k]
%% opaque high_of (m: map int dbl) (n: int) (x: dbl) = forall k: int [m[k]]. 0 <= k < n -> dv m[k] <=. dv x
%% opaque occurs (m: map int dbl) (n: int) (x: dbl) = exists k: int. 0 <= k < n /\ m[k] = x
%% opaque scaled (m2 m: map int dbl) (n: int) (mn d: dbl) = forall k: int [m2[k]]. 0 <= k < n -> m2[k] = fdiv (fsub m[k] mn) d
%% opaque zeroed (m2: map int dbl) (n: int) = forall k: int [m2[k]]. 0 <= k < n -> dv m2[k] = 0.0
%% opaque same_from (m2 m: map int dbl) (n: int) = forall k: int [m2[k]]. k >= n -> m2[k] = m[k]
%% lemma mm_start (m: map int dbl) (x: dbl) : unit
  ensures { low_of m 0 x /\ high_of m 0 x }
= low_of_def m 0 x; high_of_def m 0 x
%% lemma low_step (m: map int dbl) (n: int) (x y: dbl) : unit
  requires { n >= 0 /\ low_of m n x /\ dv y <=. dv x /\ dv y <=. dv m[n] }
  ensures { low_of m (n+1) y }
= low_of_def m n x; low_of_def m (n+1) y
%% lemma high_step (m: map int dbl) (n: int) (x y: dbl) : unit
  requires { n >= 0 /\ high_of m n x /\ dv y >=. dv x /\ dv y >=. dv m[n] }
  ensures { high_of m (n+1) y }
= high_of_def m n x; high_of_def m (n+1) y
%% lemma occurs_step (m: map int dbl) (n: int) (x: dbl) : unit
  requires { n >= 0 }
  ensures { occurs m n x -> occurs m (n+1) x }
  ensures { x = m[n] -> occurs m (n+1) x }
= occurs_def m n x; occurs_def m (n+1) x
%% lemma c09_unit_range (m2 m: map int dbl) (n: int) (mn mx: dbl) : unit
  requires { low_of m n mn /\ high_of m n mx /\ fin mn /\ fin mx /\ (forall k: int [m[k]]. 0 <= k < n -> fin m[k]) /\ dv mn <=. dv mx }
  ensures { [@expl:C09|lemma|normalised values lie between 0 and 1] scaled m2 m n mn (fsub mx mn) -> fin (fsub mx mn) -> dv mn <> dv mx -> forall k: int [m2[k]]. 0 <= k < n -> 0.0 <=. dv m2[k] <=. 1.0 }
= low_of_def m n mn; high_of_def m n mx; scaled_def m2 m n mn (fsub mx mn);
  assert { forall k: int [m[k]]. 0 <= k < n -> 0.0 <=. dv (fsub m[k] mn) <=. dv (fsub mx mn) }
%% lemma scaled_start (m2 m: map int dbl) (mn d: dbl) : unit
  ensures { scaled m2 m 0 mn d /\ zeroed m2 0 /\ same_from m m 0 }
= scaled_def m2 m 0 mn d; zeroed_def m2 0; same_from_def m m 0
%% lemma scaled_step (m2 m: map int dbl) (n: int) (mn d: dbl) : unit
  requires { n >= 0 /\ scaled m2 m n mn d /\ same_from m2 m n }
  ensures { m2[n] = m[n] /\ scaled m2[n <- fdiv (fsub m[n] mn) d] m (n+1) mn d /\ same_from m2[n <- fdiv (fsub m[n] mn) d] m (n+1) }
= let m3 = pure { m2[n <- fdiv (fsub m[n] mn) d] } in
  scaled_def m2 m n mn d; same_from_def m2 m n; scaled_def m3 m (n+1) mn d; same_from_def m3 m (n+1)
%% lemma zeroed_step (m2: map int dbl) (n: int) (z: dbl) : unit
  requires { n >= 0 /\ zeroed m2 n /\ dv z = 0.0 }
  ensures { zeroed m2[n <- z] (n+1) }
= let m3 = pure { m2[n <- z] } in zeroed_def m2 n; zeroed_def m3 (n+1)
%% lemma zero_const (m: map int dbl) (n: int) (mn mx: dbl) : unit
  ensures { low_of m n mn -> high_of m n mx -> dv mn = dv mx -> dv mx = 0.0 -> zeroed m n }
= low_of_def m n mn; high_of_def m n mx; zeroed_def m n

fn TimeSeriesSet::normalize ()
  requires [the dataset is valid] { ds_ok this }
  requires C09 [the values are finite] { ds_fin this }
  ensures C09 [the smallest and the largest value are returned] { let (mn, mx) = result in let m = old (dsm this) in let n = dsn this in
     low_of m n mn /\ high_of m n mx /\ occurs m n mn /\ occurs m n mx }
  ensures C09 [every value is rescaled, a constant dataset becomes zero] { let (mn, mx) = result in
     if dv mn = dv mx then zeroed (dsm this) (dsn this) else scaled (dsm this) (old (dsm this)) (dsn this) mn (fsub mx mn) }
  ensures C09 [the values lie between 0 and 1] { let (mn, mx) = result in dv mn <> dv mx -> fin (fsub mx mn) -> forall k: int [(dsm this)[k]]. 0 <= k < dsn this -> 0.0 <=. dv (dsm this)[k] <=. 1.0 }
  ensures C09,C19 [the dataset stays valid] { ds_ok this /\ @TimeSeriesSet.normalized[this] = true }
  raises E_onex C09 [exactly an empty dataset is refused] { dsn this = 0 /\ @dmem = old @dmem /\ @TimeSeriesSet.normalized = old @TimeSeriesSet.normalized }
  modifies mem: (@TimeSeriesSet.data[this]).pb
  modifies TimeSeriesSet.normalized: this
  entry { let ghost m0 = pure { dsm this } in let ghost cnt = pure { @TimeSeriesSet.itemCount[this] } in let ghost len = pure { @TimeSeriesSet.itemLength[this] } in
    mm_start m0 inf; mm_start m0 (fneg inf) ; }
  loop 1
  invariant [row] { 0 <= $ts <= cnt }
  invariant [smallest so far] { low_of m0 ($ts * len) $MIN /\ (if $ts = 0 then $MIN = inf else occurs m0 ($ts * len) $MIN) }
  invariant [largest so far] { high_of m0 ($ts * len) $MAX /\ (if $ts = 0 then $MAX = fneg inf else occurs m0 ($ts * len) $MAX) }
  variant { cnt - $ts }
  begin { row_in $ts 0 cnt len; let ghost mn1 = $MIN in let ghost mx1 = $MAX in let ghost b = $ts * len in }
  loop 2
  before { if $i = 1 then begin low_step m0 b mn1 $MIN; high_step m0 b mx1 $MAX; occurs_step m0 b $MIN; occurs_step m0 b $MAX end }
  invariant [position] { 0 <= $i <= len /\ len - $i = 2 * qdiv (len - $i) 2 }
  invariant [smallest so far] { low_of m0 (b + $i) $MIN /\ (if b + $i = 0 then $MIN = inf else occurs m0 (b + $i) $MIN) }
  invariant [largest so far] { high_of m0 (b + $i) $MAX /\ (if b + $i = 0 then $MAX = fneg inf else occurs m0 (b + $i) $MAX) }
  variant { len - $i }
  begin { row_in $ts ($i + 2) cnt len; let ghost mn2 = $MIN in let ghost mx2 = $MAX in }
  end { low_step m0 (b + $i) mn2 $MIN; low_step m0 (b + $i + 1) $MIN $MIN; high_step m0 (b + $i) mx2 $MAX; high_step m0 (b + $i + 1) $MAX $MAX;
    occurs_step m0 (b + $i) $MIN; occurs_step m0 (b + $i + 1) $MIN; occurs_step m0 (b + $i) $MAX; occurs_step m0 (b + $i + 1) $MAX }
  loop 3
  invariant [row] { 0 <= $ts <= cnt }
  invariant [zero so far] { zeroed (dsm this) ($ts * len) }
  variant { cnt - $ts }
  modifies mem: (@TimeSeriesSet.data[this]).pb
  begin { row_in $ts 0 cnt len; let ghost b = $ts * len in }
  before { scaled_start (pure { dsm this }) m0 $MIN $MIN }
  loop 4
  invariant [position] { 0 <= $i <= len }
  invariant [zero so far] { zeroed (dsm this) (b + $i) }
  variant { len - $i }
  modifies mem: (@TimeSeriesSet.data[this]).pb
  begin { row_in $ts ($i + 1) cnt len; zeroed_step (pure { dsm this }) (b + $i) (of_int 0) }
  loop 5
  invariant [row] { 0 <= $ts <= cnt }
  invariant [rescaled so far] { scaled (dsm this) m0 ($ts * len) $MIN $diff /\ same_from (dsm this) m0 ($ts * len) }
  variant { cnt - $ts }
  modifies mem: (@TimeSeriesSet.data[this]).pb
  before { scaled_start (pure { dsm this }) m0 $MIN $diff }
  begin { row_in $ts 0 cnt len; let ghost b = $ts * len in }
  loop 6
  invariant [position] { 0 <= $i <= len }
  invariant [rescaled so far] { scaled (dsm this) m0 (b + $i) $MIN $diff /\ same_from (dsm this) m0 (b + $i) }
  variant { len - $i }
  modifies mem: (@TimeSeriesSet.data[this]).pb
  begin { row_in $ts ($i + 1) cnt len; scaled_step (pure { dsm this }) m0 (b + $i) $MIN $diff }
  exit { low_high m0 (cnt * len) $MIN $MAX; zero_const m0 (cnt * len) $MIN $MAX; c09_unit_range (pure { dsm this }) m0 (cnt * len) $MIN $MAX }
%% lemma low_high (m: map int dbl) (n: int) (mn mx: dbl) : unit
  requires { n > 0 /\ low_of m n mn /\ high_of m n mx /\ occurs m n mn /\ occurs m n mx /\ forall k: int [m[k]]. 0 <= k < n -> fin m[k] }
  ensures { dv mn <=. dv mx /\ fin mn /\ fin mx }
= low_of_def m n mn; high_of_def m n mx; occurs_def m n mn; occurs_def m n mx

fn TimeSeriesSet::isLoaded ()
  ensures C11,C14 [loaded exactly when there are values] { result <-> @TimeSeriesSet.data[this] <> null_ptr }
  noraise

# positions a..e-1 of row i of dataset s
%% function row_view (s i a e: int) : view = { vm = dsm s; vo = i * @TimeSeriesSet.itemLength[s] + a; vl = e - a }
%% function sub_start (a e: int) : int = if a < 0 && e < 0 then 0 else a
%% function sub_end (s a e: int) : int = if a < 0 && e < 0 then @TimeSeriesSet.itemLength[s] else e
%% predicate sub_bad (s i a e: int) = i < 0 \/ i >= @TimeSeriesSet.itemCount[s] \/ (not (a < 0 /\ e < 0) /\ (a < 0 \/ a >= e \/ e > @TimeSeriesSet.itemLength[s]))
%% function sub_view (s i a e: int) : view = row_view s i (sub_start a e) (sub_end s a e)
# no envelope of a series shares memory with the values of the dataset
fn TimeSeriesSet::distanceBetween (idx, start, length, other, distance_name)
  requires [the dataset is valid] { ds_ok this }
  requires [the values are finite] { ds_fin this /\ vfin (tv p_other) }
  requires [the other series is valid] { ts_use p_other }
  requires [ratio in range] { ratio_ok }
  ensures C02,C18 [the distance of exactly the requested values] { not sub_bad this p_idx p_start (p_start + p_length) /\
     (let q = old (sub_view this p_idx p_start (p_start + p_length)) in let o = old (tv p_other) in
      (p_distance_name = STR(euclidean) /\ q.vl = o.vl /\ result = ed q o) \/ (p_distance_name = STR(euclidean_dtw) /\ result = dtw q o @gv_warpingBandRatio)) }
  ensures C04,C19 [the series stays valid] { ts_use p_other }
  raises E_onex C02,C15,C18 [refused exactly for unknown names, positions outside the dataset and Euclidean distance of different lengths] {
     (p_distance_name <> STR(euclidean) /\ p_distance_name <> STR(euclidean_dtw)) \/ sub_bad this p_idx p_start (p_start + p_length)
      \/ (p_distance_name = STR(euclidean) /\ (sub_view this p_idx p_start (p_start + p_length)).vl <> @TimeSeries.length[p_other]) }
  modifies TimeSeries.envelope: p_other
  modifies own: { kb_of p_other o_ }
  modifies mem: { kb_of p_other o_ }
  before-call getTimeSeries { if p_idx >= 0 && p_idx < @TimeSeriesSet.itemCount[this] then row_in p_idx 0 (pure { @TimeSeriesSet.itemCount[this] }) (pure { @TimeSeriesSet.itemLength[this] }) }
