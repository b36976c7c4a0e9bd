# ---------------------------------------------------------------------------
# Time series objects
# ---------------------------------------------------------------------------
# storage of the values is valid
%% predicate ts_ok (t: int) =
  0 <= @TimeSeries.start[t] /\ 0 <= @TimeSeries.length[t] <= 2147483647 /\ @TimeSeries.end[t] = @TimeSeries.start[t] + @TimeSeries.length[t]
  /\ 0 <= (@TimeSeries.data[t]).po /\ (@TimeSeries.data[t]).po + @TimeSeries.start[t] + @TimeSeries.length[t] <= @dlen[(@TimeSeries.data[t]).pb]
  /\ ((@TimeSeries.data[t]).pb <> 0 -> @dkind[(@TimeSeries.data[t]).pb] <> 0 /\ @bown[(@TimeSeries.data[t]).pb] >= 0)
  /\ ((@TimeSeries.data[t]).pb = 0 -> @TimeSeries.length[t] = 0)
# an envelope buffer of t: none or a live array that belongs to t
%% predicate kblock (t: int) (p: ptr) = p = null_ptr \/ (p.pb <> 0 /\ p.po = 0 /\ @dkind[p.pb] = 1 /\ @bown[p.pb] = - t)
%% predicate ts_keogh (t: int) = kblock t @TimeSeries.keoghLower[t] /\ kblock t @TimeSeries.keoghUpper[t]
  /\ (@TimeSeries.keoghLower[t] = null_ptr \/ @TimeSeries.keoghLower[t] <> @TimeSeries.keoghUpper[t])
# what the destructor relies on: owned buffers are live and belong to this object alone
%% predicate ts_own (t: int) = t > 0 /\ ts_keogh t
  /\ (@TimeSeries.isOwnerOfData[t] -> @TimeSeries.data[t] = null_ptr \/
       ((@TimeSeries.data[t]).pb <> 0 /\ (@TimeSeries.data[t]).po = 0 /\ @dkind[(@TimeSeries.data[t]).pb] = 1 /\ @bown[(@TimeSeries.data[t]).pb] = t))
# exact envelope of the view v for a band: minimum and maximum over the window, both attained
%% predicate envl (v: view) (r: int) (lo up: map int dbl) = forall c: int. 0 <= c < v.vl -> inf_at v r c lo[c] /\ sup_at v r c up[c]
%% predicate ts_env_is (t r: int) =
  @TimeSeries.keoghLower[t] <> null_ptr /\ @TimeSeries.keoghUpper[t] <> null_ptr
  /\ @dlen[(@TimeSeries.keoghLower[t]).pb] = @TimeSeries.length[t] /\ @dlen[(@TimeSeries.keoghUpper[t]).pb] = @TimeSeries.length[t]
  /\ envl (tv t) r @dmem[(@TimeSeries.keoghLower[t]).pb] @dmem[(@TimeSeries.keoghUpper[t]).pb]
# the cached envelope is the envelope of the current values for the cached band
%% predicate ts_cache (t: int) = @TimeSeries.keoghCacheValid[t] ->
  @TimeSeries.cachedWarpingBand[t] = of_int (trunc_int @TimeSeries.cachedWarpingBand[t]) /\ ts_env_is t (trunc_int @TimeSeries.cachedWarpingBand[t])
%% predicate ts_inv (t: int) = ts_ok t /\ ts_own t /\ ts_cache t
%% function elem (t i: int) : ptr = { pb = (@TimeSeries.data[t]).pb; po = (@TimeSeries.data[t]).po + (@TimeSeries.start[t] + i) }
%% val set_bown (p: ptr) (o: int) : unit writes { bown } ensures { @bown = (old @bown)[p.pb <- o] }

fn TimeSeries::operator[] (idx)
  requires [the series has valid storage] { ts_ok this }
  ensures C15 [element access yields the element's own place] { 0 <= p_idx < @TimeSeries.length[this] /\ result = elem this p_idx }
  raises E_onex C15 [element access is refused only out of range] { p_idx < 0 \/ p_idx >= @TimeSeries.length[this] }

fn TimeSeries::getLength ()
  opt inline
  ensures C15 [the number of values] { result = @TimeSeries.length[this] }
  noraise
fn TimeSeries::getIndex ()
  opt inline
  ensures C15 [the row the values are from] { result = @TimeSeries.index[this] }
  noraise
fn TimeSeries::getStart ()
  opt inline
  ensures C15 [the position of the first value] { result = @TimeSeries.start[this] }
  noraise
fn TimeSeries::getEnd ()
  opt inline
  ensures C15 [the position behind the last value] { result = @TimeSeries.end[this] }
  noraise
fn TimeSeries::getData ()
  opt inline
  ensures C15 [the array the values are in] { result = @TimeSeries.data[this] }
  noraise

# ---- construction, copies, ownership
# an owned array starts at its first element
%% predicate ts_start (t: int) = @TimeSeries.isOwnerOfData[t] -> @TimeSeries.start[t] = 0
%% predicate ts_fresh (t: int) = @TimeSeries.keoghLower[t] = null_ptr /\ @TimeSeries.keoghUpper[t] = null_ptr /\ @TimeSeries.keoghCacheValid[t] = false
%% predicate ts_same_place (t s: int) = @TimeSeries.index[t] = @TimeSeries.index[s] /\ @TimeSeries.start[t] = @TimeSeries.start[s] /\ @TimeSeries.end[t] = @TimeSeries.end[s]
  /\ @TimeSeries.length[t] = @TimeSeries.length[s] /\ @TimeSeries.isOwnerOfData[t] = @TimeSeries.isOwnerOfData[s]
%% predicate vsame (v w: view) = v.vl = w.vl /\ forall i: int [vat v i]. 0 <= i < v.vl -> vat v i = vat w i
%% predicate ts_owned_apart (t s: int) = @TimeSeries.isOwnerOfData[t] -> (@TimeSeries.data[t]).pb <> 0 -> (@TimeSeries.data[s]).pb <> (@TimeSeries.data[t]).pb

fn TimeSeries::TimeSeries(data_t*,int,int,int) (data, index, start, end)
  requires [the object is live] { this > 0 }
  ensures C04,C15 [a view of the given range] { @TimeSeries.data[this] = p_data /\ @TimeSeries.index[this] = p_index /\ @TimeSeries.start[this] = p_start
    /\ @TimeSeries.end[this] = p_end /\ @TimeSeries.length[this] = p_end - p_start /\ @TimeSeries.isOwnerOfData[this] = false }
  ensures C04,C19 [nothing is cached] { ts_fresh this /\ ts_own this /\ ts_cache this }
  noraise
fn TimeSeries::TimeSeries(data_t*,int) (data, length)
  requires [the object is live] { this > 0 }
  ensures C04,C15 [a view of the whole array] { @TimeSeries.data[this] = p_data /\ @TimeSeries.index[this] = 0 /\ @TimeSeries.start[this] = 0
    /\ @TimeSeries.end[this] = p_length /\ @TimeSeries.length[this] = p_length /\ @TimeSeries.isOwnerOfData[this] = false }
  ensures C04,C19 [nothing is cached] { ts_fresh this /\ ts_own this /\ ts_cache this }
  noraise
fn TimeSeries::TimeSeries(int) (length)
  requires [the object is live] { this > 0 }
  requires C19 [the length is not negative] { 0 <= p_length <= 2147483647 }
  ensures C15 [a series of zeros that owns its values] { @TimeSeries.index[this] = 0 /\ @TimeSeries.start[this] = 0 /\ @TimeSeries.end[this] = p_length
    /\ @TimeSeries.length[this] = p_length /\ @TimeSeries.isOwnerOfData[this] = true /\ forall i: int [vat (tv this) i]. 0 <= i < p_length -> vat (tv this) i = of_int 0 }
  ensures C04,C19 [valid storage of its own] { ts_ok this /\ ts_own this /\ ts_fresh this /\ (old @dkind)[(@TimeSeries.data[this]).pb] = 0 }
  noraise
  exit { set_bown @TimeSeries.data[this] this }
fn TimeSeries::TimeSeries(TimeSeries) (other)
  requires [the object is live] { this > 0 /\ this <> p_other }
  requires C19 [the other series has valid storage] { ts_ok p_other /\ ts_start p_other }
  ensures C15 [the copy has the same place and values] { ts_same_place this p_other /\ vsame (tv this) (old (tv p_other)) /\ (not @TimeSeries.isOwnerOfData[this] -> @TimeSeries.data[this] = @TimeSeries.data[p_other]) }
  ensures C04,C19 [valid storage, nothing cached] { ts_ok this /\ ts_own this /\ ts_fresh this /\ ts_start this }
  ensures C19,C15 [an owning copy has values of its own] { @TimeSeries.isOwnerOfData[this] -> (old @dkind)[(@TimeSeries.data[this]).pb] = 0 }
  noraise
  exit { if @TimeSeries.isOwnerOfData[this] && (@TimeSeries.data[this]).pb <> 0 then set_bown @TimeSeries.data[this] this }
fn TimeSeries::operator=(TimeSeries) (other)
  requires C19 [both series own their buffers, the other has valid storage] { ts_own this /\ ts_ok p_other /\ ts_own p_other /\ ts_start p_other }
  requires C19 [the other series does not view values this one owns] { this <> p_other -> ts_owned_apart this p_other }
  ensures C15 [the series takes the place and values of the other] { result = this /\ ts_same_place this p_other /\ vsame (tv this) (old (tv p_other)) /\ (not @TimeSeries.isOwnerOfData[this] -> @TimeSeries.data[this] = @TimeSeries.data[p_other]) }
  ensures C04,C19 [valid storage] { ts_ok this /\ ts_own this /\ ts_start this }
  ensures C04 [no envelope of earlier values is kept] { this <> p_other -> @TimeSeries.keoghCacheValid[this] = false }
  ensures C19,C15 [an owning copy has values of its own] { this <> p_other -> @TimeSeries.isOwnerOfData[this] -> (old @dkind)[(@TimeSeries.data[this]).pb] = 0 \/ (old @TimeSeries.isOwnerOfData[this] /\ (@TimeSeries.data[this]).pb = (old @TimeSeries.data[this]).pb) }
  ensures C19 [the earlier values are released] { this <> p_other -> old @TimeSeries.isOwnerOfData[this] -> (@TimeSeries.data[this]).pb <> (old @TimeSeries.data[this]).pb -> @dkind[(old @TimeSeries.data[this]).pb] = 0 \/ (old @TimeSeries.data[this]).pb = 0 }
  modifies TimeSeries: this
  modifies own: { @TimeSeries.isOwnerOfData[this] /\ o_ = (@TimeSeries.data[this]).pb /\ o_ <> 0 }
  modifies mem: { @TimeSeries.isOwnerOfData[this] /\ o_ = (@TimeSeries.data[this]).pb /\ o_ <> 0 }
  noraise
  exit { if @TimeSeries.isOwnerOfData[this] && (@TimeSeries.data[this]).pb <> 0 then set_bown @TimeSeries.data[this] this }
fn TimeSeries::operator=(TimeSeries&&) (other)
  requires C19 [both series own their buffers] { ts_own this /\ ts_own p_other }
  requires C19 [the other series does not view values this one owns] { this <> p_other -> ts_owned_apart this p_other }
  ensures C15 [the series takes the place and values of the other] { result = this /\ ts_same_place this p_other /\ @TimeSeries.data[this] = old @TimeSeries.data[p_other] /\ (this <> p_other -> @TimeSeries.data[p_other] = null_ptr) }
  ensures C15,C19 [storage stays valid] { old (ts_ok p_other) -> ts_ok this }
  ensures C04,C19 [both still own what they release] { ts_own this /\ ts_own p_other }
  ensures C04 [no envelope of earlier values is kept] { this <> p_other -> @TimeSeries.keoghCacheValid[this] = false }
  ensures C19 [the earlier values are released] { this <> p_other -> old @TimeSeries.isOwnerOfData[this] -> (old @TimeSeries.data[this]).pb <> 0 -> @dkind[(old @TimeSeries.data[this]).pb] = 0 }
  modifies TimeSeries: this
  modifies TimeSeries.data: p_other
  modifies own: { @TimeSeries.isOwnerOfData[this] /\ o_ = (@TimeSeries.data[this]).pb /\ o_ <> 0 }
  modifies bown: { @TimeSeries.isOwnerOfData[p_other] /\ o_ = (@TimeSeries.data[p_other]).pb /\ o_ <> 0 }
  noraise
  exit { if @TimeSeries.isOwnerOfData[this] && (@TimeSeries.data[this]).pb <> 0 then set_bown @TimeSeries.data[this] this }
fn TimeSeries::~TimeSeries ()
  requires C19 [the series owns what it releases] { ts_own this }
  ensures C19 [owned memory is released] { (old @TimeSeries.isOwnerOfData[this] -> (old @TimeSeries.data[this]).pb <> 0 -> @dkind[(old @TimeSeries.data[this]).pb] = 0)
    /\ ((old @TimeSeries.keoghLower[this]).pb <> 0 -> @dkind[(old @TimeSeries.keoghLower[this]).pb] = 0) /\ ((old @TimeSeries.keoghUpper[this]).pb <> 0 -> @dkind[(old @TimeSeries.keoghUpper[this]).pb] = 0) }
  ensures C04,C19 [other series stay as they are] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> t <> this -> old (ts_inv t) ->
    (old @TimeSeries.isOwnerOfData[this] -> (@TimeSeries.data[t]).pb <> (old @TimeSeries.data[this]).pb \/ (@TimeSeries.data[t]).pb = 0) ->
    ts_inv t /\ tv t = old (tv t) /\ @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] /\ @TimeSeries.keoghUpper[t] = old @TimeSeries.keoghUpper[t] }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  modifies TimeSeries: this
  modifies own: { o_ <> 0 /\ ((@TimeSeries.isOwnerOfData[this] /\ o_ = (@TimeSeries.data[this]).pb) \/ o_ = (@TimeSeries.keoghLower[this]).pb \/ o_ = (@TimeSeries.keoghUpper[this]).pb) }
  noraise
# the two series share no values, or are at the same place
%% predicate add_apart (t o: int) = (@TimeSeries.data[o]).pb <> (@TimeSeries.data[t]).pb \/ (tv o).vo = (tv t).vo
fn TimeSeries::operator+= (other)
  requires C19 [both series have valid storage] { ts_ok this /\ ts_ok p_other }
  ensures C15 [the values of the other series are added] { result = this /\ @TimeSeries.length[p_other] = @TimeSeries.length[this]
     /\ (add_apart this p_other -> forall i: int [vat (tv this) i]. 0 <= i < @TimeSeries.length[this] -> vat (tv this) i = fadd (vat (old (tv this)) i) (vat (old (tv p_other)) i)) }
  ensures C15 [values outside the series stay] { forall k: int [@dmem[(@TimeSeries.data[this]).pb][k]]. k < (tv this).vo \/ k >= (tv this).vo + @TimeSeries.length[this] -> @dmem[(@TimeSeries.data[this]).pb][k] = (old @dmem)[(@TimeSeries.data[this]).pb][k] }
  ensures C04 [no envelope of earlier values is kept] { @TimeSeries.keoghCacheValid[this] = false }
  raises E_onex C15 [addition is refused exactly for different lengths] { @TimeSeries.length[p_other] <> @TimeSeries.length[this] /\ @dmem = old @dmem /\ @TimeSeries.keoghCacheValid = old @TimeSeries.keoghCacheValid }
  modifies mem: (@TimeSeries.data[this]).pb
  modifies TimeSeries.keoghCacheValid: this
  loop 1
  invariant [position] { 0 <= $i <= @TimeSeries.length[this] }
  invariant [the values added so far] { add_apart this p_other -> forall i: int [vat (tv this) i]. 0 <= i < @TimeSeries.length[this] -> vat (tv this) i = (if i < $i then fadd (vat (old (tv this)) i) (vat (old (tv p_other)) i) else vat (old (tv this)) i) }
  invariant [values outside the series stay] { forall k: int [@dmem[(@TimeSeries.data[this]).pb][k]]. k < (tv this).vo \/ k >= (tv this).vo + @TimeSeries.length[this] -> @dmem[(@TimeSeries.data[this]).pb][k] = (old @dmem)[(@TimeSeries.data[this]).pb][k] }
  modifies mem: (@TimeSeries.data[this]).pb
  variant { @TimeSeries.length[this] - $i }

# ---- envelopes
%% predicate ts_cached (t r: int) = @TimeSeries.keoghCacheValid[t] = true /\ @TimeSeries.cachedWarpingBand[t] = of_int r
# every band that covers the whole series has the same envelope
%% function capband (r n: int) : int = min2 r (n - 1)
%% lemma env_cap_upto (v: view) (r s: int) (lo up: map int dbl) (n: int) : unit
  requires { (r = s \/ (r >= v.vl - 1 /\ s >= v.vl - 1)) /\ envl v r lo up /\ 0 <= n <= v.vl }
  ensures { forall c: int. 0 <= c < n -> inf_at v s c lo[c] /\ sup_at v s c up[c] }
  variant { n }
= if n > 0 then begin
    let c = n - 1 in
    inf_at_def v r c (pure { lo[c] }); inf_at_def v s c (pure { lo[c] }); sup_at_def v r c (pure { up[c] }); sup_at_def v s c (pure { up[c] });
    env_cap_upto v r s lo up c end
%% lemma env_cap (v: view) (r s: int) (lo up: map int dbl) : unit
  requires { (r = s \/ (r >= v.vl - 1 /\ s >= v.vl - 1)) /\ envl v r lo up }
  ensures { envl v s lo up }
= if v.vl >= 0 then env_cap_upto v r s lo up v.vl
fn TimeSeries::generateKeoghLU (warpingBand)
  requires C19 [the series has valid storage and owns its envelopes] { ts_ok this /\ ts_own this }
  requires C04,C19 [the series is not empty and the band in range] { @TimeSeries.length[this] > 0 /\ 0 <= p_warpingBand <= 268435454 }
  ensures C04,C03 [the envelope is that of the current values] { ts_env_is this p_warpingBand /\ @TimeSeries.keoghCacheValid[this] = true /\ ts_own this }
  ensures C19 [the envelope arrays are new] { let l = @TimeSeries.keoghLower[this] in let u = @TimeSeries.keoghUpper[this] in
    ((old @dkind)[l.pb] = 0 \/ l.pb = (old @TimeSeries.keoghLower[this]).pb \/ l.pb = (old @TimeSeries.keoghUpper[this]).pb) /\ ((old @dkind)[u.pb] = 0 \/ u.pb = (old @TimeSeries.keoghLower[this]).pb \/ u.pb = (old @TimeSeries.keoghUpper[this]).pb) }
  modifies TimeSeries.envelope: this
  modifies own: { o_ <> 0 /\ (o_ = (@TimeSeries.keoghLower[this]).pb \/ o_ = (@TimeSeries.keoghUpper[this]).pb) }
  modifies mem: { o_ <> 0 /\ (o_ = (@TimeSeries.keoghLower[this]).pb \/ o_ = (@TimeSeries.keoghUpper[this]).pb) }
  noraise
  before-call lower_upper_lemire { set_bown @TimeSeries.keoghLower[this] (- this); set_bown @TimeSeries.keoghUpper[this] (- this) }
  exit { env_cap (tv this) (capband p_warpingBand @TimeSeries.length[this]) p_warpingBand (pure { @dmem[(@TimeSeries.keoghLower[this]).pb] }) (pure { @dmem[(@TimeSeries.keoghUpper[this]).pb] }) }
fn TimeSeries::getKeoghLower (warpingBand)
  requires C19 [the series has valid storage and owns its envelopes] { ts_ok this /\ ts_own this }
  requires C04 [what is cached is up to date] { ts_cache this }
  requires C04,C19 [the series is not empty and the band in range] { @TimeSeries.length[this] > 0 /\ 0 <= p_warpingBand <= 268435454 }
  ensures C04,C03 [the envelope is that of the current values for the band] { ts_env_is this p_warpingBand /\ result = @TimeSeries.keoghLower[this] }
  ensures C04,C19 [what is cached is up to date] { ts_cache this /\ ts_own this /\ ts_cached this p_warpingBand }
  ensures C04,C19 [a cached envelope is kept] { old (ts_cached this p_warpingBand) -> @TimeSeries.keoghLower = old @TimeSeries.keoghLower /\ @TimeSeries.keoghUpper = old @TimeSeries.keoghUpper
    /\ @dmem = old @dmem /\ @dlen = old @dlen /\ @dkind = old @dkind /\ @bown = old @bown }
  ensures C19 [the envelope arrays are the earlier ones or new] { let l = @TimeSeries.keoghLower[this] in let u = @TimeSeries.keoghUpper[this] in
    ((old @dkind)[l.pb] = 0 \/ l.pb = (old @TimeSeries.keoghLower[this]).pb \/ l.pb = (old @TimeSeries.keoghUpper[this]).pb) /\ ((old @dkind)[u.pb] = 0 \/ u.pb = (old @TimeSeries.keoghLower[this]).pb \/ u.pb = (old @TimeSeries.keoghUpper[this]).pb) }
  modifies TimeSeries.envelope: this
  modifies own: { o_ <> 0 /\ (o_ = (@TimeSeries.keoghLower[this]).pb \/ o_ = (@TimeSeries.keoghUpper[this]).pb) }
  modifies mem: { o_ <> 0 /\ (o_ = (@TimeSeries.keoghLower[this]).pb \/ o_ = (@TimeSeries.keoghUpper[this]).pb) }
  noraise
fn TimeSeries::getKeoghUpper (warpingBand)
  requires C19 [the series has valid storage and owns its envelopes] { ts_ok this /\ ts_own this }
  requires C04 [what is cached is up to date] { ts_cache this }
  requires C04,C19 [the series is not empty and the band in range] { @TimeSeries.length[this] > 0 /\ 0 <= p_warpingBand <= 268435454 }
  ensures C04,C03 [the envelope is that of the current values for the band] { ts_env_is this p_warpingBand /\ result = @TimeSeries.keoghUpper[this] }
  ensures C04,C19 [what is cached is up to date] { ts_cache this /\ ts_own this /\ ts_cached this p_warpingBand }
  ensures C04,C19 [a cached envelope is kept] { old (ts_cached this p_warpingBand) -> @TimeSeries.keoghLower = old @TimeSeries.keoghLower /\ @TimeSeries.keoghUpper = old @TimeSeries.keoghUpper
    /\ @dmem = old @dmem /\ @dlen = old @dlen /\ @dkind = old @dkind /\ @bown = old @bown }
  ensures C19 [the envelope arrays are the earlier ones or new] { let l = @TimeSeries.keoghLower[this] in let u = @TimeSeries.keoghUpper[this] in
    ((old @dkind)[l.pb] = 0 \/ l.pb = (old @TimeSeries.keoghLower[this]).pb \/ l.pb = (old @TimeSeries.keoghUpper[this]).pb) /\ ((old @dkind)[u.pb] = 0 \/ u.pb = (old @TimeSeries.keoghLower[this]).pb \/ u.pb = (old @TimeSeries.keoghUpper[this]).pb) }
  modifies TimeSeries.envelope: this
  modifies own: { o_ <> 0 /\ (o_ = (@TimeSeries.keoghLower[this]).pb \/ o_ = (@TimeSeries.keoghUpper[this]).pb) }
  modifies mem: { o_ <> 0 /\ (o_ = (@TimeSeries.keoghLower[this]).pb \/ o_ = (@TimeSeries.keoghUpper[this]).pb) }
  noraise
