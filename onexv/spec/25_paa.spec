# ---------------------------------------------------------------------------
# Piecewise aggregate approximation
# ---------------------------------------------------------------------------
# sum of n values from position p on, added from left to right
%% sym asum (m: map int dbl) (p n: int) : dbl
%% axiom asum_zero : forall m: map int dbl, p: int [asum m p 0]. asum m p 0 = of_int 0
%% assume asum_step (m: map int dbl) (p n: int) : unit
  requires { n > 0 } ensures { asum m p n = fadd (asum m p (n-1)) m[p + n - 1] }
# block k of a row of l values from position o on: the mean of its values, the last block may be shorter
%% opaque paa_at (m: map int dbl) (o l n k: int) (x: dbl) = x = fdiv (asum m (o + k * n) (min2 n (l - k * n))) (of_int (min2 n (l - k * n)))
# number of blocks of n that cover l values
%% predicate blocks (l n c: int) = c * n >= l /\ (c - 1) * n < l
%% opaque paa_row (m2: map int dbl) (o2: int) (m: map int dbl) (o l n c: int) = forall k: int [m2[o2 + k]]. 0 <= k < c -> paa_at m o l n k m2[o2 + k]
%% lemma mul_less (a b n: int) : unit
  requires { n > 0 /\ a * n < b * n } ensures { a < b }
= if a >= b then assert { a * n >= b * n }
%% lemma qdiv_is (x n q: int) : unit
  requires { n > 0 /\ x >= 0 /\ q * n <= x < q * n + n }
  ensures { qdiv x n = q }
= mul_less q (qdiv x n + 1) n; mul_less (qdiv x n) (q + 1) n
%% lemma qdiv_next (x n: int) : unit
  requires { n > 0 /\ x >= 0 }
  ensures { qdiv (x + 1) n = (if x + 1 - qdiv x n * n = n then qdiv x n + 1 else qdiv x n) }
= if x + 1 - qdiv x n * n = n then qdiv_is (x + 1) n (qdiv x n + 1) else qdiv_is (x + 1) n (qdiv x n)
%% lemma qdiv_range (x n: int) : unit
  requires { n > 0 /\ x >= 0 }
  ensures { 0 <= qdiv x n <= x }
= if qdiv x n > x then assert { qdiv x n * n > x }
%% lemma qdiv_mono (x y n: int) : unit
  requires { n > 0 /\ 0 <= x <= y }
  ensures { qdiv x n <= qdiv y n }
= mul_less (qdiv x n) (qdiv y n + 1) n
%% lemma paa_row_start (m2: map int dbl) (o2: int) (m: map int dbl) (o l n: int) : unit
  ensures { paa_row m2 o2 m o l n 0 }
= paa_row_def m2 o2 m o l n 0
%% lemma paa_row_step (m2: map int dbl) (o2: int) (m: map int dbl) (o l n c: int) (x: dbl) : unit
  requires { c >= 0 /\ paa_row m2 o2 m o l n c /\ paa_at m o l n c x }
  ensures { paa_row m2[o2 + c <- x] o2 m o l n (c + 1) }
= let m3 = pure { m2[o2 + c <- x] } in
  paa_row_def m2 o2 m o l n c; paa_row_def m3 o2 m o l n (c + 1)
# the state of the scan over one row before element i: sum and number of values of the current block, blocks done
%% function scan_count (i l n: int) : int = if i = l then 0 else i - qdiv i n * n
%% function scan_done (i l n: int) : int = if i = l then qdiv (l - 1) n + 1 else qdiv i n
%% lemma scan_step (m m2: map int dbl) (o l n i: int) (o2: int) : unit
  requires { n > 0 /\ 0 <= i < l }
  ensures { qdiv (l - 1) n <= l - 1 }
  ensures { let c = scan_count i l n in let d = qdiv i n in 0 <= d <= qdiv (l - 1) n /\ c >= 0 /\ o + d * n + c = o + i
     /\ asum m (o + d * n) (c + 1) = fadd (asum m (o + d * n) c) m[o + i]
     /\ (if c + 1 = n || i = l - 1 then scan_count (i + 1) l n = 0 /\ scan_done (i + 1) l n = d + 1 /\ paa_at m o l n d (fdiv (asum m (o + d * n) (c + 1)) (of_int (c + 1)))
         else scan_count (i + 1) l n = c + 1 /\ scan_done (i + 1) l n = d /\ qdiv (i + 1) n = d) }
= let d = pure { qdiv i n } in
  let c = pure { i - d * n } in
  asum_step m (pure { o + d * n }) (c + 1);
  qdiv_next i n; qdiv_mono i (l - 1) n; qdiv_range (l - 1) n;
  paa_at_def m o l n d (pure { fdiv (asum m (o + d * n) (c + 1)) (of_int (c + 1)) })

fn doPAA (source, dest, srcLength, n)
  requires [there are values and the block size is positive] { p_srcLength >= 1 /\ p_n >= 1 }
  requires C19 [the values are inside their array] { 0 <= p_source.po /\ p_source.po + p_srcLength <= @dlen[p_source.pb] /\ @dkind[p_source.pb] <> 0 }
  requires C19 [there is room for the means] { 0 <= p_dest.po /\ p_dest.po + (qdiv (p_srcLength - 1) p_n + 1) <= @dlen[p_dest.pb] }
  requires [source and destination are apart] { p_source.pb <> p_dest.pb }
  ensures C10 [each block becomes its mean] { paa_row @dmem[p_dest.pb] p_dest.po @dmem[p_source.pb] p_source.po p_srcLength p_n (qdiv (p_srcLength - 1) p_n + 1) }
  ensures C10 [other positions keep their values] { forall k: int [@dmem[p_dest.pb][k]]. k < p_dest.po \/ k >= p_dest.po + (qdiv (p_srcLength - 1) p_n + 1) -> @dmem[p_dest.pb][k] = (old @dmem)[p_dest.pb][k] }
  modifies mem: p_dest.pb
  noraise
  entry { qdiv_range (p_srcLength - 1) p_n; let ghost ms = pure { @dmem[p_source.pb] } in }
  loop 1
  before { qdiv_is 0 p_n 0; paa_row_start (pure { @dmem[p_dest.pb] }) (pure { p_dest.po }) ms (pure { p_source.po }) p_srcLength p_n }
  invariant [position] { 0 <= $i <= p_srcLength }
  invariant [values of the current block] { $count = scan_count $i p_srcLength p_n /\ $sum = asum ms (p_source.po + qdiv $i p_n * p_n) $count }
  invariant [blocks done] { paa_row @dmem[p_dest.pb] p_dest.po ms p_source.po p_srcLength p_n (scan_done $i p_srcLength p_n) }
  invariant [other positions keep their values] { forall k: int [@dmem[p_dest.pb][k]]. k < p_dest.po \/ k >= p_dest.po + (qdiv (p_srcLength - 1) p_n + 1) -> @dmem[p_dest.pb][k] = (old @dmem)[p_dest.pb][k] }
  modifies mem: p_dest.pb
  variant { p_srcLength - $i }
  begin { scan_step ms ms (pure { p_source.po }) p_srcLength p_n $i 0;
    if $count + 1 = p_n || $i = p_srcLength - 1 then
      paa_row_step (pure { @dmem[p_dest.pb] }) (pure { p_dest.po }) ms (pure { p_source.po }) p_srcLength p_n (pure { qdiv $i p_n })
        (pure { fdiv (asum ms (p_source.po + qdiv $i p_n * p_n) ($count + 1)) (of_int ($count + 1)) }) }

# row by row: the new values are the block means of the old rows
%% opaque paa_in (m2 m: map int dbl) (l n c r: int) = paa_row m2 (r * c) m (r * l) l n c
%% opaque paa_rows (m2 m: map int dbl) (l n c: int) (rows: int) = forall r: int [paa_in m2 m l n c r]. 0 <= r < rows -> paa_in m2 m l n c r
%% lemma paa_rows_start (m2 m: map int dbl) (l n c: int) : unit
  ensures { paa_rows m2 m l n c 0 }
= paa_rows_def m2 m l n c 0
# a row outside the part that changes keeps its means
%% lemma paa_row_kept (m2 m3: map int dbl) (o2: int) (m: map int dbl) (o l n c: int) : unit
  requires { paa_row m2 o2 m o l n c /\ forall k: int [m3[k]]. o2 <= k < o2 + c -> m3[k] = m2[k] }
  ensures { paa_row m3 o2 m o l n c }
= paa_row_def m2 o2 m o l n c; paa_row_def m3 o2 m o l n c
%% lemma paa_rows_kept (m2 m3 m: map int dbl) (l n c r: int) : unit
  requires { r >= 0 /\ c >= 0 /\ paa_rows m2 m l n c r /\ forall k: int [m3[k]]. 0 <= k < r * c -> m3[k] = m2[k] }
  ensures { paa_rows m3 m l n c r }
  variant { r }
= paa_rows_def m2 m l n c r; 
  if r > 0 then begin
    assert { r * c = (r - 1) * c + c };
    paa_rows_def m2 m l n c (r - 1);
    paa_rows_kept m2 m3 m l n c (r - 1);
    mul_pos (r - 1) c;
    paa_in_def m2 m l n c (r - 1); paa_in_def m3 m l n c (r - 1);
    paa_row_kept m2 m3 (pure { (r - 1) * c }) m (pure { (r - 1) * l }) l n c;
    paa_rows_def m3 m l n c (r - 1) end;
  paa_rows_def m3 m l n c r
%% lemma paa_rows_step (m2 m3 m: map int dbl) (l n c r: int) : unit
  requires { r >= 0 /\ c >= 0 /\ paa_rows m2 m l n c r /\ (forall k: int [m3[k]]. 0 <= k < r * c -> m3[k] = m2[k]) /\ paa_row m3 (r * c) m (r * l) l n c }
  ensures { paa_rows m3 m l n c (r + 1) }
= paa_rows_kept m2 m3 m l n c r; paa_in_def m3 m l n c r; paa_rows_def m3 m l n c r; paa_rows_def m3 m l n c (r + 1)
%% lemma blocks_is (l n: int) : unit
  requires { l >= 1 /\ n >= 1 }
  ensures { blocks l n (qdiv (l - 1) n + 1) /\ 1 <= qdiv (l - 1) n + 1 <= l }
= qdiv_range (l - 1) n
%% lemma mul_le (a b n: int) : unit
  requires { 0 <= n /\ a <= b } ensures { a * n <= b * n }
= ()
# the mean of one block, and blocks of one
%% lemma c10_mean (m2 m: map int dbl) (l n c rows r k: int) : unit
  requires { paa_rows m2 m l n c rows /\ blocks l n c /\ 0 <= r < rows /\ 0 <= k < c }
  ensures { [@expl:C10|lemma|value k of a row is the mean of the values of its block k] 
     let cnt = min2 n (l - k * n) in m2[r * c + k] = fdiv (asum m (r * l + k * n) cnt) (of_int cnt) }
= paa_rows_def m2 m l n c rows; paa_in_def m2 m l n c r; paa_row_def m2 (pure { r * c }) m (pure { r * l }) l n c;
  paa_at_def m (pure { r * l }) l n k (pure { m2[r * c + k] })
# blocks of one value: the mean of one value is the value itself
%% axiom div_one : forall x: dbl [fdiv x (of_int 1)]. fdiv x (of_int 1) = x
%% lemma c10_one (m2 m: map int dbl) (l c rows r k: int) : unit
  requires { paa_rows m2 m l 1 c rows /\ blocks l 1 c /\ 0 <= r < rows /\ 0 <= k < c }
  ensures { [@expl:C10|lemma|blocks of one leave the values as they are] c = l /\ m2[r * c + k] = m[r * l + k] }
= c10_mean m2 m l 1 c rows r k; asum_step m (pure { r * l + k * 1 }) 1

fn TimeSeriesSet::PAA (n)
  requires [the dataset is valid] { ds_ok this }
  requires [the dataset is loaded] { @TimeSeriesSet.data[this] <> null_ptr }
  ensures C10 [every row has one value per block, the number of rows stays] { p_n >= 1 /\ @TimeSeriesSet.itemCount[this] = old @TimeSeriesSet.itemCount[this] /\ blocks (old @TimeSeriesSet.itemLength[this]) p_n @TimeSeriesSet.itemLength[this] }
  ensures C10 [every value is the mean of its block] { paa_rows (dsm this) (old (dsm this)) (old @TimeSeriesSet.itemLength[this]) p_n @TimeSeriesSet.itemLength[this] @TimeSeriesSet.itemCount[this] }
  ensures C10,C19 [the dataset stays valid] { ds_ok this /\ @TimeSeriesSet.data[this] <> null_ptr }
  ensures C19 [the earlier values are released] { @dkind[(old @TimeSeriesSet.data[this]).pb] = 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  raises E_onex C10 [exactly a block size that is not positive is refused] { p_n <= 0 /\ @dmem = old @dmem /\ @dkind = old @dkind /\ @dlen = old @dlen /\ @bown = old @bown /\ @TimeSeriesSet.data = old @TimeSeriesSet.data /\ @TimeSeriesSet.itemLength = old @TimeSeriesSet.itemLength }
  modifies TimeSeriesSet.data: this
  modifies TimeSeriesSet.itemLength: this
  modifies own: (@TimeSeriesSet.data[this]).pb
  entry { let ghost m0 = pure { dsm this } in let ghost cnt = pure { @TimeSeriesSet.itemCount[this] } in let ghost len = pure { @TimeSeriesSet.itemLength[this] } in
    if p_n >= 1 then begin blocks_is len p_n; mul_le (pure { qdiv (len - 1) p_n + 1 }) len cnt; mul_pos cnt (pure { qdiv (len - 1) p_n + 1 }) end; }
  loop 1
  before { paa_rows_start (pure { @dmem[$new_data.pb] }) m0 len p_n $newItemLength; let ghost nl = $newItemLength in }
  invariant [row] { 0 <= $ts <= cnt }
  invariant [rows done] { paa_rows @dmem[$new_data.pb] m0 len p_n $newItemLength $ts }
  modifies mem: $new_data.pb
  variant { cnt - $ts }
  begin { row_in $ts 0 cnt len; row_in $ts 0 cnt $newItemLength; let ghost m1 = pure { @dmem[$new_data.pb] } in }
  end { paa_rows_step m1 (pure { @dmem[$new_data.pb] }) m0 len p_n $newItemLength $ts }
  after { set_bown $new_data this }

fn tsPAA (source, n)
  requires [there are values and the block size is positive] { ts_ok p_source /\ @alive[p_source] /\ p_source > 0 /\ @TimeSeries.length[p_source] >= 1 /\ p_n >= 1 }
  ensures C10 [each block becomes its mean] { let l = @TimeSeries.length[p_source] in let v = old (tv p_source) in
     blocks l p_n @TimeSeries.length[result] /\ ts_ok result /\ paa_row (tv result).vm (tv result).vo v.vm v.vo l p_n @TimeSeries.length[result] }
  ensures C15,C19 [a valid series of its own] { ts_own result /\ ts_fresh result /\ (old @dkind)[(@TimeSeries.data[result]).pb] = 0 }
  noraise
  entry { let ghost v0 = pure { tv p_source } in let ghost len = pure { @TimeSeries.length[p_source] } in blocks_is len p_n }
  loop 1
  before { qdiv_is 0 p_n 0; paa_row_start (pure { (tv $dest).vm }) (pure { (tv $dest).vo }) v0.vm v0.vo len p_n }
  invariant [position] { 0 <= $i <= len }
  invariant [values of the current block] { $count = scan_count $i len p_n /\ $sum = asum v0.vm (v0.vo + qdiv $i p_n * p_n) $count }
  invariant [blocks done] { paa_row (tv $dest).vm (tv $dest).vo v0.vm v0.vo len p_n (scan_done $i len p_n) }
  modifies mem: (@TimeSeries.data[$dest]).pb
  variant { len - $i }
  begin { scan_step v0.vm v0.vm v0.vo len p_n $i 0;
    if $count + 1 = p_n || $i = len - 1 then
      paa_row_step (pure { (tv $dest).vm }) (pure { (tv $dest).vo }) v0.vm v0.vo len p_n (pure { qdiv $i p_n })
        (pure { fdiv (asum v0.vm (v0.vo + qdiv $i p_n * p_n) ($count + 1)) (of_int ($count + 1)) }) }
