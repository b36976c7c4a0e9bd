# ---------------------------------------------------------------------------
# Reading files: library contracts
# ---------------------------------------------------------------------------
# What a file contains: its lines; io_broken: reading it can fail
%% sym io_broken (src: int) : bool
%% sym nlines (src: int) : int
%% axiom nlines_pos : forall s: int [nlines s]. nlines s >= 0
%% sym line_at (src i: int) : str
# io_src: contents of the file opened last
%% global io_src : int
%% global io_open : bool
%% global st_src : map int int
%% global st_open : map int bool
%% global st_ok : map int bool
%% global st_row : map int int
%% global st_pos : map int int
%% val ist_open (path: str) : int
  writes { alive, st_src, st_open, st_ok, st_row, st_pos, io_src, io_open }
  ensures { result > 0 /\ not (old @alive)[result] /\ @alive = (old @alive)[result <- true] }
  ensures { @st_src = (old @st_src)[result <- @io_src] /\ @st_row = (old @st_row)[result <- 0] /\ @st_pos = (old @st_pos)[result <- 0] }
  ensures { @st_open = (old @st_open)[result <- @io_open] /\ @st_ok = (old @st_ok)[result <- @io_open] }
%% val ist_is_open (s: int) : bool ensures { result <-> @st_open[s] }
%% val ist_good (s: int) : bool ensures { result <-> @st_ok[s] }
%% val st_bad (s: int) : bool ensures { result -> io_broken @st_src[s] }
%% val st_close (s: int) : unit
%% val ist_clear (s: int) : unit writes { st_ok } ensures { @st_ok = (old @st_ok)[s <- @st_open[s]] }
%% val ist_rewind (s: int) : unit writes { st_row, st_pos } ensures { @st_row = (old @st_row)[s <- if @st_ok[s] then 0 else (old @st_row)[s]] /\ @st_pos = (old @st_pos)[s <- if @st_ok[s] then 0 else (old @st_pos)[s]] }
%% val ist_getline (s: int) : str
  writes { st_ok, st_row }
  ensures { exists b: bool. @st_ok = (old @st_ok)[s <- b] /\ @st_row = (old @st_row)[s <- if b then (old @st_row)[s] + 1 else (old @st_row)[s]] }
  ensures { not (old @st_ok)[s] -> not @st_ok[s] }
  ensures { not io_broken @st_src[s] -> @st_ok[s] = ((old @st_ok)[s] && (old @st_row)[s] < nlines @st_src[s]) }
  ensures { not io_broken @st_src[s] -> @st_ok[s] -> result = line_at @st_src[s] (old @st_row)[s] }
# ---- splitting a line at separator characters
%% sym seps_of (s: str) : int
%% sym tkz (line: str) (seps: int) : int
%% sym tkn (t: int) : int
%% axiom tkn_pos : forall t: int [tkn t]. tkn t >= 0
%% sym tk_at (t k: int) : str
%% sym tki (t k: int) : int
%% sym tki_t (i: int) : int
%% sym tki_k (i: int) : int
%% axiom tki_def : forall t k: int [tki t k]. tki_t (tki t k) = t /\ tki_k (tki t k) = k
%% val mk_separator (s: str) : int ensures { result = seps_of s }
%% val mk_tokenizer (line: str) (sep: int) : int ensures { result = tkz line sep }
%% val tok_begin (t: int) : int ensures { result = tki t 0 }
%% val tok_end (t: int) : int ensures { result = tki t (tkn t) }
%% val tok_eq (a b: int) : bool requires { [@expl:C19|pre|positions in the same line] tki_t a = tki_t b } ensures { result <-> tki_k a = tki_k b }
%% val tok_get (a: int) : str requires { [@expl:C19|pre|read inside the line] 0 <= tki_k a < tkn (tki_t a) } ensures { result = tk_at (tki_t a) (tki_k a) }
%% val tok_next (a: int) : int requires { [@expl:C19|pre|move inside the line] 0 <= tki_k a < tkn (tki_t a) } ensures { result = tki (tki_t a) (tki_k a + 1) }
%% val tok_distance (a b: int) : int requires { [@expl:C19|pre|positions in the same line] tki_t a = tki_t b } ensures { result = tki_k b - tki_k a }
%% val old_ (a: int) : int ensures { result = a }
# ---- numbers in text: is_num: starts with a number; num_fits: it is representable
%% sym is_num (s: str) : bool
%% sym num_fits (s: str) : bool
%% sym num_of (s: str) : dbl
%% val stod (s: str) : dbl
  ensures { is_num s /\ num_fits s /\ result = num_of s }
  raises { E_invalid -> not is_num s }
  raises { E_range -> is_num s /\ not num_fits s }
# the cells of a file: rows are lines, columns are split at separator characters
%% function ncols (src: int) (seps: str) (r: int) : int = tkn (tkz (line_at src r) (seps_of seps))
%% function fcell (src: int) (seps: str) (r c: int) : str = tk_at (tkz (line_at src r) (seps_of seps)) c
%% predicate good_cell (src: int) (seps: str) (r c: int) = is_num (fcell src seps r c) /\ num_fits (fcell src seps r c)
%% function rows_read (src maxrow: int) : int = if maxrow <= 0 || nlines src < maxrow then nlines src else maxrow
# row r of m (rows of length l) holds columns s.. of line r
%% predicate row_loaded (m: map int dbl) (src: int) (seps: str) (s r l: int) = forall c: int [m[r * l + c]]. 0 <= c < l -> good_cell src seps r (s + c) /\ m[r * l + c] = num_of (fcell src seps r (s + c))
%% opaque loaded (m: map int dbl) (src: int) (seps: str) (s l n: int) = forall r: int. 0 <= r < n -> ncols src seps r = s + l /\ (forall c: int [m[r * l + c]]. 0 <= c < l -> good_cell src seps r (s + c) /\ m[r * l + c] = num_of (fcell src seps r (s + c)))
%% opaque part_loaded (m: map int dbl) (src: int) (seps: str) (s l r k: int) = forall c: int [m[r * l + c]]. 0 <= c < k -> good_cell src seps r (s + c) /\ m[r * l + c] = num_of (fcell src seps r (s + c))
# ---- assumption: a line has at most 268435455 cells
%% axiom tkn_max : forall t: int [tkn t]. tkn t <= 268435455
%% predicate io_small (src: int) (seps: str) (n: int) = n * ncols src seps 0 <= 2147483647
%% predicate same_width (src: int) (seps: str) (n: int) = forall r: int [ncols src seps r]. 0 <= r < n -> ncols src seps r = ncols src seps 0
%% predicate numbers (src: int) (seps: str) (s l n: int) = forall r c: int [fcell src seps r c]. 0 <= r < n -> s <= c < l -> good_cell src seps r c
%% lemma fcell_in (row len s m c: int) : unit
  requires { 0 <= row < m /\ 0 <= s <= c < len }
  ensures { 0 <= row * (len - s) /\ row * (len - s) + (c - s) < m * len /\ row * (len - s) + (len - s) <= m * len }
= assert { (row + 1) * (len - s) <= m * (len - s) }; assert { m * (len - s) <= m * len }
%% lemma mul_le2 (a b c d: int) : unit
  requires { 0 <= a <= c /\ 0 <= b <= d }
  ensures { a * b <= c * d /\ 0 <= a * b }
= assert { a * b <= c * b }; assert { c * b <= c * d }
%% lemma div_bound (x m n: int) : unit
  requires { 0 <= x /\ 0 < m }
  ensures { n <= qdiv x m -> m * n <= x }
  ensures { n > qdiv x m -> m * n > x }
= assert { qdiv x m * m <= x < (qdiv x m + 1) * m }; if n <= qdiv x m then assert { n * m <= qdiv x m * m } else assert { (qdiv x m + 1) * m <= n * m }
%% lemma div_bounds (x m: int) : unit
  requires { 0 <= x }
  ensures { m > 0 -> forall n: int. (n <= qdiv x m -> m * n <= x) /\ (n > qdiv x m -> m * n > x) }
= if m > 0 then begin assert { qdiv x m * m <= x < (qdiv x m + 1) * m };
  assert { forall n: int. n <= qdiv x m -> n * m <= qdiv x m * m }; assert { forall n: int. n > qdiv x m -> (qdiv x m + 1) * m <= n * m } end

fn countNumberOfLines (f)
  requires [at the start of an open file] { @alive[p_f] /\ @st_open[p_f] /\ @st_ok[p_f] /\ @st_row[p_f] = 0 }
  ensures C11 [all lines are counted] { not io_broken @st_src[p_f] -> result = nlines @st_src[p_f] }
  ensures C11 [back at the start of the file] { result >= 0 /\ @st_ok[p_f] /\ @st_row[p_f] = 0 /\ @st_src = old @st_src /\ @st_open = old @st_open /\ @io_src = old @io_src }
  modifies istream: p_f
  noraise
  loop 1
  invariant [lines counted] { $lineCount >= 0 /\ (@st_ok[p_f] -> @st_row[p_f] = $lineCount) }
  invariant [position] { not io_broken @st_src[p_f] -> @st_ok[p_f] /\ $lineCount <= nlines @st_src[p_f] }
  modifies istream: p_f
%% lemma load_start (m: map int dbl) (src: int) (seps: str) (s l: int) : unit
  ensures { loaded m src seps s l 0 }
= loaded_def m src seps s l 0
%% lemma part_start (m: map int dbl) (src: int) (seps: str) (s l r: int) : unit
  ensures { part_loaded m src seps s l r 0 }
= part_loaded_def m src seps s l r 0
%% lemma part_step (m: map int dbl) (src: int) (seps: str) (s l r k: int) (x: dbl) : unit
  requires { 0 <= k < l /\ 0 <= r }
  requires { loaded m src seps s l r /\ part_loaded m src seps s l r k }
  requires { good_cell src seps r (s + k) /\ x = num_of (fcell src seps r (s + k)) }
  ensures { loaded m[r * l + k <- x] src seps s l r /\ part_loaded m[r * l + k <- x] src seps s l r (k + 1) }
= let m2 = pure { m[r * l + k <- x] } in
  loaded_def m src seps s l r; part_loaded_def m src seps s l r k; loaded_def m2 src seps s l r; part_loaded_def m2 src seps s l r (k + 1);
  assert { forall q: int [q * l]. 0 <= q < r -> (q + 1) * l <= r * l };
  assert { forall q c: int [m2[q * l + c]]. 0 <= q < r -> 0 <= c < l -> m2[q * l + c] = m[q * l + c] };
  assert { forall c: int [m2[r * l + c]]. 0 <= c < k -> m2[r * l + c] = m[r * l + c] }
%% lemma load_step (m: map int dbl) (src: int) (seps: str) (s l r: int) : unit
  requires { 0 <= r /\ loaded m src seps s l r /\ part_loaded m src seps s l r l /\ ncols src seps r = s + l }
  ensures { loaded m src seps s l (r + 1) }
= loaded_def m src seps s l r; part_loaded_def m src seps s l r l; loaded_def m src seps s l (r + 1)
# reading a cell of a loaded dataset
%% lemma c11_cells (m: map int dbl) (src: int) (seps: str) (s l n r c: int) : unit
  requires { loaded m src seps s l n /\ 0 <= r < n /\ 0 <= c < l }
  ensures { [@expl:C11|lemma|every value is the number in its cell] good_cell src seps r (s + c) /\ m[r * l + c] = num_of (fcell src seps r (s + c)) }
= loaded_def m src seps s l n

%% lemma loaded_table (m: map int dbl) (src: int) (seps: str) (s l n: int) : unit
  requires { loaded m src seps s l n /\ n > 0 }
  ensures { same_width src seps n /\ ncols src seps 0 = s + l /\ numbers src seps s (s + l) n }
= loaded_def m src seps s l n;
  assert { forall r c: int. 0 <= r < n -> 0 <= c < l -> good_cell src seps r (s + c) by m[r * l + c] = m[r * l + c] };
  assert { forall r c: int [fcell src seps r c]. 0 <= r < n -> s <= c < s + l -> good_cell src seps r c by good_cell src seps r (s + (c - s)) }

# the file opened last is refused
%% predicate refused (src: int) (seps: str) (s maxrow: int) =
   let n = rows_read src maxrow in
   n = 0 \/ s < 0 \/ s >= ncols src seps 0 \/ n * ncols src seps 0 > 2147483647
   \/ not (same_width src seps n) \/ not (numbers src seps s (ncols src seps 0) n)
fn TimeSeriesSet::loadData (filePath, maxNumRow, startCol, separators)
  requires C19 [the dataset owns its values] { this > 0 /\ @alive[this] /\ ds_cls this /\ ds_data this }
  ensures C11 [only a readable file is accepted] { @io_open /\ (io_broken @io_src \/ not (refused @io_src p_separators p_startCol p_maxNumRow)) }
  ensures C11 [rows and columns of the file] { not io_broken @io_src -> @TimeSeriesSet.itemCount[this] = rows_read @io_src p_maxNumRow /\ @TimeSeriesSet.itemLength[this] = ncols @io_src p_separators 0 - p_startCol }
  ensures C11 [every value is the number in its cell] { not io_broken @io_src -> loaded (dsm this) @io_src p_separators p_startCol @TimeSeriesSet.itemLength[this] @TimeSeriesSet.itemCount[this] }
  ensures C11,C19 [the dataset is valid] { ds_ok this /\ @TimeSeriesSet.data[this] <> null_ptr /\ not @TimeSeriesSet.normalized[this] }
  ensures C11 [the path is kept] { @TimeSeriesSet.filePath[this] = p_filePath }
  ensures C19 [the earlier values are released] { (old @TimeSeriesSet.data[this]).pb <> 0 -> (old @TimeSeriesSet.data[this]).pb <> (@TimeSeriesSet.data[this]).pb -> @dkind[(old @TimeSeriesSet.data[this]).pb] = 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  raises E_onex C11 [refused exactly when it cannot be read or is not a table of numbers] { not @io_open \/ io_broken @io_src \/ refused @io_src p_separators p_startCol p_maxNumRow }
  raises E_onex C11,C14 [a refused file leaves an empty dataset] { ds_ok this /\ @TimeSeriesSet.data[this] = null_ptr /\ not @TimeSeriesSet.normalized[this] }
  raises E_onex [the null array stays] { @dlen[0] = old @dlen[0] }
  modifies TimeSeriesSet: this
  modifies own: { o_ <> 0 /\ o_ = (@TimeSeriesSet.data[this]).pb }
  modifies mem: { o_ <> 0 /\ o_ = (@TimeSeriesSet.data[this]).pb }
  entry { let ghost b0 = pure { (@TimeSeriesSet.data[this]).pb } in }
  loop 1
  before { let ghost src = pure { @io_src } in let ghost ok = pure { not io_broken @io_src } in let ghost dl0 = pure { @dlen[0] } in let ghost mr = $maxNumRow in let ghost kl = pure { @dkind } in }
  invariant [the file] { @io_src = src /\ @io_open /\ @st_src[$f] = src /\ @st_open[$f] /\ @st_ok[$f] /\ @st_row[$f] = $row }
  invariant [rows] { 0 <= $row /\ @TimeSeriesSet.itemCount[this] = $row /\ @TimeSeriesSet.itemLength[this] = 0 /\ ($row = 0 \/ $row <= mr) /\ (ok -> mr = rows_read src p_maxNumRow) }
  invariant [no values before the first row] { $row = 0 -> @TimeSeriesSet.data[this] = null_ptr }
  invariant [values of the rows] { $row > 0 -> let d = @TimeSeriesSet.data[this] in 0 <= p_startCol < $length <= 268435455 /\ mr * $length <= 2147483647
     /\ d.pb <> 0 /\ d.po = 0 /\ @dkind[d.pb] = 1 /\ @bown[d.pb] = this /\ @dlen[d.pb] = mr * $length }
  invariant [rows read] { ok -> $row > 0 -> $length = ncols src p_separators 0 /\ loaded (dsm this) src p_separators p_startCol ($length - p_startCol) $row }
  invariant [the null array stays] { @dlen[0] = dl0 /\ not @TimeSeriesSet.normalized[this] }
  invariant [storage] { let d = @TimeSeriesSet.data[this] in ($row > 0 -> kl[d.pb] = 0) /\ (b0 <> 0 -> b0 <> d.pb -> @dkind[b0] = 0) }
  modifies TimeSeriesSet: this
  modifies istream: $f
  modifies own: { o_ <> 0 /\ o_ = (@TimeSeriesSet.data[this]).pb }
  modifies mem: { o_ <> 0 /\ o_ = (@TimeSeriesSet.data[this]).pb }
  variant { mr - $row }
  after { if @TimeSeriesSet.itemCount[this] > 0 then mul_le2 (pure { @TimeSeriesSet.itemCount[this] }) ($length - p_startCol) mr $length; if ok && @TimeSeriesSet.itemCount[this] > 0 then loaded_table (pure { dsm this }) src p_separators p_startCol ($length - p_startCol) (pure { @TimeSeriesSet.itemCount[this] }) }
  begin { div_bounds 2147483647 mr }
  loop 2
  before { let ghost wd = pure { $length - p_startCol } in let ghost row = $row in let ghost d = pure { @TimeSeriesSet.data[this] } in set_bown @TimeSeriesSet.data[this] this; assert { 0 <= row < mr /\ 0 <= p_startCol < $length /\ d.pb <> 0 /\ d.po = 0 /\ tkn $tokens = $length }; assert { @dkind[d.pb] = 1 /\ @bown[d.pb] = this /\ @dlen[d.pb] = mr * $length /\ mr * $length <= 2147483647 }; let ghost kd = pure { @dkind } in let ghost ld = pure { @dlen } in let ghost od = pure { @bown } in
     if row = 0 then load_start (pure { @dmem[d.pb] }) src p_separators p_startCol wd; part_start (pure { @dmem[d.pb] }) src p_separators p_startCol wd row }
  invariant [column] { 0 <= $col <= tkn $tokens /\ tki_t $tok_iter = $tokens /\ tki_k $tok_iter = $col }
  invariant [storage] { @dkind = kd /\ @dlen = ld /\ @bown = od }
  invariant [values] { not @TimeSeriesSet.normalized[this] /\ @TimeSeriesSet.itemCount[this] = row /\ @TimeSeriesSet.itemLength[this] = 0 /\ @dlen[0] = dl0 /\ @TimeSeriesSet.data[this] = d /\ @dkind[d.pb] = 1 /\ @bown[d.pb] = this /\ @dlen[d.pb] = mr * $length }
  invariant [cells read] { ok -> loaded @dmem[d.pb] src p_separators p_startCol wd row /\ part_loaded @dmem[d.pb] src p_separators p_startCol wd row (max2 0 ($col - p_startCol)) }
  modifies mem: d.pb
  variant { tkn $tokens - $col }
  begin { if $col >= p_startCol then fcell_in row $length p_startCol mr $col; assert { ok -> tk_at $tokens $col = fcell src p_separators row $col }; let ghost m1 = pure { @dmem[d.pb] } in }
  end { if ok && $col >= p_startCol then begin assert { @dmem[d.pb] = m1[row * wd + ($col - p_startCol) <- num_of (fcell src p_separators row $col)] }; part_step m1 src p_separators p_startCol wd row ($col - p_startCol) (pure { num_of (fcell src p_separators row $col) }) end }
  after { if ok then load_step (pure { @dmem[d.pb] }) src p_separators p_startCol wd row }
