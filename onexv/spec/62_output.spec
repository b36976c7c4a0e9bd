# ---------------------------------------------------------------------------
# Writing files: library contracts.  A stream holds the sequence of items written to it.
# ---------------------------------------------------------------------------
%% type otok
%% sym t_real (x: dbl) (digits: int) : otok
%% sym t_int (n: int) : otok
%% sym t_char (c: int) : otok
%% sym t_str (s: str) : otok
# io_dst: stream opened last
%% global io_dst : int
%% global os_len : map int int
%% global os_tok : map int (map int otok)
%% global os_prec : map int int
%% global os_path : map int str
%% val ost_open (path: str) : int
  writes { alive, os_len, os_tok, os_prec, os_path, io_dst, io_open }
  ensures { result > 0 /\ not (old @alive)[result] /\ @alive = (old @alive)[result <- true] /\ @io_dst = result }
  ensures { @os_len = (old @os_len)[result <- 0] /\ @os_prec = (old @os_prec)[result <- 6] /\ @os_path = (old @os_path)[result <- path] }
  ensures { exists m: map int otok. @os_tok = (old @os_tok)[result <- m] }
%% val ost_is_open (s: int) : bool ensures { s = @io_dst -> (result <-> @io_open) }
%% val ost_good (s: int) : bool ensures { s = @io_dst -> (result <-> @io_open) }
%% val ost_setprec (s n: int) : unit writes { os_prec } ensures { @os_prec = (old @os_prec)[s <- n] }
%% val ost_real (s: int) (x: dbl) : unit writes { os_len, os_tok } ensures { @os_len = (old @os_len)[s <- (old @os_len)[s] + 1] /\ @os_tok = (old @os_tok)[s <- (old @os_tok)[s][(old @os_len)[s] <- t_real x @os_prec[s]]] }
%% val ost_int (s: int) (x: int) : unit writes { os_len, os_tok } ensures { @os_len = (old @os_len)[s <- (old @os_len)[s] + 1] /\ @os_tok = (old @os_tok)[s <- (old @os_tok)[s][(old @os_len)[s] <- t_int x]] }
%% val ost_char (s: int) (x: int) : unit writes { os_len, os_tok } ensures { @os_len = (old @os_len)[s <- (old @os_len)[s] + 1] /\ @os_tok = (old @os_tok)[s <- (old @os_tok)[s][(old @os_len)[s] <- t_char x]] }
%% val ost_str (s: int) (x: str) : unit writes { os_len, os_tok } ensures { @os_len = (old @os_len)[s <- (old @os_len)[s] + 1] /\ @os_tok = (old @os_tok)[s <- (old @os_tok)[s][(old @os_len)[s] <- t_str x]] }
# an item that is the number x, printed so that it reads back as x: 17 significant digits are enough for a double
%% predicate exact (t: otok) (x: dbl) = exists d: int. d >= 17 /\ t = t_real x d
# ---- a table: rows of l numbers, each followed by sep, each row ended by a new line (w = 2 * l + 1 items per row)
%% opaque trow (k: map int otok) (b: int) (m: map int dbl) (o n sep: int) = forall c: int [m[o + c]]. 0 <= c < n -> exact k[b + 2 * c] m[o + c] /\ k[b + 2 * c + 1] = t_char sep
%% opaque ttab (k: map int otok) (m: map int dbl) (l w n sep: int) = forall r: int [r * w]. 0 <= r < n -> trow k (r * w) m (r * l) l sep /\ k[r * w + 2 * l] = t_char 10
%% lemma trow_start (k: map int otok) (b: int) (m: map int dbl) (o sep l w: int) : unit
  ensures { trow k b m o 0 sep /\ ttab k m l w 0 sep }
= trow_def k b m o 0 sep; ttab_def k m l w 0 sep
# writing behind the table keeps it
%% lemma trow_keep (k k2: map int otok) (b: int) (m: map int dbl) (o n sep: int) : unit
  requires { trow k b m o n sep /\ forall i: int [k2[i]]. i < b + 2 * n -> k2[i] = k[i] }
  ensures { trow k2 b m o n sep }
= trow_def k b m o n sep; trow_def k2 b m o n sep;
  assert { forall c: int. 0 <= c < n -> k2[b + 2 * c] = k[b + 2 * c] /\ k2[b + 2 * c + 1] = k[b + 2 * c + 1] }
%% lemma ttab_keep (k k2: map int otok) (m: map int dbl) (l w n sep: int) : unit
  requires { ttab k m l w n sep /\ w = 2 * l + 1 /\ l >= 0 /\ n >= 0 }
  requires { forall i: int [k2[i]]. i < n * w -> k2[i] = k[i] }
  ensures { ttab k2 m l w n sep }
  variant { n }
= if n > 0 then begin
    ttab_def k m l w n sep; ttab_def k m l w (n - 1) sep; ttab_def k2 m l w n sep; ttab_def k2 m l w (n - 1) sep;
    assert { (n - 1) * w + w = n * w };
    ttab_keep k k2 m l w (n - 1) sep;
    assert { trow k ((n - 1) * w) m ((n - 1) * l) l sep };
    trow_keep k k2 (pure { (n - 1) * w }) m (pure { (n - 1) * l }) l sep end
  else ttab_def k2 m l w n sep
%% lemma trow_step (k: map int otok) (b: int) (m: map int dbl) (o n sep: int) (t: otok) : unit
  requires { 0 <= n /\ trow k b m o n sep /\ exact t m[o + n] }
  ensures { trow k[b + 2 * n <- t][b + 2 * n + 1 <- t_char sep] b m o (n + 1) sep }
= let k3 = pure { k[b + 2 * n <- t][b + 2 * n + 1 <- t_char sep] } in
  trow_def k b m o n sep; trow_def k3 b m o (n + 1) sep;
  assert { forall c: int [m[o + c]]. 0 <= c < n -> k3[b + 2 * c] = k[b + 2 * c] /\ k3[b + 2 * c + 1] = k[b + 2 * c + 1] }
%% lemma ttab_step (k: map int otok) (m: map int dbl) (l w r sep: int) : unit
  requires { 0 <= r /\ 0 <= l /\ w = 2 * l + 1 /\ trow k (r * w) m (r * l) l sep /\ ttab k m l w r sep }
  ensures { ttab k[r * w + 2 * l <- t_char 10] m l w (r + 1) sep }
= let k2 = pure { k[r * w + 2 * l <- t_char 10] } in
  ttab_keep k k2 m l w r sep; trow_keep k k2 (pure { r * w }) m (pure { r * l }) l sep;
  ttab_def k2 m l w r sep; ttab_def k2 m l w (r + 1) sep

fn TimeSeriesSet::saveData (filePath, separator)
  requires [the dataset is valid] { ds_ok this }
  ensures C12 [the file is a table of the values, exactly as they are] { @io_open /\ @os_path[@io_dst] = p_filePath /\ ttab @os_tok[@io_dst] (dsm this) @TimeSeriesSet.itemLength[this] (2 * @TimeSeriesSet.itemLength[this] + 1) @TimeSeriesSet.itemCount[this] p_separator
     /\ @os_len[@io_dst] = @TimeSeriesSet.itemCount[this] * (2 * @TimeSeriesSet.itemLength[this] + 1) }
  raises E_onex C12 [refused exactly when the file cannot be opened] { not @io_open }
  entry { let ghost l = pure { @TimeSeriesSet.itemLength[this] } in let ghost n = pure { @TimeSeriesSet.itemCount[this] } in let ghost m = pure { dsm this } in let ghost w = 2 * l + 1 in }
  loop 1
  before { let ghost dst = pure { @io_dst } in trow_start (pure { @os_tok[dst] }) 0 m 0 p_separator l w }
  invariant [row] { 0 <= $i <= n /\ @io_dst = dst /\ @io_open }
  invariant [rows written] { @os_len[dst] = $i * w /\ ttab @os_tok[dst] m l w $i p_separator /\ @os_prec[dst] >= 17 /\ @os_path[dst] = p_filePath }
  modifies ostream: dst
  variant { n - $i }
  begin { row_in $i 0 n l; let ghost b = pure { @os_len[dst] } in trow_start (pure { @os_tok[dst] }) b m (pure { $i * l }) p_separator l w; let ghost i0 = $i in }
  end { () }
  loop 2
  invariant [column] { 0 <= $j <= l }
  invariant [cells written] { @os_len[dst] = b + 2 * $j /\ trow @os_tok[dst] b m (i0 * l) $j p_separator /\ ttab @os_tok[dst] m l w i0 p_separator }
  modifies ostream: dst
  variant { l - $j }
  begin { row_in i0 $j n l; let ghost k0 = pure { @os_tok[dst] } in }
  end { let k3 = pure { @os_tok[dst] } in ttab_keep k0 k3 m l w i0 p_separator; trow_step k0 b m (pure { i0 * l }) $j p_separator (pure { t_real m[i0 * l + $j] @os_prec[dst] }); assert { @os_tok[dst] = k0[b + 2 * $j <- t_real m[i0 * l + $j] @os_prec[dst]][b + 2 * $j + 1 <- t_char p_separator] } }
  after { ttab_step (pure { @os_tok[dst] }) m l w i0 p_separator }
