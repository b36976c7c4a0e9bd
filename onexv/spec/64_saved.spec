# ---------------------------------------------------------------------------
# Saving and loading again
# ---------------------------------------------------------------------------
# text_is: the file contents src are the text of the first len items of tk
%% sym text_is (src: int) (tk: map int otok) (len: int) : bool
# characters that cannot be part of a number or end a line
%% sym plain_sep (c: int) : bool
# the string of one character
%% sym str1 (c: int) : str
# zero or a normal number
%% sym plain_num (x: dbl) : bool
%% opaque plain_table (m: map int dbl) (l n: int) = forall r c: int [m[r * l + c]]. 0 <= r < n -> 0 <= c < l -> plain_num m[r * l + c]
# ---- assumption: a table of numbers is split into its lines and columns, and 17 significant digits read back as the same number
%% axiom text_table : forall src: int, tk: map int otok, m: map int dbl, l n sep w len: int [text_is src tk len, ttab tk m l w n sep].
   text_is src tk len -> ttab tk m l w n sep -> w = 2 * l + 1 -> len = n * w -> n > 0 -> l > 0 -> plain_sep sep
   -> plain_table m l n
   -> nlines src = n /\ (forall r: int [ncols src (str1 sep) r]. 0 <= r < n -> ncols src (str1 sep) r = l)
      /\ (forall r c: int [fcell src (str1 sep) r c]. 0 <= r < n -> 0 <= c < l -> good_cell src (str1 sep) r c /\ num_of (fcell src (str1 sep) r c) = m[r * l + c])
# what saveData ensures and what loadData ensures, put together
%% lemma c12_roundtrip (src: int) (tk: map int otok) (m m2: map int dbl) (l n sep l2 n2 w len: int) : unit
  requires { text_is src tk len /\ ttab tk m l w n sep /\ w = 2 * l + 1 /\ len = n * w }
  requires { n > 0 /\ l > 0 /\ n * l <= 2147483647 /\ plain_sep sep }
  requires { plain_table m l n }
  ensures { [@expl:C12|lemma|a saved dataset is not refused] not (refused src (str1 sep) 0 0) }
  ensures { [@expl:C12|lemma|a saved dataset is loaded with the same shape] n2 = rows_read src 0 -> l2 = ncols src (str1 sep) 0 - 0 -> n2 = n /\ l2 = l }
  ensures { [@expl:C12|lemma|a saved dataset is loaded with the same values] n2 = n -> l2 = l -> loaded m2 src (str1 sep) 0 l2 n2 -> forall r c: int. 0 <= r < n -> 0 <= c < l -> m2[r * l + c] = m[r * l + c] }
= assert { nlines src = n /\ ncols src (str1 sep) 0 = l };
  assert { same_width src (str1 sep) n }; assert { numbers src (str1 sep) 0 l n };
  loaded_def m2 src (str1 sep) 0 l n;
  assert { n2 = n -> l2 = l -> loaded m2 src (str1 sep) 0 l2 n2 -> forall r c: int [fcell src (str1 sep) r c]. 0 <= r < n -> 0 <= c < l -> good_cell src (str1 sep) r (0 + c) /\ m2[r * l + c] = num_of (fcell src (str1 sep) r (0 + c)) }

fn GroupableTimeSeriesSet::loadData (filePath, maxNumRow, startCol, separators)
  requires [the groups can be released] { gt_live this }
  requires C19 [the dataset owns its values] { ds_data this }
  ensures C11 [only a readable file is accepted] { @io_open /\ (io_broken @io_src \/ not (refused @io_src p_separators p_startCol p_maxNumRow)) }
  ensures C11 [rows and columns of the file] { not io_broken @io_src -> @TimeSeriesSet.itemCount[this] = rows_read @io_src p_maxNumRow /\ @TimeSeriesSet.itemLength[this] = ncols @io_src p_separators 0 - p_startCol }
  ensures C11 [every value is the number in its cell] { not io_broken @io_src -> loaded (dsm this) @io_src p_separators p_startCol @TimeSeriesSet.itemLength[this] @TimeSeriesSet.itemCount[this] }
  ensures C11,C19 [the dataset is valid] { gt_ok this /\ @TimeSeriesSet.data[this] <> null_ptr /\ not @TimeSeriesSet.normalized[this] }
  ensures C11,C16 [not grouped: the groups were built from other values] { gtg this = 0 }
  ensures C11 [the path is kept] { @TimeSeriesSet.filePath[this] = p_filePath }
  ensures C19 [the earlier values are released] { (old @TimeSeriesSet.data[this]).pb <> 0 -> (old @TimeSeriesSet.data[this]).pb <> (@TimeSeriesSet.data[this]).pb -> @dkind[(old @TimeSeriesSet.data[this]).pb] = 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  raises E_onex C11 [refused exactly when it cannot be read or is not a table of numbers] { not @io_open \/ io_broken @io_src \/ refused @io_src p_separators p_startCol p_maxNumRow }
  raises E_onex C11,C14,C16 [a refused file leaves an empty dataset without groups] { gt_ok this /\ gtg this = 0 /\ @TimeSeriesSet.data[this] = null_ptr /\ not @TimeSeriesSet.normalized[this] }
  raises E_onex [the null array stays] { @dlen[0] = old @dlen[0] }
  modifies GroupableTimeSeriesSet: this
  modifies TimeSeriesSet: { o_ = this \/ tdel_of this o_ }
  modifies vec: { tvec_of this o_ }
  modifies alive: { tdel_of this o_ }
  modifies TimeSeries: { tcen_of this o_ }
  modifies own: { tblk_of this o_ \/ (o_ <> 0 /\ o_ = (@TimeSeriesSet.data[this]).pb) }
  modifies istream: { tdel_of this o_ }
  modifies mem: { tblk_of this o_ \/ o_ <> 0 /\ o_ = (@TimeSeriesSet.data[this]).pb }
