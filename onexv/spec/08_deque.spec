# ---------------------------------------------------------------------------
# Circular queue and envelopes
# ---------------------------------------------------------------------------
%% sym wrap (x c: int) : int
%% axiom wrap_def : forall x c: int [wrap x c]. wrap x c = (if x < 0 then (if x + c < 0 then x + 2 * c else x + c) else x)
# ghost: the elements of a queue counted from the front
%% global dqv : map int (map int int)
%% val dqv_push (d k v: int) : unit writes { dqv } ensures { @dqv = (old @dqv)[d <- (old @dqv)[d][k <- v]] }
%% val dqv_shift (d: int) : unit writes { dqv } ensures { @dqv = (old @dqv)[d <- shift (old @dqv)[d]] }
%% sym shift (m: map int int) : map int int
%% axiom shift_def : forall m: map int int, k: int [(shift m)[k]]. (shift m)[k] = m[k+1]
%% predicate dq_ok (d: int) = d > 0 /\ @deque.capacity[d] > 0 /\ 0 <= @deque.size[d] <= @deque.capacity[d] /\ 0 <= @deque.f[d] < @deque.capacity[d]
  /\ @deque.r[d] = wrap (@deque.f[d] - 1 - @deque.size[d]) @deque.capacity[d]
  /\ (@deque.data[d]).pb > 0 /\ (@deque.data[d]).po = 0 /\ @dlen[(@deque.data[d]).pb] = @deque.capacity[d] /\ @dkind[(@deque.data[d]).pb] = 2
  /\ forall k: int [@dqv[d][k]]. 0 <= k < @deque.size[d] -> @dqv[d][k] = @imem[(@deque.data[d]).pb][wrap (@deque.f[d] - 1 - k) @deque.capacity[d]]

fn deque::deque (capacity)
  requires [capacity is positive] { 0 < p_capacity <= 536870911 }
  requires [the object is live] { this > 0 }
  ensures C04,C03 [a new queue is empty] { dq_ok this /\ @deque.size[this] = 0 /\ @deque.capacity[this] = p_capacity }
  ensures [its storage is fresh] { (old @dkind)[(@deque.data[this]).pb] = 0 }
  noraise

fn deque::~deque ()
  requires C19 [the queue owns its storage] { @deque.data[this] = null_ptr \/ ((@deque.data[this]).po = 0 /\ @dkind[(@deque.data[this]).pb] = 2) }
  ensures C19 [the storage is released] { (old @deque.data[this]).pb <> 0 -> @dkind[(old @deque.data[this]).pb] = 0 }
  modifies own: (@deque.data[this]).pb
  noraise

fn deque::push_back (v)
  requires C04,C19 [the queue has room] { dq_ok this /\ @deque.size[this] < @deque.capacity[this] }
  ensures C04,C03 [the value is appended at the back] { dq_ok this /\ @deque.size = (old @deque.size)[this <- old @deque.size[this] + 1]
     /\ @dqv = (old @dqv)[this <- (old @dqv)[this][old @deque.size[this] <- p_v]] }
  modifies deque: this
  modifies mem: (@deque.data[this]).pb
  noraise
  exit { dqv_push this (@deque.size[this] - 1) p_v }

fn deque::pop_front ()
  requires C04,C19 [the queue is not empty] { dq_ok this /\ @deque.size[this] > 0 }
  ensures C04,C03 [the front is removed] { dq_ok this /\ @deque.size = (old @deque.size)[this <- old @deque.size[this] - 1]
     /\ @dqv = (old @dqv)[this <- shift (old @dqv)[this]] }
  modifies deque: this
  noraise
  exit { dqv_shift this }

fn deque::pop_back ()
  requires C04,C19 [the queue is not empty] { dq_ok this /\ @deque.size[this] > 0 }
  ensures C04,C03 [the back is removed] { dq_ok this /\ @deque.size = (old @deque.size)[this <- old @deque.size[this] - 1] }
  modifies deque: this
  noraise

fn deque::front ()
  requires C04,C19 [the queue is not empty] { dq_ok this /\ @deque.size[this] > 0 }
  ensures C04,C03 [the front is returned] { result = @dqv[this][0] }
  noraise

fn deque::back ()
  requires C04,C19 [the queue is not empty] { dq_ok this /\ @deque.size[this] > 0 }
  ensures C04,C03 [the back is returned] { result = @dqv[this][@deque.size[this] - 1] }
  noraise

fn deque::empty ()
  requires C04,C19 [the queue is valid] { dq_ok this }
  ensures C04,C03 [reports emptiness] { result <> 0 <-> @deque.size[this] = 0 }
  noraise

# ---- the sliding minimum and maximum, as facts about a queue q of n positions between lo and hi
%% opaque qpos (q: map int int) (n lo hi: int) = n >= 0 /\ (forall k: int [q[k]]. 0 <= k < n -> lo <= q[k] /\ q[k] + (n - 1 - k) <= hi)
  /\ (forall j k: int [q[j], q[k]]. 0 <= j < k < n -> q[j] < q[k])
# each element dominates everything after its predecessor
%% opaque qmax (v: view) (q: map int int) (n lo hi: int) =
  forall k x: int [q[k], vat v x]. 0 <= k < n -> lo <= x <= hi -> (k > 0 -> q[k-1] < x) -> dv (vat v x) <=. dv (vat v q[k])
%% opaque qmin (v: view) (q: map int int) (n lo hi: int) =
  forall k x: int [q[k], vat v x]. 0 <= k < n -> lo <= x <= hi -> (k > 0 -> q[k-1] < x) -> dv (vat v x) >=. dv (vat v q[k])
# everything after the last element is bounded by the value at i
%% opaque qabove (v: view) (q: map int int) (n lo hi i: int) =
  forall x: int [vat v x]. lo <= x <= hi -> (n > 0 -> q[n-1] < x) -> dv (vat v x) <=. dv (vat v i)
%% opaque qbelow (v: view) (q: map int int) (n lo hi i: int) =
  forall x: int [vat v x]. lo <= x <= hi -> (n > 0 -> q[n-1] < x) -> dv (vat v x) >=. dv (vat v i)
# positions followed by larger values
%% opaque qrise (v: view) (q: map int int) (n: int) = forall k: int [q[k]]. 0 <= k < n -> dv (vat v (q[k] + 1)) >. dv (vat v q[k])
# x is the largest (smallest) value of the window around c, and occurs in it
%% opaque sup_at (v: view) (r c: int) (x: dbl) = (forall k: int [vat v k]. 0 <= k < v.vl -> c - r <= k <= c + r -> dv (vat v k) <=. dv x)
  /\ (exists k: int. 0 <= k < v.vl /\ c - r <= k <= c + r /\ vat v k = x)
%% opaque inf_at (v: view) (r c: int) (x: dbl) = (forall k: int [vat v k]. 0 <= k < v.vl -> c - r <= k <= c + r -> dv x <=. dv (vat v k))
  /\ (exists k: int. 0 <= k < v.vl /\ c - r <= k <= c + r /\ vat v k = x)
%% lemma q_bounds (q: map int int) (n lo hi: int) : unit
  requires { qpos q n lo hi }
  ensures { n >= 0 /\ (n > 0 -> lo <= q[0] /\ q[n-1] <= hi /\ q[0] <= hi /\ n <= hi - lo + 1 /\ lo <= q[n-1]) /\ (n > 1 -> q[0] < q[n-1]) }
= qpos_def q n lo hi
%% lemma q_single (v: view) (q: map int int) : unit
  requires { q[0] = 0 }
  ensures { qpos q 1 0 0 /\ qmax v q 1 0 0 /\ qmin v q 1 0 0 /\ qrise v q 0 }
= qpos_def q 1 0 0; qmax_def v q 1 0 0; qmin_def v q 1 0 0; qrise_def v q 0
%% lemma q_above_last (v: view) (q: map int int) (n lo hi i: int) : unit
  requires { n > 0 /\ q[n-1] = hi }
  ensures { qabove v q n lo hi i /\ qbelow v q n lo hi i }
= qabove_def v q n lo hi i; qbelow_def v q n lo hi i
%% lemma q_max_pop (v: view) (q: map int int) (n lo hi i: int) : unit
  requires { n > 0 /\ qpos q n lo hi /\ qmax v q n lo hi /\ qabove v q n lo hi i /\ dv (vat v i) >=. dv (vat v q[n-1]) }
  ensures { qpos q (n-1) lo hi /\ qmax v q (n-1) lo hi /\ qabove v q (n-1) lo hi i /\ (n > 1 -> lo <= q[n-2] <= hi) }
= qpos_def q n lo hi; qmax_def v q n lo hi; qabove_def v q n lo hi i; qpos_def q (n-1) lo hi; qmax_def v q (n-1) lo hi; qabove_def v q (n-1) lo hi i
%% lemma q_min_pop (v: view) (q: map int int) (n lo hi i: int) : unit
  requires { n > 0 /\ qpos q n lo hi /\ qmin v q n lo hi /\ qbelow v q n lo hi i /\ dv (vat v i) <=. dv (vat v q[n-1]) }
  ensures { qpos q (n-1) lo hi /\ qmin v q (n-1) lo hi /\ qbelow v q (n-1) lo hi i /\ (n > 1 -> lo <= q[n-2] <= hi) }
= qpos_def q n lo hi; qmin_def v q n lo hi; qbelow_def v q n lo hi i; qpos_def q (n-1) lo hi; qmin_def v q (n-1) lo hi; qbelow_def v q (n-1) lo hi i
%% lemma q_rise_pop (v: view) (q: map int int) (n: int) : unit
  requires { qrise v q n } ensures { qrise v q (n-1) }
= qrise_def v q n; qrise_def v q (n-1)
%% lemma q_max_push (v: view) (q: map int int) (n lo i: int) : unit
  requires { qpos q n lo (i-1) /\ qmax v q n lo (i-1) /\ qabove v q n lo (i-1) i /\ lo <= i }
  requires { n > 0 -> dv (vat v i) <=. dv (vat v q[n-1]) }
  ensures { qpos q[n <- i] (n+1) lo i /\ qmax v q[n <- i] (n+1) lo i }
= let q2 = pure { q[n <- i] } in
  qpos_def q n lo (i-1); qmax_def v q n lo (i-1); qabove_def v q n lo (i-1) i; qpos_def q2 (n+1) lo i; qmax_def v q2 (n+1) lo i
%% lemma q_min_push (v: view) (q: map int int) (n lo i: int) : unit
  requires { qpos q n lo (i-1) /\ qmin v q n lo (i-1) /\ qbelow v q n lo (i-1) i /\ lo <= i }
  requires { n > 0 -> dv (vat v i) >=. dv (vat v q[n-1]) }
  ensures { qpos q[n <- i] (n+1) lo i /\ qmin v q[n <- i] (n+1) lo i }
= let q2 = pure { q[n <- i] } in
  qpos_def q n lo (i-1); qmin_def v q n lo (i-1); qbelow_def v q n lo (i-1) i; qpos_def q2 (n+1) lo i; qmin_def v q2 (n+1) lo i
%% lemma q_rise_push (v: view) (q: map int int) (n i: int) : unit
  ensures { qrise v q n -> qrise v q[n <- i] n }
= let q2 = pure { q[n <- i] } in qrise_def v q n; qrise_def v q2 n
%% lemma q_front (v: view) (q: map int int) (n lo hi r c: int) : unit
  requires { n > 0 /\ r >= 0 /\ 0 <= c < v.vl /\ lo = max2 0 (c - r) /\ hi = min2 (c + r) (v.vl - 1) /\ qpos q n lo hi }
  ensures { 0 <= q[0] < v.vl /\ (qmax v q n lo hi -> sup_at v r c (vat v q[0])) /\ (qmin v q n lo hi -> inf_at v r c (vat v q[0])) }
= qpos_def q n lo hi; qmax_def v q n lo hi; qmin_def v q n lo hi; sup_at_def v r c (vat v (pure { q[0] })); inf_at_def v r c (vat v (pure { q[0] }))
# the window moves on: the front is dropped exactly when it is the position that leaves
%% lemma q_step (v: view) (q: map int int) (n lo hi: int) : unit
  requires { n > 0 /\ qpos q n lo hi }
  ensures { q[0] = lo -> qpos (shift q) (n-1) (lo+1) hi }
  ensures { q[0] = lo -> qmax v q n lo hi -> qmax v (shift q) (n-1) (lo+1) hi }
  ensures { q[0] = lo -> qmin v q n lo hi -> qmin v (shift q) (n-1) (lo+1) hi }
  ensures { q[0] <> lo -> qpos q n (lo+1) hi }
  ensures { q[0] <> lo -> qmax v q n lo hi -> qmax v q n (lo+1) hi }
  ensures { q[0] <> lo -> qmin v q n lo hi -> qmin v q n (lo+1) hi }
  ensures { qrise v q (n-1) -> qrise v (shift q) (n-2) }
= let s = shift q in
  qpos_def q n lo hi; qmax_def v q n lo hi; qmin_def v q n lo hi; qpos_def s (n-1) (lo+1) hi; qmax_def v s (n-1) (lo+1) hi; qmin_def v s (n-1) (lo+1) hi;
  qpos_def q n (lo+1) hi; qmax_def v q n (lo+1) hi; qmin_def v q n (lo+1) hi; qrise_def v q (n-1); qrise_def v s (n-2)
# a position cannot be the front of both queues when it leaves the window
%% lemma q_one_leaves (v: view) (q p: map int int) (n k lo hi: int) : unit
  requires { n > 0 /\ qpos q n lo hi /\ qmax v q n lo hi /\ k > 1 /\ qpos p k lo hi /\ qrise v p (k-1) /\ lo < hi }
  ensures { q[0] <> lo \/ p[0] <> lo }
= qpos_def q n lo hi; qmax_def v q n lo hi; qrise_def v p (k-1)
%% function raw (p: ptr) (n: int) : view = { vm = @dmem[p.pb]; vo = p.po; vl = n }
%% lemma q_above_last_if (v: view) (q: map int int) (n lo hi i: int) : unit
  ensures { n > 0 -> q[n-1] = hi -> qabove v q n lo hi i /\ qbelow v q n lo hi i }
= if n > 0 && pure { q[n-1] } = hi then q_above_last v q n lo hi i
# appending i after i-1: the element before i is followed by the value at i
%% lemma q_last_rises (v: view) (q: map int int) (n i: int) : unit
  requires { n >= 0 }
  ensures { n > 0 -> q[n-1] = i - 1 -> dv (vat v (i-1)) <. dv (vat v i) -> qrise v q (n-1) -> qrise v q[n <- i] n }
= let q2 = pure { q[n <- i] } in qrise_def v q (n-1); qrise_def v q2 n

fn lower_upper_lemire (t, len, r, l, u)
  requires C04,C19 [band and length] { 0 <= p_r < p_len <= 2147483647 /\ 2 * p_r + 2 <= 536870911 }
  requires C04,C19 [the arrays hold len values] { 0 <= p_t.po /\ p_t.po + p_len <= @dlen[p_t.pb] /\ p_l.po = 0 /\ p_len = @dlen[p_l.pb] /\ p_u.po = 0 /\ p_len = @dlen[p_u.pb] }
  requires C04,C19 [the arrays are distinct] { p_t.pb <> p_l.pb /\ p_t.pb <> p_u.pb /\ p_l.pb <> p_u.pb }
  requires [the arrays are live] { p_t.pb <> 0 /\ p_l.pb <> 0 /\ p_u.pb <> 0 /\ @dkind[p_t.pb] <> 0 /\ @dkind[p_l.pb] <> 0 /\ @dkind[p_u.pb] <> 0 }
  ensures C03,C04 [the envelopes are the sliding minimum and maximum] { envl (old (raw p_t p_len)) p_r @dmem[p_l.pb] @dmem[p_u.pb] }
  modifies mem: p_l.pb, p_u.pb
  noraise
  after-call push_back#2 { q_single (pure { raw $t $len }) (pure { @dqv[$du] }); q_single (pure { raw $t $len }) (pure { @dqv[$dl] }) }
  before-call pop_back#1 { q_above_last (pure { raw $t $len }) (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1) $i; q_max_pop (pure { raw $t $len }) (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1) $i }
  before-call pop_back#2 { q_max_pop (pure { raw $t $len }) (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1) $i }
  before-call pop_back#3 { q_above_last (pure { raw $t $len }) (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1) $i; q_min_pop (pure { raw $t $len }) (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1) $i }
  before-call pop_back#4 { q_min_pop (pure { raw $t $len }) (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1) $i; q_rise_pop (pure { raw $t $len }) (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) }
  before-call push_back#3 { q_bounds (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1); q_bounds (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1); q_above_last_if (pure { raw $t $len }) (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1) $i; q_above_last_if (pure { raw $t $len }) (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1) $i;
    q_max_push (pure { raw $t $len }) (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) $i; q_min_push (pure { raw $t $len }) (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) $i; q_rise_push (pure { raw $t $len }) (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) $i; q_last_rises (pure { raw $t $len }) (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) $i }
  after-call push_back#4 { q_step (pure { raw $t $len }) (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) $i; q_step (pure { raw $t $len }) (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) $i; q_bounds (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) $i; q_bounds (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) $i;
    if $i > 2 * $r && pure { @deque.size[$dl] } > 1 then q_one_leaves (pure { raw $t $len }) (pure { @dqv[$du] }) (pure { @dqv[$dl] }) (pure { @deque.size[$du] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) $i }
  loop 1
  invariant [position] { 1 <= $i <= $len }
  invariant [queue of maxima] { dq_ok $du /\ qpos @dqv[$du] @deque.size[$du] (max2 0 ($i - 1 - 2 * $r)) ($i - 1) /\ @deque.size[$du] >= 1 /\ @dqv[$du][@deque.size[$du] - 1] = $i - 1 /\ @deque.capacity[$du] = 2 * $r + 2 }
  invariant [queue of minima] { dq_ok $dl /\ qpos @dqv[$dl] @deque.size[$dl] (max2 0 ($i - 1 - 2 * $r)) ($i - 1) /\ @deque.size[$dl] >= 1 /\ @dqv[$dl][@deque.size[$dl] - 1] = $i - 1 /\ @deque.capacity[$dl] = 2 * $r + 2 }
  invariant [maxima dominate the window] { qmax (raw $t $len) @dqv[$du] @deque.size[$du] (max2 0 ($i - 1 - 2 * $r)) ($i - 1) }
  invariant [minima dominate the window] { qmin (raw $t $len) @dqv[$dl] @deque.size[$dl] (max2 0 ($i - 1 - 2 * $r)) ($i - 1) }
  invariant [minima are followed by larger values] { qrise (raw $t $len) @dqv[$dl] (@deque.size[$dl] - 1) }
  invariant [storage is apart] { (@deque.data[$du]).pb <> (@deque.data[$dl]).pb }
  invariant [finished positions] { forall c: int. 0 <= c < $i - $r - 1 -> sup_at (raw $t $len) $r c @dmem[$u.pb][c] /\ inf_at (raw $t $len) $r c @dmem[$l.pb][c] }
  modifies mem: p_l.pb, p_u.pb, (@deque.data[$du]).pb, (@deque.data[$dl]).pb
  modifies deque: $du, $dl
  variant { $len - $i }
  begin { q_bounds (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1); q_bounds (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1);
    if $i > $r then begin q_front (pure { raw $t $len }) (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1) $r ($i-$r-1); q_front (pure { raw $t $len }) (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1) $r ($i-$r-1) end }
  loop 2
  invariant [queue of maxima] { dq_ok $du /\ qpos @dqv[$du] @deque.size[$du] (max2 0 ($i - 1 - 2 * $r)) ($i - 1) /\ @deque.capacity[$du] = 2 * $r + 2 /\ (@deque.size[$du] > 0 -> 0 <= @dqv[$du][@deque.size[$du] - 1] < $i) }
  invariant [maxima dominate the window] { qmax (raw $t $len) @dqv[$du] @deque.size[$du] (max2 0 ($i - 1 - 2 * $r)) ($i - 1) }
  invariant [removed maxima are dominated] { qabove (raw $t $len) @dqv[$du] @deque.size[$du] (max2 0 ($i - 1 - 2 * $r)) ($i - 1) $i }
  modifies deque: $du
  variant { @deque.size[$du] }
  begin { q_bounds (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1) }
  loop 3
  invariant [queue of minima] { dq_ok $dl /\ qpos @dqv[$dl] @deque.size[$dl] (max2 0 ($i - 1 - 2 * $r)) ($i - 1) /\ @deque.capacity[$dl] = 2 * $r + 2 /\ (@deque.size[$dl] > 0 -> 0 <= @dqv[$dl][@deque.size[$dl] - 1] < $i) }
  invariant [minima dominate the window] { qmin (raw $t $len) @dqv[$dl] @deque.size[$dl] (max2 0 ($i - 1 - 2 * $r)) ($i - 1) }
  invariant [removed minima are dominated] { qbelow (raw $t $len) @dqv[$dl] @deque.size[$dl] (max2 0 ($i - 1 - 2 * $r)) ($i - 1) $i }
  invariant [minima are followed by larger values] { qrise (raw $t $len) @dqv[$dl] @deque.size[$dl] }
  modifies deque: $dl
  variant { @deque.size[$dl] }
  begin { q_bounds (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) ($i-1) }
  loop 4
  invariant [position] { $len <= $i <= $len + $r + 1 }
  invariant [queue of maxima] { dq_ok $du /\ qpos @dqv[$du] @deque.size[$du] (max2 0 ($i - 1 - 2 * $r)) ($len - 1) /\ ($i <= $len + $r -> @deque.size[$du] >= 1 /\ @dqv[$du][@deque.size[$du] - 1] = $len - 1) }
  invariant [queue of minima] { dq_ok $dl /\ qpos @dqv[$dl] @deque.size[$dl] (max2 0 ($i - 1 - 2 * $r)) ($len - 1) /\ ($i <= $len + $r -> @deque.size[$dl] >= 1 /\ @dqv[$dl][@deque.size[$dl] - 1] = $len - 1) }
  invariant [maxima dominate the window] { qmax (raw $t $len) @dqv[$du] @deque.size[$du] (max2 0 ($i - 1 - 2 * $r)) ($len - 1) }
  invariant [minima dominate the window] { qmin (raw $t $len) @dqv[$dl] @deque.size[$dl] (max2 0 ($i - 1 - 2 * $r)) ($len - 1) }
  invariant [storage is apart] { (@deque.data[$du]).pb <> (@deque.data[$dl]).pb }
  invariant [finished positions] { forall c: int. 0 <= c < $i - $r - 1 -> sup_at (raw $t $len) $r c @dmem[$u.pb][c] /\ inf_at (raw $t $len) $r c @dmem[$l.pb][c] }
  modifies mem: p_l.pb, p_u.pb
  modifies deque: $du, $dl
  variant { $len + $r + 1 - $i }
  begin { q_bounds (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) ($len-1); q_bounds (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) ($len-1);
    q_front (pure { raw $t $len }) (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) ($len-1) $r ($i-$r-1); q_front (pure { raw $t $len }) (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) ($len-1) $r ($i-$r-1);
    q_step (pure { raw $t $len }) (pure { @dqv[$du] }) (pure { @deque.size[$du] }) (max2 0 ($i - 1 - 2 * $r)) ($len-1); q_step (pure { raw $t $len }) (pure { @dqv[$dl] }) (pure { @deque.size[$dl] }) (max2 0 ($i - 1 - 2 * $r)) ($len-1) }
