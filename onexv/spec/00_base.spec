# ---------------------------------------------------------------------------
# Base: machine values, heap of arrays, objects.
# ---------------------------------------------------------------------------
%% type ptr = { pb : int; po : int }
%% type str

%% decl E_onex exception E_onex
%% decl E_invalid exception E_invalid
%% decl E_range exception E_range
%% decl Break exception Break
%% decl Cont exception Cont

# ---- doubles: an abstract type ordered by real value; +-infinity are the extreme values; NaN does not occur
%% type dbl
%% sym dv (x: dbl) : real
%% sym d_of (r: real) : dbl
%% axiom dv_inj : forall x: dbl [dv x]. d_of (dv x) = x
%% sym inf : dbl
%% axiom inf_big : dv inf >. 1.0e308
%% axiom dv_range : forall x: dbl [dv x]. -. dv inf <=. dv x <=. dv inf
%% predicate fin (x: dbl) = dv x <. dv inf /\ -. dv inf <. dv x
%% sym rd (r: real) : dbl
%% sym of_int (n: int) : dbl
%% axiom of_int_def : forall n: int [of_int n]. -9007199254740992 <= n <= 9007199254740992 -> dv (of_int n) = from_int n
%% axiom of_int_mono : forall n m: int [of_int n, of_int m]. n <= m -> dv (of_int n) <=. dv (of_int m)

%% sym fadd (x y: dbl) : dbl
%% sym fsub (x y: dbl) : dbl
%% sym fmul (x y: dbl) : dbl
%% sym fdiv (x y: dbl) : dbl
%% sym fneg (x: dbl) : dbl
%% sym fsqrt (x: dbl) : dbl
%% sym ffloor (x: dbl) : dbl

%% function sq (x: dbl) : dbl = fmul x x
# Facts of IEEE-754 arithmetic with rounding to nearest (monotone, exact where stated)
%% axiom fadd_inc : forall x y: dbl [fadd x y]. dv x >=. 0.0 -> dv y >=. 0.0 -> dv (fadd x y) >=. dv x /\ dv (fadd x y) >=. dv y
%% axiom fadd_mono : forall x y u v: dbl [fadd x y, fadd u v]. 0.0 <=. dv x <=. dv u -> 0.0 <=. dv y <=. dv v -> dv (fadd x y) <=. dv (fadd u v)
%% axiom fadd_zero : forall x y: dbl [fadd x y]. dv y = 0.0 -> fadd x y = x
%% axiom fadd_zero_l : forall x y: dbl [fadd x y]. dv x = 0.0 -> fadd x y = y
%% axiom fadd_comm : forall x y: dbl [fadd x y]. fadd x y = fadd y x
%% axiom fadd_inf : forall x: dbl [fadd inf x]. dv x >=. 0.0 -> fadd inf x = inf
%% axiom fadd_inf_r : forall x: dbl [fadd x inf]. dv x >=. 0.0 -> fadd x inf = inf
%% axiom fsub_self : forall x y: dbl [fsub x y]. fin x -> dv x = dv y -> dv (fsub x y) = 0.0
%% axiom fsub_anti : forall x y: dbl [fsub x y]. dv (fsub y x) = -. dv (fsub x y)
%% axiom fsub_sign : forall x y: dbl [fsub x y]. dv x <=. dv y -> dv (fsub x y) <=. 0.0
%% axiom fsub_sign2 : forall x y: dbl [fsub x y]. dv x >=. dv y -> dv (fsub x y) >=. 0.0
%% axiom fsub_mono : forall x y u v: dbl [fsub x y, fsub u v]. dv x <=. dv u -> dv y >=. dv v -> fin x -> fin y -> fin u -> fin v -> dv (fsub x y) <=. dv (fsub u v)
%% axiom sq_nonneg : forall x: dbl [fmul x x]. dv (fmul x x) >=. 0.0
%% axiom mul_nonneg : forall x y: dbl [fmul x y]. dv x >=. 0.0 -> dv y >=. 0.0 -> dv (fmul x y) >=. 0.0
%% axiom sq_mono : forall x y: dbl [fmul x x, fmul y y]. 0.0 <=. dv x <=. dv y -> dv (fmul x x) <=. dv (fmul y y)
%% axiom sq_even : forall x y: dbl [fmul x x, fmul y y]. dv x = -. dv y -> fmul x x = fmul y y
%% axiom sq_zero : forall x: dbl [fmul x x]. dv x = 0.0 -> dv (fmul x x) = 0.0
%% axiom sqrt_nonneg : forall x: dbl [fsqrt x]. dv x >=. 0.0 -> dv (fsqrt x) >=. 0.0
%% axiom sqrt_mono : forall x y: dbl [fsqrt x, fsqrt y]. 0.0 <=. dv x <=. dv y -> dv (fsqrt x) <=. dv (fsqrt y)
%% axiom sqrt_zero : forall x: dbl [fsqrt x]. dv x = 0.0 -> dv (fsqrt x) = 0.0
%% axiom sqrt_inf : fsqrt inf = inf
%% axiom sqrt_fin : forall x: dbl [fsqrt x]. 0.0 <=. dv x -> fin x -> fin (fsqrt x)
%% axiom div_nonneg : forall x y: dbl [fdiv x y]. dv x >=. 0.0 -> dv y >. 0.0 -> dv (fdiv x y) >=. 0.0
%% axiom div_mono : forall x y z: dbl [fdiv x z, fdiv y z]. dv x <=. dv y -> dv z >. 0.0 -> fin z -> dv (fdiv x z) <=. dv (fdiv y z)
%% axiom div_zero : forall x y: dbl [fdiv x y]. dv x = 0.0 -> dv y >. 0.0 -> dv (fdiv x y) = 0.0
%% axiom div_inf : forall z: dbl [fdiv inf z]. dv z >. 0.0 -> fin z -> fdiv inf z = inf
%% axiom div_fin : forall x z: dbl [fdiv x z]. fin x -> dv z >=. 1.0 -> fin (fdiv x z)

%% val flt (x y: dbl) : bool ensures { result <-> dv x <. dv y }
%% val fle (x y: dbl) : bool ensures { result <-> dv x <=. dv y }
%% val fgt (x y: dbl) : bool ensures { result <-> dv x >. dv y }
%% val fge (x y: dbl) : bool ensures { result <-> dv x >=. dv y }
%% val feq (x y: dbl) : bool ensures { result <-> dv x = dv y }
%% val fne (x y: dbl) : bool ensures { result <-> dv x <> dv y }
%% sym dmin (x y: dbl) : dbl
%% sym dmax (x y: dbl) : dbl
%% axiom dmin_def : forall x y: dbl [dmin x y]. dmin x y = if dv y <. dv x then y else x
%% axiom dmax_def : forall x y: dbl [dmax x y]. dmax x y = if dv x <. dv y then y else x
%% val fmin (x y: dbl) : dbl ensures { result = dmin x y }
%% val fmax (x y: dbl) : dbl ensures { result = dmax x y }
%% val fabs (x: dbl) : dbl ensures { dv result = (if dv x <. 0.0 then -. dv x else dv x) }
%% val imin (x y: int) : int ensures { result = min2 x y }
%% val imax (x y: int) : int ensures { result = max2 x y }
%% val iabs (x: int) : int ensures { result = if x < 0 then - x else x }
%% sym min2 (x y: int) : int
%% sym max2 (x y: int) : int
%% axiom min2_def : forall x y: int [min2 x y]. min2 x y = if y < x then y else x
%% axiom max2_def : forall x y: int [max2 x y]. max2 x y = if x < y then y else x
# truncation of a double to an int
%% sym trunc_int (x: dbl) : int
%% val f2i (x: dbl) : int requires { [@expl:C19|pre|conversion of a finite number] fin x } ensures { result = trunc_int x }
%% val to_unsigned (x: int) : int requires { [@expl:-|pre|conversion to unsigned of a non-negative number] x >= 0 } ensures { result = x }
%% val usub (x y: int) : int requires { [@expl:-|pre|unsigned subtraction does not wrap] x >= y } ensures { result = x - y }
%% sym qdiv (x y: int) : int
%% axiom qdiv_def : forall x y: int [qdiv x y]. x >= 0 -> y > 0 -> 0 <= qdiv x y /\ qdiv x y * y <= x < qdiv x y * y + y
%% val cdiv (x y: int) : int requires { [@expl:C19|pre|division by zero] y <> 0 }
  ensures { x >= 0 -> y > 0 -> result = qdiv x y }
%% val cmod (x y: int) : int requires { [@expl:C19|pre|modulo zero] y <> 0 }
  ensures { x >= 0 -> y > 0 -> 0 <= result < y /\ result = x - qdiv x y * y }
  ensures { 0 <= x < y -> result = x }
  ensures { y > 0 -> x = y -> result = 0 }
%% val bool_eq (x y: bool) : bool ensures { result <-> x = y }

# ---- strings: abstract; literals are distinct
%% sym lit_id (s: str) : int
%% val str_eq (x y: str) : bool ensures { result <-> x = y }

# ---- arrays: block -> offset -> value; dlen 0 and dkind 0 when not allocated; bown: owner of a block (0: nobody)
%% global dmem : map int (map int dbl)
%% global imem : map int (map int int)
%% global dlen : map int int
%% global dkind : map int int
%% global bown : map int int
%% global alive : map int bool
%% decl null_ptr let constant null_ptr : ptr = { pb = 0; po = 0 }
%% val padd (p: ptr) (i: int) : ptr ensures { result = { pb = p.pb; po = p.po + i } }
%% val ptr_is_null (p: ptr) : bool ensures { result <-> p.pb = 0 }
%% val ptr_eq (p q: ptr) : bool ensures { result <-> p = q }
%% val load_real (p: ptr) : dbl
  requires { [@expl:C19|pre|read inside an allocated array] 0 <= p.po < @dlen[p.pb] }
  ensures { result = @dmem[p.pb][p.po] }
%% val store_real (p: ptr) (x: dbl) : unit
  requires { [@expl:C19|pre|write inside an allocated array] 0 <= p.po < @dlen[p.pb] }
  writes { dmem } ensures { @dmem = (old @dmem)[p.pb <- (old @dmem)[p.pb][p.po <- x]] }
%% val load_int (p: ptr) : int
  requires { [@expl:C19|pre|read inside an allocated array] 0 <= p.po < @dlen[p.pb] }
  ensures { result = @imem[p.pb][p.po] }
%% val store_int (p: ptr) (x: int) : unit
  requires { [@expl:C19|pre|write inside an allocated array] 0 <= p.po < @dlen[p.pb] }
  writes { imem } ensures { @imem = (old @imem)[p.pb <- (old @imem)[p.pb][p.po <- x]] }
%% val new_array (n: int) : ptr
  requires { [@expl:C19|pre|array size is not negative] n >= 0 }
  writes { dlen, dkind, bown }
  ensures { result.pb > 0 /\ result.po = 0 /\ (old @dkind)[result.pb] = 0
    /\ @dlen = (old @dlen)[result.pb <- n] /\ @dkind = (old @dkind)[result.pb <- 1] /\ @bown = (old @bown)[result.pb <- 0] }
%% val malloc_cells (bytes size: int) : ptr
  requires { [@expl:C19|pre|allocation size is not negative] bytes >= 0 }
  writes { dlen, dkind, bown }
  ensures { result.pb > 0 /\ result.po = 0 /\ (old @dkind)[result.pb] = 0
    /\ (exists n: int. n >= 0 /\ n * size <= bytes < n * size + size /\ @dlen = (old @dlen)[result.pb <- n])
    /\ @dkind = (old @dkind)[result.pb <- 2] /\ @bown = (old @bown)[result.pb <- 0] }
%% val delete_array (p: ptr) : unit
  requires { [@expl:C19|pre|array delete of an array from array new that is still allocated] p.pb <> 0 -> p.po = 0 /\ @dkind[p.pb] = 1 }
  writes { dlen, dkind }
  ensures { @dlen = (if p.pb = 0 then old @dlen else (old @dlen)[p.pb <- 0]) }
  ensures { @dkind = (if p.pb = 0 then old @dkind else (old @dkind)[p.pb <- 0]) }
%% val free_cells (p: ptr) : unit
  requires { [@expl:C19|pre|free of memory from malloc that is still allocated] p.pb <> 0 -> p.po = 0 /\ @dkind[p.pb] = 2 }
  writes { dlen, dkind }
  ensures { @dlen = (if p.pb = 0 then old @dlen else (old @dlen)[p.pb <- 0]) }
  ensures { @dkind = (if p.pb = 0 then old @dkind else (old @dkind)[p.pb <- 0]) }
%% val memset_real (p: ptr) (bytes: int) : unit
  requires { [@expl:C19|pre|memset inside an allocated array] bytes >= 0 -> 0 <= p.po /\ p.po * 8 + bytes <= @dlen[p.pb] * 8 }
  writes { dmem }
  ensures { exists m: map int dbl. @dmem = (old @dmem)[p.pb <- m]
     /\ forall i: int [m[i]]. m[i] = (if p.po <= i /\ i * 8 < p.po * 8 + bytes then of_int 0 else (old @dmem)[p.pb][i]) }
%% val memcpy_real (d s: ptr) (bytes: int) : unit
  requires { [@expl:C19|pre|memcpy inside allocated arrays] bytes >= 0 /\ 0 <= d.po /\ d.po * 8 + bytes <= @dlen[d.pb] * 8 /\ 0 <= s.po /\ s.po * 8 + bytes <= @dlen[s.pb] * 8 }
  writes { dmem }
  ensures { exists m: map int dbl. @dmem = (old @dmem)[d.pb <- m]
     /\ forall i: int [m[i]]. m[i] = (if d.po <= i /\ i * 8 < d.po * 8 + bytes then (old @dmem)[s.pb][i - d.po + s.po] else (old @dmem)[d.pb][i]) }

# ---- objects
# kind of an object (fixed when it is created), and the object a vector is a member of
%% sym cls (o: int) : int
%% sym mem_of (o: int) : int
%% val member_vec (o p: int) : unit ensures { mem_of o = p }
%% val new_obj (c: int) : int writes { alive }
  ensures { result > 0 /\ cls result = c /\ not (old @alive)[result] /\ @alive = (old @alive)[result <- true] }
%% val kill_obj (o: int) : unit writes { alive } ensures { @alive = (old @alive)[o <- false] }
%% val check_obj (o: int) : unit
  requires { [@expl:C19|pre|object is alive when used through a pointer] o <> 0 /\ @alive[o] }
%% val vecvec_ctor_dbl (k proto: int) : int
  requires { [@expl:C19|pre|vector size] k >= 0 }
  writes { alive, n_dbl, v_dbl, n_v_dbl, v_v_dbl }
  ensures { result > 0 /\ cls result = cls_vec /\ not (old !alive)[result] /\ !alive[result] /\ !n_v_dbl = (old !n_v_dbl)[result <- k] }
  ensures { forall o: int [!alive[o]]. (old !alive)[o] -> !alive[o] }
  ensures { exists m: map int int. !v_v_dbl = (old !v_v_dbl)[result <- m] /\ forall i: int [m[i]]. m[i] = result + 1 + i }
  ensures { forall o: int [!alive[o]|(old !alive)[o]]. result < o <= result + k -> not (old !alive)[o] /\ !alive[o] }
  ensures { forall o: int [!n_dbl[o]]. !n_dbl[o] = (if result < o <= result + k then (old !n_dbl)[proto] else (old !n_dbl)[o]) }
  ensures { forall o: int [!v_dbl[o]]. !v_dbl[o] = (if result < o <= result + k then (old !v_dbl)[proto] else (old !v_dbl)[o]) }
