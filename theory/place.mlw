module Place
  use prelude.Prelude
  (* range of the vertex numbers of the top-level graph *)
  val constant vlo : int
  val constant vhi : int
  (* number, in the top-level graph, of vertex v of a graph whose array of original numbers is at a (0: the top-level graph itself) *)
  function vn (m: map int int) (a v: int) : int
  axiom vn_def : forall m a v [vn m a v]. vn m a v = if a <> 0 then m[ix a v] else v
  (* its inverse: for distinct original numbers, there is one (precondition of the functions that need it) *)
  function wh (m: map int int) (a w: int) : int
  (* terminal number of a domain, as archDomNum computes it; terminal numbers that archDomTerm accepts *)
  function dnum (arch cell: int) : int
  predicate tvalid (arch num: int)
  (* audited with the other bit axioms *)
  axiom band_mask : forall a b [band a b]. b >= 0 -> 0 <= band a b <= b
end
