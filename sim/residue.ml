(* What is still reachable from a library object, as a canonical list of
   (path, contents).  Caller-supplied strings are left out. *)
external cblock : Obj.t -> string = "sim_cblock"
external custom_id : Obj.t -> string = "sim_custom_id"
external custom_data : Obj.t -> string = "sim_custom_data"
external freed_log : bool -> unit = "sim_freed_log" [@@noalloc]
external freed : unit -> string = "sim_freed"

external statics : unit -> string = "sim_statics"

let closinfo_env o =
  (* start of the environment of a closure block *)
  let v = Obj.raw_field o 1 in
  Nativeint.to_int (Nativeint.shift_right_logical (Nativeint.shift_left v 8) 9)

let snapshot ?(ints = true) (roots : Obj.t list) =
  let out = ref [] and seen = ref [] and budget = ref 3000 in
  let add path v = out := (path, v) :: !out in
  let rec go path depth (o : Obj.t) =
    if Obj.is_int o then (if ints then add path (string_of_int (Obj.obj o)))
    else if depth > 14 || !budget <= 0 || List.memq o !seen then ()
    else begin
      decr budget;
      let t = Obj.tag o in
      if t = Obj.string_tag then begin
        if not (List.exists (fun s -> Obj.repr s == o) !S.supplied) then begin
          seen := o :: !seen;
          add path ("s:" ^ Bytes.to_string (Bytes.of_string (Obj.obj o))) end end
      else if t = Obj.custom_tag then begin
        seen := o :: !seen;
        match custom_id o with
        | "_j" | "_n" | "_i" | "_z" -> add path ("d:" ^ custom_data o)
        | id -> add path ("c:" ^ cblock o) end
      else if t = Obj.double_tag then add path "float"
      else if t = Obj.object_tag then begin
        seen := o :: !seen;
        for i = 2 to Obj.size o - 1 do go (path ^ "." ^ string_of_int i) (depth + 1) (Obj.field o i) done end
      else if t = Obj.closure_tag then begin
        seen := o :: !seen;
        for i = closinfo_env o to Obj.size o - 1 do go (path ^ "~" ^ string_of_int i) (depth + 1) (Obj.field o i) done end
      else if t < Obj.no_scan_tag && t <> Obj.infix_tag && t <> Obj.lazy_tag && t <> Obj.forward_tag then begin
        seen := o :: !seen;
        for i = 0 to Obj.size o - 1 do go (path ^ "." ^ string_of_int i) (depth + 1) (Obj.field o i) done end
    end in
  List.iteri (fun i o -> go (string_of_int i) 0 o) roots;
  List.rev !out

let compare_snapshots ~who a b =
  let la = List.length a and lb = List.length b in
  if la <> lb then S.fail "wipe-residue" "%s: what remains reachable after wipe depends on the secrets (%d and %d values)" who la lb;
  List.iter2 (fun (p, x) (_, y) ->
    let zero s = let n = String.length s in n > 2 && (let r = ref true in for i = 2 to n - 1 do if s.[i] <> '\000' then r := false done; !r) in
    if x <> y && not (zero x && zero y) then begin
      let n = ref 0 in
      String.iteri (fun i c -> if i < String.length y && y.[i] <> c then incr n) x;
      S.fail "wipe-residue" "%s: %d of %d bytes reachable after wipe still depend on the secrets (at %s)" who !n (String.length x) p end) a b

(* everything the object allocated outside the heap and gave back: the contents at that
   moment must not depend on the secrets (addresses may differ) *)
let compare_freed ~who a b =
  let n = String.length a in
  if n = String.length b then begin
    let i = ref 0 in
    while !i < n do
      let x = String.get_int64_le a !i and y = String.get_int64_le b !i in
      let addr v = Int64.shift_right_logical v 48 = 0L && Int64.shift_right_logical v 32 <> 0L in
      if x <> y && not (addr x && addr y) then S.fail "freed-unwiped" "%s: memory given back still depends on the secrets (at %d of %d bytes)" who !i n;
      i := !i + 8 done end

(* static variables of the C code: a flag or counter may change, key material may not stay *)
let compare_statics ~who a b =
  let n = String.length a in
  let d = ref 0 in
  for i = 0 to n - 1 do if a.[i] <> b.[i] then incr d done;
  if !d >= 8 then S.fail "static-residue" "%s: %d bytes of the library's static variables depend on the secrets after wipe" who !d
