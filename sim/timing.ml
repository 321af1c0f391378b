(* C20: simulated time.  The clock of the simulated machine is its instruction
   counter: the processor is single-stepped through the call and every retired
   instruction is one tick.  Wall-clock time plays no part. *)
open Cryptokit
open S
external clock_on : unit -> unit = "sim_clock_on" [@@noalloc]
external clock_off : unit -> int = "sim_clock_off" [@@noalloc]

let ticks f =
  match clock_on (); f () with
  | v -> let t = clock_off () in sim_time := !sim_time + t; (t, v)
  | exception e -> ignore (clock_off ()); raise e

(* Two situations that the caller cannot tell apart must take the same time.
   Allocators and caches may make a call slower now and then, whatever its
   arguments: only a difference that persists over a random alternation counts. *)
let separated a b =
  let la = ref [] and lb = ref [] in
  for _ = 1 to 24 do
    if draw 2 = 0 then la := a () :: !la else lb := b () :: !lb done;
  la := a () :: !la; lb := b () :: !lb;
  let mn = List.fold_left min max_int and mx = List.fold_left max 0 in
  mx !la < mn !lb || mx !lb < mn !la
let compare_times what l =
  match l with
  | [] -> ()
  | (n0, m0) :: rest ->
    ignore (m0 ());                                  (* warm up: lazy binding, caches *)
    let t0 = m0 () in
    List.iter (fun (n, m) ->
      let t = m () in
      if t <> t0 && separated m0 m then
        fail "timing" "%s takes %d instructions when %s and %d when %s" what t0 n0 t n) rest

(* comparison of strings *)
let equality () =
  let n = match draw 4 with 0 -> pick [|0;1;8;16;16;20;32;64|] | 1 -> 16 | _ -> range 1 70 in
  let n2 = if draw 6 = 5 then (let k = range 0 70 in if k = n then n + 1 else k) else n in
  let a = Bytes.make n 'a' and b = Bytes.make n2 'a' in
  Gc.minor ();
  let strings = draw 2 = 0 in
  let what = if strings then "string_equal" else "bytes_equal" in
  let go x y () =
    Bytes.blit_string x 0 a 0 n; Bytes.blit_string y 0 b 0 n2;
    let t, r = if strings then ticks (fun () -> string_equal (Bytes.unsafe_to_string a) (Bytes.unsafe_to_string b))
      else ticks (fun () -> bytes_equal a b) in
    if r <> (x = y) then fail "wrong-comparison" "%s on %s and %s" what (show x) (show y);
    if t > n then nontrivial := true else if r then probe "clock-unavailable";
    t in
  let nv = range 2 4 in
  ev "%s %d %d, %d variants" what n n2 nv;
  if n2 <> n then
    compare_times (Printf.sprintf "%s on lengths %d and %d" what n n2)
      (List.init nv (fun i -> let x = data n in
        let k = min n n2 in
        let y = (if draw 2 = 0 then String.sub x 0 k else data k) ^ data (n2 - k) in
        Printf.sprintf "they are %s and %s" (show x) (show y), go x y))
  else begin
    compare_times (Printf.sprintf "%s on equal arguments of length %d" what n)
      (List.init 2 (fun _ -> let x = data n in Printf.sprintf "they are %s" (show x), go x x));
    if n > 0 then
      compare_times (Printf.sprintf "%s on different arguments of length %d" what n)
        (List.init nv (fun _ -> let x = data n in
          let flip l s = let s = Bytes.of_string s in
            List.iter (fun i -> Bytes.set s i (Char.chr (Char.code (Bytes.get s i) lxor (1 lsl draw 8)))) l; Bytes.to_string s in
          let kind, y = match draw 5 with
            | 0 -> "the first byte differs", flip [0] x
            | 1 -> "the last byte differs", flip [n - 1] x
            | 2 -> let i = draw n in Printf.sprintf "byte %d differs" i, flip [i] x
            | 3 -> "all bytes differ", flip (List.init n Fun.id) x
            | _ -> let l = List.sort_uniq compare (List.init (range 1 4) (fun _ -> draw n)) in "several bytes differ", flip l x in
          fault "mismatch"; ev "%s" kind; kind, go x y))
  end

(* a forger who measures how long the receiver takes to refuse *)
let forgery () =
  let c = Net.context () in
  let c = { c with Net.header = String.sub c.Net.header 0 (min 20 (String.length c.Net.header)) } in
  let msg = data (draw 20) in
  let x, tag = c.Net.ref_seal c msg in
  let p = Bytes.of_string (x ^ tag) in
  let lx = String.length x and lt = String.length tag in
  Gc.minor ();
  ev "verification %s, %d bytes" c.Net.kind lx;
  let go l () =
    Bytes.blit_string x 0 p 0 lx; Bytes.blit_string tag 0 p lx lt;
    List.iter (fun (i, m) -> Bytes.set p (lx + i) (Char.chr (Char.code tag.[i] lxor m))) l;
    (* the object is built at the bottom of an empty minor heap: the same addresses every time *)
    Gc.minor ();
    let tr = lib (fun () -> c.Net.unseal c) in
    let t, r = lib (fun () -> ticks (fun () -> auth_check_transform_string tr (Bytes.unsafe_to_string p))) in
    (match r with
     | None -> () | Some _ -> fail "forgery-accepted" "%s: a packet with a wrong tag was accepted" c.Net.kind);
    if t > lt then (nontrivial := true; probe "timed-verification");
    t in
  let v l = fault "net_bitflip"; go l in
  let m () = 1 + draw 255 in
  let k = draw lt in
  ev "byte %d" k;
  let vs = [ "the first byte of the tag is wrong", v [0, m ()];
             "the last byte of the tag is wrong", v [lt - 1, m ()];
             Printf.sprintf "byte %d of the tag is wrong" k, v [k, m ()];
             "the whole tag is wrong", v (List.init lt (fun i -> i, m ())) ] in
  let vs = if draw 2 = 0 then vs else List.rev vs in
  compare_times (c.Net.kind ^ ": refusing a packet") (match draw 3 with 0 -> vs | 1 -> [List.hd vs; List.nth vs 1] | _ -> [List.hd vs; List.nth vs 2])

let c20 () =
  set_gc 0 false; set_guard false;
  if draw 12 = 11 then forgery () else equality ()
