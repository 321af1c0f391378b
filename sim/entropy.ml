(* Entropy sources under failing system calls, devices and CPU instructions. *)
open Cryptokit
open S

let nosys () = match Sys.getenv_opt "SIM_NOSYS" with Some "1" -> true | _ -> false
let dev_err () = match Sys.getenv_opt "SIM_DEV" with Some s -> int_of_string s | None -> 0
let hw_usable () = cpu () land 4 <> 0 && cpu () <> 8 && (let m = Ent.hw_init () in m <> 3 && m <> 4)

(* which source must back the default generator on this machine *)
let secure_src () =
  if not (nosys ()) then 1 else if dev_err () = 0 then 2 else if hw_usable () then 3 else 0

let src_name = [|"none"; "system"; "device"; "hardware"|]
let used = Array.make 4 0

type client = { cname : string; src : int; rng : Random.rng; mutable closed : bool; is_secure : bool }

(* every byte delivered is a byte the source emitted, used at most once, in order *)
let check_fresh who src s =
  let hi = Ent.pos src in
  let p = ref used.(src) in
  String.iteri (fun i c ->
    while !p < hi && Ent.byte src !p <> Char.code c do incr p done;
    if !p >= hi then fail "not-fresh" "%s: byte %d of %d did not come from the entropy source" who i (String.length s);
    incr p) s;
  used.(src) <- !p

let request c ~clean =
  let who = c.cname in
  let len = match draw 8 with
    | 0 -> range 0 8 | 1 -> pick [|7;8;9;15;16;17;31;32;33|] | 2 -> pick [|255;256;257;511;512;513|] | 3 -> range 0 64
    | 4 -> range 0 600 | 5 -> range 0 2000 | 6 -> 0 | _ -> if draw 6 = 5 then range 65530 70000 else range 1 40 in
  let fill = Char.chr (draw 256) in
  let pre = draw 12 and post = draw 12 in
  let as_string = draw 4 = 3 in
  ev "%s request %d%s" who len (if as_string then " string" else "");
  let b = if as_string then Bytes.empty else guard_bytes (pre + len + post) in
  if not as_string then Bytes.fill b 0 (Bytes.length b) fill;
  let outside () = as_string || (Bytes.sub_string b 0 pre = String.make pre fill && Bytes.sub_string b (pre + len) post = String.make post fill) in
  let r = match lib (fun () -> if as_string then Random.string c.rng len else (c.rng#random_bytes b pre len; "")) with
    | s -> Ok (if as_string then s else Bytes.sub_string b pre len)
    | exception e -> Stdlib.Error e in
  if not (outside ()) then fail "out-of-range-write" "%s: bytes outside the requested range changed" who;
  match r with
  | Ok s ->
    if len > 0 && c.src = 0 then fail "no-source" "%s: %d bytes delivered on a machine without any entropy source" who len;
    if c.src > 0 then check_fresh who c.src s;
    if len > 0 then (nontrivial := true; probe ("delivered-" ^ src_name.(c.src)))
  | Stdlib.Error e ->
    let sn = str_of_exn e in
    ev "%s raised %s" who sn;
    (match c.src, e with
     | 0, Error No_entropy_source -> probe "no-entropy-source"
     | 0, _ -> fail "wrong-error" "%s: %s without an entropy source" who sn
     | 2, Unix.Unix_error _ | 2, Error Entropy_source_closed | (1 | 3), Error Entropy_source_closed ->
       if clean && not c.closed then fail "spurious-failure" "%s: request of %d bytes raised %s with a healthy source" who len sn;
       probe ("refused-" ^ src_name.(c.src))
     | _, _ -> fail "wrong-error" "%s: request of %d bytes raised %s" who len sn)

let configure_faults () =
  Ent.config 1 (pick [|0;1|]) (pick [|4;32|]);
  Ent.config 3 (pick [|0;1;1;2|]) (pick [|8;40;60|]);
  Ent.dev_faults (pick [|0;16;48|]) (pick [|0;0;8|]) (pick [|0;0;8|]);
  if draw 3 = 2 then Ent.dev_limit (range 0 300)
let heal () = Ent.config 1 0 0; Ent.config 3 0 0; Ent.dev_faults 0 0 0; Ent.dev_limit (-1); Ent.open_mode 0; Ent.rd_reset ()
(* faults that the library promises to absorb *)
let benign () = heal (); Ent.config 3 1 (pick [|8;40;60|]); Ent.dev_faults (pick [|0;16;48|]) 0 0

let c06 () =
  Ent.reset (draw 0x3fffffff); heal ();
  Array.fill used 0 4 0;
  let fds0 = Ent.fd_open_count () in
  let secure = { cname = "secure_rng"; src = secure_src (); rng = Random.secure_rng; closed = false; is_secure = true } in
  let clients = ref [secure] and n = range 3 14 in
  let open_ () =
    match draw 3 with
    | 0 ->
      (match lib (fun () -> Random.system_rng ()) with
       | r -> if nosys () then fail "wrong-source" "system_rng () succeeded without a system generator";
         clients := { cname = "system_rng"; src = 1; rng = r; closed = false; is_secure = false } :: !clients
       | exception Error No_entropy_source -> if not (nosys ()) then fail "wrong-source" "system_rng () unavailable")
    | 1 ->
      let path = pick [|"/dev/random"; "/dev/urandom"; "/sim/hwrng"|] in
      let bad = if draw 4 = 3 then pick [|2;13;24;5|] else 0 in
      if bad <> 0 then Ent.open_mode bad;
      let expect_fail = bad <> 0 || dev_err () <> 0 in
      ev "open %s" path;
      (match lib (fun () -> Random.device_rng path) with
       | r -> if expect_fail then fail "wrong-source" "device_rng %s succeeded although it cannot be opened" path;
         clients := { cname = "device_rng"; src = 2; rng = r; closed = false; is_secure = false } :: !clients
       | exception Unix.Unix_error _ -> if not expect_fail then fail "wrong-source" "device_rng %s failed" path);
      Ent.open_mode 0
    | _ ->
      (* availability is decided now, by what the instruction answers now *)
      let m = pick [|0;0;1;3;4|] in
      if m <> 0 then Ent.config 3 m 40;
      let m = if m = 0 then Ent.hw_init () else m in
      let usable = cpu () land 4 <> 0 && cpu () <> 8 && m <> 3 && m <> 4 in
      ev "hardware_rng mode %d" m;
      (match lib (fun () -> Random.hardware_rng ()) with
       | r -> if not usable then fail "bad-hardware-accepted" "hardware_rng () accepted a %s" (if m = 3 then "generator stuck at all ones" else if m = 4 then "dead generator" else "CPU without RDRAND");
         if Ent.hw_init () <> 3 && Ent.hw_init () <> 4 then
           clients := { cname = "hardware_rng"; src = 3; rng = r; closed = false; is_secure = false } :: !clients
       | exception Error No_entropy_source ->
         if usable then fail "spurious-failure" "hardware_rng () refused a working generator"; probe "hardware-refused");
      heal () in
  for _ = 1 to n do
    incr sim_time;
    match draw 10 with
    | 0 | 1 -> open_ ()
    | 2 -> (* wipe one that is not the default *)
      (match List.filter (fun c -> not c.is_secure && not c.closed) !clients with
       | [] -> ()
       | l -> let c = List.nth l (draw (List.length l)) in
         ev "wipe %s" c.cname; lib (fun () -> c.rng#wipe); c.closed <- true)
    | k ->
      (* using a generator after wiping it is outside the contract *)
      let usable = List.filter (fun c -> not c.closed) !clients in
      let c = List.nth usable (draw (List.length usable)) in
      (match k with
       | 3 | 4 | 5 -> configure_faults (); request c ~clean:false; heal ()
       | 6 | 7 -> benign (); request c ~clean:true; heal ()
       | _ -> heal (); request c ~clean:true)
  done;
  (* the medium is healthy again: everything open works *)
  heal ();
  List.iter (fun c -> if not c.closed then request c ~clean:true) !clients;
  List.iter (fun c -> if c.src = 2 && not c.is_secure && not c.closed then (lib (fun () -> c.rng#wipe); c.closed <- true)) !clients;
  if Ent.fd_open_count () <> fds0 then fail "fd-leak" "%d descriptors open after closing every generator, %d before" (Ent.fd_open_count ()) fds0
