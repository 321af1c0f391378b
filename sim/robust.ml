(* Whole-system runs under memory pressure, preemption, failing allocations,
   interruptions and abandonment. *)
open Cryptokit
open S
open Specs

(* ---------- one-shot tasks as sessions ---------- *)
let once name f = let d = ref false in
  { Sess.sname = name; step = (fun () -> if !d then false else (incr sim_time; d := true; ev "%s" name; f (); false)); wipe = ignore; root = (fun () -> []) }

let fixed_rsa = lazy (RSA.new_key ~rng:(Random.pseudo_rng "cryptokit simulator key number 1") ~e:65537 256)
let fixed_dh = lazy (DH.new_parameters ~rng:(Random.pseudo_rng "cryptokit simulator key number 2") ~privlen:60 128)
let fixed_dh_long = lazy (DH.new_parameters ~rng:(Random.pseudo_rng "cryptokit simulator key number 3") ~privlen:150 200)

(* an operation that the library refuses, with everything the exception says *)
type outcome = Gave of string | Refused of error | Invalid
let outcome f = match f () with
  | s -> Gave (Bytes.to_string (Bytes.of_string s))     (* guarded strings lie outside the heap: compare copies *)
  | exception Error (Compression_error (a, b)) when not (fail_fired ()) -> Refused (Compression_error (a ^ "", b ^ ""))
  | exception Error e when not (fail_fired ()) -> Refused e
  | exception Invalid_argument _ -> Invalid
let refused_task () =
  match draw 9 with
  | 0 -> let s = data (range 3 60) in "uncompress garbage", (fun () -> transform_string (Zlib.uncompress ()) s)
  | 1 -> let s = data (size 400) in
    let z = transform_string (Zlib.compress ()) s in
    let z = Net.flip z in "uncompress corrupted", (fun () -> transform_string (Zlib.uncompress ()) z)
  | 2 -> let s = data (range 1 60) in "base64 garbage", (fun () -> transform_string (Base64.decode ()) s)
  | 3 -> let s = data (range 1 40) in "hex garbage", (fun () -> transform_string (Hexa.decode ()) s)
  | 4 -> let k = key_bytes (pick [|0;15;17;33|]) in "aes key size", (fun () -> transform_string (Cipher.aes k Cipher.Encrypt) "")
  | 5 -> let k = key_bytes 16 and s = data (16 * range 0 6) in "padding", (fun () -> transform_string (Cipher.aes ~pad:Padding.length k Cipher.Decrypt) s)
  | 6 -> let _, pub = Lazy.force fixed_rsa in
    let s = data 40 in "rsa message", (fun () -> RSA.encrypt pub s)
  | 7 -> let k = key_bytes (range 60 70) in "blake2b key", (fun () -> hash_string (MAC.blake2b512 k) "abc")
  | _ -> let k = key_bytes (range 14 18) in "siphash key", (fun () -> hash_string (MAC.siphash k) "abc")

(* Bytes of the default generator while other threads draw from it too: in
   order, from what the medium emitted during the call, and no stretch of the
   medium delivered twice. *)
let drawn : (int, unit) Hashtbl.t = Hashtbl.create 1000
let medium_bytes p0 b off len =
  let hi = Ent.pos 1 in
  if Bytes.sub_string b 0 off <> String.make off '\x5A' || Bytes.sub_string b (off + len) 2 <> "ZZ" then
    fail "out-of-range-write" "secure_rng: bytes outside the requested range changed";
  let p = ref p0 in
  for i = 0 to len - 1 do
    while !p < hi && Ent.byte 1 !p <> Char.code (Bytes.get b (off + i)) do incr p done;
    if !p >= hi then fail "not-fresh" "secure_rng: byte %d of %d did not come from the entropy source" i len;
    incr p
  done;
  let index = Hashtbl.create 1000 in
  for q = 0 to hi - 8 do Hashtbl.replace index (String.init 8 (fun k -> Char.chr (Ent.byte 1 (q + k)))) q done;
  let mine = Hashtbl.create 1000 in
  for i = 0 to len - 8 do
    match Hashtbl.find_opt index (Bytes.sub_string b (off + i) 8) with
    | None -> ()
    | Some q -> for k = 0 to 7 do
        (match Hashtbl.find_opt mine (q + k) with
         | Some i' when i' <> i + k -> fail "entropy-reused" "secure_rng: byte %d of the medium delivered twice" (q + k)
         | _ -> ());
        Hashtbl.replace mine (q + k) (i + k) done
  done;
  Hashtbl.iter (fun q _ ->
    if Hashtbl.mem drawn q then fail "entropy-reused" "secure_rng: byte %d of the medium delivered to two requests" q;
    Hashtbl.add drawn q ()) mine;
  probe "secure-rng-checked"

let oneshot ?kind idx =
  match (match kind with Some k -> k | None -> draw 9) with
  | 8 -> let what, f = refused_task () in
    once (Printf.sprintf "[%d]refused/%s" idx what) (fun () ->
      let quiet = outcome f in
      let r = outcome (fun () -> lib f) in
      (match r with
       | Refused (Compression_error (a, b)) ->
         String.iter (fun c -> if c < ' ' || c > '~' then fail "garbled-exception" "%s: Compression_error with %s %s" what (show a) (show b)) (a ^ b)
       | _ -> ());
      if not (fail_fired ()) && r <> quiet then fail "wrong-exception" "%s: outcome differs from that of the undisturbed call" what;
      nontrivial := true)
  | 0 -> let rec pick_t () = let x = transform_spec () in if x.tname = "b64-multiline" then pick_t () else x in
    let t = pick_t () in
    once (Printf.sprintf "[%d]transform_string/%s" idx t.tname) (fun () ->
      let r = lib (fun () -> transform_string (t.make ()) t.input) in
      if r <> t.expect then fail "wrong-output" "transform_string/%s: differs from the reference" t.tname; nontrivial := true)
  | 1 -> let h = hash_spec () in
    once (Printf.sprintf "[%d]hash_string/%s" idx h.hname) (fun () ->
      let r = lib (fun () -> hash_string (h.hmake ()) h.hinput) in
      if r <> h.hexpect then fail "wrong-hash" "hash_string/%s: differs from the reference" h.hname; nontrivial := true)
  | 2 -> let c = Net.context () in let msg = data (size 300) in
    once (Printf.sprintf "[%d]auth/%s" idx c.Net.kind) (fun () ->
      let p = lib (fun () -> auth_transform_string (c.seal c) msg) in
      let x, t = c.ref_seal c msg in
      if p <> x ^ t then fail "wrong-output" "auth_transform_string/%s differs from the reference" c.kind;
      (match lib (fun () -> auth_check_transform_string (c.unseal c) p) with
       | Some m when m = msg -> () | _ -> fail "genuine-rejected" "%s" c.kind);
      let p' = Net.flip p in
      (match c.ref_open c (String.sub p' 0 (String.length p' - c.tagsize)) (String.sub p' (String.length p' - c.tagsize) c.tagsize) with
       | `Ok _ -> ()
       | _ -> match lib (fun () -> auth_check_transform_string (c.unseal c) p') with
         | Some _ -> fail "forgery-accepted" "%s" c.kind | None -> ()
         | exception Error (Bad_padding | Wrong_data_length) when not c.strict -> ());
      nontrivial := true)
  | 3 -> let rec pick_t () = let x = transform_spec () in if x.tname = "b64-multiline" then pick_t () else x in
    let t = pick_t () in
    once (Printf.sprintf "[%d]transform_channel/%s" idx t.tname) (fun () ->
      let ifd = Chan.fd_in t.input and ofd = Chan.fd_out max_int in
      Chan.fd_faults ifd 32 2 0 0; Chan.fd_faults ofd 16 2 0 0;
      let ic = Chan.open_in_fd ifd and oc = Chan.open_out_fd ofd in
      Fun.protect ~finally:(fun () -> close_in_noerr ic; close_out_noerr oc) (fun () ->
        lib (fun () -> transform_channel (t.make ()) ic oc);
        flush oc;
        if Chan.fd_data ofd <> t.expect then fail "wrong-output" "transform_channel/%s: differs from the reference" t.tname); nontrivial := true)
  | 4 -> let h = hash_spec () in
    once (Printf.sprintf "[%d]hash_channel/%s" idx h.hname) (fun () ->
      let ifd = Chan.fd_in h.hinput in
      Chan.fd_faults ifd 32 2 0 0;
      let ic = Chan.open_in_fd ifd in
      Fun.protect ~finally:(fun () -> close_in_noerr ic) (fun () ->
        let r = lib (fun () -> hash_channel (h.hmake ()) ic) in
        if r <> h.hexpect then fail "wrong-hash" "hash_channel/%s: differs from the reference" h.hname); nontrivial := true)
  | 5 -> let priv, pub = Lazy.force fixed_rsa in
    let v = Z.erem (Refm.z_be (data 32)) (Refm.z_be priv.n) in
    let msg = Refm.z_to_be 32 v in
    once (Printf.sprintf "[%d]rsa" idx) (fun () ->
      let s = lib (fun () -> RSA.sign_CRT priv msg) in
      if not (Z.equal (Refm.z_be s) (Z.powm v (Refm.z_be priv.d) (Refm.z_be priv.n))) then fail "wrong-result" "sign_CRT";
      if lib (fun () -> RSA.unwrap_signature pub s) <> msg then fail "wrong-result" "unwrap_signature"; nontrivial := true)
  | 6 -> let pr = Lazy.force fixed_dh in
    let r1 = Random.pseudo_rng (prng_string (draw 0xffffff) 32) and r2 = Random.pseudo_rng (prng_string (draw 0xffffff) 32) in
    once (Printf.sprintf "[%d]dh" idx) (fun () ->
      let a = lib (fun () -> DH.private_secret ~rng:r1 pr) and b = lib (fun () -> DH.private_secret ~rng:r2 pr) in
      let ma = lib (fun () -> DH.message pr a) and mb = lib (fun () -> DH.message pr b) in
      let x = lib (fun () -> DH.shared_secret pr a mb) and y = lib (fun () -> DH.shared_secret pr b ma) in
      if x <> y then fail "disagreement" "DH"; 
      if lib (fun () -> DH.derive_key x 50) <> Refm.derive_key "" x 50 then fail "wrong-key" "derive_key"; nontrivial := true)
  | _ ->
    let len = pick [|range 1 40; range 1 600; range 200 1200|] and heap = draw 2 = 1 in
    once (Printf.sprintf "[%d]secure_rng %d" idx len) (fun () ->
      let p0 = Ent.pos 1 in
      let b = if heap then Bytes.create (len + 4) else guard_bytes (len + 4) in
      Bytes.fill b 0 (len + 4) '\x5A';
      lib (fun () -> Random.secure_rng#random_bytes b 2 len);
      medium_bytes p0 b 2 len; nontrivial := true)

let any_task idx = if draw 3 = 2 then oneshot idx else Sess.any_session idx

(* ---------- C09: the collector may run at any allocation ---------- *)
let c09 () =
  Chan.fd_reset ();
  set_gc (pick [|4;8;16|]) true; set_guard (draw 2 = 1);
  let n = 1 + draw 3 in
  let ss = List.init n any_task in
  let live = ref ss and k = ref 0 in
  while !live <> [] do
    incr k; if !k > 4000 then fail "no-progress" "sessions still running after 4000 steps";
    let s = List.nth !live (draw (List.length !live)) in
    if draw 12 = 11 then (fault "gc_between_calls"; force_gc (draw 3));
    if not (s.Sess.step ()) then live := List.filter (fun x -> x != s) !live
  done

(* ---------- C10: threads ---------- *)
let c10 () =
  Chan.fd_reset ();
  set_gc (pick [|0;0;1;4|]) (draw 4 = 3);
  let n = 2 + draw 2 in
  (* unrelated tasks, or all of one kind *)
  let ss = match draw 4 with
    | 0 | 1 -> List.init n any_task
    | 2 -> let kind = draw 9 in List.init n (oneshot ~kind)
    | _ -> let kind = draw 8 in List.init n (Sess.any_session ~kind) in
  Conc.gap := pick [|3;12;60;400|];
  Conc.next_at := 1 + draw !Conc.gap;
  Conc.with_hook `Preempt (fun () ->
    Conc.run_threads (List.map (fun s () ->
      let k = ref 0 in
      let continue = ref true in
      while !continue do
        incr k; if !k > 4000 then fail "no-progress" "a thread still running after 4000 steps";
        continue := s.Sess.step ();
        Conc.yield_now ()
      done) ss));
  if !Conc.switches > 0 then probe "runs-with-switches"

(* ---------- C11: failing allocations and interruptions ---------- *)
let baseline () = live 0, live 1
let drop_all () = force_gc 2; force_gc 2

let c11 () =
  Chan.fd_reset ();
  drop_all ();
  let b0, b1 = baseline () in
  let pre_kind = draw 3 in
  set_gc (pick [|0;0;1|]) false;
  let others = List.init (draw 2) any_task in
  let body () =
    (* the victim's specification is drawn twice: it runs again, undisturbed, later *)
    tape_record ();
    let s = any_task 9 in
    tape_rewind ();
    let again = any_task 7 in
    tape_off (); supplied := [];
    let target = match draw 3 with 0 -> draw 4 | 1 -> draw 15 | _ -> draw 120 in
    let steps = ref 0 and hit = ref None in
    let go () =
      (try
         let continue = ref true in
         while !continue do
           incr steps; if !steps > 4000 then fail "no-progress" "still running after 4000 steps";
           continue := s.Sess.step () done
       with
       | Out_of_memory when fail_fired () -> hit := Some "Out_of_memory"
       | Error (Compression_error _) when fail_fired () -> hit := Some "Compression_error"
       | Conc.Interrupt | Fun.Finally_raised Conc.Interrupt -> hit := Some "Interrupt") in
    if pre_kind = 0 then begin set_fail target; go (); set_fail (-1) end
    else begin
      Conc.points := 0; Conc.interrupt_at := target * pick [|1;3;3;30|];
      Conc.with_hook `Interrupt go; Conc.interrupt_at := -1 end;
    ignore (arm false);
    (match !hit with
     | Some e -> ev "%s interrupted by %s after %d steps" s.sname e !steps; probe ("hit-" ^ e); nontrivial := true
     | None -> ());
    (* whatever state it is in, erasing and forgetting the victim is safe *)
    if !hit <> None && draw 2 = 0 then (ev "wipe victim"; s.wipe ());
    Sess.run_sessions [again];
    (* unrelated and later work is unaffected *)
    List.iter (fun o -> Sess.run_sessions [o]) others;
    () in
  body ();
  set_gc 0 false;
  drop_all ();
  let a0, a1 = baseline () in
  if a0 > b0 || a1 > b1 then fail "leak" "after a failed operation %d+%d blocks stay allocated forever (%d+%d before)" a0 a1 b0 b1

(* ---------- C12: nothing is kept ---------- *)
let c12 () =
  Chan.fd_reset ();
  drop_all ();
  let b0, b1 = baseline () in
  let f0 = Ent.fd_open_count () in
  set_gc (pick [|0;0;1|]) false;
  let ns = range 2 8 in
  let peak = ref 0 in
  let body () =
    let ss = List.init ns (fun i -> any_task i) in
    List.iter (fun s ->
      let k = match draw 4 with 0 -> 5000 | 1 -> draw 3 | _ -> range 1 12 in
      let rec go i = if i < k && s.Sess.step () then go (i + 1) in
      go 0;
      if k < 5000 then begin
        fault "abandoned";
        match draw 3 with
        | 0 -> ()
        | 1 -> ev "wipe %s" s.sname; s.wipe ()
        | _ -> ev "double wipe %s" s.sname; s.wipe (); s.wipe () end;
      peak := max !peak (live 0 + live 1)) ss;
    nontrivial := true in
  body ();
  set_gc 0 false;
  drop_all ();
  let a0, a1 = baseline () in
  if a0 > b0 || a1 > b1 then fail "leak" "%d+%d C blocks still allocated after every object was dropped (%d+%d before)" a0 a1 b0 b1;
  if !peak > b0 + b1 then probe "runs-with-C-blocks";
  if Ent.fd_open_count () > f0 + 100 then fail "fd-leak" "descriptors"
