(* Building blocks used directly, hostile arguments, corrupted data, limits. *)
open Cryptokit
open S
open Specs

let done_session name f = { Sess.sname = name; step = (fun () -> f (); false); wipe = ignore; root = (fun () -> []) }

(* ---------- block and stream cipher objects, called directly ---------- *)
let watch_outside who b lo len fillc =
  Bytes.iteri (fun i c -> if (i < lo || i >= lo + len) && c <> fillc then fail "out-of-range-write" "%s: byte %d outside the block written" who (i - lo)) b

(* apply [f src so dst d_o] to [s]; in place or from one buffer to another *)
let call_direct who n s f =
  if !Sess.hostile && draw 2 = 0 then begin
    (* offsets outside the buffers first: refused, and no effect on what follows *)
    let blen = n + draw 40 in
    let b = guard_bytes blen and other = guard_bytes (n + 8) in
    Bytes.fill b 0 blen '\x3C'; Bytes.fill other 0 (n + 8) '\xC3';
    let o = match draw 5 with 0 -> -1 - draw 20 | 1 -> blen - n + 1 + draw 4 | 2 -> blen + range 1 30 | 3 -> max_int - draw 20 | _ -> min_int + draw 20 in
    let src_bad = draw 2 = 0 in
    fault "bad_range"; ev "%s offset %d of %d (%b)" who o blen src_bad;
    match lib (fun () -> if src_bad then f b o other 3 else f other 3 b o) with
    | () -> if n > 0 then fail "bad-range-accepted" "%s: offset %d of a %d byte buffer accepted" who o blen
    | exception Invalid_argument _ -> probe "refused";
      watch_outside who b 0 0 '\x3C'; watch_outside who other 0 0 '\xC3' end;
  let place = draw 4 in
  let so = draw 5 and sp = draw 5 in
  if place = 3 then begin
    (* one buffer, two disjoint ranges *)
    let d_o = draw 5 and fwd = draw 2 = 0 in
    let b = guard_bytes (so + n + d_o + n + sp) in
    Bytes.fill b 0 (Bytes.length b) '\x3C';
    let so, d_o = if fwd then so, so + n + d_o else d_o + n + so, d_o in
    Bytes.blit_string s 0 b so n;
    lib (fun () -> f b so b d_o);
    if Bytes.sub_string b so n <> s then fail "input-modified" "%s: the source block was modified" who;
    Bytes.fill b so n '\x3C';
    watch_outside who b d_o n '\x3C'; Bytes.sub_string b d_o n
  end else if place = 2 then begin
    let b = guard_bytes (so + n + sp) in
    Bytes.fill b 0 (Bytes.length b) '\x3C'; Bytes.blit_string s 0 b so n;
    lib (fun () -> f b so b so);
    watch_outside who b so n '\x3C'; Bytes.sub_string b so n
  end else begin
    let d_o = draw 5 and dp = draw 5 in
    let a = guard_bytes (so + n + sp) and b = guard_bytes (d_o + n + dp) in
    Bytes.fill a 0 (Bytes.length a) '\x3C'; Bytes.fill b 0 (Bytes.length b) '\xC3'; Bytes.blit_string s 0 a so n;
    lib (fun () -> f a so b d_o);
    if Bytes.sub_string a so n <> s then fail "input-modified" "%s: the source block was modified" who;
    watch_outside who a so n '\x3C'; watch_outside who b d_o n '\xC3';
    Bytes.sub_string b d_o n
  end

let block_direct idx =
  let c = block_cipher ~user:true () in
  let mode = gen_mode c.bsz in
  let iv = gen_iv c.bsz in
  let enc = draw 2 = 0 in
  let gran = match mode with Some (Cipher.CFB n) | Some (Cipher.OFB n) -> n | _ -> c.bsz in
  let nb = range 1 24 in
  let input = data (nb * gran) in
  let expect = ref_mode c mode iv enc input in
  let who = Printf.sprintf "[%d]block %s/%s/%s" idx c.bname (match mode with None -> "CBC" | Some m -> mode_name m) (if enc then "enc" else "dec") in
  let ob = ref None and k = ref 0 in
  { Sess.sname = who; wipe = (fun () -> match !ob with Some x -> lib (fun () -> x#wipe) | None -> ());
    root = (fun () -> match !ob with Some x -> [Obj.repr x] | None -> []);
    step = fun () ->
      incr sim_time;
      match !ob with
      | None -> ev "%s create" who; ob := Some (lib (fun () -> assemble c mode iv enc)); true
      | Some x ->
        if !k < nb then begin
          if x#blocksize <> gran then fail "block-size" "%s: blocksize %d" who x#blocksize;
          let s = String.sub input (!k * gran) gran in
          let r = call_direct who gran s (fun a o b p -> x#transform a o b p) in
          ev "%s transform" who;
          if r <> String.sub expect (!k * gran) gran then fail "wrong-output" "%s: block %d differs from the reference" who !k;
          incr k; true
        end else begin lib (fun () -> x#wipe); nontrivial := true; false end }

let stream_direct idx =
  let rc4 = draw 2 = 0 in
  let key, iv, ctr = if rc4 then key_bytes (range 1 256), None, None else chacha_params () in
  let input = data (size 1500) in
  let n = String.length input in
  let riv = match iv with None -> zeros 8 | Some s -> s and rctr = match ctr with None -> 0L | Some c -> c in
  let expect = Refm.xor_str input (if rc4 then Refm.rc4_stream key n else Refm.chacha_stream key riv rctr n) in
  let who = Printf.sprintf "[%d]stream %s" idx (if rc4 then "arcfour" else "chacha20") in
  let ob = ref None and pos = ref 0 and steps = ref 0 in
  { Sess.sname = who; wipe = (fun () -> match !ob with Some (x : Stream.stream_cipher) -> lib (fun () -> x#wipe) | None -> ());
    root = (fun () -> match !ob with Some x -> [Obj.repr x] | None -> []);
    step = fun () ->
      incr sim_time; incr steps;
      match !ob with
      | None -> ev "%s create" who;
        ob := Some (lib (fun () -> if rc4 then new Stream.arcfour key else new Stream.chacha20 ?iv ?ctr key)); true
      | Some x ->
        if !pos < n then begin
          let len = if !steps > 40 then n - !pos else if draw 12 = 11 then 0 else Sess.frag (n - !pos) in
          let r = call_direct who len (String.sub input !pos len) (fun a o b p -> x#transform a o b p len) in
          ev "%s transform %d" who len;
          if r <> String.sub expect !pos len then fail "wrong-output" "%s: bytes %d.. differ from the reference" who !pos;
          pos := !pos + len; true
        end else begin lib (fun () -> x#wipe); if n > 0 then nontrivial := true; false end }

let util_direct idx =
  let n = size 20000 in
  let a = data n and b = data n in
  let who = Printf.sprintf "[%d]utilities" idx in
  let k = ref 0 in
  { Sess.sname = who; wipe = ignore; root = (fun () -> []);
    step = fun () ->
      incr sim_time; incr k;
      (match draw 5 with
       | 0 ->
         let d_o = draw 9 and so = draw 9 in
         let src = guard_bytes (so + n + draw 4) and dst = guard_bytes (d_o + n + 3) in
         Bytes.fill src 0 (Bytes.length src) '\x3C'; Bytes.fill dst 0 (Bytes.length dst) '\xC3';
         Bytes.blit_string a 0 src so n; Bytes.blit_string b 0 dst d_o n;
         ev "%s xor_bytes %d" who n;
         lib (fun () -> xor_bytes src so dst d_o n);
         if Bytes.sub_string dst d_o n <> Refm.xor_str a b || Bytes.sub_string src so n <> a then fail "wrong-output" "xor_bytes";
         watch_outside who dst d_o n '\xC3'
       | 4 ->
         (* both operands in one buffer *)
         let so = draw 9 and gap = draw 9 in
         let same = draw 4 = 3 in
         let fwd = draw 2 = 0 in
         let x = guard_bytes (so + n + gap + n + 3) in
         Bytes.fill x 0 (Bytes.length x) '\xC3';
         let so, d_o = if fwd then so, so + n + gap else so + n + gap, so in
         let d_o = if same then so else d_o in
         Bytes.blit_string b 0 x d_o n; Bytes.blit_string a 0 x so n;
         ev "%s xor_bytes within a buffer %d" who n;
         lib (fun () -> xor_bytes x so x d_o n);
         let want = if same then zeros n else Refm.xor_str a b in
         if Bytes.sub_string x d_o n <> want || (not same && Bytes.sub_string x so n <> a) then fail "wrong-output" "xor_bytes within a buffer";
         Bytes.fill x so n '\xC3';
         watch_outside who x d_o n '\xC3'
       | 1 ->
         let d_o = draw 9 in
         let dst = guard_bytes (d_o + n) in
         Bytes.fill dst 0 (Bytes.length dst) '\xC3'; Bytes.blit_string b 0 dst d_o n;
         let so = draw 9 in
         let src = String.make so 'q' ^ a in
         ev "%s xor_string %d" who n;
         lib (fun () -> xor_string src so dst d_o n);
         if Bytes.sub_string dst d_o n <> Refm.xor_str a b || String.sub src so n <> a then fail "wrong-output" "xor_string";
         watch_outside who dst d_o n '\xC3'
       | 2 ->
         let x = guard_bytes n in Bytes.blit_string a 0 x 0 n;
         ev "%s wipe_bytes %d" who n;
         lib (fun () -> wipe_bytes x);
         if Bytes.to_string x <> zeros n then fail "wipe-incomplete" "wipe_bytes";
         let y = Bytes.to_string (Bytes.of_string a) in
         lib (fun () -> wipe_string y);
         if y <> zeros n then fail "wipe-incomplete" "wipe_string"
       | _ ->
         let c = match draw 4 with
           | 0 -> a ^ ""
           | 1 when n > 0 -> let i = draw n in let bit = draw 8 in String.mapi (fun j ch -> if i = j then Char.chr (Char.code ch lxor (1 lsl bit)) else ch) a
           | 2 -> a ^ String.make (range 1 9) '\000' | _ -> if n > 0 then String.sub a 0 (n - 1) else "\000" in
         ev "%s equal %d %d" who n (String.length c);
         if lib (fun () -> string_equal a c) <> (a = c) || lib (fun () -> string_equal c a) <> (a = c) then fail "wrong-comparison" "string_equal on %s and %s" (show a) (show c);
         if lib (fun () -> bytes_equal (Bytes.of_string a) (Bytes.of_string c)) <> (a = c) then fail "wrong-comparison" "bytes_equal on %s and %s" (show a) (show c));
      nontrivial := true;
      !k < 4 }

let direct idx = match draw 5 with 0 | 1 -> block_direct idx | 2 | 3 -> stream_direct idx | _ -> util_direct idx

(* ---------- C17: counters have an end ---------- *)
let c17_one idx =
  let c = let rec go () = let c = block_cipher () in if c.bname = "3des" then go () else c in go () in
  let inc = if draw 60 = 59 && c.bname <> "des" then 2 else 1 in
  let limit = 1 lsl (8 * inc) in
  let iv = match gen_iv c.bsz with None -> zeros c.bsz | Some v -> v in
  let bs = c.bsz in
  let who = Printf.sprintf "[%d]%s/CTR_N %d" idx c.bname inc in
  let parts = draw 4 = 3 in
  ev "%s" who;
  let prefix = String.sub iv 0 (bs - inc) in
  (* the keystream of this object is known: one block per counter value *)
  let tbl = Hashtbl.create 300 in
  let start = ref 0 in
  for i = bs - inc to bs - 1 do start := !start * 256 + Char.code iv.[i] done;
  let ks j = (* keystream block number j *)
    match Hashtbl.find_opt tbl j with Some s -> s | None ->
      let v = (!start + j) land (limit - 1) in
      let s = c.benc (prefix ^ String.init inc (fun i -> Char.chr ((v lsr (8 * (inc - 1 - i))) land 255))) in
      Hashtbl.add tbl j s; s in
  let x = lib (fun () -> if parts then new Block.cipher (assemble c (Some (Cipher.CTR_N inc)) (Some iv) true) else c.mk ~mode:(Cipher.CTR_N inc) ~iv c.key Cipher.Encrypt) in
  let total = limit + range (-2) 40 in
  let sent = ref 0 and out = ref 0 and refused = ref 0 and steps = ref 0 in
  let drain () =
    let s = lib (fun () -> x#get_string) in
    let k = String.length s / bs in
    if k * bs <> String.length s then fail "wrong-output" "%s: partial block" who;
    for j = 0 to k - 1 do
      if !out + j >= limit then fail "keystream-reuse" "%s: block %d was enciphered with the keystream of block %d" who (!out + j) (!out + j - limit);
      if !refused = 0 && (inc = 1 || (!out + j) mod 97 = 0 || !out + j > limit - 4) && String.sub s (j * bs) bs <> ks (!out + j) then fail "wrong-output" "%s: block %d" who (!out + j) done;
    (* after a refusal nothing more may come out *)
    if !refused > 1 && k > 0 then fail "output-after-refusal" "%s: %d blocks produced after Message_too_long" who k;
    out := !out + k in
  (* plaintext is all zeros: the output is the keystream itself *)
  while !sent < total && !steps < 4000 do
    incr steps; incr sim_time;
    let n = if inc = 1 then min (total - !sent) (match draw 4 with 0 -> 1 | 1 -> range 1 20 | 2 -> total - !sent | _ -> range 1 100) else min (total - !sent) (range 1 30000) in
    let b = Bytes.make (n * bs) '\000' in
    ev "%s put %d" who n;
    (match draw 8 with
     | 7 when n < 20 -> (try Bytes.iter (fun ch -> lib (fun () -> x#put_char ch)) b; lib (fun () -> x#flush) with Error Message_too_long -> incr refused)
     | _ -> (try lib (fun () -> x#put_substring b 0 (n * bs)); lib (fun () -> x#flush) with Error Message_too_long -> incr refused));
    sent := !sent + n;
    if !refused > 0 && !sent <= limit - 1 then fail "refused-early" "%s: refused after %d blocks of %d" who !sent limit;
    if draw 3 = 2 || !refused > 0 then drain ();
    if !refused = 1 then refused := 2
  done;
  drain ();
  if total > limit && !refused = 0 then fail "keystream-reuse" "%s: %d blocks accepted with a %d byte counter" who total inc;
  if !refused > 0 then begin
    probe "counter-exhausted"; nontrivial := true;
    (* still refused, whatever is tried *)
    for _ = 1 to 3 do
      (match lib (fun () -> x#put_string (zeros (2 * bs)); x#flush) with
       | () -> fail "accepted-after-refusal" "%s: data accepted after Message_too_long" who
       | exception Error (Message_too_long | Wrong_data_length) -> ());
      drain () done end;
  lib (fun () -> x#wipe)
(* the class Block.ctr itself, called block by block: a refused call leaves no key stream in the caller's buffer *)
let c17_direct idx =
  let c = let rec go () = let c = block_cipher () in if c.bname = "3des" then go () else c in go () in
  let iv = match gen_iv c.bsz with None -> zeros c.bsz | Some v -> v in
  let bs = c.bsz in
  let who = Printf.sprintf "[%d]Block.ctr(%s) 1" idx c.bname in
  ev "%s" who;
  let start = Char.code iv.[bs - 1] in
  let ks j = c.benc (String.sub iv 0 (bs - 1) ^ String.make 1 (Char.chr ((start + j) land 255))) in
  let x = lib (fun () -> assemble c (Some (Cipher.CTR_N 1)) (Some iv) true) in
  let total = 256 + range 1 20 in
  let refused = ref false and given = ref 0 in
  for j = 0 to total - 1 do
    incr sim_time;
    let src_off = draw 4 and dst_off = draw 4 in
    let src = Bytes.make (src_off + bs + draw 3) '\000' and dst = Bytes.make (dst_off + bs + draw 3) '\xA5' in
    let before = Bytes.to_string dst in
    if draw 40 = 39 then begin
      (* a call with a bad range in between uses up nothing *)
      (match lib (fun () -> x#transform src (Bytes.length src - bs + 1) dst dst_off) with
       | () -> fail "bad-range-accepted" "%s" who
       | exception (Invalid_argument _ | Error Message_too_long) -> ());
      if Bytes.to_string dst <> before then fail "output-after-refusal" "%s: a refused call wrote into the destination" who
    end;
    match lib (fun () -> x#transform src src_off dst dst_off) with
    | () ->
      if !refused then fail "accepted-after-refusal" "%s: block %d accepted after Message_too_long" who j;
      if j >= 256 then fail "keystream-reuse" "%s: block %d was enciphered with the key stream of block %d" who j (j - 256);
      if Bytes.sub_string dst dst_off bs <> ks j then fail "wrong-output" "%s: block %d" who j;
      incr given
    | exception Error Message_too_long ->
      if j < 255 then fail "refused-early" "%s: refused after %d blocks" who j;
      refused := true;
      if Bytes.to_string dst <> before then fail "output-after-refusal" "%s: call %d was refused but wrote key stream into the destination" who j
  done;
  if !refused then begin ev "%s: %d blocks, then refused" who !given; probe "counter-exhausted"; nontrivial := true end;
  lib (fun () -> x#wipe)

let c17 () =
  set_gc (pick [|0;0;0;1|]) false;
  if draw 4 = 3 then c17_direct 0 else c17_one 0

(* ---------- C18: arguments outside the buffers ---------- *)
type ranged = { rname : string; rcall : bytes -> int -> int -> unit; rwrites : bool; rfinish : unit -> unit }
let hostile_range = Sess.hostile_range
let bad = Sess.bad

let c18_one idx =
  let guard = Bytes.empty in ignore guard;
  let target = match draw 8 with
    | 0 | 1 -> let t = transform_spec () in let x = lib t.make in
      { rname = t.tname; rcall = (fun b o l -> x#put_substring b o l); rwrites = false;
        rfinish = fun () -> (try lib (fun () -> x#finish; ignore x#get_string) with Error _ -> ()); lib (fun () -> x#wipe) }
    | 2 -> let h = hash_spec () in let x = lib h.hmake in
      { rname = h.hname; rcall = (fun b o l -> x#add_substring b o l); rwrites = false;
        rfinish = fun () -> (try lib (fun () -> ignore x#result) with Error _ -> ()); lib (fun () -> x#wipe) }
    | 3 -> let a = aead_spec () in let x = lib a.amake in
      { rname = a.aname; rcall = (fun b o l -> x#put_substring b o l); rwrites = false;
        rfinish = fun () -> (try lib (fun () -> ignore x#finish_and_get_tag; ignore x#get_string) with Error _ -> ()); lib (fun () -> x#wipe) }
    | 4 -> let x = lib (fun () -> if draw 2 = 0 then Zlib.compress ~level:(draw 10) () else Zlib.uncompress ~expect_zlib_header:(draw 2 = 0) ()) in
      { rname = "zlib"; rcall = (fun b o l -> x#put_substring b o l); rwrites = false;
        rfinish = fun () -> (try lib (fun () -> x#finish) with Error _ -> ()); lib (fun () -> x#wipe) }
    | 5 -> let x = match draw 4 with
        | 0 -> Random.secure_rng | 1 -> Random.pseudo_rng (prng_string 3 32) | 2 -> Random.pseudo_rng_aes_ctr (prng_string 3 32)
        | _ -> (try Random.hardware_rng () with Error No_entropy_source -> Random.secure_rng) in
      { rname = "rng"; rcall = (fun b o l -> x#random_bytes b o l); rwrites = true; rfinish = ignore }
    | 6 -> let x = match draw 2 with 0 -> new Stream.arcfour (key_bytes (range 1 256)) | _ -> new Stream.chacha20 (key_bytes 32) in
      let other = guard_bytes 40 in
      let src_bad = draw 2 = 0 in
      { rname = "stream#transform"; rcall = (fun b o l -> if src_bad then x#transform b o other 0 l else x#transform other 0 b o l); rwrites = not src_bad; rfinish = fun () -> lib (fun () -> x#wipe) }
    | _ ->
      let other = guard_bytes 40 in
      let src_bad = draw 2 = 0 in
      { rname = "xor_bytes"; rcall = (fun b o l -> if src_bad then xor_bytes b o other 0 l else if draw 2 = 0 then xor_bytes other 0 b o l else xor_string (Bytes.to_string other) 0 b o l); rwrites = not src_bad; rfinish = ignore } in
  let who = Printf.sprintf "[%d]%s" idx target.rname in
  for _ = 1 to range 1 5 do
    incr sim_time;
    let blen = match draw 3 with 0 -> draw 40 | 1 -> range 40 700 | _ -> pick [|0;1;16;64;256|] in
    let b = guard_bytes blen in
    let init = data blen in
    Bytes.blit_string init 0 b 0 blen;
    let o, l = if draw 4 = 3 then (let o = draw (blen + 1) in (o, draw (blen - o + 1))) else hostile_range blen in
    if bad o l blen then begin
      fault "bad_range";
      ev "%s range %d %d of %d" who o l blen;
      (match lib (fun () -> target.rcall b o l) with
       | () ->
         (* an empty request may be ignored *)
         if l <> 0 then fail "bad-range-accepted" "%s: range %d,%d of a %d byte buffer accepted" who o l blen
       | exception Invalid_argument _ -> probe "refused");
      if Bytes.to_string b <> init then fail "input-modified" "%s: refused call modified its argument" who;
      nontrivial := true
    end else begin
      (try lib (fun () -> target.rcall b o l) with Error _ | Invalid_argument _ -> ());
      let now = Bytes.to_string b in
      if not target.rwrites then (if now <> init then fail "input-modified" "%s: the input of a call was modified" who)
      else if String.sub now 0 o <> String.sub init 0 o || String.sub now (o+l) (blen-o-l) <> String.sub init (o+l) (blen-o-l) then
        fail "out-of-range-write" "%s: bytes outside the range %d,%d of a %d byte buffer were written" who o l blen;
      probe "valid-range"
    end
  done;
  target.rfinish ()

let c18_block idx =
  let c = block_cipher () in
  let mode = gen_mode c.bsz in
  let x = lib (fun () -> assemble c mode (gen_iv c.bsz) (draw 2 = 0)) in
  let gran = x#blocksize in
  let who = Printf.sprintf "[%d]block %s/%s" idx c.bname (match mode with None -> "CBC" | Some m -> mode_name m) in
  for _ = 1 to range 1 4 do
    let blen = draw 60 in
    let b = guard_bytes blen and other = guard_bytes (gran + 8) in
    let o = match draw 5 with 0 -> -1 - draw 20 | 1 -> max 0 (blen - gran + 1 + draw 4) | 2 -> blen + draw 30 | 3 -> max_int - draw 20 | _ -> min_int + draw 20 in
    let src_bad = draw 2 = 0 in
    if bad o gran blen then begin
      fault "bad_range"; ev "%s offset %d of %d" who o blen;
      match lib (fun () -> if src_bad then x#transform b o other 3 else x#transform other 3 b o) with
      | () -> fail "bad-range-accepted" "%s: offset %d of a %d byte buffer accepted" who o blen
      | exception Invalid_argument _ -> probe "refused"; nontrivial := true end
  done;
  (* a valid call reads and writes one block at the places given *)
  let pre = draw 9 and post = draw 9 and pre' = draw 9 and post' = draw 9 in
  let src = guard_bytes (pre + gran + post) and dst = guard_bytes (pre' + gran + post') in
  let i = data (pre + gran + post) and j = data (pre' + gran + post') in
  Bytes.blit_string i 0 src 0 (String.length i); Bytes.blit_string j 0 dst 0 (String.length j);
  (match lib (fun () -> x#transform src pre dst pre') with
   | () ->
     let now = Bytes.to_string dst in
     if Bytes.to_string src <> i then fail "input-modified" "%s: the input of transform was modified" who;
     if String.sub now 0 pre' <> String.sub j 0 pre' || String.sub now (pre' + gran) post' <> String.sub j (pre' + gran) post' then
       fail "out-of-range-write" "%s: bytes outside the destination block were written" who
   | exception Error Message_too_long -> ());
  lib (fun () -> x#wipe)

(* sizes of keys, vectors, seeds and digests *)
let sized = [|
  "aes", (fun k -> ignore (Cipher.aes k Cipher.Encrypt)), (fun n -> n = 16 || n = 24 || n = 32);
  "des", (fun k -> ignore (Cipher.des k Cipher.Encrypt)), (fun n -> n = 8);
  "3des", (fun k -> ignore (Cipher.triple_des k Cipher.Decrypt)), (fun n -> n = 16 || n = 24);
  "blowfish", (fun k -> ignore (Cipher.blowfish k Cipher.Decrypt)), (fun n -> n >= 4 && n <= 56);
  "arcfour", (fun k -> ignore (Cipher.arcfour k Cipher.Encrypt)), (fun n -> n >= 1 && n <= 256);
  "chacha20", (fun k -> ignore (Cipher.chacha20 k Cipher.Encrypt)), (fun n -> n = 16 || n = 32);
  "aes-gcm", (fun k -> ignore (AEAD.aes_gcm ~iv:(zeros 12) k AEAD.Encrypt)), (fun n -> n = 16 || n = 24 || n = 32);
  "chapoly", (fun k -> ignore (AEAD.chacha20_poly1305 ~iv:(zeros 12) k AEAD.Decrypt)), (fun n -> n = 16 || n = 32);
  "siphash", (fun k -> ignore (MAC.siphash k)), (fun n -> n = 16);
  "siphash128", (fun k -> ignore (MAC.siphash128 k)), (fun n -> n = 16);
  "mac-aes", (fun k -> ignore (MAC.aes k)), (fun n -> n = 16 || n = 24 || n = 32);
  "cmac-aes", (fun k -> ignore (MAC.aes_cmac k)), (fun n -> n = 16 || n = 24 || n = 32);
  "mac-des", (fun k -> ignore (MAC.des k)), (fun n -> n = 8);
  "mac-3des", (fun k -> ignore (MAC.triple_des k)), (fun n -> n = 16 || n = 24);
  "mac-des-3des", (fun k -> ignore (MAC.des_final_triple_des k)), (fun n -> n = 16 || n = 24);
  "mac-blake2b", (fun k -> ignore (MAC.blake2b 256 k)), (fun n -> n <= 64);
  "mac-blake2s", (fun k -> ignore (MAC.blake2s 128 k)), (fun n -> n <= 32);
|]
let c18_sizes () =
  let len = match draw 3 with 0 -> range 0 70 | 1 -> pick [|0;1;3;4;7;8;9;15;16;17;23;24;25;31;32;33;56;57;63;64;65;255;256;257|] | _ -> range 0 400 in
  let expect who ok err f =
    ev "%s %b" who ok;
    fault (if ok then "good_size" else "bad_size");
    match lib f with
    | () -> if not ok then fail "bad-size-accepted" "%s accepted" who
    | exception Error e when e = err && not ok -> probe "refused"; nontrivial := true
    | exception Error e when ok -> fail "good-size-refused" "%s refused" who
    | exception Error e -> fail "wrong-error" "%s refused with %s" who (str_of_exn (Error e)) in
  match draw 10 with
  | 8 -> (* chunk sizes, counter widths, key lengths: refused somehow *)
    let c = block_cipher () in
    let n = match draw 3 with 0 -> range (-3) (c.bsz + 4) | 1 -> pick [|0;-1;c.bsz;c.bsz+1;256;max_int;min_int|] | _ -> range 1 c.bsz in
    let mode = match draw 3 with 0 -> Cipher.CFB n | 1 -> Cipher.OFB n | _ -> Cipher.CTR_N n in
    let ok = n >= 1 && n <= c.bsz in
    fault (if ok then "good_size" else "bad_size");
    ev "%s/%s" c.bname (mode_name mode);
    (match lib (fun () -> ignore (c.mk ~mode c.key Cipher.Encrypt)) with
     | () -> if not ok then fail "bad-size-accepted" "%s/%s accepted" c.bname (mode_name mode)
     | exception (Error _ | Invalid_argument _ | Assert_failure _) -> if ok then fail "good-size-refused" "%s/%s refused" c.bname (mode_name mode); probe "refused"; nontrivial := true)
  | 9 ->
    (match draw 4 with
     | 0 -> let n = match draw 3 with 0 -> range (-40) 31 | 1 -> 33 + 2 * draw 400 | _ -> pick [|min_int; -1; 0; 1; 31|] in
       let rng = Random.pseudo_rng (prng_string 7 32) in
       if draw 2 = 0 then expect (Printf.sprintf "RSA key of %d bits" n) false Wrong_key_size (fun () -> ignore (RSA.new_key ~rng n))
       else expect (Printf.sprintf "Paillier key of %d bits" n) false Wrong_key_size (fun () -> ignore (Paillier.new_key ~rng n))
     | 1 -> let n = range (-10) 31 in
       expect (Printf.sprintf "DH group of %d bits" n) false Wrong_key_size (fun () -> ignore (DH.new_parameters n))
     | 2 -> let level = pick [|-2; -17; 10; 11; 99; 0x7fffffff|] in
       fault "bad_size"; ev "zlib level %d" level;
       (match lib (fun () -> ignore (Zlib.compress ~level ())) with
        | () -> fail "bad-size-accepted" "compression level %d accepted" level
        | exception Error (Compression_error _) -> probe "refused"; nontrivial := true)
     | _ -> let n = - (range 1 50) in
       fault "bad_size"; ev "random string of %d" n;
       (match lib (fun () -> ignore (Random.string (Random.pseudo_rng (prng_string 3 20)) n)) with
        | () -> fail "bad-size-accepted" "random string of %d bytes" n
        | exception Invalid_argument _ -> probe "refused"; nontrivial := true))
  | 0 | 1 | 2 -> let n, f, ok = pick sized in
    let k = key_bytes len in
    expect (Printf.sprintf "%s key of %d bytes" n len) (ok len) Wrong_key_size (fun () -> f k)
  | 3 ->
    let name, f, ok = match draw 7 with
      | 4 -> "blake3", (fun n -> ignore (Hash.blake3 n)), (fun n -> n > 0 && n mod 8 = 0)
      | 5 -> "mac-blake3", (fun n -> ignore (MAC.blake3 n (key_bytes 32))), (fun n -> n > 0 && n mod 8 = 0)
      | 6 -> "mac-blake2b", (fun n -> ignore (MAC.blake2b n (key_bytes 9))), (fun n -> n >= 8 && n <= 512 && n mod 8 = 0)
      | 0 -> "blake2b", (fun n -> ignore (Hash.blake2b n)), (fun n -> n >= 8 && n <= 512 && n mod 8 = 0)
      | 1 -> "blake2s", (fun n -> ignore (Hash.blake2s n)), (fun n -> n >= 8 && n <= 256 && n mod 8 = 0)
      | 2 -> "sha3", (fun n -> ignore (Hash.sha3 n)), (fun n -> n = 224 || n = 256 || n = 384 || n = 512)
      | _ -> "keccak", (fun n -> ignore (Hash.keccak n)), (fun n -> n = 224 || n = 256 || n = 384 || n = 512) in
    let n = match draw 3 with 0 -> range (-20) 600 | 1 -> 8 * range (-2) 70 | _ -> pick [|0;224;256;384;512;min_int;max_int|] in
    expect (Printf.sprintf "%s digest of %d bits" name n) (ok n) Wrong_key_size (fun () -> f n)
  | 4 | 5 ->
    let iv = prng_string (draw 0xffff) (range 0 40) in
    let l = String.length iv in
    (match draw 4 with
     | 0 -> let c = block_cipher () in
       let mode = match draw 3 with 0 -> None | 1 -> Some Cipher.CTR | _ -> Some (Cipher.CFB 3) in
       expect (Printf.sprintf "%s IV of %d bytes" c.bname l) (l = c.bsz) Wrong_IV_size (fun () -> ignore (c.mk ?mode ~iv c.key Cipher.Encrypt))
     | 1 -> let k = key_bytes 32 in
       expect (Printf.sprintf "chacha20 IV of %d bytes" l) (l = 8 || l = 12) Wrong_IV_size (fun () -> ignore (Cipher.chacha20 ~iv k Cipher.Encrypt))
     | 2 -> let k = key_bytes 32 in
       expect (Printf.sprintf "chapoly IV of %d bytes" l) (l = 8 || l = 12) Wrong_IV_size (fun () -> ignore (AEAD.chacha20_poly1305 ~iv k AEAD.Encrypt))
     | _ -> let k = key_bytes 16 in
       expect (Printf.sprintf "aes mac IV of %d bytes" l) (l = 16) Wrong_IV_size (fun () -> ignore (MAC.aes ~iv k)))
  | 6 ->
    let s = prng_string (draw 0xffff) (range 0 40) in
    let l = String.length s in
    if draw 2 = 0 then expect (Printf.sprintf "seed of %d bytes" l) (l >= 16) Seed_too_short (fun () -> ignore (Random.pseudo_rng s))
    else expect (Printf.sprintf "AES seed of %d bytes" l) (l >= 16) Seed_too_short (fun () -> ignore (Random.pseudo_rng_aes_ctr s))
  | _ -> (* data whose length does not fit *)
    let c = block_cipher () in
    let enc = draw 2 = 0 in
    let mode = gen_mode c.bsz in
    let gran = match mode with Some (Cipher.CFB n) | Some (Cipher.OFB n) -> n | _ -> c.bsz in
    let s = data (range 0 100) in
    let l = String.length s in
    expect (Printf.sprintf "%s/%s %d bytes without padding" c.bname (match mode with None -> "CBC" | Some m -> mode_name m) l) (l mod gran = 0) Wrong_data_length
      (fun () -> ignore (transform_string (c.mk ?mode c.key (if enc then Cipher.Encrypt else Cipher.Decrypt)) s))

let c18 () =
  set_gc (pick [|0;0;1;4|]) (draw 4 = 3);
  set_guard (draw 3 = 2);
  (* a neighbour doing legitimate work must not notice *)
  let nb = if draw 4 = 3 then [Sess.any_session 5] else [] in
  let bad_calls = match draw 7 with
    | 0 -> done_session "block" (fun () -> c18_block 0)
    | 1 -> done_session "sizes" (fun () -> for _ = 1 to range 1 4 do c18_sizes () done)
    | 2 | 3 | 4 ->
      (* a client that also makes calls which must be refused without any effect *)
      Sess.hostile := true;
      if draw 4 = 3 then direct 0 else Sess.any_session 0
    | _ -> done_session "ranges" (fun () -> c18_one 0) in
  Sess.run_sessions (bad_calls :: nb)

(* ---------- C15: decoding what an adversary sends ---------- *)
type outcome = Decoded of string | Refused of string
let show_outcome = function Decoded s -> "decoded to " ^ show s | Refused e -> "refused: " ^ e
let corrupt s =
  let n = String.length s in
  match draw 9 with
  | 0 -> s
  | 1 when n > 0 -> fault "bit_flip"; let i = draw n and b = draw 8 in String.mapi (fun j c -> if i = j then Char.chr (Char.code c lxor (1 lsl b)) else c) s
  | 2 when n > 0 -> fault "truncated"; String.sub s 0 (match draw 3 with 0 -> draw n | 1 -> n - 1 | _ -> max 0 (n - range 1 9))
  | 3 -> fault "extended"; s ^ prng_string (draw 0xffff) (range 1 20)
  | 4 when n > 0 -> fault "byte_replaced"; let i = draw n in let v = Char.chr (draw 256) in String.mapi (fun j c -> if i = j then v else c) s
  | 5 when n > 0 -> fault "byte_removed"; let i = draw n in String.sub s 0 i ^ String.sub s (i + 1) (n - i - 1)
  | 6 -> fault "byte_inserted"; let i = draw (n + 1) in String.sub s 0 i ^ String.make 1 (Char.chr (draw 256)) ^ String.sub s i (n - i)
  | 7 when n > 1 -> fault "duplicated"; let i = draw n in let l = range 1 (min 40 (n - i)) in String.sub s 0 i ^ String.sub s i l ^ String.sub s i (n - i)
  | 8 -> fault "random"; prng_string (draw 0xffffff) (range 0 80)
  | _ -> s

let ref_hex s =
  let b = Buffer.create 64 and nib = ref (-1) in
  try
    String.iter (fun c ->
      let v = match c with '0'..'9' -> Char.code c - 48 | 'a'..'f' -> Char.code c - 87 | 'A'..'F' -> Char.code c - 55
        | ' ' | '\t' | '\n' | '\r' -> -1 | _ -> raise Exit in
      if v >= 0 then if !nib < 0 then nib := v else begin Buffer.add_char b (Char.chr (!nib * 16 + v)); nib := -1 end) s;
    if !nib >= 0 then raise Exit;
    Decoded (Buffer.contents b)
  with Exit -> Refused "Bad_encoding"
let ref_b64 s =
  let b = Buffer.create 64 and acc = ref 0 and nb = ref 0 and nch = ref 0 and eq = ref false in
  try
    String.iter (fun c ->
      match c with
      | '=' -> eq := true
      | ' ' | '\t' | '\n' | '\r' -> ()
      | c -> (match String.index_opt Refm.b64_table c with
          | None -> raise Exit
          | Some v ->
            if !eq then raise Exit;
            acc := ((!acc lsl 6) lor v) land 0xffffff; nb := !nb + 6; incr nch;
            if !nb >= 8 then begin nb := !nb - 8; Buffer.add_char b (Char.chr ((!acc lsr !nb) land 255)) end)) s;
    if !nch land 3 = 1 then raise Exit;
    Decoded (Buffer.contents b)
  with Exit -> Refused "Bad_encoding"

(* feed [s] to a fresh object in fragments chosen by the scheduler *)
let feed who mk s =
  let x = lib mk in
  let out = Buffer.create 64 in
  let res =
    try
      let n = String.length s in
      let rec go pos k =
        if pos < n then begin
          incr sim_time;
          let l = if k > 30 then n - pos else Sess.frag (n - pos) in
          Sess.put_generic ~who (fun b o l -> x#put_substring b o l) (fun s -> x#put_string s) (fun c -> x#put_char c) (fun b -> x#put_byte b) (String.sub s pos l);
          if draw 3 = 2 then Buffer.add_string out (lib (fun () -> x#get_string));
          go (pos + l) (k + 1) end in
      go 0 0;
      lib (fun () -> x#finish);
      Buffer.add_string out (lib (fun () -> x#get_string));
      Decoded (Buffer.contents out)
    with
    | Error (Compression_error _) -> Refused "Compression_error"
    | Error _ as e -> Refused (let s = str_of_exn e in String.sub s 6 (String.length s - 6)) in
  lib (fun () -> x#wipe);
  res

let c15 () =
  set_gc (pick [|0;0;1;4|]) (draw 4 = 3);
  set_guard (draw 3 = 2);
  let agree who s want got =
    ev "%s: %s" who (show_outcome got);
    (match got with Decoded _ -> probe "decoded" | Refused e -> probe ("refused-" ^ e));
    if want <> got then fail "wrong-decoding" "%s of %s: %s, should be %s" who (show s) (show_outcome got) (show_outcome want);
    nontrivial := true in
  let twice who mk s =
    let a = feed who mk s in
    let b = feed who mk s in
    if a <> b then fail "fragmentation-dependent" "%s of %s: %s, then, cut differently, %s" who (show s) (show_outcome a) (show_outcome b);
    a in
  match draw 6 with
  | 0 -> let s = corrupt (sprinkle (Refm.hex (data (size 600)))) in
    agree "hex decode" s (ref_hex s) (twice "hex decode" Hexa.decode s)
  | 1 -> let s = corrupt (sprinkle (Refm.b64_body ~pad:(draw 2 = 0) (data (size 600)))) in
    agree "base64 decode" s (ref_b64 s) (twice "base64 decode" Base64.decode s)
  | 2 | 3 ->
    let c = block_cipher ~user:true () in
    let mode = let m = gen_mode c.bsz in (match m with Some (Cipher.CTR_N 1) -> Some Cipher.CTR | m -> m) in
    let gran = match mode with Some (Cipher.CFB n) | Some (Cipher.OFB n) -> n | _ -> c.bsz in
    let iv = gen_iv c.bsz in
    let eight = draw 2 = 0 in
    let plain = data (size 200) in
    (* the adversary controls the padding too: enciphered by a peer that is not honest *)
    let padded = match draw 4 with
      | 0 -> (if eight then Refm.pad_8000 else Refm.pad_length) gran plain
      | 1 -> let s = Refm.pad_length gran plain in
        fault "forged_padding";
        let n = String.length s in let k = range 1 gran in
        let v = Char.chr (match draw 5 with 0 -> 0 | 1 -> gran | 2 -> gran + 1 | 3 -> draw 256 | _ -> k) in
        String.sub s 0 (n - k) ^ String.make k v
      | 2 -> let s = Refm.pad_8000 gran plain in
        fault "forged_padding";
        let n = String.length s in let k = range 1 gran in
        String.sub s 0 (n - k) ^ (match draw 3 with 0 -> String.make k '\000' | 1 -> "\x80" ^ String.make (k - 1) '\000' | _ -> String.make (k - 1) '\000' ^ String.make 1 (Char.chr (draw 256)))
      | _ -> fault "forged_padding"; data (gran * range 1 5) in
    let ct = corrupt (ref_mode c mode iv true padded) in
    let n = String.length ct in
    let want =
      if n = 0 || n mod gran <> 0 then Refused "Wrong_data_length" else begin
        let p = ref_mode c mode iv false ct in
        let last = Char.code p.[n - 1] in
        if eight then begin
          let rec go i = if i < n - gran then Refused "Bad_padding" else match p.[i] with '\x80' -> Decoded (String.sub p 0 i) | '\000' -> go (i - 1) | _ -> Refused "Bad_padding" in
          go (n - 1) end
        else if last = 0 || last > gran then Refused "Bad_padding"
        else begin
          let ok = ref true in
          for i = n - last to n - 1 do if Char.code p.[i] <> last then ok := false done;
          if !ok then Decoded (String.sub p 0 (n - last)) else Refused "Bad_padding" end end in
    let who = Printf.sprintf "%s/%s/%s unpad" c.bname (match mode with None -> "CBC" | Some m -> mode_name m) (if eight then "8000" else "length") in
    agree who ct want (twice who (fun () -> c.mk ?mode ~pad:(if eight then Padding._8000 else Padding.length) ?iv c.key Cipher.Decrypt) ct)
  | _ ->
    let header = draw 3 > 0 in
    let plain = Sess.compressible (size 3000) in
    let comp = match draw 3 with
      | 0 -> Sess.deflate_ref ~header plain
      | _ -> let level = draw 10 in transform_string (Zlib.compress ~level ~write_zlib_header:header ()) plain in
    let s = if draw 6 < 5 then corrupt comp else begin
      (* the same data in another envelope *)
      let raw = if header then String.sub comp 2 (String.length comp - 6) else comp in
      let be = Bytes.create 4 and adler = Bytes.create 4 in
      Bytes.set_int32_be adler 0 (Int32.of_int (Refm.adler32 plain)); 
      let zh cmf flg = let f = flg land 0xe0 in
        let r = (cmf * 256 + f) mod 31 in Printf.sprintf "%c%c" (Char.chr cmf) (Char.chr (f + (31 - r) mod 31)) in
      match draw 5 with
      | 0 -> Bytes.set_int32_le be 0 (Int32.of_int (Refm.crc32 plain));
        let len = Bytes.create 4 in Bytes.set_int32_le len 0 (Int32.of_int (String.length plain));
        ev "gzip"; "\x1f\x8b\x08\000\000\000\000\000\000\003" ^ raw ^ Bytes.to_string be ^ Bytes.to_string len
      | 1 -> Bytes.set_int32_be be 0 (Int32.of_int (Refm.adler32 "dictionary"));
        ev "preset dictionary"; zh 0x78 0xa0 ^ Bytes.to_string be ^ raw ^ Bytes.to_string adler
      | 2 -> ev "other envelope"; if header then raw else zh 0x78 0x80 ^ raw ^ Bytes.to_string adler
      | 3 -> let cinfo = draw 16 in ev "window %d" cinfo; zh (cinfo * 16 + 8) (draw 4 * 64) ^ raw ^ Bytes.to_string adler
      | _ -> let b0 = draw 256 and b1 = draw 256 in ev "header %02x%02x" b0 b1;
        Printf.sprintf "%c%c" (Char.chr b0) (Char.chr b1) ^ raw ^ Bytes.to_string adler end in
    let who = if header then "uncompress/zlib" else "uncompress" in
    let got = twice who (fun () -> Zlib.uncompress ~expect_zlib_header:header ()) s in
    ev "%s: %s" who (show_outcome got);
    nontrivial := true;
    if s = comp then agree who s (Decoded plain) got
    else begin
      (match got with
       | Refused "Compression_error" -> probe "refused-Compression_error"
       | Refused e -> fail "wrong-error" "%s of corrupted data refused with %s" who e
       | Decoded _ -> probe "decoded");
      match Refm.inflate ~header s with
      | o, true, used when used = String.length s -> (match got with
          | Decoded d when d <> o -> fail "wrong-decoding" "%s: %s, should be %s" who (show_outcome got) (show_outcome (Decoded o))
          | _ -> ())
      | _, true, used when used < String.length s ->
        (* bytes after the end of the stream *)
        (match got with Decoded d -> fail "wrong-decoding" "%s: %d bytes of garbage after the compressed data accepted" who (String.length s - used) | _ -> ())
      | _ -> (match got with Decoded d -> fail "truncation-accepted" "%s: incomplete stream %s" who (show_outcome got) | _ -> ())
      | exception (Refm.Need_more | End_of_file) -> (match got with Decoded d -> fail "truncation-accepted" "%s: incomplete stream %s" who (show_outcome got) | _ -> ())
      | exception Refm.Inflate e -> (match got with Decoded d -> fail "corruption-accepted" "%s: invalid stream (%s) %s" who e (show_outcome got) | _ -> ()) end

(* ---------- C13: functions that promise to erase ---------- *)
let no_multiline () = let rec go () = let t = transform_spec () in if t.tname = "b64-multiline" then go () else t in go ()
let consumed idx =
  let lazily name mk call =
    let ob = ref None in
    { Sess.sname = name; step = (fun () -> ob := Some (lib mk); ev "%s create" name; false);
      wipe = (fun () -> match !ob with None -> () | Some x -> lib (fun () -> call x));
      root = (fun () -> match !ob with None -> [] | Some x -> [Obj.repr x]) } in
  match draw 6 with
  | 0 -> let t = no_multiline () in
    lazily ("transform_string/" ^ t.tname) t.make (fun x -> ignore (transform_string x t.input))
  | 1 -> let t = no_multiline () in
    lazily ("transform_channel/" ^ t.tname) t.make (fun x ->
      let ifd = Chan.fd_in t.input and ofd = Chan.fd_out max_int in
      let ic = Chan.open_in_fd ifd and oc = Chan.open_out_fd ofd in
      Fun.protect ~finally:(fun () -> close_in_noerr ic; close_out_noerr oc) (fun () -> transform_channel x ?len:(if draw 2 = 0 then None else Some (String.length t.input)) ic oc))
  | 2 -> let h = hash_spec () in
    lazily ("hash_string/" ^ h.hname) h.hmake (fun x -> ignore (hash_string x h.hinput))
  | 3 -> let h = hash_spec () in
    lazily ("hash_channel/" ^ h.hname) h.hmake (fun x ->
      let ifd = Chan.fd_in h.hinput in
      let ic = Chan.open_in_fd ifd in
      Fun.protect ~finally:(fun () -> close_in_noerr ic) (fun () -> ignore (hash_channel x ?len:(if draw 2 = 0 then None else Some (String.length h.hinput)) ic)))
  | 4 -> let a = aead_spec () in
    lazily ("auth_transform_string/" ^ a.aname) a.amake (fun x -> if draw 2 = 0 then ignore (auth_transform_string x a.ainput) else ignore (auth_transform_string_detached x a.ainput))
  | _ -> let c = Net.context () in
    let msg = data (size 300) in
    let bad = draw 2 = 1 in
    lazily ((if bad then "auth_check(bad)/" else "auth_check/") ^ c.Net.kind) (fun () -> c.unseal c) (fun x ->
      let t, tag = c.ref_seal c msg in
      (* spoil the tag only, so that decoding itself succeeds *)
      let tag = if bad then String.mapi (fun i ch -> if i = 0 then Char.chr (Char.code ch lxor 1) else ch) tag else tag in
      match auth_check_transform_string x (t ^ tag) with
      | Some _ -> if bad then fail "forgery-accepted" "%s" c.kind
      | None -> if not bad then fail "genuine-rejected" "%s" c.kind)

let all_zero s = let r = ref true in String.iter (fun c -> if c <> '\000' then r := false) s; !r
let erase_keys () =
  match draw 3 with
  | 0 ->
    let rng = Random.pseudo_rng (prng_string (draw 0xffffff) 32) in
    let bits = 2 * range 16 80 in
    let priv, pub = lib (fun () -> RSA.new_key ~rng ~e:65537 bits) in
    let n = pub.n ^ "" and e = pub.e ^ "" in
    ev "rsa wipe_key %d" bits;
    lib (fun () -> RSA.wipe_key priv);
    List.iter (fun (k, s) -> if not (all_zero s) then fail "wipe-residue" "RSA.wipe_key leaves %s" k)
      ["n", priv.n; "d", priv.d; "p", priv.p; "q", priv.q; "dp", priv.dp; "dq", priv.dq; "qinv", priv.qinv];
    if pub.n <> n || pub.e <> e || all_zero n then fail "wipe-too-much" "RSA.wipe_key of the private key changed the public key";
    nontrivial := true
  | 1 ->
    let rng = Random.pseudo_rng (prng_string (draw 0xffffff) 32) in
    let bits = 2 * range 16 60 in
    let priv, pub = lib (fun () -> Paillier.new_key ~rng bits) in
    let n = pub.n ^ "" and n2 = pub.n2 ^ "" and g = pub.g ^ "" in
    ev "paillier wipe_key %d" bits;
    lib (fun () -> Paillier.wipe_key priv);
    List.iter (fun (k, s) -> if not (all_zero s) then fail "wipe-residue" "Paillier.wipe_key leaves %s" k)
      ["n", priv.n; "n2", priv.n2; "p", priv.p; "q", priv.q; "lambda", priv.lambda; "mu", priv.mu];
    if pub.n <> n || pub.n2 <> n2 || pub.g <> g then fail "wipe-too-much" "Paillier.wipe_key of the private key changed the public key";
    nontrivial := true
  | _ ->
    let pr = Lazy.force (if draw 2 = 0 then Robust.fixed_dh else Robust.fixed_dh_long) in
    let rng = Random.pseudo_rng (prng_string (draw 0xffffff) 32) in
    let a = lib (fun () -> DH.private_secret ~rng pr) and b = lib (fun () -> DH.private_secret ~rng pr) in
    let mb = lib (fun () -> DH.message pr b) in
    ev "dh shared_secret";
    ignore (lib (fun () -> DH.shared_secret pr a mb));
    let o = Obj.repr a in
    if Obj.is_block o && Obj.tag o = Obj.custom_tag then begin
      let d = Residue.custom_data o in
      (* first word: sign and size; then the limbs *)
      let limbs = if String.length d > 8 then String.sub d 8 (String.length d - 8) else "" in
      if not (all_zero limbs) then fail "wipe-residue" "DH.shared_secret leaves the private secret in memory";
      nontrivial := true end

let c13 () =
  Chan.fd_reset ();
  set_gc (pick [|0;0;1|]) false;
  match draw 8 with
  | 0 -> erase_keys ()
  | 1 | 2 -> Sess.wipe_pair ~ints:true ~who:"" (fun () -> consumed 0)
  | 3 -> Sess.wipe_pair ~ints:true ~who:"" (fun () -> if draw 2 = 0 then block_direct 0 else stream_direct 0)
  | _ -> Sess.wipe_pair ~ints:true ~who:"" (fun () -> Sess.any_session ~wipe_end:false 0)

(* ---------- C14: the same work on different processors ---------- *)
let c14 () =
  (* everything observable goes into the log; the driver compares the logs of
     the same seed on different simulated processors *)
  let aes_only () = let rec go k = let t = block_spec () in if k = 0 || String.sub t.tname 0 3 = "aes" then t else go (k - 1) in go 8 in
  let gcm_only () = let rec go k = let a = aead_spec () in if k = 0 || String.sub a.aname 0 3 = "aes" then a else go (k - 1) in go 8 in
  let mac_only () = let rec go k = let h = hash_spec () in if k = 0 || h.hname = "aes-cmac" || h.hname = "mac-aes" then h else go (k - 1) in go 25 in
  let one i = match draw 10 with
    | 0 | 1 | 2 -> Sess.transform_session i (aes_only ())
    | 3 | 4 | 5 -> Sess.aead_session i (gcm_only ())
    | 6 -> Sess.hash_session i (mac_only ())
    | 7 -> Sess.prng_session i ()
    | 8 -> block_direct i
    | _ -> Sess.any_session i in
  let n = 1 + draw 2 in
  match Sess.run_sessions (List.init n one) with
  | () -> nontrivial := true
  | exception Violation (c, d) -> ev "outcome %s %s" c d
  | exception e -> ev "outcome %s" (str_of_exn e)
