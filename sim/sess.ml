(* Client sessions: step machines driven by the simulator's scheduler. *)
open Cryptokit
open S
open Specs

type session = { sname : string; step : unit -> bool; (* false: done *)
                 wipe : unit -> unit; root : unit -> Obj.t list }

let frag remaining =
  if remaining = 0 then 0 else
  let v = match draw 8 with
    | 0 -> remaining
    | 1 -> 1
    | 2 -> range 1 8
    | 3 -> pick [|7;8;9;15;16;17;31;32;33;63;64;65;127;128;129|]
    | 4 -> range 1 64
    | 5 -> pick [|255;256;257;511;512;513;1023;1024;1025|]
    | 6 -> range 1 400
    | _ -> 1 + remaining / 2 in
  min remaining v

(* one-time checks that what the library was given stays as given *)
type watched = { got : string; copy : string }

(* calls that must be refused: ranges outside the buffer, character codes beyond 255 *)
let hostile = ref false
let hostile_range blen =
  match draw 10 with
  | 0 -> (-1 - draw 20), draw (blen + 20)
  | 1 -> draw (blen + 1), (-1 - draw 20)
  | 2 -> let o = draw (blen + 1) in o, blen - o + 1 + draw 4
  | 3 -> let o = draw (blen + 1) in o, blen - o + range 5 300
  | 4 -> blen + range 1 30, draw 20
  | 5 -> draw (blen + 1), max_int - draw 3
  | 6 -> max_int - draw 20, range 1 40
  | 7 -> min_int + draw 20, range 1 40
  | 8 -> draw (blen + 1), min_int + draw 3
  | _ -> -(range 1 200), pick [|0; 1; blen; 1000|]
let bad o l n = o < 0 || l < 0 || o > n - l


let put_generic ~who (put_sub : bytes -> int -> int -> unit) put_str put_chr put_byt s =
  let n = String.length s in
  if !hostile && draw 2 = 0 then begin
    let blen = match draw 3 with 0 -> draw 40 | 1 -> range 40 700 | _ -> pick [|0;1;16;64;256|] in
    let b = guard_bytes blen in
    Bytes.fill b 0 blen '\x3C';
    let o, l = hostile_range blen in
    if bad o l blen then begin
      fault "bad_range"; ev "%s range %d %d of %d" who o l blen;
      match lib (fun () -> put_sub b o l) with
      | () -> if l <> 0 then fail "bad-range-accepted" "%s: range %d,%d of a %d byte buffer accepted" who o l blen
      | exception Invalid_argument _ -> probe "refused"; nontrivial := true end end;
  match draw 5 with
  | 3 when n <= 24 && !hostile ->
    ev "%s put_byte hostile x%d" who n;
    String.iter (fun c ->
        let v = Char.code c in
        (* either refused without effect, or the low eight bits *)
        match lib (fun () -> put_byt (v + 256 * pick [|1; -1; 2; 1000; max_int / 256 - 1|])) with
        | () -> ()
        | exception Invalid_argument _ -> probe "code-refused"; lib (fun () -> put_byt v)) s
  | 2 when n <= 24 ->
    ev "%s put_char x%d" who n;
    String.iter (fun c -> lib (fun () -> put_chr c)) s
  | 3 when n <= 24 ->
    ev "%s put_byte x%d" who n;
    String.iter (fun c -> lib (fun () -> put_byt (Char.code c))) s
  | 1 | 4 ->
    ev "%s put_string %d" who n;
    let c = Bytes.to_string (Bytes.of_string s) in
    lib (fun () -> put_str c);
    if c <> s then fail "input-modified" "%s: put_string changed its argument" who
  | _ ->
    let b, o = guarded_src s in
    ev "%s put_substring %d" who n;
    lib (fun () -> put_sub b o n);
    if Bytes.sub_string b o n <> s then fail "input-modified" "%s: put_substring changed its source" who;
    (* callers reuse their buffers at once *)
    Bytes.fill b 0 (Bytes.length b) '\x55'

(* consume some output through one of the four getters *)
let get_generic ~who ~avail ~get_string ~get_substring ~get_char ~get_byte keep =
  let a = lib avail in
  if a < 0 then fail "available-output" "%s: available_output = %d" who a;
  match draw 4 with
  | 2 | 3 as k ->
    let m = if a = 0 then 0 else range 1 (min a 5) in
    ev "%s get_%s x%d/%d" who (if k = 2 then "char" else "byte") m a;
    let b = Buffer.create 8 in
    for _ = 1 to m do
      match lib (fun () -> if k = 2 then get_char () else Char.chr (get_byte ())) with
      | c -> Buffer.add_char b c
      | exception End_of_file -> fail "available-output" "%s: End_of_file with output available" who
    done;
    if a = 0 then begin
      match lib (fun () -> ignore (get_char ())) with
      | () -> fail "available-output" "%s: get_char returned a character when none was available" who
      | exception End_of_file -> () end
    else begin
      let a' = lib avail in
      if a' <> a - m then fail "available-output" "%s: available_output %d after taking %d of %d" who a' m a end;
    Buffer.contents b
  | 1 ->
    ev "%s get_substring %d" who a;
    let (buf, p, l) = lib get_substring in
    if l <> a then fail "available-output" "%s: get_substring gave %d of %d" who l a;
    Bytes.sub_string buf p l
  | _ ->
    ev "%s get_string %d" who a;
    let s = lib get_string in
    if String.length s <> a then fail "available-output" "%s: get_string gave %d of %d" who (String.length s) a;
    keep := { got = s; copy = Bytes.to_string (Bytes.of_string s) } :: !keep;
    s

let recheck ~who keep =
  List.iter (fun w -> if w.got <> w.copy then fail "output-changed" "%s: a string returned earlier was modified later" who) !keep

let check_prefix ~who expect out =
  let n = String.length out in
  if n > String.length expect || String.sub expect 0 n <> out then begin
    let i = ref 0 in
    while !i < n && !i < String.length expect && out.[!i] = expect.[!i] do incr i done;
    fail "wrong-output" "%s: output differs from the reference at byte %d (got %d bytes of %d, from there %s)" who !i n (String.length expect) (show (String.sub out !i (n - !i))) end

let transform_session ?(wipe_end = true) idx (t : tspec) =
  let who = Printf.sprintf "[%d]%s" idx t.tname in
  let tr = ref None in
  let sent = ref 0 and out = Buffer.create 256 and keep = ref [] and fin = ref false and steps = ref 0 in
  let col = ref 0 in
  let multiline = t.tname = "b64-multiline" in
  let n = String.length t.input in
  let the () = match !tr with Some x -> x | None -> assert false in
  let absorb s =
    let s = if multiline then begin
        let b = Buffer.create (String.length s) in
        String.iter (fun c -> if c = '\n' then col := 0 else begin incr col; if !col > 76 then fail "wrong-output" "%s: line longer than 76" who; Buffer.add_char b c end) s;
        Buffer.contents b end else s in
    Buffer.add_string out s;
    check_prefix ~who t.expect (Buffer.contents out) in
  let get () =
    let x = the () in
    absorb (get_generic ~who ~avail:(fun () -> x#available_output) ~get_string:(fun () -> x#get_string)
      ~get_substring:(fun () -> x#get_substring) ~get_char:(fun () -> x#get_char) ~get_byte:(fun () -> x#get_byte) keep) in
  let put len =
    let x = the () in
    let s = String.sub t.input !sent len in
    put_generic ~who (fun b o l -> x#put_substring b o l) (fun s -> x#put_string s) (fun c -> x#put_char c) (fun b -> x#put_byte b) s;
    sent := !sent + len in
  let flush () =
    let x = the () in
    match t.fl with
    | No_flush when String.length t.tname >= 10 && String.sub t.tname 0 10 = "uncompress" ->
      ev "%s flush" who;
      lib (fun () -> x#flush);
      absorb (lib (fun () -> x#get_string));
      let header = t.tname = "uncompress/zlib" in
      let o, _, _ = Refm.inflate ~header ~partial:true (String.sub t.input 0 !sent) in
      if Buffer.length out < String.length o then fail "flush-incomplete" "%s: after flush %d bytes out, %d can be decoded" who (Buffer.length out) (String.length o);
      probe "inflate-flush"
    | No_flush -> ()
    | Flush_any -> ev "%s flush" who; lib (fun () -> x#flush); probe "flush-any"
    | Flush_at g ->
      if !sent mod g = 0 then begin
        (* a padded decryptor must not be flushed on its last block *)
        if !sent < n || (n = String.length t.expect && g = t.bs) then begin
          ev "%s flush@%d" who !sent;
          lib (fun () -> x#flush); probe "flush-aligned";
          let a = lib (fun () -> x#available_output) in
          if n = String.length t.expect && not (String.contains t.tname '>') && Buffer.length out + a <> !sent then fail "flush-incomplete" "%s: after flush %d+%d bytes out for %d in" who (Buffer.length out) a !sent end
      end else begin
        ev "%s flush-unaligned@%d" who !sent;
        match lib (fun () -> x#flush) with
        | () -> fail "flush-unaligned" "%s: flush accepted %d bytes, granularity %d" who !sent g
        | exception Error Wrong_data_length -> probe "flush-unaligned" end in
  let step () =
    incr steps; incr sim_time;
    match !tr with
    | None -> ev "%s create" who; tr := Some (lib t.make); true
    | Some x ->
      if not !fin then begin
        (if !sent < n then
           (if !steps > 40 then put (n - !sent) else
            match draw 12 with
            | 0 | 1 | 2 | 3 | 4 | 5 | 6 -> put (frag (n - !sent))
            | 7 | 8 -> get ()
            | 9 -> flush ()
            | 10 -> put 0
            | _ -> put (frag (n - !sent)))
         else begin
           if draw 3 = 2 then get () else if draw 4 = 3 then flush () else begin
             ev "%s finish" who;
             lib (fun () -> x#finish); fin := true end end);
        state (Printf.sprintf "%s:%d" t.tname (!sent land 31)); true
      end else begin
        let a = lib (fun () -> x#available_output) in
        if a > 0 then (get (); true) else begin
          if Buffer.contents out <> t.expect then fail "wrong-output" "%s: %d bytes in total, %d expected" who (Buffer.length out) (String.length t.expect);
          if n mod x#input_block_size <> 0 then fail "block-size" "%s: input_block_size %d but %d bytes accepted" who x#input_block_size n;
          if (not multiline) && Buffer.length out mod x#output_block_size <> 0 then fail "block-size" "%s: output_block_size %d but %d bytes produced" who x#output_block_size (Buffer.length out);
          if wipe_end then begin ev "%s wipe" who; lib (fun () -> x#wipe) end;
          recheck ~who keep;
          if n > 0 then nontrivial := true;
          false end end in
  { sname = who; step; wipe = (fun () -> match !tr with Some x -> lib (fun () -> x#wipe) | None -> ());
    root = (fun () -> match !tr with Some x -> [Obj.repr x] | None -> []) }

let hash_session ?(wipe_end = true) idx (h : hspec) =
  let who = Printf.sprintf "[%d]%s" idx h.hname in
  let ob = ref None and sent = ref 0 and steps = ref 0 in
  let n = String.length h.hinput in
  let step () =
    incr steps; incr sim_time;
    match !ob with
    | None -> ev "%s create" who; ob := Some (lib h.hmake); true
    | Some x ->
      if !sent < n || (!steps < 4 && draw 4 = 3) then begin
        let len = if !steps > 40 then n - !sent else if draw 12 = 11 then 0 else frag (n - !sent) in
        put_generic ~who (fun b o l -> x#add_substring b o l) (fun s -> x#add_string s) (fun c -> x#add_char c) (fun b -> x#add_byte b) (String.sub h.hinput !sent len);
        sent := !sent + len;
        state (Printf.sprintf "%s:%d" h.hname (!sent land 127)); true
      end else begin
        ev "%s result" who;
        let r = lib (fun () -> x#result) in
        if r <> h.hexpect then fail "wrong-hash" "%s: %d bytes hashed to %s, reference %s" who n (show r) (show h.hexpect);
        let hs = lib (fun () -> x#hash_size) in
        if hs <> String.length r then fail "hash-size" "%s: hash_size says %d, result has %d bytes" who hs (String.length r);
        if wipe_end then begin
          lib (fun () -> x#wipe);
          if r <> h.hexpect then fail "output-changed" "%s: wiping the hash modified the returned value" who end;
        if n > 0 then nontrivial := true;
        false end in
  { sname = who; step; wipe = (fun () -> match !ob with Some x -> lib (fun () -> x#wipe) | None -> ());
    root = (fun () -> match !ob with Some x -> [Obj.repr x] | None -> []) }

let aead_session ?(wipe_end = true) idx (a : aspec) =
  let who = Printf.sprintf "[%d]%s" idx a.aname in
  let ob = ref None and sent = ref 0 and steps = ref 0 and out = Buffer.create 256 and keep = ref [] and tag = ref None in
  let n = String.length a.ainput in
  let step () =
    incr steps; incr sim_time;
    match !ob with
    | None -> ev "%s create" who; ob := Some (lib a.amake); true
    | Some x ->
      let get () =
        Buffer.add_string out (get_generic ~who ~avail:(fun () -> x#available_output) ~get_string:(fun () -> x#get_string)
          ~get_substring:(fun () -> x#get_substring) ~get_char:(fun () -> x#get_char) ~get_byte:(fun () -> x#get_byte) keep);
        check_prefix ~who a.aout (Buffer.contents out) in
      (match !tag with
       | None ->
         (if !sent < n then begin
            match draw 8 with
            | 6 | 7 when !steps < 40 -> get ()
            | 5 when !steps < 40 -> put_generic ~who (fun b o l -> x#put_substring b o l) (fun s -> x#put_string s) (fun c -> x#put_char c) (fun b -> x#put_byte b) ""
            | _ ->
              let len = if !steps > 40 then n - !sent else frag (n - !sent) in
              put_generic ~who (fun b o l -> x#put_substring b o l) (fun s -> x#put_string s) (fun c -> x#put_char c) (fun b -> x#put_byte b) (String.sub a.ainput !sent len);
              sent := !sent + len
          end else if draw 3 = 2 then get ()
          else begin
            ev "%s finish_and_get_tag" who;
            let t = lib (fun () -> x#finish_and_get_tag) in
            if t <> a.atag then fail "wrong-tag" "%s: tag %s, reference %s (%d bytes)" who (show t) (show a.atag) n;
            let ts = lib (fun () -> x#tag_size) in
            let ib = lib (fun () -> x#input_block_size) and ob = lib (fun () -> x#output_block_size) in
            if ib < 1 || ob < 1 || String.length a.ainput mod ib <> 0 || String.length a.aout mod ob <> 0 then
              fail "block-size" "%s: block sizes %d and %d announced, %d bytes accepted and %d produced" who ib ob (String.length a.ainput) (String.length a.aout);
            if ts <> String.length t then fail "tag-size" "%s: tag_size says %d, tag has %d bytes" who ts (String.length t);
            tag := Some t end);
         state (Printf.sprintf "%s:%d" a.aname (!sent land 31)); true
       | Some t ->
         let av = lib (fun () -> x#available_output) in
         if av > 0 then (get (); true) else begin
           if Buffer.contents out <> a.aout then fail "wrong-output" "%s: %d bytes in total, %d expected" who (Buffer.length out) (String.length a.aout);
           if wipe_end then lib (fun () -> x#wipe);
           if t <> a.atag then fail "output-changed" "%s: wiping modified the returned tag" who;
           recheck ~who keep;
           if n > 0 then nontrivial := true;
           false end) in
  { sname = who; step; wipe = (fun () -> match !ob with Some x -> lib (fun () -> x#wipe) | None -> ());
    root = (fun () -> match !ob with Some x -> [Obj.repr x] | None -> []) }

(* pseudo random generators: any request schedule reads one fixed stream *)
let prng_session ?(wipe_end = true) ?(max = 3000) idx () =
  let seed = key_bytes (match draw 3 with 0 -> 16 | 1 -> range 16 32 | _ -> range 33 90) in
  let aes = draw 2 = 1 in
  let total = size max in
  let stream = if aes then Refm.aes_ctr_stream (String.sub seed 0 16) (total + 600) else Refm.pseudo_rng_stream seed (total + 600) in
  let who = Printf.sprintf "[%d]%s" idx (if aes then "prng-aes" else "prng") in
  let given = Bytes.to_string (Bytes.of_string seed) in     (* wiped by the generator *)
  let ob = ref None and pos = ref 0 and steps = ref 0 in
  let step () =
    incr steps; incr sim_time;
    match !ob with
    | None -> ev "%s create" who; ob := Some (lib (fun () -> if aes then Random.pseudo_rng_aes_ctr given else Random.pseudo_rng given)); true
    | Some x ->
      if !pos < total && !steps < 60 then begin
        let len = if draw 12 = 11 then 0 else frag (min 600 (total - !pos)) in
        ev "%s random %d" who len;
        (if !hostile && draw 2 = 0 then
           let blen = draw 100 in
           let b = guard_bytes blen in
           Bytes.fill b 0 blen '\x5A';
           let o, l = hostile_range blen in
           if bad o l blen then begin
             fault "bad_range"; ev "%s range %d %d of %d" who o l blen;
             (match lib (fun () -> x#random_bytes b o l) with
              | () -> if l <> 0 then fail "bad-range-accepted" "%s: range %d,%d of a %d byte buffer accepted" who o l blen
              | exception Invalid_argument _ -> probe "refused"; nontrivial := true);
             if Bytes.to_string b <> String.make blen '\x5A' then fail "out-of-range-write" "%s: a refused request wrote to the buffer" who end);
        if draw 4 = 3 then begin
          let s = lib (fun () -> Random.string (x :> Random.rng) len) in
          if s <> String.sub stream !pos len then fail "wrong-stream" "%s: bytes %d..%d differ from the stream of this seed" who !pos (!pos + len)
        end else begin
          let pre = draw 5 and post = draw 5 in
          let b = guard_bytes (pre + len + post) in
          Bytes.fill b 0 (pre + len + post) '\x5A';
          lib (fun () -> x#random_bytes b pre len);
          if Bytes.sub_string b pre len <> String.sub stream !pos len then fail "wrong-stream" "%s: bytes %d..%d differ from the stream of this seed" who !pos (!pos + len);
          if Bytes.sub_string b 0 pre <> String.make pre '\x5A' || Bytes.sub_string b (pre + len) post <> String.make post '\x5A' then
            fail "out-of-range-write" "%s: bytes outside the requested range changed" who end;
        pos := !pos + len;
        state (Printf.sprintf "%s:%d" who (!pos land 63)); true
      end else begin
        if wipe_end then lib (fun () -> x#wipe);
        if total > 0 then nontrivial := true; false end in
  { sname = who; step; wipe = (fun () -> match !ob with Some x -> lib (fun () -> x#wipe) | None -> ());
    root = (fun () -> match !ob with Some x -> [Obj.repr x] | None -> []) }

(* compression *)
let compressible n = vary @@ match draw 4 with
  | 0 -> String.init n (fun i -> "abcabcabd\n".[i mod 10])
  | 1 -> let r = prng_string (draw 0xffffff) (n/40 + 2) in String.init n (fun i -> Char.chr (Char.code r.[i / 40] land 0x3f))
  | 2 -> prng_string (draw 0xffffff) n
  | _ -> String.make n 'z'
(* a block repeated far back: up to the whole window of 32768 bytes *)
let far_distance = ref 0
let far_repeats () = vary @@ begin
  let d = pick [|5000; 8193; 16385; 20000; 24577; 32000; 32506; 32768|] in
  far_distance := d; probe "far-repetition";
  let blk = prng_string (draw 0xffffff) (range 3 600) in
  let n = String.length blk in
  let fill = prng_string (draw 0xffffff) (d - n) in
  let rec rep k = if k = 0 then blk else blk ^ fill ^ rep (k - 1) in
  rep (range 1 2) ^ prng_string (draw 0xffffff) (draw 50) end
let message max =
  far_distance := 0;
  if draw 14 = 13 && max >= 2000 then far_repeats ()
  else compressible (let s = size max in if draw 3 = 2 then min max (s * 6) else s)
let compress_session ?(wipe_end = true) ?(max = 6000) idx () =
  let level = draw 10 and header = draw 2 = 1 in
  let input = message max in
  let n = String.length input in
  let who = Printf.sprintf "[%d]compress/%d%s" idx level (if header then "/zlib" else "") in
  let ob = ref None and sent = ref 0 and steps = ref 0 and out = Buffer.create 256 and keep = ref [] and fin = ref false in
  let step () =
    incr steps; incr sim_time;
    match !ob with
    | None -> ev "%s create" who; ob := Some (lib (fun () -> Zlib.compress ~level ~write_zlib_header:header ())); true
    | Some x ->
      let get () = Buffer.add_string out (get_generic ~who ~avail:(fun () -> x#available_output) ~get_string:(fun () -> x#get_string)
          ~get_substring:(fun () -> x#get_substring) ~get_char:(fun () -> x#get_char) ~get_byte:(fun () -> x#get_byte) keep) in
      let flush () =
        ev "%s flush" who;
        lib (fun () -> x#flush);
        Buffer.add_string out (lib (fun () -> x#get_string));
        (match Refm.inflate ~header ~partial:true (Buffer.contents out) with
         | o, _, _ -> if o <> String.sub input 0 !sent then
             fail "flush-incomplete" "%s: after flush the output decodes to %d bytes, %d were put" who (String.length o) !sent
         | exception Refm.Inflate e -> fail "bad-deflate-stream" "%s: output not a deflate stream (%s)" who e);
        probe "zlib-flush" in
      if not !fin then begin
        (if !sent < n then begin
            match draw 10 with
            | 7 when !steps < 40 -> get ()
            | 8 when !steps < 40 -> flush ()
            | 9 when !steps < 40 -> put_generic ~who (fun b o l -> x#put_substring b o l) (fun s -> x#put_string s) (fun c -> x#put_char c) (fun b -> x#put_byte b) ""
            | _ -> let len = if !steps > 40 then n - !sent else frag (n - !sent) in
              put_generic ~who (fun b o l -> x#put_substring b o l) (fun s -> x#put_string s) (fun c -> x#put_char c) (fun b -> x#put_byte b) (String.sub input !sent len);
              sent := !sent + len
          end else (match draw 5 with 4 -> flush () | 3 -> get () | _ -> ev "%s finish" who; lib (fun () -> x#finish); fin := true));
        state (Printf.sprintf "%s:%d" who (!sent land 31)); true
      end else begin
        if lib (fun () -> x#available_output) > 0 then (get (); true) else begin
          let s = Buffer.contents out in
          (match Refm.inflate ~header s with
           | o, true, used ->
             if o <> input then fail "bad-deflate-stream" "%s: stream decodes to other data" who;
             if used <> String.length s then fail "bad-deflate-stream" "%s: %d trailing bytes" who (String.length s - used)
           | _ -> fail "bad-deflate-stream" "%s: stream incomplete" who
           | exception Refm.Need_more -> fail "bad-deflate-stream" "%s: stream incomplete after finish" who
           | exception Refm.Inflate e -> fail "bad-deflate-stream" "%s: invalid stream (%s)" who e);
          if wipe_end then lib (fun () -> x#wipe);
          recheck ~who keep;
          if n > 0 then nontrivial := true; false end end in
  { sname = who; step; wipe = (fun () -> match !ob with Some x -> lib (fun () -> x#wipe) | None -> ());
    root = (fun () -> match !ob with Some x -> [Obj.repr x] | None -> []) }

(* an independent deflate encoder: stored and fixed-Huffman blocks with a few matches *)
let deflate_ref ~header input =
  let b = Buffer.create 256 in
  let acc = ref 0 and nb = ref 0 in
  let bits v n = for i = 0 to n - 1 do
      acc := !acc lor (((v lsr i) land 1) lsl !nb); incr nb;
      if !nb = 8 then begin Buffer.add_char b (Char.chr !acc); acc := 0; nb := 0 end done in
  let rbits v n = for i = n - 1 downto 0 do bits ((v lsr i) land 1) 1 done in
  let align () = if !nb > 0 then bits 0 (8 - !nb) in
  let n = String.length input in
  if header then Buffer.add_string b "\x78\x9c";
  let lit c = let v = Char.code c in if v < 144 then rbits (0x30 + v) 8 else rbits (0x190 + v - 144) 9 in
  let pos = ref 0 in
  let continue = ref true in
  while !continue do
    let len = if draw 3 = 0 then n - !pos else frag (n - !pos) in
    let len = min len 60000 in
    let last = !pos + len = n in
    bits (if last then 1 else 0) 1;
    (match draw 2 with
     | 0 -> bits 0 2; align (); bits len 16; bits (len lxor 0xffff) 16; Buffer.add_string b (String.sub input !pos len)
     | _ -> bits 1 2;
       let i = ref !pos in
       let e = !pos + len in
       while !i < e do
         (* match of length 3..258 at distance 1..4, or far back, when there is one *)
         let run d =
           let l = ref 0 in
           while d > 0 && !i >= d && !l < 258 && !i + !l < e && input.[!i + !l] = input.[!i + !l - d] do incr l done; !l in
         let d1 = 1 + (!i land 3) in
         let l1 = run d1 and l2 = run !far_distance in
         let d, l = if l2 > l1 then !far_distance, l2 else d1, l1 in
         if l >= 3 then begin
           let code tbl v = let k = ref 0 in Array.iteri (fun j (b, _) -> if b <= v then k := j) tbl; !k in
           let k = code Refm.len_tbl l in
           let base, ex = Refm.len_tbl.(k) in
           let c = 257 + k in
           if c < 280 then rbits (c - 256) 7 else rbits (0xC0 + c - 280) 8;
           bits (l - base) ex;
           let k = code Refm.dist_tbl d in
           let base, ex = Refm.dist_tbl.(k) in
           rbits k 5; bits (d - base) ex;
           i := !i + l end
         else begin lit input.[!i]; incr i end done;
       rbits 0 7);
    pos := !pos + len;
    if last then continue := false
  done;
  align ();
  if header then Refm.add_be32 b (Refm.adler32 input);
  Buffer.contents b

let uncompress_session ?(wipe_end = true) ?(max = 6000) idx () =
  let header = draw 2 = 1 in
  let input = message max in
  let comp = if draw 2 = 0 then deflate_ref ~header input else
      (let level = draw 10 in transform_string (Zlib.compress ~level ~write_zlib_header:header ()) input) in
  let t = { tname = "uncompress" ^ (if header then "/zlib" else ""); make = (fun () -> Zlib.uncompress ~expect_zlib_header:header ()); input = comp; expect = input; bs = 1;
            fl = No_flush; secrets = [] } in
  transform_session ~wipe_end idx t

let any_session ?wipe_end ?kind idx = match (match kind with Some k -> k | None -> draw 8) with
  | 0 | 1 -> transform_session ?wipe_end idx (transform_spec ())
  | 2 | 3 -> hash_session ?wipe_end idx (hash_spec ())
  | 4 -> aead_session ?wipe_end idx (aead_spec ())
  | 5 -> prng_session ?wipe_end idx ()
  | 6 -> compress_session ?wipe_end idx ()
  | _ -> uncompress_session ?wipe_end idx ()

(* cooperative scheduler *)
let run_sessions ss =
  let live = ref ss and n = ref 0 in
  while !live <> [] do
    incr n; if !n > 5000 then fail "no-progress" "sessions still running after 5000 steps";
    let k = draw (List.length !live) in
    let s = List.nth !live k in
    if not (s.step ()) then live := List.filter (fun x -> x != s) !live
  done

(* ---------- wiping: noninterference between two executions that differ in secrets only ---------- *)
let wipe_pair ~ints ~who (mk : unit -> session) =
  supplied := [];
  let stop = ref 0 in
  let exec () =
    let s = mk () in
    Residue.freed_log true;
    let k = match draw 5 with 0 -> 1000 | 1 -> range 1 3 | _ -> range 1 14 in
    let rec go i = if i < k && s.step () then go (i + 1) else i in
    stop := go 0;
    ev "wipe %s after %d steps" s.sname !stop;
    s.wipe ();
    let freed = Residue.freed () in
    Residue.freed_log false;
    let has_sub a b = let n = String.length b in
      let rec go i = i + n <= String.length a && (String.sub a i n = b || go (i + 1)) in go 0 in
    let r = Residue.snapshot ~ints:(ints && not (has_sub s.sname "compress")) (s.root ()) in
    (r, freed, Residue.statics (), s.sname) in
  Fun.protect ~finally:(fun () -> tape_off (); salt := 0; supplied := []; Residue.freed_log false) (fun () ->
    salt := 0; tape_record ();
    let a, fa, sa, name = exec () in
    salt := 1; tape_rewind ();
    let b, fb, sb, _ = exec () in
    let who = who ^ name in
    Residue.compare_freed ~who fa fb;
    Residue.compare_statics ~who sa sb;
    Residue.compare_snapshots ~who a b;
    if a <> [] then nontrivial := true)
