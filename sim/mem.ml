(* C22: long streams in bounded memory. *)
open Cryptokit
open S
open Specs
external live_bytes : int -> int = "sim_live_bytes" [@@noalloc]

type unit_ = { name : string; obj : Obj.t; feed : string -> unit; pending : unit -> int; take : int -> int; over : unit -> unit }

let letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
let raw seed n = prng_string seed n
let hexa seed n = String.map (fun c -> "0123456789abcdefABCDEF".[Char.code c mod 22]) (raw seed n)
let b64 seed n = String.map (fun c -> letters.[Char.code c land 63]) (raw seed n)
let text _ n = String.init n (fun i -> "the quick brown fox ".[i mod 20])

let rec some_transform depth : string * transform * (int -> int -> string) =
  match draw (if depth = 0 then 8 else 9) with
  | 0 | 1 | 2 ->
    let c = block_cipher ~user:true () in
    let mode = gen_mode c.bsz in
    let mode = match mode with Some (Cipher.CTR_N _ | Cipher.CTR) -> if c.bsz >= 5 then Some Cipher.CTR else Some (Cipher.OFB 1) | m -> m in
    let pad = match draw 3 with 0 -> None | 1 -> Some Padding.length | _ -> Some Padding._8000 in
    let dir = if draw 2 = 0 then Cipher.Encrypt else Cipher.Decrypt in
    "cipher " ^ c.bname ^ (match mode with None -> "" | Some m -> "/" ^ mode_name m), c.mk ?mode ?pad ?iv:(gen_iv c.bsz) c.key dir, raw
  | 3 -> "arcfour", Cipher.arcfour (key_bytes (range 1 200)) Cipher.Encrypt, raw
  | 4 -> "chacha20", Cipher.chacha20 (key_bytes 32) Cipher.Decrypt, raw
  | 5 -> (match draw 5 with
      | 0 -> "hex-enc", Hexa.encode (), raw | 1 -> "hex-dec", Hexa.decode (), hexa
      | 2 -> "b64-compact", Base64.encode_compact (), raw | 3 -> "b64-multi", Base64.encode_multiline (), raw
      | _ -> "b64-dec", Base64.decode (), b64)
  | 6 | 7 ->
    let write_zlib_header = draw 2 = 0 in
    let c = Zlib.compress ~level:(pick [|0;1;6;9|]) ~write_zlib_header () in
    let d = if draw 2 = 0 then text else raw in
    if draw 2 = 0 then "compress", c, d
    else "compress>uncompress", compose c (Zlib.uncompress ~expect_zlib_header:write_zlib_header ()), d
  | _ ->
    let n1, t1, d1 = some_transform 0 in
    let n2, t2 = match draw 3 with 0 -> "hex-enc", Hexa.encode () | 1 -> "b64-compact", Base64.encode_compact () | _ -> "chacha20", Cipher.chacha20 (key_bytes 32) Cipher.Encrypt in
    n1 ^ ">" ^ n2, compose t1 t2, d1

let taker (x : < available_output : int; get_string : string; get_substring : bytes * int * int; get_char : char; get_byte : int; .. >) left =
  (* leaves at most [left] bytes behind, when bytes are taken one by one *)
  let n = x#available_output in
  if left > 0 then begin
    (* never quite empty: the buffer must make room by itself *)
    for _ = 1 to n - left do ignore x#get_char done; n end
  else match draw 4 with
  | 0 when n < 600 -> for _ = 1 to n - left do if draw 2 = 0 then ignore x#get_char else ignore x#get_byte done; n
  | 1 -> let _, _, l = x#get_substring in if l <> n then fail "wrong-output" "get_substring returned %d bytes of %d" l n; n
  | _ -> if String.length x#get_string <> n then fail "wrong-output" "get_string"; n

(* by either entry point, at any offset *)
let give str sub s =
  lib (fun () -> if draw 2 = 0 then str s else begin
    let o = draw 9 and n = String.length s in
    let b = Bytes.create (o + n) in
    Bytes.blit_string s 0 b o n; sub b o n end)

let make i =
  let w n = Printf.sprintf "[%d]%s" i n in
  match draw 8 with
  | 0 | 1 ->
    let n, h = if draw 2 = 0 then (let n, m, _ = gen_hash_plain () in n, lib m) else (let n, m, _, _ = gen_mac () in n, lib m) in
    { name = w n; obj = Obj.repr h; feed = (fun s -> give h#add_string h#add_substring s); pending = (fun () -> 0); take = (fun _ -> 0);
      over = (fun () -> lib (fun () -> h#wipe)) }, raw
  | 2 ->
    let g = lib (fun () -> if draw 2 = 0 then Random.pseudo_rng (key_bytes 20) else Random.pseudo_rng_aes_ctr (key_bytes 16)) in
    { name = w "rng"; obj = Obj.repr g; feed = (fun s -> lib (fun () -> g#random_bytes (Bytes.create (String.length s)) 0 (String.length s))); pending = (fun () -> 0); take = (fun _ -> 0);
      over = (fun () -> lib (fun () -> g#wipe)) }, raw
  | 3 ->
    let c = Net.context () in
    let x = lib (fun () -> if draw 2 = 0 then c.Net.seal c else c.Net.unseal c) in
    { name = w c.Net.kind; obj = Obj.repr x; feed = (fun s -> give x#put_string x#put_substring s); pending = (fun () -> lib (fun () -> x#available_output)); take = (fun l -> lib (fun () -> taker x l));
      over = (fun () -> lib (fun () -> x#wipe)) }, raw
  | _ ->
    let n, x, d = lib (fun () -> some_transform 1) in
    { name = w n; obj = Obj.repr x; feed = (fun s -> give x#put_string x#put_substring s); pending = (fun () -> lib (fun () -> x#available_output)); take = (fun l -> lib (fun () -> taker x l));
      over = (fun () -> lib (fun () -> x#wipe)) }, d

let c_bytes () = live_bytes 0 + live_bytes 1
let held u = 8 * Obj.reachable_words u.obj

let c22 () =
  set_gc 0 false; set_guard false;
  let us = Array.init (if draw 3 = 2 then 2 else 1) make in
  let n = Array.length us in
  let top = pick [|40; 200; 500; 700|] in
  let rounds = max 200 (range 220_000 300_000 / top * 2) in
  let left = if draw 4 = 3 then range 1 3 else 0 in
  let every = range 1 3 in
  Array.iter (fun (u, _) -> ev "%s, fragments up to %d, output taken every %d" u.name top every) us;
  let base = Array.map (fun (u, _) -> held u) us and bestpend = Array.make n 0 and given = Array.make n 0 in
  let samples = Array.init 5 (fun i -> raw (draw 0xffffff + i) 0, draw 0xffffff) in
  let heap0 = ref 0 and c0 = ref 0 in
  for r = 1 to rounds do
    let i = if n = 1 then 0 else draw n in
    let u, mk = us.(i) in
    let s = mk (snd samples.(r mod 5)) (range 1 top) in
    u.feed s;
    given.(i) <- given.(i) + String.length s;
    let p = u.pending () in
    if p > bestpend.(i) then bestpend.(i) <- p;
    if r mod every = 0 then ignore (u.take (min left p));
    if r mod (rounds / 8) = 0 then begin
      incr sim_time;
      Array.iteri (fun i (u, _) ->
        let h = held u in
        (* what is held after a quarter of the stream is the working set, however large the buffers are *)
        if r <= rounds / 4 then base.(i) <- max base.(i) h
        else if h > base.(i) + 8 * (top + bestpend.(i)) + 16384 then
          fail "unbounded-memory" "%s: after %d bytes in fragments of at most %d, with at most %d bytes of output pending, the object holds %d bytes (%d after a quarter of the stream)"
            u.name given.(i) top bestpend.(i) h base.(i)) us
    end;
    if r = rounds / 4 || r = rounds then begin
      Gc.full_major ();
      let l = 8 * (Gc.stat ()).Gc.live_words in
      if r < rounds then (heap0 := l; c0 := c_bytes ())
      else begin
        let slack = Array.fold_left (fun a p -> a + 8 * (top + p)) 70_000 bestpend in
        if l - !heap0 > slack then fail "unbounded-memory" "%s: the OCaml heap grew by %d bytes over the last three quarters of the stream (fragments of at most %d)" (fst us.(0)).name (l - !heap0) top;
        if c_bytes () - !c0 > slack then fail "unbounded-memory" "%s: memory outside the OCaml heap grew by %d bytes over the last three quarters of the stream" (fst us.(0)).name (c_bytes () - !c0)
      end
    end
  done;
  Array.iter (fun g -> if g > 60_000 then nontrivial := true) given;
  Array.iter (fun (u, _) -> u.over ()) us
