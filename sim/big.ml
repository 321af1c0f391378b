(* Histories with megabytes in one call, judged against the same bytes given in small
   pieces (which the other runs judge against the reference). *)
open Cryptokit
open S
open Specs

let length () =
  let e = range 16 21 in
  let v = (1 lsl e) + draw (1 lsl e) in
  match draw 4 with 0 -> v land (lnot 63) | 1 -> (1 lsl e) + range (-2) 2 | _ -> v
let bytes_of n = let c = prng_string (draw 0x3fffffff) 4099 in
  let b = Bytes.create n in
  let i = ref 0 in
  while !i < n do let l = min 4099 (n - !i) in Bytes.blit_string c 0 b !i l; i := !i + l done; b
let outcome f = match lib f with v -> Ok v | exception (Error _ as e) -> Result.Error (str_of_exn e)
(* strings from guarded memory lie outside the OCaml heap, where polymorphic comparison
   looks at addresses *)
let copied s = Bytes.to_string (Bytes.of_string s)
let pieces n f =
  let o = ref 0 in
  while !o < n do
    let l = min (n - !o) (match draw 3 with 0 -> range 1 300 | 1 -> 4096 | _ -> range 1000 4096) in
    f !o l; incr sim_time; o := !o + l done
(* one or two large calls *)
let large n f = if draw 2 = 0 then f 0 n else let k = min n (range 1 100) in (f 0 k; f k (n - k))
let same who n a b =
  if a <> b then fail "depends-on-cut" "%s: %d bytes in one call and in small pieces give different results" who n;
  probe "megabyte-call"; nontrivial := true

let transform idx =
  let t = transform_spec () in
  let n = length () in let n = n - n mod (max 1 t.bs) in
  let b = bytes_of n in
  ev "[%d] big %s %d" idx t.tname n;
  let go how take =
    let x = lib t.make in
    let out = Buffer.create n in
    let r = outcome (fun () ->
      how n (fun o l -> x#put_substring b o l; if take then (let (s, p, l) = x#get_substring in Buffer.add_subbytes out s p l));
      x#finish; Buffer.add_string out x#get_string) in
    lib (fun () -> x#wipe);
    (r, Digest.string (Buffer.contents out), Buffer.length out) in
  let (ra, da, na) = go large false in
  let (rb, db, nb) = go pieces true in
  (* after a refusal what came out before it may differ *)
  same t.tname n (ra, if ra = Ok () then da else "") (rb, if rb = Ok () then db else "")

let hash idx =
  let h = hash_spec () in
  let n = length () in let n = n - n mod (max 1 h.hgran) in
  let b = bytes_of n in
  ev "[%d] big %s %d" idx h.hname n;
  let go how = let x = lib h.hmake in
    let r = outcome (fun () -> how n (fun o l -> x#add_substring b o l); x#result) in
    lib (fun () -> x#wipe); Result.map copied r in
  let a = go large in
  same h.hname n a (go pieces)

let aead idx =
  let a = aead_spec () in
  let n = length () in let n = n land (lnot 15) in
  let b = bytes_of n in
  ev "[%d] big %s %d" idx a.aname n;
  let go how = let x = lib a.amake in
    let r = outcome (fun () -> how n (fun o l -> x#put_substring b o l); let t = x#finish_and_get_tag in (t, Digest.string x#get_string)) in
    lib (fun () -> x#wipe); Result.map (fun (t, d) -> (copied t, copied d)) r in
  let r = go large in
  same a.aname n r (go pieces)

let prng idx =
  let seed = key_bytes (range 16 40) in
  let aes = draw 3 = 2 in
  let n = length () in
  ev "[%d] big prng %b %d" idx aes n;
  let go how =
    let x = lib (fun () -> let s = Bytes.to_string (Bytes.of_string seed) in if aes then Random.pseudo_rng_aes_ctr s else Random.pseudo_rng s) in
    let b = Bytes.create n in
    how n (fun o l -> lib (fun () -> x#random_bytes b o l));
    lib (fun () -> x#wipe); Digest.bytes b in
  let r = go large in
  same "prng" n r (go pieces)

let zlib idx =
  let level = draw 10 and header = draw 2 = 0 in
  let n = length () in
  let b = bytes_of n in
  let redundancy = draw 3 in
  if redundancy > 0 then for i = 0 to n - 1 do if (i lsr (6 * redundancy)) land 1 = 0 then Bytes.unsafe_set b i 'x' done;
  ev "[%d] big zlib %d %d" idx level n;
  let comp how =
    let x = lib (fun () -> Zlib.compress ~level ~write_zlib_header:header ()) in
    lib (fun () -> how n (fun o l -> x#put_substring b o l); x#finish); let r = lib (fun () -> x#get_string) in lib (fun () -> x#wipe); r in
  let dec how c =
    let x = lib (fun () -> Zlib.uncompress ~expect_zlib_header:header ()) in
    let c = Bytes.of_string c in
    lib (fun () -> how (Bytes.length c) (fun o l -> x#put_substring c o l); x#finish); let r = lib (fun () -> x#get_string) in lib (fun () -> x#wipe); r in
  let s = Bytes.to_string b in
  let c = comp (if draw 2 = 0 then large else pieces) in
  if dec (if draw 2 = 0 then large else pieces) c <> s then fail "not-lossless" "zlib level %d: %d bytes do not survive" level n;
  probe "megabyte-call"; nontrivial := true
