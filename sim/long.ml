(* Long histories: lengths beyond 2^31 and 2^32 bytes, where counters carry and
   sizes stop fitting in 32 bits.  The data is all zeros, in address space that
   costs no memory; expected results are constants (computed once with hashlib
   and independent C code) or have a closed form. *)
open Cryptokit
open S
external giant_c : int -> bytes = "sim_giant"
external alias : int -> bytes = "sim_alias"
let tbl = Hashtbl.create 3
let giant n = match Hashtbl.find_opt tbl n with Some b -> b | None -> let b = giant_c n in Hashtbl.add tbl n b; b
let total = 0x1_0000_0000 + 0x10_0000 + 77

let unhex s = String.init (String.length s / 2) (fun i -> Char.chr (int_of_string ("0x" ^ String.sub s (2*i) 2)))
let hashes = [
  "sha1", Hash.sha1, "c25adb49a20fbfc76b179189ed3546fb080e6755";
  "sha224", Hash.sha224, "c86087196c798ec9967e52ccff2b361e4cea607837293b5077d29572";
  "sha256", Hash.sha256, "73e2e599059df16efb11cdb1cb61bd7608e16e54356f381fa7794c8a0a983e75";
  "sha384", Hash.sha384, "72ae1bb19f0fd6052122d1c4acb6f4bc27bb5f613e426622670147afba248143dca2ae94f584ff1513d6ec28c124cedf";
  "sha512", Hash.sha512, "577027f928fac04935cebe6f17c1e4d3b7757ecfae29bb22ecf2145b9e94c675e365705e16580364ff5960f78aca14c105fae93468b81d831ec47718432b5f66";
  "md5", Hash.md5, "12edbc8d84be12cef4ea1cf824dab542";
  "ripemd160", Hash.ripemd160, "7787bbed9860b426bac7aa1f5c26ab79acfe3f74";
  "blake2b", Hash.blake2b512, "1b521a069ea1b3b3afda865c81144e3892f56ab86a3d8fd822b0140372edeb8360a1c4d190481bed1172700732399d42ec35159a7555924adca284dc9c298428";
  "blake2s", Hash.blake2s256, "8c4ebcbc6ff888f80ddfa03113ac0a98df3e7bf6c09ee2aedf8927ad8ab1dac8";
  "blake3", Hash.blake3_256, "d2fbe8d86f29fbbb48099d22682b45f9b4f7748e7e8a59aa3b69ea46fca19659";
  "sha3", (fun () -> Hash.sha3 256), "983810ac548c7861e86989696a06b07242e7d8a57c6a6fcd4eabe4d990f194fd";
  "siphash", (fun () -> MAC.siphash "\000\001\002\003\004\005\006\007\008\009\010\011\012\013\014\015"), "5cac305dcaac2e27";
  "siphash128", (fun () -> MAC.siphash128 "\000\001\002\003\004\005\006\007\008\009\010\011\012\013\014\015"), "0af3ec5c9121adf949bf1cbad1407b4d";
]

(* cut [total] into pieces: few and giant, or many, with small unaligned ones between *)
let pieces total f =
  let sent = ref 0 in
  let mode = match Sys.getenv_opt "SIM_MODE" with Some "one" -> 0 | Some _ -> range 1 3 | None -> draw 4 in
  while !sent < total do
    incr sim_time;
    let rest = total - !sent in
    let n = match mode with
      | 0 -> rest
      | 1 -> (match draw 3 with 0 -> range 1 130 | 1 -> range 1 0x1000_0000 | _ -> rest)
      | 2 -> (match draw 4 with 0 -> range 1 300 | 1 -> 0x2000_0000 | 2 -> range 1 0x1000_0000 | _ -> 0x3fff_ffff)
      | _ -> (match draw 2 with 0 -> range 1 200 | _ -> range 0x1000_0000 0x3000_0000) in
    let n = min n rest in
    f !sent n;
    sent := !sent + n
  done

let hash_long name =
  let _, mk, expect = List.find (fun (n, _, _) -> n = name) hashes in
  let b = giant total in
  let h = lib mk in
  pieces total (fun o n -> ev "%s add %d" name n; lib (fun () -> h#add_substring b o n));
  let r = lib (fun () -> h#result) in
  if r <> unhex expect then fail "wrong-hash" "%s of %d bytes differs from the reference" name total;
  nontrivial := true

(* authenticated: the receiver is fed an all-zero ciphertext, and a sender is fed
   what comes out; its ciphertext must be zero again, both tags the closed form *)
let gf_pow h n = let r = ref Z.one and sq = ref h and n = ref n in
  while !n > 0 do if !n land 1 = 1 then r := Refm.gf_mul !r !sq; sq := Refm.gf_mul !sq !sq; n := !n lsr 1 done; !r
let lockstep who total dec enc keystream =
  let slice = 1 lsl 20 in
  let zero = Bytes.make slice '\000' in
  let sent = ref 0 in
  while !sent < total do
    incr sim_time;
    let n = min (total - !sent) (match draw 4 with 0 -> range 1 40 | 1 -> range 1 slice | _ -> slice) in
    ev "%s put %d" who n;
    lib (fun () -> dec#put_substring zero 0 n);
    let p = lib (fun () -> dec#get_string) in
    (match keystream with Some ks when String.length p > 0 && draw 16 = 15 ->
       let l = min 40 (String.length p) in
       let at = !sent + n - String.length p in
       ignore (ks at l p)
     | _ -> ());
    lib (fun () -> enc#put_string p);
    let c = lib (fun () -> enc#get_string) in
    if not (Bytes.equal (Bytes.unsafe_of_string c) (if String.length c = slice then zero else Bytes.make (String.length c) '\000')) then fail "wrong-output" "%s: encryption of decryption differs, around byte %d" who !sent;
    sent := !sent + n
  done;
  let t1 = lib (fun () -> dec#finish_and_get_tag) in
  let p = lib (fun () -> dec#get_string) in
  lib (fun () -> enc#put_string p);
  let t2 = lib (fun () -> enc#finish_and_get_tag) in
  let c = lib (fun () -> enc#get_string) in
  String.iter (fun ch -> if ch <> '\000' then fail "wrong-output" "%s: end of the message" who) c;
  t1, t2
let gcm_long total =
  let key = key_bytes (pick [|16;32|]) and iv = prng_string (draw 0xffffff) 12 and header = data (draw 40) in
  let dec = lib (fun () -> AEAD.aes_gcm ~header ~iv key AEAD.Decrypt) and enc = lib (fun () -> AEAD.aes_gcm ~header ~iv key AEAD.Encrypt) in
  let t1, t2 = lockstep "aes-gcm" total dec enc None in
  let f, h, j0 = Refm.gcm_parts key iv in
  let hz = Refm.gf_of h in
  let n = (total + 15) / 16 in
  (* header blocks, then n zero blocks, then lengths *)
  let y = List.fold_left (fun y b -> Refm.gf_mul (Z.logxor y (Refm.gf_of b)) hz) Z.zero (Refm.blocks 16 (Refm.pad16 header)) in
  let y = Refm.gf_mul y (gf_pow hz n) in
  let y = Refm.gf_mul (Z.logxor y (Refm.gf_of (Refm.be64_of_int (8 * String.length header) ^ Refm.be64_of_int (8 * total)))) hz in
  let tag = Refm.xor_str (Refm.gf_to y) (f j0) in
  if t1 <> tag then fail "wrong-tag" "aes-gcm decryption of %d bytes: wrong tag" total;
  if t2 <> tag then fail "wrong-tag" "aes-gcm encryption of %d bytes: wrong tag" total;
  nontrivial := true
(* headers whose length in bits needs more than 32 bits *)
let header_long () =
  let n = (1 lsl 29) + range 1 100 in
  let header = Bytes.unsafe_to_string (giant n) in
  let blocks = (n + 15) / 16 in
  if draw 2 = 0 then begin
    let key = key_bytes (pick [|16;32|]) and iv = prng_string (draw 0xffffff) 12 in
    ev "aes-gcm header %d" n;
    let _, t = lib (fun () -> auth_transform_string_detached (AEAD.aes_gcm ~header ~iv key AEAD.Encrypt) "") in
    let f, h, j0 = Refm.gcm_parts key iv in
    ignore blocks;
    (* zero blocks leave the accumulator at zero *)
    let y = Refm.gf_mul (Refm.gf_of (Refm.be64_of_int (8 * n) ^ Refm.be64_of_int 0)) (Refm.gf_of h) in
    if t <> Refm.xor_str (Refm.gf_to y) (f j0) then fail "wrong-tag" "aes-gcm with a header of %d bytes" n
  end else begin
    let n = total + draw 3 in
    let header = Bytes.unsafe_to_string (giant n) in
    let blocks = (n + 15) / 16 in
    let key = key_bytes (pick [|32;16|]) and iv = prng_string (draw 0xffffff) (pick [|12;8|]) in
    ev "chapoly header %d" n;
    let _, t = lib (fun () -> auth_transform_string_detached (AEAD.chacha20_poly1305 ~header ~iv key AEAD.Encrypt) "") in
    let ok = Refm.chapoly_key key iv in
    let r = Refm.poly_r ok and p = Refm.p1305 in
    let rn = Z.powm r (Z.of_int blocks) p in
    let geo = if Z.equal r Z.one then Z.of_int blocks else Z.erem (Z.mul (Z.mul r (Z.pred rn)) (Z.invert (Z.erem (Z.pred r) p) p)) p in
    let acc = Z.erem (Z.mul (Z.shift_left Z.one 128) geo) p in
    let acc = Z.erem (Z.mul (Z.add acc (Refm.z_le (Refm.le64_of_int n ^ Refm.le64_of_int 0 ^ "\001"))) r) p in
    if t <> Refm.z_to_le 16 (Z.add acc (Refm.z_le (String.sub ok 16 16))) then fail "wrong-tag" "chacha20-poly1305 with a header of %d bytes" n
  end;
  nontrivial := true
let chapoly_long total =
  let key = key_bytes (pick [|32;16|]) and iv = prng_string (draw 0xffffff) (pick [|12;8|]) and header = data (draw 40) in
  let dec = lib (fun () -> AEAD.chacha20_poly1305 ~header ~iv key AEAD.Decrypt) and enc = lib (fun () -> AEAD.chacha20_poly1305 ~header ~iv key AEAD.Encrypt) in
  let ks at l p = let blk = at / 64 in
    let s = Refm.chacha_stream key iv (Int64.of_int (1 + blk)) (l + at mod 64) in
    if String.sub s (at mod 64) l <> String.sub p 0 l then fail "wrong-output" "chacha20-poly1305: keystream at byte %d" at in
  let t1, t2 = lockstep "chapoly" total dec enc (Some ks) in
  let ok = Refm.chapoly_key key iv in
  let r = Refm.poly_r ok and p = Refm.p1305 in
  let step acc s = Z.erem (Z.mul (Z.add acc (Refm.z_le (s ^ "\001"))) r) p in
  let acc = List.fold_left step Z.zero (Refm.blocks 16 (Refm.pad16 header)) in
  let n = (total + 15) / 16 in
  (* acc.r^n + 2^128 (r + ... + r^n) *)
  let rn = Z.powm r (Z.of_int n) p in
  let geo = if Z.equal r Z.one then Z.of_int n else Z.erem (Z.mul (Z.mul r (Z.pred rn)) (Z.invert (Z.erem (Z.pred r) p) p)) p in
  let acc = Z.erem (Z.add (Z.mul acc rn) (Z.mul (Z.shift_left Z.one 128) geo)) p in
  let acc = step acc (Refm.le64_of_int (String.length header) ^ Refm.le64_of_int total) in
  let tag = Refm.z_to_le 16 (Z.add acc (Refm.z_le (String.sub ok 16 16))) in
  if t1 <> tag then fail "wrong-tag" "chacha20-poly1305 decryption of %d bytes: wrong tag" total;
  if t2 <> tag then fail "wrong-tag" "chacha20-poly1305 encryption of %d bytes: wrong tag" total;
  nontrivial := true

(* one call of more than 2^31 bytes on the building blocks *)
let stream_giant () =
  (* int and unsigned both overflow *)
  let n = 0x1_8000_0000 + range 1 1000 in
  let src = giant n in
  let win = 1 lsl 20 in
  let dst = alias n in
  let tail what expect =
    let l = 500 in
    (* only the last megabyte written is still there; the destination repeats *)
    if Bytes.sub_string dst (n - l) l <> expect (n - l) l then fail "wrong-output" "%s of %d bytes: the end differs" what n in
  ignore win;
  (match (match Sys.getenv_opt "SIM_MODE" with Some m -> int_of_string m | None -> draw 4) with
   | 2 -> let key = key_bytes 16 in
     ev "arcfour transform %d" n;
     let c = lib (fun () -> new Stream.arcfour key) and d = lib (fun () -> new Stream.arcfour key) in
     lib (fun () -> c#transform src 0 dst 0 n);
     let last = Bytes.sub dst (n - 500) 500 in
     (* the same in small calls *)
     let b = Bytes.make (1 lsl 20) '\000' and o = Bytes.create (1 lsl 20) in
     let k = ref 0 in
     while !k < n do let l = min (1 lsl 20) (n - !k) in d#transform b 0 o 0 l; k := !k + l;
       if !k = n && (l < 500 || Bytes.sub o (l - 500) 500 <> last) && l >= 500 then fail "wrong-output" "arcfour of %d bytes in one call" n done;
     let m1 = Bytes.make 64 '\000' and m2 = Bytes.make 64 '\000' in
     lib (fun () -> c#transform m1 0 m1 0 64); lib (fun () -> d#transform m2 0 m2 0 64);
     if m1 <> m2 then fail "wrong-output" "arcfour after %d bytes in one call" n
   | 0 -> let key = key_bytes 32 and iv = prng_string 5 8 in
     ev "chacha20 transform %d" n;
     let c = lib (fun () -> new Stream.chacha20 ~iv key) in
     lib (fun () -> c#transform src 0 dst 0 n);
     tail "chacha20" (fun at l -> let s = Refm.chacha_stream key iv (Int64.of_int (at / 64)) (l + at mod 64) in String.sub s (at mod 64) l);
     let more = Bytes.make 64 '\000' in
     lib (fun () -> c#transform more 0 more 0 64);
     let s = Refm.chacha_stream key iv (Int64.of_int (n / 64)) (64 + n mod 64) in
     if Bytes.to_string more <> String.sub s (n mod 64) 64 then fail "wrong-output" "chacha20 after %d bytes in one call" n
   | _ ->
     let src2 = Bytes.make 64 'a' in
     ev "xor_bytes %d" n;
     Bytes.blit src2 0 dst (n - 64) 64;
     lib (fun () -> xor_bytes src 0 dst 0 n);
     if Bytes.sub dst (n - 64) 64 <> src2 then fail "wrong-output" "xor_bytes of %d zeros" n);
  nontrivial := true

let ctr3_long () =
  let key = key_bytes 8 and iv = prng_string (draw 0xffffff) 8 in
  let limit = 1 lsl 24 in
  let x = lib (fun () -> Cipher.des ~mode:(Cipher.CTR_N 3) ~iv key Cipher.Encrypt) in
  let f = Refm.des_enc key in
  let start = (Char.code iv.[5] lsl 16) lor (Char.code iv.[6] lsl 8) lor Char.code iv.[7] in
  let ks j = let v = (start + j) land 0xFFFFFF in f (String.sub iv 0 5 ^ String.init 3 (fun i -> Char.chr ((v lsr (8 * (2 - i))) land 255))) in
  let slice = 1 lsl 16 in
  let zero = Bytes.make (8 * slice) '\000' in
  let sent = ref 0 and out = ref 0 and refused = ref false in
  while not !refused && !sent < limit + 100 do
    incr sim_time;
    let n = if limit - !sent < slice && limit - !sent > 3 then limit - !sent - range 1 3 else if limit - !sent <= 3 then 1 else range 1 slice in
    ev "des/CTR_N 3 put %d" n;
    (try lib (fun () -> x#put_substring zero 0 (8 * n)); lib (fun () -> x#flush) with Error Message_too_long -> refused := true);
    sent := !sent + n;
    if !refused && !sent < limit then fail "refused-early" "des/CTR_N 3: refused after %d blocks" !sent;
    let s = lib (fun () -> x#get_string) in
    let k = String.length s / 8 in
    if not !refused || k > 0 then begin
      if !out + k > limit then fail "keystream-reuse" "des/CTR_N 3: %d blocks from a counter of 3 bytes" (!out + k);
      List.iter (fun j -> if j >= 0 && j < k && String.sub s (8*j) 8 <> ks (!out + j) then fail "wrong-output" "des/CTR_N 3: block %d" (!out + j)) [0; k-1; k/2; draw (k+1)] end;
    out := !out + k
  done;
  if not !refused then fail "keystream-reuse" "des/CTR_N 3: %d blocks accepted" !sent;
  (match lib (fun () -> x#put_substring zero 0 16; x#flush) with
   | () -> fail "keystream-reuse" "des/CTR_N 3: accepted again after refusing"
   | exception Error Message_too_long -> ());
  nontrivial := true

let rng_long () =
  let seed = prng_string (draw 0xffffff) 16 in
  let aes = draw 2 = 0 in
  let r = lib (fun () -> if aes then Random.pseudo_rng_aes_ctr seed else Random.pseudo_rng seed) in
  let total = (1 lsl 28) + 100000 in
  let f = Refm.aes_enc seed in
  let pos = ref 0 in
  let buf = Bytes.create (1 lsl 20) in
  while !pos < total do
    incr sim_time;
    let n = match draw 3 with 0 -> range 1 100 | 1 -> range 1 (1 lsl 20) | _ -> 1 lsl 20 in
    ev "random_bytes %d" n;
    lib (fun () -> r#random_bytes buf 0 n);
    (* sample: first and last bytes of the request *)
    let byte at =
      if aes then begin
        (* AES-CTR, little- or big-endian as the reference stream says *)
        let blk = at / 16 in
        let c = Bytes.make 16 '\000' in Bytes.set_int64_be c 8 (Int64.of_int blk);
        (f (Bytes.to_string c)).[at mod 16] end
      else (Refm.chacha_stream seed (String.make 8 '\000') (Int64.of_int (at / 64)) 64).[at mod 64] in
    List.iter (fun k -> if k >= 0 && k < n && Bytes.get buf k <> byte (!pos + k) then fail "wrong-output" "generator: byte %d of the stream" (!pos + k)) [0; n-1; n/2; draw n];
    pos := !pos + n
  done;
  nontrivial := true

let zlib_long () =
  let header = draw 2 = 1 in
  let c = lib (fun () -> Zlib.compress ~level:1 ~write_zlib_header:header ()) and u = lib (fun () -> Zlib.uncompress ~expect_zlib_header:header ()) in
  (* exact multiples of 2^32 in one call, and more *)
  let total = match draw 3 with 0 -> total | 1 -> 0x1_0000_0000 | _ -> total + 3 in
  let b = giant (total + 16) in
  let got = ref 0 in
  let zeros = Bytes.make 65536 '\000' in
  let take () =
    let rec go () =
      let (buf, o, l) = lib (fun () -> u#get_substring) in
      if l > 0 then begin
        let i = ref 0 in
        while !i < l do
          let k = min 65536 (l - !i) in
          if Bytes.sub buf (o + !i) k <> (if k = 65536 then zeros else Bytes.sub zeros 0 k) then fail "wrong-output" "decompressed byte differs around %d" !got;
          i := !i + k done;
        got := !got + l; go () end in go () in
  let move () =
    let s = lib (fun () -> c#get_string) in
    let i = ref 0 in
    while !i < String.length s do
      let k = min 4096 (String.length s - !i) in
      lib (fun () -> u#put_string (String.sub s !i k)); take (); i := !i + k done in
  let first = draw 2 in
  if first = 0 then begin ev "compress put %d" total; lib (fun () -> c#put_substring b 0 total); move () end
  else pieces total (fun o n -> ev "compress put %d" n; lib (fun () -> c#put_substring b o n); if draw 4 = 3 then lib (fun () -> c#flush); move ());
  lib (fun () -> c#finish); move ();
  lib (fun () -> u#finish); take ();
  if !got <> total then fail "lossy" "%d bytes compressed, %d came back" total !got;
  nontrivial := true

let run () =
  let what = try Sys.getenv "SIM_LONG" with Not_found -> "sha1" in
  match what with
  | "gcm" -> gcm_long ((1 lsl 29) + 3 + draw 100)
  | "gcm4g" -> gcm_long (total + draw 100)
  | "chapoly" -> chapoly_long (total + draw 100)
  | "giant" -> stream_giant ()
  | "header" -> header_long ()
  | "ctr3" -> ctr3_long ()
  | "rng" -> rng_long ()
  | "zlib" -> zlib_long ()
  | h -> hash_long h
