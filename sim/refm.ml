(* Small, slow, independent executable reference models.
   Nothing here uses the library under test. *)

let u32 x = x land 0xFFFFFFFF
let rol32 x n = u32 ((x lsl n) lor (x lsr (32 - n)))
let ror32 x n = rol32 x (32 - n)
let byte s i = Char.code (String.unsafe_get s i)
let le32 s i = byte s i lor (byte s (i+1) lsl 8) lor (byte s (i+2) lsl 16) lor (byte s (i+3) lsl 24)
let be32 s i = byte s (i+3) lor (byte s (i+2) lsl 8) lor (byte s (i+1) lsl 16) lor (byte s i lsl 24)
let add_le32 b x = for k = 0 to 3 do Buffer.add_char b (Char.chr ((x lsr (8*k)) land 255)) done
let add_be32 b x = for k = 3 downto 0 do Buffer.add_char b (Char.chr ((x lsr (8*k)) land 255)) done
let be64_of_int n = let b = Bytes.create 8 in Bytes.set_int64_be b 0 (Int64.of_int n); Bytes.to_string b
let le64_of_int n = let b = Bytes.create 8 in Bytes.set_int64_le b 0 (Int64.of_int n); Bytes.to_string b
let xor_str a b = String.init (min (String.length a) (String.length b)) (fun i -> Char.chr (byte a i lxor byte b i))

(* --- primes and roots, for the SHA-2 constants --- *)
let primes n =
  let rec go acc k c = if c = n then List.rev acc else
    if List.exists (fun p -> k mod p = 0) acc then go acc (k+1) c else go (k::acc) (k+1) (c+1) in
  go [] 2 0
let frac_root root bits p =
  (* first [bits] bits of the fractional part of the [root]-th root of p *)
  let x = Z.shift_left (Z.of_int p) (root * bits) in
  let r = Z.root x root in
  Z.logand r (Z.pred (Z.shift_left Z.one bits))

(* --- SHA-1 --- *)
let md_pad ~block ~lenbytes ~be s =
  let n = String.length s in
  let b = Buffer.create (n + 2*block) in
  Buffer.add_string b s; Buffer.add_char b '\x80';
  while (Buffer.length b + lenbytes) mod block <> 0 do Buffer.add_char b '\000' done;
  if lenbytes = 16 then Buffer.add_string b (String.make 8 '\000');
  Buffer.add_string b (if be then be64_of_int (8*n) else le64_of_int (8*n));
  Buffer.contents b

let sha1 s =
  let m = md_pad ~block:64 ~lenbytes:8 ~be:true s in
  let h = [| 0x67452301; 0xEFCDAB89; 0x98BADCFE; 0x10325476; 0xC3D2E1F0 |] in
  let w = Array.make 80 0 in
  for blk = 0 to String.length m / 64 - 1 do
    for t = 0 to 15 do w.(t) <- be32 m (blk*64 + 4*t) done;
    for t = 16 to 79 do w.(t) <- rol32 (w.(t-3) lxor w.(t-8) lxor w.(t-14) lxor w.(t-16)) 1 done;
    let a = ref h.(0) and b = ref h.(1) and c = ref h.(2) and d = ref h.(3) and e = ref h.(4) in
    for t = 0 to 79 do
      let f, k =
        if t < 20 then (!b land !c) lor ((lnot !b) land !d), 0x5A827999
        else if t < 40 then !b lxor !c lxor !d, 0x6ED9EBA1
        else if t < 60 then (!b land !c) lor (!b land !d) lor (!c land !d), 0x8F1BBCDC
        else !b lxor !c lxor !d, 0xCA62C1D6 in
      let tmp = u32 (rol32 !a 5 + u32 f + !e + k + w.(t)) in
      e := !d; d := !c; c := rol32 !b 30; b := !a; a := tmp
    done;
    h.(0) <- u32 (h.(0) + !a); h.(1) <- u32 (h.(1) + !b); h.(2) <- u32 (h.(2) + !c);
    h.(3) <- u32 (h.(3) + !d); h.(4) <- u32 (h.(4) + !e)
  done;
  let b = Buffer.create 20 in Array.iter (add_be32 b) h; Buffer.contents b

(* --- SHA-256 family --- *)
let k256 = lazy (Array.of_list (List.map (fun p -> Z.to_int (frac_root 3 32 p)) (primes 64)))
let iv256 = lazy (Array.of_list (List.map (fun p -> Z.to_int (frac_root 2 32 p)) (primes 8)))
let iv224 = lazy (Array.of_list (List.filteri (fun i _ -> i >= 8)
   (List.map (fun p -> Z.to_int (Z.logand (frac_root 2 64 p) (Z.of_int 0xFFFFFFFF))) (primes 16))))
let sha256_gen iv outlen s =
  let k = Lazy.force k256 in
  let m = md_pad ~block:64 ~lenbytes:8 ~be:true s in
  let h = Array.copy iv in
  let w = Array.make 64 0 in
  for blk = 0 to String.length m / 64 - 1 do
    for t = 0 to 15 do w.(t) <- be32 m (blk*64 + 4*t) done;
    for t = 16 to 63 do
      let s0 = ror32 w.(t-15) 7 lxor ror32 w.(t-15) 18 lxor (w.(t-15) lsr 3) in
      let s1 = ror32 w.(t-2) 17 lxor ror32 w.(t-2) 19 lxor (w.(t-2) lsr 10) in
      w.(t) <- u32 (w.(t-16) + s0 + w.(t-7) + s1) done;
    let v = Array.copy h in
    for t = 0 to 63 do
      let a = v.(0) and b = v.(1) and c = v.(2) and e = v.(4) and f = v.(5) and g = v.(6) in
      let s1 = ror32 e 6 lxor ror32 e 11 lxor ror32 e 25 in
      let ch = (e land f) lxor (u32 (lnot e) land g) in
      let t1 = u32 (v.(7) + s1 + ch + k.(t) + w.(t)) in
      let s0 = ror32 a 2 lxor ror32 a 13 lxor ror32 a 22 in
      let maj = (a land b) lxor (a land c) lxor (b land c) in
      let t2 = u32 (s0 + maj) in
      v.(7) <- g; v.(6) <- f; v.(5) <- e; v.(4) <- u32 (v.(3) + t1);
      v.(3) <- c; v.(2) <- b; v.(1) <- a; v.(0) <- u32 (t1 + t2)
    done;
    for i = 0 to 7 do h.(i) <- u32 (h.(i) + v.(i)) done
  done;
  let b = Buffer.create 32 in Array.iter (add_be32 b) h; String.sub (Buffer.contents b) 0 outlen
let sha256 s = sha256_gen (Lazy.force iv256) 32 s
let sha224 s = sha256_gen (Lazy.force iv224) 28 s

(* --- SHA-512 family --- *)
let z64 z = Z.to_int64 (Z.signed_extract z 0 64)
let k512 = lazy (Array.of_list (List.map (fun p -> z64 (frac_root 3 64 p)) (primes 80)))
let iv512 = lazy (Array.of_list (List.map (fun p -> z64 (frac_root 2 64 p)) (primes 8)))
let iv384 = lazy (Array.of_list (List.filteri (fun i _ -> i >= 8) (List.map (fun p -> z64 (frac_root 2 64 p)) (primes 16))))
let ror64 x n = Int64.(logor (shift_right_logical x n) (shift_left x (64 - n)))
let sha512_gen iv outlen s =
  let open Int64 in
  let k = Lazy.force k512 in
  let m = md_pad ~block:128 ~lenbytes:16 ~be:true s in
  let h = Array.copy iv in
  let w = Array.make 80 0L in
  for blk = 0 to Stdlib.( / ) (String.length m) 128 - 1 do
    for t = 0 to 15 do w.(t) <- String.get_int64_be m Stdlib.(blk*128 + 8*t) done;
    for t = 16 to 79 do
      let x = w.(t-15) and y = w.(t-2) in
      let s0 = logxor (logxor (ror64 x 1) (ror64 x 8)) (shift_right_logical x 7) in
      let s1 = logxor (logxor (ror64 y 19) (ror64 y 61)) (shift_right_logical y 6) in
      w.(t) <- add (add w.(t-16) s0) (add w.(t-7) s1) done;
    let v = Array.copy h in
    for t = 0 to 79 do
      let a = v.(0) and b = v.(1) and c = v.(2) and e = v.(4) and f = v.(5) and g = v.(6) in
      let s1 = logxor (logxor (ror64 e 14) (ror64 e 18)) (ror64 e 41) in
      let ch = logxor (logand e f) (logand (lognot e) g) in
      let t1 = add (add (add v.(7) s1) (add ch k.(t))) w.(t) in
      let s0 = logxor (logxor (ror64 a 28) (ror64 a 34)) (ror64 a 39) in
      let maj = logxor (logxor (logand a b) (logand a c)) (logand b c) in
      let t2 = add s0 maj in
      v.(7) <- g; v.(6) <- f; v.(5) <- e; v.(4) <- add v.(3) t1;
      v.(3) <- c; v.(2) <- b; v.(1) <- a; v.(0) <- add t1 t2
    done;
    for i = 0 to 7 do h.(i) <- add h.(i) v.(i) done
  done;
  let b = Bytes.create 64 in Array.iteri (fun i x -> Bytes.set_int64_be b (Stdlib.( * ) 8 i) x) h;
  Bytes.sub_string b 0 outlen
let sha512 s = sha512_gen (Lazy.force iv512) 64 s
let sha384 s = sha512_gen (Lazy.force iv384) 48 s

(* --- Keccak / SHA-3 --- *)
let keccak_rc = lazy (
  (* LFSR x^8+x^6+x^5+x^4+1 *)
  let r = ref 1 in
  let bit () = let b = !r land 1 in
    r := (!r lsl 1); if !r land 0x100 <> 0 then r := !r lxor 0x171; b in
  Array.init 24 (fun _ ->
    let c = ref 0L in
    for j = 0 to 6 do if bit () = 1 then c := Int64.logxor !c (Int64.shift_left 1L ((1 lsl j) - 1)) done;
    !c))
let keccak_rot = lazy (
  let r = Array.make 25 0 in
  let x = ref 1 and y = ref 0 in
  for t = 0 to 23 do
    r.(!x + 5 * !y) <- ((t+1)*(t+2)/2) mod 64;
    let nx = !y and ny = (2 * !x + 3 * !y) mod 5 in x := nx; y := ny done; r)
let rol64 x n = if n = 0 then x else Int64.(logor (shift_left x n) (shift_right_logical x (64 - n)))
let keccak_f a =
  let open Int64 in
  let rc = Lazy.force keccak_rc and rot = Lazy.force keccak_rot in
  for rnd = 0 to 23 do
    let c = Array.init 5 (fun x -> logxor (logxor (logxor a.(x) a.(x+5)) (logxor a.(x+10) a.(x+15))) a.(x+20)) in
    for x = 0 to 4 do
      let d = logxor c.((x+4) mod 5) (rol64 c.((x+1) mod 5) 1) in
      for y = 0 to 4 do a.(x+5*y) <- logxor a.(x+5*y) d done done;
    let b = Array.make 25 0L in
    for x = 0 to 4 do for y = 0 to 4 do
      b.(y + 5 * ((2*x+3*y) mod 5)) <- rol64 a.(x+5*y) rot.(x+5*y) done done;
    for x = 0 to 4 do for y = 0 to 4 do
      a.(x+5*y) <- logxor b.(x+5*y) (logand (lognot b.((x+1) mod 5 + 5*y)) b.((x+2) mod 5 + 5*y)) done done;
    a.(0) <- logxor a.(0) rc.(rnd)
  done
[@@ocaml.warning "-44"]
let keccak_hash ~padbyte bits s =
  let rate = 200 - 2 * (bits/8) in
  let b = Buffer.create (String.length s + rate) in
  Buffer.add_string b s; Buffer.add_char b (Char.chr padbyte);
  while Buffer.length b mod rate <> 0 do Buffer.add_char b '\000' done;
  let m = Buffer.to_bytes b in
  let l = Bytes.length m - 1 in
  Bytes.set m l (Char.chr (Char.code (Bytes.get m l) lor 0x80));
  let a = Array.make 25 0L in
  for blk = 0 to Bytes.length m / rate - 1 do
    for i = 0 to rate/8 - 1 do a.(i) <- Int64.logxor a.(i) (Bytes.get_int64_le m (blk*rate + 8*i)) done;
    keccak_f a
  done;
  let o = Bytes.create 200 in
  Array.iteri (fun i x -> Bytes.set_int64_le o (8*i) x) a;
  Bytes.sub_string o 0 (bits/8)
let sha3 bits s = keccak_hash ~padbyte:6 bits s
let keccak bits s = keccak_hash ~padbyte:1 bits s

(* --- RIPEMD-160 --- *)
let rmd_r = [|0;1;2;3;4;5;6;7;8;9;10;11;12;13;14;15; 7;4;13;1;10;6;15;3;12;0;9;5;2;14;11;8;
  3;10;14;4;9;15;8;1;2;7;0;6;13;11;5;12; 1;9;11;10;0;8;12;4;13;3;7;15;14;5;6;2; 4;0;5;9;7;12;2;10;14;1;3;8;11;6;15;13|]
let rmd_r' = [|5;14;7;0;9;2;11;4;13;6;15;8;1;10;3;12; 6;11;3;7;0;13;5;10;14;15;8;12;4;9;1;2;
  15;5;1;3;7;14;6;9;11;8;12;2;10;0;4;13; 8;6;4;1;3;11;15;0;5;12;2;13;9;7;10;14; 12;15;10;4;1;5;8;7;6;2;13;14;0;3;9;11|]
let rmd_s = [|11;14;15;12;5;8;7;9;11;13;14;15;6;7;9;8; 7;6;8;13;11;9;7;15;7;12;15;9;11;7;13;12;
  11;13;6;7;14;9;13;15;14;8;13;6;5;12;7;5; 11;12;14;15;14;15;9;8;9;14;5;6;8;6;5;12; 9;15;5;11;6;8;13;12;5;12;13;14;11;8;5;6|]
let rmd_s' = [|8;9;9;11;13;15;15;5;7;7;8;11;14;14;12;6; 9;13;15;7;12;8;9;11;7;7;12;7;6;15;13;11;
  9;7;15;11;8;6;6;14;12;13;5;14;13;13;7;5; 15;5;8;11;14;14;6;14;6;9;12;9;12;5;15;8; 8;5;12;9;12;5;14;6;8;13;6;5;15;13;11;11|]
let rmd_k = [|0;0x5A827999;0x6ED9EBA1;0x8F1BBCDC;0xA953FD4E|]
let rmd_k' = [|0x50A28BE6;0x5C4DD124;0x6D703EF3;0x7A6D76E9;0|]
let rmd_f j x y z = u32 (match j with
  | 0 -> x lxor y lxor z | 1 -> (x land y) lor ((lnot x) land z)
  | 2 -> (x lor (lnot y)) lxor z | 3 -> (x land z) lor (y land (lnot z))
  | _ -> x lxor (y lor (lnot z)))
let ripemd160 s =
  let m = md_pad ~block:64 ~lenbytes:8 ~be:false s in
  let h = [|0x67452301;0xEFCDAB89;0x98BADCFE;0x10325476;0xC3D2E1F0|] in
  for blk = 0 to String.length m / 64 - 1 do
    let x i = le32 m (blk*64 + 4*i) in
    let line r sh k f =
      let v = Array.copy h in
      for j = 0 to 79 do
        let t = u32 (rol32 (u32 (v.(0) + f (j/16) v.(1) v.(2) v.(3) + x r.(j) + k.(j/16))) sh.(j) + v.(4)) in
        v.(0) <- v.(4); v.(4) <- v.(3); v.(3) <- rol32 v.(2) 10; v.(2) <- v.(1); v.(1) <- t
      done; v in
    let l = line rmd_r rmd_s rmd_k rmd_f in
    let r = line rmd_r' rmd_s' rmd_k' (fun j -> rmd_f (4-j)) in
    let t = u32 (h.(1) + l.(2) + r.(3)) in
    h.(1) <- u32 (h.(2) + l.(3) + r.(4)); h.(2) <- u32 (h.(3) + l.(4) + r.(0));
    h.(3) <- u32 (h.(4) + l.(0) + r.(1)); h.(4) <- u32 (h.(0) + l.(1) + r.(2)); h.(0) <- t
  done;
  let b = Buffer.create 20 in Array.iter (add_le32 b) h; Buffer.contents b

(* --- BLAKE2 --- *)
let blake_sigma = [|
 [|0;1;2;3;4;5;6;7;8;9;10;11;12;13;14;15|]; [|14;10;4;8;9;15;13;6;1;12;0;2;11;7;5;3|];
 [|11;8;12;0;5;2;15;13;10;14;3;6;7;1;9;4|]; [|7;9;3;1;13;12;11;14;2;6;5;10;4;0;15;8|];
 [|9;0;5;7;2;4;10;15;14;1;11;12;6;8;3;13|]; [|2;12;6;10;0;11;8;3;4;13;7;5;15;14;1;9|];
 [|12;5;1;15;14;13;4;10;0;7;6;3;9;2;8;11|]; [|13;11;7;14;12;1;3;9;5;0;15;4;8;6;2;10|];
 [|6;15;14;9;11;3;0;8;12;2;13;7;1;4;10;5|]; [|10;2;8;4;7;6;1;5;15;11;9;14;3;12;13;0|] |]
let blake2b outlen key s =
  let open Int64 in
  let iv = Lazy.force iv512 in
  let s = (if key = "" then "" else key ^ String.make Stdlib.(128 - String.length key) '\000') ^ s in
  let n = String.length s in
  let h = Array.copy iv in
  h.(0) <- logxor h.(0) (of_int Stdlib.(0x01010000 lxor (String.length key lsl 8) lxor outlen));
  let nblk = Stdlib.max 1 ((n + 127) / 128) in
  for blk = 0 to nblk - 1 do
    let last = blk = nblk - 1 in
    let off = 128 * blk in
    let chunk = if last then String.sub s off (n - off) ^ String.make (128 - (n - off)) '\000' else String.sub s off 128 in
    let m = Array.init 16 (fun i -> String.get_int64_le chunk (8*i)) in
    let t = if last then n else off + 128 in
    let v = Array.append (Array.copy h) (Array.copy iv) in
    v.(12) <- logxor v.(12) (of_int t);
    if last then v.(14) <- lognot v.(14);
    let g a b c d x y =
      v.(a) <- add (add v.(a) v.(b)) x; v.(d) <- ror64 (logxor v.(d) v.(a)) 32;
      v.(c) <- add v.(c) v.(d); v.(b) <- ror64 (logxor v.(b) v.(c)) 24;
      v.(a) <- add (add v.(a) v.(b)) y; v.(d) <- ror64 (logxor v.(d) v.(a)) 16;
      v.(c) <- add v.(c) v.(d); v.(b) <- ror64 (logxor v.(b) v.(c)) 63 in
    for r = 0 to 11 do
      let q = blake_sigma.(r mod 10) in
      g 0 4 8 12 m.(q.(0)) m.(q.(1)); g 1 5 9 13 m.(q.(2)) m.(q.(3));
      g 2 6 10 14 m.(q.(4)) m.(q.(5)); g 3 7 11 15 m.(q.(6)) m.(q.(7));
      g 0 5 10 15 m.(q.(8)) m.(q.(9)); g 1 6 11 12 m.(q.(10)) m.(q.(11));
      g 2 7 8 13 m.(q.(12)) m.(q.(13)); g 3 4 9 14 m.(q.(14)) m.(q.(15)) done;
    for i = 0 to 7 do h.(i) <- logxor h.(i) (logxor v.(i) v.(i+8)) done
  done;
  let o = Bytes.create 64 in Array.iteri (fun i x -> Bytes.set_int64_le o (8*i) x) h;
  Bytes.sub_string o 0 outlen
[@@ocaml.warning "-44"]

let g32 v a b c d x y =
  v.(a) <- u32 (v.(a) + v.(b) + x); v.(d) <- ror32 (v.(d) lxor v.(a)) 16;
  v.(c) <- u32 (v.(c) + v.(d)); v.(b) <- ror32 (v.(b) lxor v.(c)) 12;
  v.(a) <- u32 (v.(a) + v.(b) + y); v.(d) <- ror32 (v.(d) lxor v.(a)) 8;
  v.(c) <- u32 (v.(c) + v.(d)); v.(b) <- ror32 (v.(b) lxor v.(c)) 7
let blake2s outlen key s =
  let iv = Lazy.force iv256 in
  let s = (if key = "" then "" else key ^ String.make (64 - String.length key) '\000') ^ s in
  let n = String.length s in
  let h = Array.copy iv in
  h.(0) <- h.(0) lxor 0x01010000 lxor (String.length key lsl 8) lxor outlen;
  let nblk = max 1 ((n + 63) / 64) in
  for blk = 0 to nblk - 1 do
    let last = blk = nblk - 1 in
    let off = 64 * blk in
    let chunk = if last then String.sub s off (n - off) ^ String.make (64 - (n - off)) '\000' else String.sub s off 64 in
    let m = Array.init 16 (fun i -> le32 chunk (4*i)) in
    let t = if last then n else off + 64 in
    let v = Array.append (Array.copy h) (Array.copy iv) in
    v.(12) <- v.(12) lxor u32 t; v.(13) <- v.(13) lxor (t lsr 32);
    if last then v.(14) <- v.(14) lxor 0xFFFFFFFF;
    for r = 0 to 9 do
      let q = blake_sigma.(r) in
      g32 v 0 4 8 12 m.(q.(0)) m.(q.(1)); g32 v 1 5 9 13 m.(q.(2)) m.(q.(3));
      g32 v 2 6 10 14 m.(q.(4)) m.(q.(5)); g32 v 3 7 11 15 m.(q.(6)) m.(q.(7));
      g32 v 0 5 10 15 m.(q.(8)) m.(q.(9)); g32 v 1 6 11 12 m.(q.(10)) m.(q.(11));
      g32 v 2 7 8 13 m.(q.(12)) m.(q.(13)); g32 v 3 4 9 14 m.(q.(14)) m.(q.(15)) done;
    for i = 0 to 7 do h.(i) <- h.(i) lxor v.(i) lxor v.(i+8) done
  done;
  let b = Buffer.create 32 in Array.iter (add_le32 b) h; String.sub (Buffer.contents b) 0 outlen

(* --- BLAKE3 (recursive tree definition) --- *)
let b3_perm = [|2;6;3;10;7;0;4;13;1;11;12;5;9;14;15;8|]
let b3_compress cv block counter len flags =
  let iv = Lazy.force iv256 in
  let v = Array.concat [ Array.copy cv; Array.sub iv 0 4; [| u32 counter; counter lsr 32; len; flags |] ] in
  let m = ref (Array.copy block) in
  for r = 0 to 6 do
    let q = !m in
    g32 v 0 4 8 12 q.(0) q.(1); g32 v 1 5 9 13 q.(2) q.(3); g32 v 2 6 10 14 q.(4) q.(5); g32 v 3 7 11 15 q.(6) q.(7);
    g32 v 0 5 10 15 q.(8) q.(9); g32 v 1 6 11 12 q.(10) q.(11); g32 v 2 7 8 13 q.(12) q.(13); g32 v 3 4 9 14 q.(14) q.(15);
    if r < 6 then m := Array.init 16 (fun i -> q.(b3_perm.(i)))
  done;
  Array.init 16 (fun i -> if i < 8 then v.(i) lxor v.(i+8) else v.(i) lxor cv.(i-8))
let blake3 outlen key s =
  let kw, base = if key = "" then Array.copy (Lazy.force iv256), 0 else Array.init 8 (fun i -> le32 key (4*i)), 16 in
  let words chunk = let c = chunk ^ String.make (64 - String.length chunk) '\000' in Array.init 16 (fun i -> le32 c (4*i)) in
  (* a node: final compression input *)
  let rec node off len =
    if len <= 1024 then begin
      let nb = max 1 ((len + 63) / 64) in
      let cv = ref kw in
      let res = ref None in
      for i = 0 to nb - 1 do
        let l = if i = nb - 1 then len - 64*i else 64 in
        let blk = words (String.sub s (off + 64*i) l) in
        let fl = base lor (if i = 0 then 1 else 0) lor (if i = nb - 1 then 2 else 0) in
        if i = nb - 1 then res := Some (!cv, blk, off / 1024, l, fl)
        else cv := Array.sub (b3_compress !cv blk (off / 1024) l fl) 0 8
      done;
      Option.get !res
    end else begin
      let full = (len - 1) / 1024 in
      let p = ref 1 in while !p * 2 <= full do p := !p * 2 done;
      let l = !p * 1024 in
      let cvof o n = let (c, b, t, ln, f) = node o n in Array.sub (b3_compress c b t ln f) 0 8 in
      let a = cvof off l and b = cvof (off + l) (len - l) in
      (kw, Array.append a b, 0, 64, base lor 4)
    end in
  let (c, b, _, ln, f) as nd = node 0 (String.length s) in
  let (_, _, t0, _, _) = nd in ignore t0;
  let out = Buffer.create (outlen + 64) in
  let i = ref 0 in
  while Buffer.length out < outlen do
    Array.iter (add_le32 out) (b3_compress c b !i ln (f lor 8)); incr i done;
  Buffer.sub out 0 outlen

(* --- SipHash-2-4 --- *)
let siphash outlen key s =
  let open Int64 in
  let k0 = String.get_int64_le key 0 and k1 = String.get_int64_le key 8 in
  let v0 = ref (logxor k0 0x736f6d6570736575L) and v1 = ref (logxor k1 0x646f72616e646f6dL)
  and v2 = ref (logxor k0 0x6c7967656e657261L) and v3 = ref (logxor k1 0x7465646279746573L) in
  if outlen = 16 then v1 := logxor !v1 0xeeL;
  let round () =
    v0 := add !v0 !v1; v1 := rol64 !v1 13; v1 := logxor !v1 !v0; v0 := rol64 !v0 32;
    v2 := add !v2 !v3; v3 := rol64 !v3 16; v3 := logxor !v3 !v2;
    v0 := add !v0 !v3; v3 := rol64 !v3 21; v3 := logxor !v3 !v0;
    v2 := add !v2 !v1; v1 := rol64 !v1 17; v1 := logxor !v1 !v2; v2 := rol64 !v2 32 in
  let n = String.length s in
  let last = Bytes.make 8 '\000' in
  let tail = n land 7 in
  Bytes.blit_string s Stdlib.(n - tail) last 0 tail;
  Bytes.set last 7 (Char.chr (n land 255));
  let word m = v3 := logxor !v3 m; round (); round (); v0 := logxor !v0 m in
  for i = 0 to n / 8 - 1 do word (String.get_int64_le s (8*i)) done;
  word (Bytes.get_int64_le last 0);
  v2 := logxor !v2 (if outlen = 16 then 0xeeL else 0xffL);
  for _ = 1 to 4 do round () done;
  let o = Bytes.create outlen in
  Bytes.set_int64_le o 0 (logxor (logxor !v0 !v1) (logxor !v2 !v3));
  if outlen = 16 then begin
    v1 := logxor !v1 0xddL; for _ = 1 to 4 do round () done;
    Bytes.set_int64_le o 8 (logxor (logxor !v0 !v1) (logxor !v2 !v3)) end;
  Bytes.to_string o
[@@ocaml.warning "-44"]

let md5 s = Digest.string s

(* --- AES --- *)
let gmul a b = let r = ref 0 and a = ref a and b = ref b in
  while !b > 0 do if !b land 1 = 1 then r := !r lxor !a; a := !a lsl 1;
    if !a land 0x100 <> 0 then a := !a lxor 0x11b; b := !b lsr 1 done; !r
let sbox, isbox =
  let s = Array.make 256 0 and inv = Array.make 256 0 in
  for x = 0 to 255 do
    let i = if x = 0 then 0 else (let r = ref 0 in for y = 1 to 255 do if gmul x y = 1 then r := y done; !r) in
    let rot v n = ((v lsl n) lor (v lsr (8 - n))) land 255 in
    let v = i lxor rot i 1 lxor rot i 2 lxor rot i 3 lxor rot i 4 lxor 0x63 in
    s.(x) <- v; inv.(v) <- x done; s, inv
let mul_tab k = Array.init 256 (fun x -> gmul x k)
let m2 = mul_tab 2 and m3 = mul_tab 3 and m9 = mul_tab 9 and m11 = mul_tab 11 and m13 = mul_tab 13 and m14 = mul_tab 14
let aes_expand key =
  let nk = String.length key / 4 in
  let nr = nk + 6 in
  let w = Array.make (4 * (nr + 1)) [||] in
  let rcon = ref 1 in
  for i = 0 to Array.length w - 1 do
    if i < nk then w.(i) <- Array.init 4 (fun j -> byte key (4*i+j))
    else begin
      let t = Array.copy w.(i-1) in
      let t = if i mod nk = 0 then begin
          let r = Array.init 4 (fun j -> sbox.(t.((j+1) land 3))) in
          r.(0) <- r.(0) lxor !rcon; rcon := gmul !rcon 2; r end
        else if nk > 6 && i mod nk = 4 then Array.map (fun x -> sbox.(x)) t else t in
      w.(i) <- Array.init 4 (fun j -> w.(i-nk).(j) lxor t.(j)) end done;
  Array.init (nr + 1) (fun r -> Array.init 16 (fun i -> w.(4*r + i/4).(i land 3)))
let aes_enc key =
  let rk = aes_expand key in
  let nr = Array.length rk - 1 in
  fun blk ->
    let st = Array.init 16 (fun i -> byte blk i lxor rk.(0).(i)) in
    for r = 1 to nr do
      let t = Array.init 16 (fun i -> sbox.(st.((i + 4 * (i land 3)) land 15))) in
      for c = 0 to 3 do
        let a = t.(4*c) and b = t.(4*c+1) and d = t.(4*c+2) and e = t.(4*c+3) in
        if r < nr then begin
          st.(4*c) <- m2.(a) lxor m3.(b) lxor d lxor e; st.(4*c+1) <- a lxor m2.(b) lxor m3.(d) lxor e;
          st.(4*c+2) <- a lxor b lxor m2.(d) lxor m3.(e); st.(4*c+3) <- m3.(a) lxor b lxor d lxor m2.(e)
        end else begin st.(4*c) <- a; st.(4*c+1) <- b; st.(4*c+2) <- d; st.(4*c+3) <- e end
      done;
      for i = 0 to 15 do st.(i) <- st.(i) lxor rk.(r).(i) done
    done;
    String.init 16 (fun i -> Char.chr st.(i))
let aes_dec key =
  let rk = aes_expand key in
  let nr = Array.length rk - 1 in
  fun blk ->
    let st = Array.init 16 (fun i -> byte blk i lxor rk.(nr).(i)) in
    for r = nr - 1 downto 0 do
      let t = Array.init 16 (fun i -> isbox.(st.((i - 4 * (i land 3)) land 15)) lxor rk.(r).(i)) in
      for c = 0 to 3 do
        let a = t.(4*c) and b = t.(4*c+1) and d = t.(4*c+2) and e = t.(4*c+3) in
        if r > 0 then begin
          st.(4*c) <- m14.(a) lxor m11.(b) lxor m13.(d) lxor m9.(e); st.(4*c+1) <- m9.(a) lxor m14.(b) lxor m11.(d) lxor m13.(e);
          st.(4*c+2) <- m13.(a) lxor m9.(b) lxor m14.(d) lxor m11.(e); st.(4*c+3) <- m11.(a) lxor m13.(b) lxor m9.(d) lxor m14.(e)
        end else begin st.(4*c) <- a; st.(4*c+1) <- b; st.(4*c+2) <- d; st.(4*c+3) <- e end
      done
    done;
    String.init 16 (fun i -> Char.chr st.(i))

(* --- DES --- *)
let des_ip = [|58;50;42;34;26;18;10;2;60;52;44;36;28;20;12;4;62;54;46;38;30;22;14;6;64;56;48;40;32;24;16;8;57;49;41;33;25;17;9;1;59;51;43;35;27;19;11;3;61;53;45;37;29;21;13;5;63;55;47;39;31;23;15;7|]
let des_fp = let a = Array.make 64 0 in Array.iteri (fun i x -> a.(x-1) <- i+1) des_ip; a
let des_e = [|32;1;2;3;4;5;4;5;6;7;8;9;8;9;10;11;12;13;12;13;14;15;16;17;16;17;18;19;20;21;20;21;22;23;24;25;24;25;26;27;28;29;28;29;30;31;32;1|]
let des_p = [|16;7;20;21;29;12;28;17;1;15;23;26;5;18;31;10;2;8;24;14;32;27;3;9;19;13;30;6;22;11;4;25|]
let des_pc1 = [|57;49;41;33;25;17;9;1;58;50;42;34;26;18;10;2;59;51;43;35;27;19;11;3;60;52;44;36;63;55;47;39;31;23;15;7;62;54;46;38;30;22;14;6;61;53;45;37;29;21;13;5;28;20;12;4|]
let des_pc2 = [|14;17;11;24;1;5;3;28;15;6;21;10;23;19;12;4;26;8;16;7;27;20;13;2;41;52;31;37;47;55;30;40;51;45;33;48;44;49;39;56;34;53;46;42;50;36;29;32|]
let des_sh = [|1;1;2;2;2;2;2;2;1;2;2;2;2;2;2;1|]
let des_s = [|
[|14;4;13;1;2;15;11;8;3;10;6;12;5;9;0;7;0;15;7;4;14;2;13;1;10;6;12;11;9;5;3;8;4;1;14;8;13;6;2;11;15;12;9;7;3;10;5;0;15;12;8;2;4;9;1;7;5;11;3;14;10;0;6;13|];
[|15;1;8;14;6;11;3;4;9;7;2;13;12;0;5;10;3;13;4;7;15;2;8;14;12;0;1;10;6;9;11;5;0;14;7;11;10;4;13;1;5;8;12;6;9;3;2;15;13;8;10;1;3;15;4;2;11;6;7;12;0;5;14;9|];
[|10;0;9;14;6;3;15;5;1;13;12;7;11;4;2;8;13;7;0;9;3;4;6;10;2;8;5;14;12;11;15;1;13;6;4;9;8;15;3;0;11;1;2;12;5;10;14;7;1;10;13;0;6;9;8;7;4;15;14;3;11;5;2;12|];
[|7;13;14;3;0;6;9;10;1;2;8;5;11;12;4;15;13;8;11;5;6;15;0;3;4;7;2;12;1;10;14;9;10;6;9;0;12;11;7;13;15;1;3;14;5;2;8;4;3;15;0;6;10;1;13;8;9;4;5;11;12;7;2;14|];
[|2;12;4;1;7;10;11;6;8;5;3;15;13;0;14;9;14;11;2;12;4;7;13;1;5;0;15;10;3;9;8;6;4;2;1;11;10;13;7;8;15;9;12;5;6;3;0;14;11;8;12;7;1;14;2;13;6;15;0;9;10;4;5;3|];
[|12;1;10;15;9;2;6;8;0;13;3;4;14;7;5;11;10;15;4;2;7;12;9;5;6;1;13;14;0;11;3;8;9;14;15;5;2;8;12;3;7;0;4;10;1;13;11;6;4;3;2;12;9;5;15;10;11;14;1;7;6;0;8;13|];
[|4;11;2;14;15;0;8;13;3;12;9;7;5;10;6;1;13;0;11;7;4;9;1;10;14;3;5;12;2;15;8;6;1;4;11;13;12;3;7;14;10;15;6;8;0;5;9;2;6;11;13;8;1;4;10;7;9;5;0;15;14;2;3;12|];
[|13;2;8;4;6;15;11;1;10;9;3;14;5;0;12;7;1;15;13;8;10;3;7;4;12;5;6;11;0;14;9;2;7;11;4;1;9;12;14;2;0;6;10;13;15;3;5;8;2;1;14;7;4;10;8;13;15;12;9;0;3;5;6;11|] |]
let bits_of s = Array.init (8 * String.length s) (fun i -> (byte s (i/8) lsr (7 - i land 7)) land 1)
let of_bits b = String.init (Array.length b / 8) (fun i -> let r = ref 0 in for j = 0 to 7 do r := (!r lsl 1) lor b.(8*i+j) done; Char.chr !r)
let perm t b = Array.map (fun i -> b.(i-1)) t
let des_keys key =
  let cd = perm des_pc1 (bits_of key) in
  let c = ref (Array.sub cd 0 28) and d = ref (Array.sub cd 28 28) in
  let rot a n = Array.init 28 (fun i -> a.((i+n) mod 28)) in
  Array.map (fun n -> c := rot !c n; d := rot !d n; perm des_pc2 (Array.append !c !d)) des_sh
let des_crypt keys blk =
  let b = perm des_ip (bits_of blk) in
  let l = ref (Array.sub b 0 32) and r = ref (Array.sub b 32 32) in
  Array.iter (fun k ->
    let e = perm des_e !r in
    let x = Array.mapi (fun i v -> v lxor k.(i)) e in
    let o = Array.make 32 0 in
    for s = 0 to 7 do
      let z i = x.(6*s+i) in
      let row = 2 * z 0 + z 5 and col = 8 * z 1 + 4 * z 2 + 2 * z 3 + z 4 in
      let v = des_s.(s).(16*row + col) in
      for j = 0 to 3 do o.(4*s+j) <- (v lsr (3-j)) land 1 done done;
    let f = perm des_p o in
    let nr = Array.mapi (fun i v -> v lxor f.(i)) !l in
    l := !r; r := nr) keys;
  of_bits (perm des_fp (Array.append !r !l))
let rev_arr a = let n = Array.length a in Array.init n (fun i -> a.(n-1-i))
let des_enc key = let k = des_keys key in des_crypt k
let des_dec key = let k = rev_arr (des_keys key) in des_crypt k
let tdes_parts key = String.sub key 0 8, String.sub key 8 8, if String.length key = 24 then String.sub key 16 8 else String.sub key 0 8
let tdes_enc key = let a,b,c = tdes_parts key in let e1 = des_enc a and d2 = des_dec b and e3 = des_enc c in fun x -> e3 (d2 (e1 x))
let tdes_dec key = let a,b,c = tdes_parts key in let d1 = des_dec a and e2 = des_enc b and d3 = des_dec c in fun x -> d1 (e2 (d3 x))

(* --- Blowfish, boxes from the digits of pi --- *)
let pi_words n =
  let prec = 32 * n + 64 in
  let one = Z.shift_left Z.one prec in
  let atan_inv k =
    let k2 = Z.of_int (k*k) in
    let rec go term i sign acc =
      if Z.equal term Z.zero then acc else
      let t = Z.div term (Z.of_int (2*i+1)) in
      go (Z.div term k2) (i+1) (-sign) (if sign > 0 then Z.add acc t else Z.sub acc t) in
    go (Z.div one (Z.of_int k)) 0 1 Z.zero in
  let pi = Z.mul (Z.of_int 4) (Z.sub (Z.mul (Z.of_int 4) (atan_inv 5)) (atan_inv 239)) in
  let frac = Z.sub pi (Z.mul (Z.of_int 3) one) in
  Array.init n (fun i -> Z.to_int (Z.extract frac (prec - 32*(i+1)) 32))
let bf_init = lazy (pi_words (18 + 1024))
let bf_key key =
  let pw = Lazy.force bf_init in
  let p = Array.sub pw 0 18 and s = Array.sub pw 18 1024 in
  let f x = u32 ((u32 (s.(x lsr 24) + s.(256 + (x lsr 16) land 255)) lxor s.(512 + (x lsr 8) land 255)) + s.(768 + x land 255)) in
  let enc l r =
    let l = ref l and r = ref r in
    for i = 0 to 15 do l := !l lxor p.(i); r := f !l lxor !r; let t = !l in l := !r; r := t done;
    let t = !l in l := !r; r := t;
    r := !r lxor p.(16); l := !l lxor p.(17); (!l, !r) in
  let kl = String.length key in
  for i = 0 to 17 do
    let w = ref 0 in for j = 0 to 3 do w := (!w lsl 8) lor byte key ((4*i+j) mod kl) done;
    p.(i) <- p.(i) lxor !w done;
  let l = ref 0 and r = ref 0 in
  for i = 0 to 8 do let a, b = enc !l !r in p.(2*i) <- a; p.(2*i+1) <- b; l := a; r := b done;
  for i = 0 to 511 do let a, b = enc !l !r in s.(2*i) <- a; s.(2*i+1) <- b; l := a; r := b done;
  p, s, f
let two l r = let b = Buffer.create 8 in add_be32 b l; add_be32 b r; Buffer.contents b
let bf_enc key =
  let p, _, f = bf_key key in
  fun blk ->
    let l = ref (be32 blk 0) and r = ref (be32 blk 4) in
    for i = 0 to 15 do l := !l lxor p.(i); r := f !l lxor !r; let t = !l in l := !r; r := t done;
    let t = !l in l := !r; r := t;
    two (!l lxor p.(17)) (!r lxor p.(16))
let bf_dec key =
  let p, _, f = bf_key key in
  fun blk ->
    let l = ref (be32 blk 0) and r = ref (be32 blk 4) in
    for i = 17 downto 2 do l := !l lxor p.(i); r := f !l lxor !r; let t = !l in l := !r; r := t done;
    let t = !l in l := !r; r := t;
    two (!l lxor p.(0)) (!r lxor p.(1))

(* --- RC4, ChaCha20 --- *)
let rc4_stream key n =
  let s = Array.init 256 (fun i -> i) in
  let j = ref 0 in
  for i = 0 to 255 do j := (!j + s.(i) + byte key (i mod String.length key)) land 255;
    let t = s.(i) in s.(i) <- s.(!j); s.(!j) <- t done;
  let i = ref 0 in j := 0;
  String.init n (fun _ -> i := (!i + 1) land 255; j := (!j + s.(!i)) land 255;
    let t = s.(!i) in s.(!i) <- s.(!j); s.(!j) <- t; Char.chr s.((s.(!i) + s.(!j)) land 255))
let chacha_block key iv ctr (* Z-free: ctr as int64 *) =
  let c = if String.length key = 32 then "expand 32-byte k" else "expand 16-byte k" in
  let key = if String.length key = 32 then key else key ^ key in
  let lo = Int64.to_int (Int64.logand ctr 0xFFFFFFFFL) and hi = Int64.to_int (Int64.shift_right_logical ctr 32) in
  let st = Array.concat [ Array.init 4 (fun i -> le32 c (4*i)); Array.init 8 (fun i -> le32 key (4*i));
    (if String.length iv = 8 then [| lo; hi; le32 iv 0; le32 iv 4 |] else [| lo; le32 iv 0; le32 iv 4; le32 iv 8 |]) ] in
  let x = Array.copy st in
  let q a b c d =
    x.(a) <- u32 (x.(a)+x.(b)); x.(d) <- rol32 (x.(d) lxor x.(a)) 16; x.(c) <- u32 (x.(c)+x.(d)); x.(b) <- rol32 (x.(b) lxor x.(c)) 12;
    x.(a) <- u32 (x.(a)+x.(b)); x.(d) <- rol32 (x.(d) lxor x.(a)) 8; x.(c) <- u32 (x.(c)+x.(d)); x.(b) <- rol32 (x.(b) lxor x.(c)) 7 in
  for _ = 1 to 10 do q 0 4 8 12; q 1 5 9 13; q 2 6 10 14; q 3 7 11 15; q 0 5 10 15; q 1 6 11 12; q 2 7 8 13; q 3 4 9 14 done;
  let b = Buffer.create 64 in Array.iteri (fun i v -> add_le32 b (u32 (v + st.(i)))) x; Buffer.contents b
let chacha_stream key iv ctr n =
  let b = Buffer.create (n + 64) in
  let i = ref ctr in
  while Buffer.length b < n do Buffer.add_string b (chacha_block key iv !i); i := Int64.succ !i done;
  Buffer.sub b 0 n

(* --- modes --- *)
let blocks bs s = List.init (String.length s / bs) (fun i -> String.sub s (i*bs) bs)
let ecb f bs s = String.concat "" (List.map f (blocks bs s))
let cbc_enc f bs iv s = let prev = ref iv in String.concat "" (List.map (fun b -> prev := f (xor_str b !prev); !prev) (blocks bs s))
let cbc_dec f bs iv s = let prev = ref iv in String.concat "" (List.map (fun b -> let r = xor_str (f b) !prev in prev := b; r) (blocks bs s))
let cfb f bs n ~enc iv s =
  let reg = ref iv in
  String.concat "" (List.map (fun b ->
    let o = xor_str b (f !reg) in
    let c = if enc then o else b in
    reg := String.sub !reg n (bs - n) ^ c; o) (blocks n s))
let ofb f n iv s = let reg = ref iv in
  String.concat "" (List.map (fun b -> reg := f !reg; xor_str b !reg) (blocks n s))
(* counter: the low [inc] bytes count modulo 2^(8 inc) *)
let ctr_incr inc c =
  let bs = String.length c in
  let b = Bytes.of_string c in
  let rec go i = if i >= bs - inc then begin
    let v = (Char.code (Bytes.get b i) + 1) land 255 in Bytes.set b i (Char.chr v); if v = 0 then go (i-1) end in
  go (bs - 1); Bytes.to_string b
let ctr f bs inc iv s =
  let c = ref iv in
  String.concat "" (List.map (fun b -> let r = xor_str b (f !c) in c := ctr_incr inc !c; r) (blocks bs s))
let pad_length bs s = let n = bs - String.length s mod bs in s ^ String.make n (Char.chr n)
let pad_x923 bs s = let n = bs - String.length s mod bs in s ^ String.make (n - 1) '\000' ^ String.make 1 (Char.chr n)
let toy_block enc key s =
  let n = String.length s in
  let k i = Char.code key.[i] + 7 * i in
  String.init n (fun i ->
    if enc then begin
      let j = (i + 1) mod n in
      let v = (Char.code s.[j] + k j) land 255 in
      Char.chr ((v lsl 3 lor (v lsr 5)) land 255) end
    else begin
      let j = (i + n - 1) mod n in
      let v = Char.code s.[j] in
      let v = (v lsr 3 lor (v lsl 5)) land 255 in
      Char.chr ((v - k i) land 255) end)
let pad_8000 bs s = let s = s ^ "\x80" in let r = String.length s mod bs in if r = 0 then s else s ^ String.make (bs - r) '\000'

(* --- MACs --- *)
let hmac h bs key s =
  let key = if String.length key > bs then h key else key in
  let key = key ^ String.make (bs - String.length key) '\000' in
  let x v = String.map (fun c -> Char.chr (Char.code c lxor v)) key in
  h (x 0x5c ^ h (x 0x36 ^ s))
let cbcmac f bs iv s = let c = cbc_enc f bs iv s in if c = "" then iv else String.sub c (String.length c - bs) bs
let cmac f iv s =
  let dbl x = let b = Array.init 16 (byte x) in
    let r = Array.init 16 (fun i -> ((b.(i) lsl 1) lor (if i < 15 then b.(i+1) lsr 7 else 0)) land 255) in
    if b.(0) land 0x80 <> 0 then r.(15) <- r.(15) lxor 0x87;
    String.init 16 (fun i -> Char.chr r.(i)) in
  let k1 = dbl (f (String.make 16 '\000')) in let k2 = dbl k1 in
  let n = String.length s in
  let nb = max 1 ((n + 15) / 16) in
  let lastlen = n - 16 * (nb - 1) in
  let last = String.sub s (16*(nb-1)) lastlen in
  let last = if lastlen = 16 then xor_str last k1 else xor_str (pad_8000 16 last) k2 in
  cbcmac f 16 iv (String.sub s 0 (16*(nb-1)) ^ last)

(* --- GHASH / GCM (bitwise, GF(2^128) as Z with reflected bits) --- *)
let gf_of s = (* bit i of the polynomial = bit i counted from the left *)
  let r = ref Z.zero in
  for i = 15 downto 0 do
    let b = byte s i in
    for j = 7 downto 0 do r := Z.add (Z.shift_left !r 1) (Z.of_int ((b lsr (7-j)) land 1)) done done;
  !r
let gf_to z = String.init 16 (fun i -> let v = ref 0 in
  for j = 0 to 7 do if Z.testbit z (8*i+j) then v := !v lor (1 lsl (7-j)) done; Char.chr !v)
let gf_poly = Z.add (Z.shift_left Z.one 128) (Z.of_int 0x87)
let gf_reduce z = let r = ref z in
  while Z.numbits !r > 128 do r := Z.logxor !r (Z.shift_left gf_poly (Z.numbits !r - 129)) done; !r
let gf_mul a b =
  let r = ref Z.zero in
  for i = 0 to Z.numbits b - 1 do if Z.testbit b i then r := Z.logxor !r (Z.shift_left a i) done;
  gf_reduce !r
let gf_inv a = (* a^(2^128-2) *)
  let r = ref Z.one and sq = ref a in
  for _ = 1 to 127 do sq := gf_mul !sq !sq; r := gf_mul !r !sq done; !r
let pad16 s = let r = String.length s land 15 in if r = 0 then s else s ^ String.make (16 - r) '\000'
let ghash h s = let hz = gf_of h in
  gf_to (List.fold_left (fun y b -> gf_mul (Z.logxor y (gf_of b)) hz) Z.zero (blocks 16 s))
let gcm_parts key iv =
  let f = aes_enc key in
  let h = f (String.make 16 '\000') in
  let j0 = if String.length iv = 12 then iv ^ "\000\000\000\001"
    else ghash h (pad16 iv ^ String.make 8 '\000' ^ be64_of_int (8 * String.length iv)) in
  f, h, j0
let gcm_ctr f j0 s =
  let n = String.length s in
  let p = pad16 s in
  String.sub (ctr f 16 4 (ctr_incr 4 j0) p) 0 n
let gcm_tag (f, h, j0) header c =
  xor_str (f j0) (ghash h (pad16 header ^ pad16 c ^ be64_of_int (8 * String.length header) ^ be64_of_int (8 * String.length c)))
let gcm_enc ~header ~iv key p = let (f, _, j0) as x = gcm_parts key iv in
  let c = gcm_ctr f j0 p in c, gcm_tag x header c
let gcm_dec ~header ~iv key c = let (f, _, j0) as x = gcm_parts key iv in gcm_ctr f j0 c, gcm_tag x header c
(* an IV of 16 bytes whose GCM pre-counter block is the given one *)
let gcm_iv_for_j0 key j0 =
  let h = gf_of (aes_enc key (String.make 16 '\000')) in
  let hi = gf_inv h in
  let len = gf_of (String.make 8 '\000' ^ be64_of_int 128) in
  gf_to (gf_mul (Z.logxor (gf_mul (gf_of j0) hi) len) hi)

(* --- Poly1305 / ChaCha20-Poly1305 --- *)
let z_le s = let r = ref Z.zero in for i = String.length s - 1 downto 0 do r := Z.add (Z.shift_left !r 8) (Z.of_int (byte s i)) done; !r
let z_to_le n z = String.init n (fun i -> Char.chr (Z.to_int (Z.extract z (8*i) 8)))
let p1305 = Z.sub (Z.shift_left Z.one 130) (Z.of_int 5)
let poly_r key = Z.logand (z_le (String.sub key 0 16)) (Z.of_string "0x0ffffffc0ffffffc0ffffffc0fffffff")
let poly1305 key s =
  let r = poly_r key in
  let sk = z_le (String.sub key 16 16) in
  let n = String.length s in
  let acc = ref Z.zero in
  for i = 0 to (n + 15) / 16 - 1 do
    let l = min 16 (n - 16*i) in
    acc := Z.rem (Z.mul (Z.add !acc (z_le (String.sub s (16*i) l ^ "\001"))) r) p1305 done;
  z_to_le 16 (Z.add !acc sk)
let chapoly_key key iv = String.sub (chacha_block key iv 0L) 0 32
let chapoly_tag ~header ~iv key c =
  poly1305 (chapoly_key key iv) (pad16 header ^ pad16 c ^ le64_of_int (String.length header) ^ le64_of_int (String.length c))
let chapoly_enc ~header ~iv key p = let c = xor_str p (chacha_stream key iv 1L (String.length p)) in c, chapoly_tag ~header ~iv key c
let chapoly_dec ~header ~iv key c = xor_str c (chacha_stream key iv 1L (String.length c)), chapoly_tag ~header ~iv key c
(* ciphertext (ending in a full block) that drives the Poly1305 accumulator to [target] at the end *)
let chapoly_ct_for ~header ~iv key prefix target =
  let k = chapoly_key key iv in
  let r = poly_r k in
  if Z.equal r Z.zero then None else
  let ri = Z.invert r p1305 in
  let total = String.length prefix + 16 in
  let blk s = z_le (s ^ "\001") in
  let acc = List.fold_left (fun a b -> Z.rem (Z.mul (Z.add a (blk b)) r) p1305) Z.zero (blocks 16 (pad16 header ^ prefix)) in
  let lens = blk (le64_of_int (String.length header) ^ le64_of_int total) in
  let x = Z.erem (Z.sub (Z.mul target ri) lens) p1305 in
  let b = Z.erem (Z.sub (Z.mul x ri) acc) p1305 in
  if Z.equal (Z.shift_right b 128) Z.one then Some (prefix ^ z_to_le 16 (Z.extract b 0 128)) else None

(* --- encodings --- *)
let hex s = String.concat "" (List.init (String.length s) (fun i -> Printf.sprintf "%02x" (byte s i)))
let b64_table = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
let b64_body ~pad s =
  let bits = Buffer.create 64 in
  let n = String.length s in
  let i = ref 0 in
  while !i < n do
    let l = min 3 (n - !i) in
    let v = ref 0 in
    for j = 0 to 2 do v := (!v lsl 8) lor (if j < l then byte s (!i+j) else 0) done;
    for j = 0 to l do Buffer.add_char bits b64_table.[(!v lsr (18 - 6*j)) land 63] done;
    if pad then Buffer.add_string bits (String.make (3 - l) '=');
    i := !i + 3 done;
  Buffer.contents bits

(* --- inflate --- *)
exception Inflate of string
exception Need_more
let lbase = [|3;4;5;6;7;8;9;10;11;13;15;17;19;23;27;31;35;43;51;59;67;83;99;115;131;163;195;227;258|]
and lext = [|0;0;0;0;0;0;0;0;1;1;1;1;2;2;2;2;3;3;3;3;4;4;4;4;5;5;5;5;0|]
and dbase = [|1;2;3;4;5;7;9;13;17;25;33;49;65;97;129;193;257;385;513;769;1025;1537;2049;3073;4097;6145;8193;12289;16385;24577|]
and dext = [|0;0;0;0;1;1;2;2;3;3;4;4;5;5;6;6;7;7;8;8;9;9;10;10;11;11;12;12;13;13|]
let len_tbl = Array.map2 (fun b e -> (b, e)) lbase lext
let dist_tbl = Array.map2 (fun b e -> (b, e)) dbase dext

let inflate_raw ?(start=0) ?(partial=false) s =
  let out = Buffer.create 1024 in
  let pos = ref (8 * start) in
  let nbits = 8 * String.length s in
  let bit () = if !pos >= nbits then raise Need_more; let v = (byte s (!pos lsr 3) lsr (!pos land 7)) land 1 in incr pos; v in
  let bits n = let r = ref 0 in for i = 0 to n-1 do r := !r lor (bit () lsl i) done; !r in
  let mk lens =
    let mx = 15 in
    let count = Array.make (mx+2) 0 in
    Array.iter (fun l -> if l > 0 then count.(l) <- count.(l) + 1) lens;
    let code = ref 0 in let next = Array.make (mx+2) 0 in
    for l = 1 to mx do code := (!code + (if l = 1 then 0 else count.(l-1))) lsl 1; next.(l) <- !code done;
    let h = Hashtbl.create 300 in
    Array.iteri (fun i l -> if l > 0 then begin Hashtbl.replace h (l, next.(l)) i; next.(l) <- next.(l) + 1 end) lens; h in
  let sym h = let rec go l c = if l > 15 then raise (Inflate "code") else
    let c = (c lsl 1) lor bit () in
    match Hashtbl.find_opt h (l, c) with Some v -> v | None -> go (l+1) c in go 1 0 in
  let fixed = lazy (mk (Array.init 288 (fun i -> if i < 144 then 8 else if i < 256 then 9 else if i < 280 then 7 else 8)), mk (Array.make 30 5)) in
  let rec codes lh dh =
    let v = sym lh in
    if v < 256 then (Buffer.add_char out (Char.chr v); codes lh dh)
    else if v > 256 then begin
      let v = v - 257 in if v >= 29 then raise (Inflate "len");
      let len = lbase.(v) + bits lext.(v) in
      let d = sym dh in if d >= 30 then raise (Inflate "dist");
      let dist = dbase.(d) + bits dext.(d) in
      if dist > Buffer.length out then raise (Inflate "far");
      for _ = 1 to len do Buffer.add_char out (Buffer.nth out (Buffer.length out - dist)) done;
      codes lh dh end in
  let rec block () =
    let final = bit () in
    (match bits 2 with
     | 0 -> pos := (!pos + 7) land (lnot 7);
       let len = bits 16 in let nlen = bits 16 in
       if len lxor nlen <> 0xFFFF then raise (Inflate "stored");
       for _ = 1 to len do Buffer.add_char out (Char.chr (bits 8)) done
     | 1 -> let a, b = Lazy.force fixed in codes a b
     | 2 ->
       let hlit = bits 5 + 257 in let hdist = bits 5 + 1 in let hclen = bits 4 + 4 in
       let order = [|16;17;18;0;8;7;9;6;10;5;11;4;12;3;13;2;14;1;15|] in
       let cl = Array.make 19 0 in
       for i = 0 to hclen - 1 do cl.(order.(i)) <- bits 3 done;
       let ch = mk cl in
       let lens = Array.make (hlit + hdist) 0 in
       let i = ref 0 in
       while !i < hlit + hdist do
         let v = sym ch in
         if v < 16 then (lens.(!i) <- v; incr i)
         else begin
           let prev, rep = match v with
             | 16 -> if !i = 0 then raise (Inflate "rep") else lens.(!i - 1), 3 + bits 2
             | 17 -> 0, 3 + bits 3 | _ -> 0, 11 + bits 7 in
           if !i + rep > hlit + hdist then raise (Inflate "rep");
           for _ = 1 to rep do lens.(!i) <- prev; incr i done end done;
       codes (mk (Array.sub lens 0 hlit)) (mk (Array.sub lens hlit hdist))
     | _ -> raise (Inflate "btype"));
    if final = 0 then block () in
  let complete = (try block (); true with Need_more when partial -> false) in
  (Buffer.contents out, complete, (!pos + 7) / 8)
let adler32 s = let a = ref 1 and b = ref 0 in
  String.iter (fun c -> a := (!a + Char.code c) mod 65521; b := (!b + !a) mod 65521) s; (!b lsl 16) lor !a
(* everything decodable from a (possibly unfinished) stream; checks header and trailer *)
let crc32 s =
  let c = ref 0xffffffff in
  String.iter (fun ch -> c := !c lxor Char.code ch;
    for _ = 1 to 8 do c := if !c land 1 = 1 then (!c lsr 1) lxor 0xedb88320 else !c lsr 1 done) s;
  !c lxor 0xffffffff
let inflate ~header ?(partial=false) s =
  if not header then inflate_raw ~partial s
  else begin
    if String.length s < 2 then (if partial then ("", false, 0) else raise Need_more) else begin
      if byte s 0 land 15 <> 8 || byte s 0 lsr 4 > 7 || ((byte s 0 lsl 8) lor byte s 1) mod 31 <> 0 || byte s 1 land 0x20 <> 0 then raise (Inflate "header");
      let o, c, p = inflate_raw ~start:2 ~partial s in
      if not c then (o, false, p)
      else if String.length s < p + 4 then (if partial then (o, false, p) else raise Need_more)
      else if be32 s p <> adler32 o then raise (Inflate "adler") else (o, true, p + 4) end end

(* --- big numbers as byte strings --- *)
let z_be s = let r = ref Z.zero in String.iter (fun c -> r := Z.add (Z.shift_left !r 8) (Z.of_int (Char.code c))) s; !r
let z_to_be n z = String.init n (fun i -> Char.chr (Z.to_int (Z.extract z (8*(n-1-i)) 8)))
let derive_key diversification secret n =
  let b = Buffer.create (n+32) in
  let i = ref 1 in
  while Buffer.length b < n do Buffer.add_string b (sha256 (diversification ^ secret ^ string_of_int !i)); incr i done;
  Buffer.sub b 0 n
(* AES-128-CTR keystream from counter 0, for the AES pseudo-RNG *)
let aes_ctr_stream key n = let f = aes_enc key in
  let c = ref (String.make 16 '\000') in
  let b = Buffer.create (n+16) in
  while Buffer.length b < n do Buffer.add_string b (f !c); c := ctr_incr 16 !c done; Buffer.sub b 0 n
let pseudo_rng_stream seed n =
  let l = String.length seed in
  let key = if l >= 32 then String.sub seed 0 32 else if l > 16 then seed ^ String.make (32-l) '\000' else seed in
  chacha_stream key (String.make 8 '\000') 0L n
