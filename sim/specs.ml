(* What the simulated clients do: specifications of every transform, hash,
   MAC and authenticated transform of the library, each with its reference. *)
open Cryptokit
open S

let zeros n = String.make n '\000'

type flushk = No_flush | Flush_any | Flush_at of int   (* legal only at multiples of this many input bytes *)
type tspec = {
  tname : string;
  make : unit -> transform;
  input : string;                     (* what the producer will send *)
  expect : string;                    (* what must come out, in total *)
  bs : int;                           (* input granularity required at finish *)
  fl : flushk;
  secrets : string list;              (* for wipe *)
}

(* ---------- block ciphers ---------- *)
type bc = { bname : string; bsz : int; key : string; benc : string -> string; bdec : string -> string;
            raw : bool -> Block.block_cipher;
            mk : ?mode:Cipher.chaining_mode -> ?pad:Padding.scheme -> ?iv:string -> string -> Cipher.direction -> transform }
(* a block cipher of the caller's own: the modes and paddings work over any *)
class user_block enc key bsz : Block.block_cipher = object
  val k = Bytes.of_string key
  method blocksize = bsz
  method wipe = Bytes.fill k 0 bsz '\000'
  method transform src so dst d_o =
    if so < 0 || d_o < 0 || so > Bytes.length src - bsz || d_o > Bytes.length dst - bsz then invalid_arg "user_block";
    Bytes.blit_string (Refm.toy_block enc (Bytes.to_string k) (Bytes.sub_string src so bsz)) 0 dst d_o bsz
end
class user_pad : Padding.scheme = object
  method pad b used =
    let n = Bytes.length b - used in
    Bytes.fill b used n '\000'; Bytes.set b (Bytes.length b - 1) (Char.chr n)
  method strip b =
    let l = Bytes.length b in
    let n = Char.code (Bytes.get b (l - 1)) in
    if n = 0 || n > l then raise (Error Bad_padding);
    for i = l - n to l - 2 do if Bytes.get b i <> '\000' then raise (Error Bad_padding) done;
    l - n
end
let user_padding : Padding.scheme = new user_pad
let assemble_ref : (bc -> Cipher.chaining_mode option -> string option -> bool -> Block.block_cipher) ref = ref (fun _ _ _ _ -> assert false)
let block_cipher ?(user = false) () =
  match draw (if user then 5 else 4) with
  | 4 -> let bsz = pick [|2;3;5;7;8;12;16;20;24;32;64;200|] in
    let key = key_bytes bsz in
    let raw e = new user_block e key bsz in
    let rec c = { bname = Printf.sprintf "user%d" (8 * bsz); bsz; key; benc = Refm.toy_block true key; bdec = Refm.toy_block false key; raw;
      mk = (fun ?mode ?pad ?iv _ dir ->
        let e = dir = Cipher.Encrypt in
        let b = !assemble_ref c mode iv e in
        match pad with None -> new Block.cipher b
        | Some p -> if e then new Block.cipher_padded_encrypt p b else new Block.cipher_padded_decrypt p b) } in c
  | 0 -> let key = key_bytes (pick [|16;24;32|]) in
    { bname = Printf.sprintf "aes%d" (8 * String.length key); bsz = 16; key; benc = Refm.aes_enc key; bdec = Refm.aes_dec key; raw = (fun e -> if e then new Block.aes_encrypt key else new Block.aes_decrypt key); mk = Cipher.aes }
  | 1 -> let key = key_bytes 8 in { bname = "des"; bsz = 8; key; benc = Refm.des_enc key; bdec = Refm.des_dec key; raw = (fun e -> if e then new Block.des_encrypt key else new Block.des_decrypt key); mk = Cipher.des }
  | 2 -> let key = key_bytes (pick [|16;24|]) in
    { bname = "3des"; bsz = 8; key; benc = Refm.tdes_enc key; bdec = Refm.tdes_dec key; raw = (fun e -> if e then new Block.triple_des_encrypt key else new Block.triple_des_decrypt key); mk = Cipher.triple_des }
  | _ -> let key = key_bytes (range 4 56) in
    { bname = "blowfish"; bsz = 8; key; benc = Refm.bf_enc key; bdec = Refm.bf_dec key; raw = (fun e -> if e then new Block.blowfish_encrypt key else new Block.blowfish_decrypt key); mk = Cipher.blowfish }

let gen_iv bs = match draw 5 with
  | 0 -> None
  | 1 -> Some (String.make bs '\255')
  | 2 -> let k = draw bs in Some (prng_string (draw 0xffffff) (bs - k) ^ String.make k '\255')
  | 3 -> let k = range 1 (min 4 bs) in Some (prng_string (draw 0xffffff) (bs - k) ^ String.make (k-1) '\255' ^ String.make 1 (Char.chr (256 - range 1 9)))
  | _ -> Some (prng_string (draw 0xffffff) bs)

let mode_name = function Cipher.ECB -> "ECB" | CBC -> "CBC" | CFB n -> Printf.sprintf "CFB%d" n | OFB n -> Printf.sprintf "OFB%d" n
  | CTR -> "CTR" | CTR_N n -> Printf.sprintf "CTR_N%d" n

let gen_mode bs = match draw 7 with
  | 0 | 1 -> None
  | 2 -> Some Cipher.ECB
  | 3 -> Some (Cipher.CFB (range 1 bs))
  | 4 -> Some (Cipher.OFB (range 1 bs))
  | 5 -> Some Cipher.CTR
  | _ -> Some (Cipher.CTR_N (range 1 bs))

let ref_mode c mode iv enc s =
  let iv = match iv with None -> zeros c.bsz | Some v -> v in
  match mode with
  | None | Some Cipher.CBC -> if enc then Refm.cbc_enc c.benc c.bsz iv s else Refm.cbc_dec c.bdec c.bsz iv s
  | Some Cipher.ECB -> Refm.ecb (if enc then c.benc else c.bdec) c.bsz s
  | Some (Cipher.CFB n) -> Refm.cfb c.benc c.bsz n ~enc iv s
  | Some (Cipher.OFB n) -> Refm.ofb c.benc n iv s
  | Some Cipher.CTR -> Refm.ctr c.benc c.bsz c.bsz iv s
  | Some (Cipher.CTR_N n) -> Refm.ctr c.benc c.bsz n iv s

(* the same transform put together from the building blocks *)
let assemble c mode iv enc : Block.block_cipher =
  match mode with
  | None | Some Cipher.CBC -> if enc then new Block.cbc_encrypt ?iv (c.raw true) else new Block.cbc_decrypt ?iv (c.raw false)
  | Some Cipher.ECB -> c.raw enc
  | Some (Cipher.CFB n) -> if enc then new Block.cfb_encrypt ?iv n (c.raw true) else new Block.cfb_decrypt ?iv n (c.raw true)
  | Some (Cipher.OFB n) -> new Block.ofb ?iv n (c.raw true)
  | Some Cipher.CTR -> new Block.ctr ?iv (c.raw true)
  | Some (Cipher.CTR_N n) -> new Block.ctr ?iv ~inc:n (c.raw true)

let () = assemble_ref := assemble

let big () = if !tape_mode = 0 && draw 150 = 149 then pick [|65535;65536;65537;66000;131072;140000;262144;300000|] else 0

let block_spec ?(max = 4000) () =
  let c = block_cipher ~user:true () in
  let mode = gen_mode c.bsz in
  let iv = gen_iv c.bsz in
  let enc = draw 2 = 0 in
  let dir = if enc then Cipher.Encrypt else Cipher.Decrypt in
  let gran = match mode with Some (Cipher.CFB n) | Some (Cipher.OFB n) -> n | _ -> c.bsz in
  (* the DES-family and CFB/OFB references are slow; keep those short *)
  let max = if c.bname = "des" || c.bname = "3des" || gran < c.bsz then min max 700 else max in
  let max = match mode with Some (Cipher.CTR_N 1) -> min max (254 * c.bsz) | _ -> max in
  let pad = match draw 7 with 0 | 1 -> None | 2 | 3 -> Some (Padding.length, Refm.pad_length) | 4 -> Some (user_padding, Refm.pad_x923) | _ -> Some (Padding._8000, Refm.pad_8000) in
  let pad = match mode with Some (Cipher.CTR_N 1) -> None | _ -> pad in
  let name = Printf.sprintf "%s/%s/%s/%s" c.bname (match mode with None -> "CBC(default)" | Some m -> mode_name m)
      (match pad with None -> "nopad" | Some (p, _) -> if p == Padding.length then "length" else if p == user_padding then "x923" else "8000") (if enc then "enc" else "dec") in
  let n = if c.bname = "aes128" && gran = 16 && max > 2000 && (match mode with Some (Cipher.CTR_N 1) -> false | _ -> true) then (match big () with 0 -> size max | n -> n) else size max in
  let n = match mode with Some (Cipher.CTR_N 1) -> min n max | _ -> n in
  let parts = draw 5 = 4 in
  match pad with
  | None ->
    let n = n - n mod gran in
    let input = data n in
    { tname = name; make = (fun () -> if parts then new Block.cipher (assemble c mode iv enc) else c.mk ?mode ?iv c.key dir); input; expect = ref_mode c mode iv enc input; bs = gran; fl = Flush_at gran; secrets = [] }
  | Some (p, rp) ->
    let plain = data n in
    let ct = ref_mode c mode iv true (rp gran plain) in
    if enc then { tname = name; make = (fun () -> if parts then new Block.cipher_padded_encrypt p (assemble c mode iv true) else c.mk ?mode ~pad:p ?iv c.key dir); input = plain; expect = ct; bs = 1; fl = Flush_at gran; secrets = [] }
    else { tname = name; make = (fun () -> if parts then new Block.cipher_padded_decrypt p (assemble c mode iv false) else c.mk ?mode ~pad:p ?iv c.key dir); input = ct; expect = plain; bs = 1; fl = Flush_at gran; secrets = [] }

(* ---------- stream ciphers ---------- *)
let chacha_params () =
  let key = key_bytes (pick [|32;16|]) in
  let iv = match draw 3 with 0 -> None | 1 -> Some (prng_string (draw 0xffffff) 8) | _ -> Some (prng_string (draw 0xffffff) 12) in
  let ctr = match draw 5, iv with
    | 0, _ -> None
    | 1, _ -> Some (Int64.of_int (draw 100))
    | 2, Some s when String.length s = 12 -> Some (Int64.of_int (0xFFFFFF - draw 10))
    | 2, _ -> Some (Int64.sub 0x1_0000_0000L (Int64.of_int (range 1 4)))
    | 3, Some s when String.length s = 12 -> Some (Int64.of_int (draw 0xFFFFFF))
    | 3, _ -> Some (Int64.of_int (draw 0x3fffffff))
    | _, Some s when String.length s = 12 -> None
    | _, _ -> Some (Int64.logor (Int64.shift_left (Int64.of_int (draw 0x3fffffff)) 32) 0xFFFFFFFEL) in
  key, iv, ctr
let stream_spec ?(max = 6000) () =
  let dir = if draw 2 = 0 then Cipher.Encrypt else Cipher.Decrypt in
  let input = data (match (if max > 2000 then big () else 0) with 0 -> size max | n -> n) in
  let n = String.length input in
  let parts = draw 5 = 4 in
  if draw 2 = 0 then begin
    let key = key_bytes (match draw 3 with 0 -> 16 | 1 -> range 1 256 | _ -> pick [|1;5;255;256|]) in
    { tname = "arcfour"; make = (fun () -> if parts then new Stream.cipher (new Stream.arcfour key) else Cipher.arcfour key dir); input; expect = Refm.xor_str input (Refm.rc4_stream key n); bs = 1; fl = Flush_any; secrets = [] }
  end else begin
    let key, iv, ctr = chacha_params () in
    let riv = match iv with None -> zeros 8 | Some s -> s in
    let rctr = match ctr with None -> 0L | Some c -> c in
    { tname = Printf.sprintf "chacha20/%d" (String.length riv); make = (fun () -> if parts then new Stream.cipher (new Stream.chacha20 ?iv ?ctr key) else Cipher.chacha20 ?iv ?ctr key dir); input;
      expect = Refm.xor_str input (Refm.chacha_stream key riv rctr n); bs = 1; fl = Flush_any; secrets = [] }
  end

(* ---------- encodings ---------- *)
let sprinkle s =
  if draw 2 = 0 then s else begin
    let b = Buffer.create (2 * String.length s) in
    let seed = draw 0xffffff in
    let r = prng_string seed (String.length s + 1) in
    String.iteri (fun i c -> if Char.code r.[i] < 20 then Buffer.add_char b " \t\n\r".[Char.code r.[i] land 3]; Buffer.add_char b c) s;
    Buffer.contents b end
let enc_spec ?(max = 3000) () =
  let plain = data (size max) in
  match draw 6 with
  | 0 -> { tname = "hex-enc"; make = Hexa.encode; input = plain; expect = Refm.hex plain; bs = 1; fl = Flush_any; secrets = [] }
  | 1 -> let h = Refm.hex plain in
    let h = if draw 2 = 0 then h else String.mapi (fun i c -> if i land 3 = 1 then Char.uppercase_ascii c else c) h in
    { tname = "hex-dec"; make = Hexa.decode; input = sprinkle h; expect = plain; bs = 1; fl = No_flush; secrets = [] }
  | 2 -> { tname = "b64-compact"; make = Base64.encode_compact; input = plain; expect = Refm.b64_body ~pad:false plain; bs = 1; fl = No_flush; secrets = [] }
  | 3 -> { tname = "b64-compact-pad"; make = Base64.encode_compact_pad; input = plain; expect = Refm.b64_body ~pad:true plain; bs = 1; fl = No_flush; secrets = [] }
  | 4 -> (* line structure is checked by the session; here: the one-shot text without newlines *)
    { tname = "b64-multiline"; make = Base64.encode_multiline; input = plain; expect = Refm.b64_body ~pad:true plain; bs = 1; fl = No_flush; secrets = [] }
  | _ -> { tname = "b64-dec"; make = Base64.decode; input = sprinkle (Refm.b64_body ~pad:(draw 2 = 0) plain); expect = plain; bs = 1; fl = No_flush; secrets = [] }

(* ---------- compositions ---------- *)
(* second stage applied, by reference, to the expected output of the first *)
let over make name f bs fl t = { tname = t.tname ^ ">" ^ name; make = (fun () -> compose (t.make ()) (make ())); input = t.input; expect = f t.expect; bs = t.bs;
    fl = (match t.fl, fl with Flush_any, Flush_any -> Flush_any | Flush_at n, Flush_any -> Flush_at n | _ -> No_flush); secrets = t.secrets }
let rec compose_spec depth =
  let first = match draw 3 with 0 -> block_spec ~max:1500 () | 1 -> stream_spec ~max:1500 () | _ ->
    let rec go () = let t = enc_spec ~max:1500 () in if t.tname = "b64-multiline" then go () else t in go () in
  let stage t =
    match draw 5 with
    | 0 -> over Hexa.encode "hex" Refm.hex 1 Flush_any t
    | 1 -> over Base64.encode_compact_pad "b64" (Refm.b64_body ~pad:true) 1 No_flush t
    | 2 -> let key, iv, ctr = chacha_params () in
      let riv = match iv with None -> zeros 8 | Some s -> s and rctr = match ctr with None -> 0L | Some c -> c in
      over (fun () -> Cipher.chacha20 ?iv ?ctr key Cipher.Encrypt) "chacha" (fun s -> Refm.xor_str s (Refm.chacha_stream key riv rctr (String.length s))) 1 Flush_any t
    | 3 -> let key = key_bytes 16 in let iv = prng_string (draw 0xffffff) 16 in
      let f = Refm.aes_enc key in
      over (fun () -> Cipher.aes ~pad:Padding.length ~iv key Cipher.Encrypt) "aescbc" (fun s -> Refm.cbc_enc f 16 iv (Refm.pad_length 16 s)) 1 No_flush t
    | _ -> let key = key_bytes 16 in
      over (fun () -> Cipher.arcfour key Cipher.Encrypt) "rc4" (fun s -> Refm.xor_str s (Refm.rc4_stream key (String.length s))) 1 Flush_any t in
  let t = stage first in
  if depth > 1 && draw 2 = 1 then stage t else t

let transform_spec () = match draw 8 with
  | 0 | 1 | 2 | 3 -> block_spec () | 4 -> stream_spec () | 5 | 6 -> enc_spec () | _ -> compose_spec 2

(* ---------- hashes and MACs ---------- *)
type hspec = { hname : string; hmake : unit -> hash; hinput : string; hexpect : string; hgran : int }
let gen_hash_plain () =
  match draw 16 with
  | 0 -> "sha1", Hash.sha1, Refm.sha1
  | 1 -> "sha224", Hash.sha224, Refm.sha224
  | 2 -> "sha256", Hash.sha256, Refm.sha256
  | 3 -> "sha384", Hash.sha384, Refm.sha384
  | 4 -> "sha512", Hash.sha512, Refm.sha512
  | 5 -> let n = pick [|224;256;384;512|] in Printf.sprintf "sha2-%d" n, (fun () -> Hash.sha2 n),
       (match n with 224 -> Refm.sha224 | 256 -> Refm.sha256 | 384 -> Refm.sha384 | _ -> Refm.sha512)
  | 6 | 7 -> let n = pick [|224;256;384;512|] in Printf.sprintf "sha3-%d" n, (fun () -> Hash.sha3 n), Refm.sha3 n
  | 8 -> let n = pick [|224;256;384;512|] in Printf.sprintf "keccak-%d" n, (fun () -> Hash.keccak n), Refm.keccak n
  | 9 -> "ripemd160", Hash.ripemd160, Refm.ripemd160
  | 10 -> "md5", Hash.md5, Refm.md5
  | 11 -> let n = range 1 64 in Printf.sprintf "blake2b-%d" (8*n), (fun () -> Hash.blake2b (8*n)), Refm.blake2b n ""
  | 12 -> let n = range 1 32 in Printf.sprintf "blake2s-%d" (8*n), (fun () -> Hash.blake2s (8*n)), Refm.blake2s n ""
  | 13 -> (match draw 2 with 0 -> "blake2b512", Hash.blake2b512, Refm.blake2b 64 "" | _ -> "blake2s256", Hash.blake2s256, Refm.blake2s 32 "")
  | _ -> let n = match draw 3 with 0 -> 32 | 1 -> range 1 64 | _ -> range 65 300 in
    Printf.sprintf "blake3-%d" (8*n), (fun () -> Hash.blake3 (8*n)), Refm.blake3 n ""
let gen_mac () =
  let hk bs = key_bytes (match draw 3 with 0 -> range 0 bs | 1 -> pick [|bs-1; bs; bs+1|] | _ -> range (bs+1) (3*bs)) in
  match draw 14 with
  | 0 -> let k = hk 64 in "hmac-sha1", (fun () -> MAC.hmac_sha1 k), Refm.hmac Refm.sha1 64 k, 1
  | 1 -> let k = hk 64 in "hmac-sha256", (fun () -> MAC.hmac_sha256 k), Refm.hmac Refm.sha256 64 k, 1
  | 2 -> let k = hk 128 in "hmac-sha384", (fun () -> MAC.hmac_sha384 k), Refm.hmac Refm.sha384 128 k, 1
  | 3 -> let k = hk 128 in "hmac-sha512", (fun () -> MAC.hmac_sha512 k), Refm.hmac Refm.sha512 128 k, 1
  | 4 -> let k = hk 64 in "hmac-ripemd160", (fun () -> MAC.hmac_ripemd160 k), Refm.hmac Refm.ripemd160 64 k, 1
  | 5 -> let k = hk 64 in "hmac-md5", (fun () -> MAC.hmac_md5 k), Refm.hmac Refm.md5 64 k, 1
  | 6 -> let n = range 1 64 in let k = key_bytes (range 0 64) in Printf.sprintf "mac-blake2b-%d" (8*n), (fun () -> if n = 64 then MAC.blake2b512 k else MAC.blake2b (8*n) k), Refm.blake2b n k, 1
  | 7 -> let n = range 1 32 in let k = key_bytes (range 0 32) in Printf.sprintf "mac-blake2s-%d" (8*n), (fun () -> if n = 32 then MAC.blake2s256 k else MAC.blake2s (8*n) k), Refm.blake2s n k, 1
  | 8 -> let n = range 1 100 in let k = key_bytes 32 in Printf.sprintf "mac-blake3-%d" (8*n), (fun () -> if n = 32 then MAC.blake3_256 k else MAC.blake3 (8*n) k), Refm.blake3 n k, 1
  | 9 -> let k = key_bytes (pick [|16;24;32|]) in
    let iv = gen_iv 16 in
    let riv = match iv with None -> zeros 16 | Some v -> v in "aes-cmac", (fun () -> MAC.aes_cmac ?iv k), Refm.cmac (Refm.aes_enc k) riv, 1
  | 10 -> let k = key_bytes 16 in if draw 2 = 0 then "siphash", (fun () -> MAC.siphash k), Refm.siphash 8 k, 1 else "siphash128", (fun () -> MAC.siphash128 k), Refm.siphash 16 k, 1
  | n ->
    let iv8 = gen_iv 8 in
    let riv8 = match iv8 with None -> zeros 8 | Some v -> v in
    let pad, rp, gran = match draw 3 with 0 -> None, (fun _ s -> s), 0 | 1 -> Some Padding.length, Refm.pad_length, 1 | _ -> Some Padding._8000, Refm.pad_8000, 1 in
    let g bs = if gran = 0 then bs else 1 in
    let parts = draw 5 = 4 in
    (match n, draw 2 with
     | 11, _ -> let k = key_bytes (pick [|16;24;32|]) in
       let iv = gen_iv 16 in let riv = match iv with None -> zeros 16 | Some v -> v in
       "mac-aes", (fun () -> if parts then new Block.mac ?iv ?pad (new Block.aes_encrypt k) else MAC.aes ?iv ?pad k), (fun s -> Refm.cbcmac (Refm.aes_enc k) 16 riv (rp 16 s)), g 16
     | 12, 0 -> let k = key_bytes 8 in "mac-des", (fun () -> if parts then new Block.mac ?iv:iv8 ?pad (new Block.des_encrypt k) else MAC.des ?iv:iv8 ?pad k), (fun s -> Refm.cbcmac (Refm.des_enc k) 8 riv8 (rp 8 s)), g 8
     | 12, _ -> let k = key_bytes (pick [|16;24|]) in "mac-3des", (fun () -> if parts then new Block.mac ?iv:iv8 ?pad (new Block.triple_des_encrypt k) else MAC.triple_des ?iv:iv8 ?pad k), (fun s -> Refm.cbcmac (Refm.tdes_enc k) 8 riv8 (rp 8 s)), g 8
     | _, _ -> let k = key_bytes (pick [|16;24|]) in
       let a, b, c = Refm.tdes_parts k in
       let e1 = Refm.des_enc a and d2 = Refm.des_dec b and e3 = Refm.des_enc c in
       "mac-des-final-3des", (fun () -> if parts then new Block.mac_final_triple ?iv:iv8 ?pad (new Block.des_encrypt a) (new Block.des_decrypt b) (new Block.des_encrypt c) else MAC.des_final_triple_des ?iv:iv8 ?pad k), (fun s -> e3 (d2 (Refm.cbcmac e1 8 riv8 (rp 8 s)))), g 8)
let hash_spec ?(max = 5000) () =
  if draw 2 = 0 then begin
    let n, mk, r = gen_hash_plain () in
    let input = data (match (if max > 2000 then big () else 0) with k when k > 0 -> k | _ -> size (if String.length n > 6 && String.sub n 0 6 = "blake3" && draw 4 = 3 then 20000 else max)) in
    { hname = n; hmake = mk; hinput = input; hexpect = r input; hgran = 1 } end
  else begin
    let n, mk, r, g = gen_mac () in
    let max = if n = "mac-des" || n = "mac-3des" || n = "mac-des-final-3des" then 500 else max in
    let len = size max in let len = len - len mod g in
    let input = data len in
    { hname = n; hmake = mk; hinput = input; hexpect = r input; hgran = g } end

(* ---------- authenticated transforms ---------- *)
type aspec = { aname : string; amake : unit -> authenticated_transform; ainput : string; aout : string; atag : string; atagsize : int;
               adec : (unit -> authenticated_transform) option }   (* matching decryptor of an encryptor *)
let gcm_iv key = match draw 6 with
  | 0 -> prng_string (draw 0xffffff) 12
  | 1 -> String.make 12 '\255'
  | 2 -> (* pre-counter block chosen by the adversary: 32-bit counter about to wrap *)
    let low = 0xFFFFFFFF - draw 40 in
    Refm.gcm_iv_for_j0 key (prng_string (draw 0xffffff) 12 ^ (let b = Buffer.create 4 in Refm.add_be32 b low; Buffer.contents b))
  | 3 -> prng_string (draw 0xffffff) (range 1 11)
  | 4 -> prng_string (draw 0xffffff) (range 13 80)
  | _ -> prng_string (draw 0xffffff) 16
let aad () = match draw 3 with
  | 0 -> ""
  | 1 -> data (range 1 40)
  | _ -> if draw 16 = 15 then (probe "large-header"; data (range 4000 70000)) else data (size 300)
(* ciphertexts for which the accumulator of Poly1305 ends at an extreme value: next to 0, p or
   2^128, or just above a limb boundary so that the unreduced form carries (up to 2^130) *)
let poly_extreme ~header ~iv key =
  let two k = Z.shift_left Z.one k in
  let small () = Z.add (Z.shift_left (Z.of_int (draw 0x100000)) (draw 27)) (Z.of_int (draw 8)) in
  let target = match draw 5 with
    | 0 -> Z.of_int (draw 8)
    | 1 -> Z.sub Refm.p1305 (Z.of_int (range 1 8))
    | 2 -> Z.sub (two 128) (Z.of_int (draw 3))
    | 3 -> small ()
    | _ -> let b = pick [|44;88;88|] in
      Z.erem (Z.add (Z.shift_left (Z.of_int (draw 0x3fffffff)) b) (small ())) Refm.p1305 in
  let rec go i = if i > 12 then None else
    match Refm.chapoly_ct_for ~header ~iv key (prng_string (1000 + i) (16 * draw 3)) target with Some c -> probe "poly1305-extreme"; Some c | None -> go (i+1) in
  go 0
let aead_spec ?(max = 2500) () =
  let header = aad () in
  let hopt = if header = "" && draw 2 = 0 then None else Some header in
  let enc = draw 2 = 0 in
  match draw 5 with
  | 0 | 1 ->
    let key = key_bytes (pick [|16;24;32|]) in
    let iv = gcm_iv key in
    let input = data (size max) in
    let out, tag = (if enc then Refm.gcm_enc else Refm.gcm_dec) ~header ~iv key input in
    { aname = Printf.sprintf "aes-gcm/iv%d/%s" (String.length iv) (if enc then "enc" else "dec");
      amake = (fun () -> AEAD.aes_gcm ?header:hopt ~iv key (if enc then AEAD.Encrypt else AEAD.Decrypt)); ainput = input; aout = out; atag = tag; atagsize = 16;
      adec = if enc then Some (fun () -> AEAD.aes_gcm ?header:hopt ~iv key AEAD.Decrypt) else None }
  | 2 | 3 ->
    let key = key_bytes (pick [|32;16|]) in
    let iv = if draw 2 = 0 then prng_string (draw 0xffffff) 12 else prng_string (draw 0xffffff) 8 in
    let input =
      if (not enc) && !tape_mode = 0 && draw 3 = 2 then begin
        match poly_extreme ~header ~iv key with Some c -> c | None -> data (size max)
      end else data (size max) in
    let out, tag = (if enc then Refm.chapoly_enc else Refm.chapoly_dec) ~header ~iv key input in
    { aname = Printf.sprintf "chapoly/iv%d/%s" (String.length iv) (if enc then "enc" else "dec");
      amake = (fun () -> AEAD.chacha20_poly1305 ?header:hopt ~iv key (if enc then AEAD.Encrypt else AEAD.Decrypt)); ainput = input; aout = out; atag = tag; atagsize = 16;
      adec = if enc then Some (fun () -> AEAD.chacha20_poly1305 ?header:hopt ~iv key AEAD.Decrypt) else None }
  | _ ->
    let rec t () = let t = if draw 2 = 0 then block_spec ~max:1500 () else stream_spec ~max:1500 () in t in
    let t = t () in
    let hn, hm, hr = if draw 2 = 0 then gen_hash_plain () else
        (let rec go () = let n, mk, r, g = gen_mac () in if g <> 1 then go () else (n, mk, r) in go ()) in
    if draw 2 = 0 then
      let tag = hr t.expect in
      { aname = "then_hash/" ^ t.tname ^ "/" ^ hn; amake = (fun () -> transform_then_hash (t.make ()) (hm ())); ainput = t.input; aout = t.expect; atag = tag; atagsize = String.length tag; adec = None }
    else
      let tag = hr t.input in
      { aname = "and_hash/" ^ t.tname ^ "/" ^ hn; amake = (fun () -> transform_and_hash (t.make ()) (hm ())); ainput = t.input; aout = t.expect; atag = tag; atagsize = String.length tag; adec = None }
