(* Parties exchanging protected messages over a network the simulator owns. *)
open Cryptokit
open S
open Specs

(* what a party believes about the association; the adversary may make the
   receiver's copy differ from the sender's *)
type ctx = { kind : string; key : string; mkey : string; iv : string; header : string;
             seal : ctx -> authenticated_transform; unseal : ctx -> authenticated_transform;
             ref_seal : ctx -> string -> string * string;           (* text, tag *)
             ref_open : ctx -> string -> string -> [ `Ok of string | `Bad | `Malformed ];
             strict : bool;                        (* AEAD: never an exception on bad input *)
             tagsize : int }

let hopt h = if h = "" then None else Some h
let gcm () =
  let key = key_bytes (pick [|16;24;32|]) in
  { kind = "aes-gcm"; key; mkey = ""; iv = gcm_iv key; header = aad ();
    seal = (fun c -> AEAD.aes_gcm ?header:(hopt c.header) ~iv:c.iv c.key AEAD.Encrypt);
    unseal = (fun c -> AEAD.aes_gcm ?header:(hopt c.header) ~iv:c.iv c.key AEAD.Decrypt);
    ref_seal = (fun c m -> Refm.gcm_enc ~header:c.header ~iv:c.iv c.key m);
    ref_open = (fun c x t -> let m, t' = Refm.gcm_dec ~header:c.header ~iv:c.iv c.key x in if t = t' then `Ok m else `Bad);
    strict = true; tagsize = 16 }
let chapoly () =
  { kind = "chapoly"; key = key_bytes (pick [|32;16|]); mkey = ""; iv = prng_string (draw 0xffffff) (pick [|12;8|]);
    header = aad ();
    seal = (fun c -> AEAD.chacha20_poly1305 ?header:(hopt c.header) ~iv:c.iv c.key AEAD.Encrypt);
    unseal = (fun c -> AEAD.chacha20_poly1305 ?header:(hopt c.header) ~iv:c.iv c.key AEAD.Decrypt);
    ref_seal = (fun c m -> Refm.chapoly_enc ~header:c.header ~iv:c.iv c.key m);
    ref_open = (fun c x t -> let m, t' = Refm.chapoly_dec ~header:c.header ~iv:c.iv c.key x in if t = t' then `Ok m else `Bad);
    strict = true; tagsize = 16 }

exception Malformed
(* a cipher usable in both directions, as functions of the context *)
let two_way () =
  match draw 6 with
  | 0 -> "aes-cbc-length", 16, 16,
    (fun c d -> Cipher.aes ~pad:Padding.length ~iv:c.iv c.key d),
    (fun c m -> Refm.cbc_enc (Refm.aes_enc c.key) 16 c.iv (Refm.pad_length 16 m)),
    (fun c x -> let n = String.length x in
      if n = 0 || n mod 16 <> 0 then raise Malformed;
      let p = Refm.cbc_dec (Refm.aes_dec c.key) 16 c.iv x in
      let k = Char.code p.[n-1] in
      if k < 1 || k > 16 then raise Malformed;
      for i = n - k to n - 1 do if Char.code p.[i] <> k then raise Malformed done;
      String.sub p 0 (n - k))
  | 1 -> "aes-cbc-8000", 16, 16,
    (fun c d -> Cipher.aes ~pad:Padding._8000 ~iv:c.iv c.key d),
    (fun c m -> Refm.cbc_enc (Refm.aes_enc c.key) 16 c.iv (Refm.pad_8000 16 m)),
    (fun c x -> let n = String.length x in
      if n = 0 || n mod 16 <> 0 then raise Malformed;
      let p = Refm.cbc_dec (Refm.aes_dec c.key) 16 c.iv x in
      let i = ref (n - 1) in
      while !i >= n - 16 && p.[!i] = '\000' do decr i done;
      if !i < n - 16 || p.[!i] <> '\x80' then raise Malformed;
      String.sub p 0 !i)
  | 2 -> "3des-cfb", 24, 8,
    (fun c d -> Cipher.triple_des ~mode:(Cipher.CFB 8) ~pad:Padding.length ~iv:c.iv c.key d),
    (fun c m -> Refm.cfb (Refm.tdes_enc c.key) 8 8 ~enc:true c.iv (Refm.pad_length 8 m)),
    (fun c x -> let n = String.length x in
      if n = 0 || n mod 8 <> 0 then raise Malformed;
      let p = Refm.cfb (Refm.tdes_enc c.key) 8 8 ~enc:false c.iv x in
      let k = Char.code p.[n-1] in
      if k < 1 || k > 8 then raise Malformed;
      for i = n - k to n - 1 do if Char.code p.[i] <> k then raise Malformed done;
      String.sub p 0 (n - k))
  | 3 -> let f c x = Refm.xor_str x (Refm.chacha_stream c.key c.iv 0L (String.length x)) in
    "chacha20", 32, 12, (fun c d -> Cipher.chacha20 ~iv:c.iv c.key d), f, f
  | 4 -> let f c x = Refm.xor_str x (Refm.rc4_stream c.key (String.length x)) in
    "arcfour", 16, 8, (fun c d -> Cipher.arcfour c.key d), f, f
  | _ -> let f c x = Refm.ofb (Refm.bf_enc c.key) 1 c.iv x in
    "blowfish-ofb1", 16, 8, (fun c d -> Cipher.blowfish ~mode:(Cipher.OFB 1) ~iv:c.iv c.key d), f, f
let macs () = match draw 8 with
  | 0 -> "hmac-sha256", 20, (fun k -> MAC.hmac_sha256 k), (fun k -> Refm.hmac Refm.sha256 64 k), 32
  | 1 -> "hmac-md5", 16, (fun k -> MAC.hmac_md5 k), (fun k -> Refm.hmac Refm.md5 64 k), 16
  | 2 -> "aes-cmac", 16, (fun k -> MAC.aes_cmac k), (fun k -> Refm.cmac (Refm.aes_enc k) (zeros 16)), 16
  | 3 -> "siphash", 16, (fun k -> MAC.siphash k), (fun k -> Refm.siphash 8 k), 8
  | 4 -> "blake2s-128", 16, (fun k -> MAC.blake2s 128 k), (fun k -> Refm.blake2s 16 k), 16
  | 5 -> "blake3", 32, (fun k -> MAC.blake3 256 k), (fun k -> Refm.blake3 32 k), 32
  | 6 -> "sha224", 16, (fun _ -> Hash.sha224 ()), (fun _ -> Refm.sha224), 28
  | _ -> "hmac-ripemd160", 70, (fun k -> MAC.hmac_ripemd160 k), (fun k -> Refm.hmac Refm.ripemd160 64 k), 20
let composed () =
  let cn, kl, il, mk, enc, dec = two_way () in
  let hn, hkl, hm, hr, ts = macs () in
  let etm = draw 2 = 0 in
  { kind = (if etm then "then:" else "and:") ^ cn ^ "+" ^ hn; key = key_bytes kl; mkey = key_bytes hkl; iv = prng_string (draw 0xffffff) il; header = "";
    seal = (fun c -> let t = mk c Cipher.Encrypt and h = hm c.mkey in if etm then transform_then_hash t h else transform_and_hash t h);
    unseal = (fun c -> let t = mk c Cipher.Decrypt and h = hm c.mkey in if etm then transform_and_hash t h else transform_then_hash t h);
    ref_seal = (fun c m -> let x = enc c m in x, hr c.mkey (if etm then x else m));
    ref_open = (fun c x t ->
      match dec c x with
      | exception Malformed -> `Malformed
      | m -> if hr c.mkey (if etm then x else m) = t then `Ok m else `Bad);
    strict = false; tagsize = ts }
let context () = match draw 4 with 0 | 1 -> gcm () | 2 -> chapoly () | _ -> composed ()

let flip s =
  let n = String.length s in if n = 0 then s else begin
    let i = draw n in
    (* never a DES parity bit *)
    let b = 1 lsl (1 + draw 7) in
    String.mapi (fun j c -> if j = i then Char.chr (Char.code c lxor b) else c) s end
let flip_any s = let n = String.length s in if n = 0 then s else begin
    let i = draw n and b = 1 lsl draw 8 in String.mapi (fun j c -> if j = i then Char.chr (Char.code c lxor b) else c) s end

type packet = { from : int; bytes : string }

let mutate_packet all p =
  match draw 8 with
  | 0 -> fault "net_bitflip"; flip_any p
  | 1 -> fault "net_truncate"; let n = String.length p in String.sub p 0 (if n = 0 then 0 else draw n)
  | 2 -> fault "net_extend"; p ^ data (range 1 17)
  | 3 -> fault "net_cut_front"; let n = String.length p in let k = if n = 0 then 0 else range 1 (min n 17) in String.sub p k (n - k)
  | 4 -> fault "net_splice"; let q = pick (Array.of_list all) in
    let a = draw (String.length p + 1) and b = draw (String.length q + 1) in String.sub p 0 a ^ String.sub q b (String.length q - b)
  | 5 -> fault "net_swap_blocks"; let n = String.length p in
    if n < 32 then flip_any p else begin
      let b = 16 * draw (n / 16 - 1) in String.sub p 0 b ^ String.sub p (b+16) 16 ^ String.sub p b 16 ^ String.sub p (b+32) (n-b-32) end
  | 6 when draw 4 = 3 -> fault "net_zero_front"; String.make (pick [|16;256;4096;8192;65536|]) '\000' ^ p
  | 6 -> fault "net_zero_tail"; let n = String.length p in let k = min n (range 1 16) in String.sub p 0 (n - k) ^ String.make k '\000'
  | _ -> fault "net_garbage"; data (draw 80)
let mutate_ctx c =
  match draw 6 with
  | 0 -> fault "peer_wrong_key"; { c with key = flip c.key }
  | 1 -> fault "peer_wrong_iv"; { c with iv = flip c.iv }
  | 2 -> fault "peer_wrong_header"; { c with header = (if c.strict then flip_any c.header else c.header); mkey = (if c.strict then c.mkey else flip_any c.mkey) }
  | 3 when c.strict ->
    let z () = String.make (if draw 3 = 2 then pick [|16;32;256;4096;8192;32768;65536|] else range 1 16) '\000' in
    (match draw 2 with
     | 0 -> fault "peer_header_zero_pad"; { c with header = c.header ^ z () }
     | _ -> fault "peer_header_zero_front"; { c with header = z () ^ c.header })
  | 4 when c.strict && c.header <> "" -> fault "peer_header_truncated"; { c with header = String.sub c.header 0 (draw (String.length c.header)) }
  | _ -> { c with mkey = flip_any c.mkey }

(* one reception, by one of the interfaces a receiver has; `None means refused *)
let receive who c p =
  let n = String.length p in
  match draw 3 with
  | 2 when n >= c.tagsize ->
    (* streaming receiver: fragments, then compares the tag itself *)
    ev "%s receive-stream %d" who n;
    let x = lib (fun () -> c.unseal c) in
    let text = String.sub p 0 (n - c.tagsize) and tag = String.sub p (n - c.tagsize) c.tagsize in
    let out = Buffer.create n in
    (try
       let i = ref 0 and k = ref 0 in
       while !i < String.length text do
         incr k;
         let l = if !k > 12 then String.length text - !i else Sess.frag (String.length text - !i) in
         let b, o = guarded_src (String.sub text !i l) in
         lib (fun () -> x#put_substring b o l);
         i := !i + l;
         if draw 2 = 1 then Buffer.add_string out (lib (fun () -> x#get_string)) done;
       let t = lib (fun () -> x#finish_and_get_tag) in
       Buffer.add_string out (lib (fun () -> x#get_string));
       lib (fun () -> x#wipe);
       if t = tag then `Accept (Buffer.contents out) else `Reject
     with Error e -> `Exn (Error e))
  | _ ->
    ev "%s receive %d" who n;
    match lib (fun () -> auth_check_transform_string (c.unseal c) p) with
    | Some m -> `Accept m
    | None -> `Reject
    | exception (Error e) -> `Exn (Error e)

let judge who c p r =
  let n = String.length p in
  if n < c.tagsize then
    (match r with
     | `Exn (Error Wrong_data_length) -> probe "short-packet"
     | `Exn e -> fail "wrong-error" "%s: packet shorter than the tag: %s" who (str_of_exn e)
     | `Accept _ -> fail "forgery-accepted" "%s: packet shorter than the tag accepted" who
     | `Reject -> fail "wrong-error" "%s: packet of %d bytes, shorter than the tag, not reported as Wrong_data_length" who n)
  else
    match c.ref_open c (String.sub p 0 (n - c.tagsize)) (String.sub p (n - c.tagsize) c.tagsize), r with
    | `Ok m, `Accept m' -> if m <> m' then fail "wrong-plaintext" "%s: accepted with another plaintext (%d/%d bytes)" who (String.length m') (String.length m); probe "accepted"
    | `Ok _, `Reject -> fail "genuine-rejected" "%s: a genuine packet of %d bytes was refused" who n
    | `Ok _, `Exn e -> fail "genuine-rejected" "%s: a genuine packet of %d bytes raised %s" who n (str_of_exn e)
    | _, `Accept m -> fail "forgery-accepted" "%s: a packet of %d bytes nobody sent was accepted" who n
    | `Bad, `Reject -> probe "refused"
    | `Malformed, (`Reject | `Exn (Error (Bad_padding | Wrong_data_length))) -> probe "refused-malformed"
    | _, `Exn e -> fail "wrong-error" "%s: a tampered packet of %d bytes raised %s instead of being refused" who n (str_of_exn e)
    | `Malformed, `Reject -> ()

let c04 () =
  set_gc (pick [|0;0;1;4|]) (draw 4 = 3); set_guard (draw 3 = 2);
  let na = 1 + draw 3 in
  let ctxs = Array.init na (fun _ -> context ()) in
  let net = ref [] and all = ref [] and sent = ref 0 and steps = ref 0 in
  let send () =
    let a = draw na in
    let c = ctxs.(a) in
    let m = match if c.kind = "chapoly" && draw 3 = 2 then poly_extreme ~header:c.header ~iv:c.iv c.key else None with
      | Some x -> fst (Refm.chapoly_dec ~header:c.header ~iv:c.iv c.key x)
      | None -> data (match draw 3 with 0 -> draw 20 | 1 -> pick [|0;1;15;16;17;31;32;33;64|] | _ -> if draw 20 = 19 then size 9000 else size 700) in
    let who = Printf.sprintf "(%d)%s" a c.kind in
    let p =
      if draw 3 = 2 then begin
        ev "%s send-detached %d" who (String.length m);
        let x, t = lib (fun () -> auth_transform_string_detached (c.seal c) m) in
        if String.length t <> c.tagsize then fail "tag-size" "%s: tag of %d bytes" who (String.length t);
        x ^ t
      end else begin
        ev "%s send %d" who (String.length m);
        lib (fun () -> auth_transform_string (c.seal c) m) end in
    let rx, rt = c.ref_seal c m in
    if p <> rx ^ rt then fail "wrong-packet" "%s: the protected form of a %d byte message differs from the reference" who (String.length m);
    incr sent;
    net := { from = a; bytes = p } :: !net; all := p :: !all in
  let deliver () =
    let l = !net in
    let k = draw (List.length l) in
    let pk = List.nth l k in
    if k > 0 then fault "net_reorder";
    let remove () = net := List.filteri (fun i _ -> i <> k) l in
    (match draw 10 with
     | 9 -> fault "net_drop"; remove ()
     | 8 -> fault "net_duplicate"         (* delivered now and again later *)
     | _ -> remove ());
    let target = if draw 8 = 7 then (fault "net_misroute"; draw na) else pk.from in
    let c = ctxs.(target) in
    let who = Printf.sprintf "(%d)%s" target c.kind in
    let p, c = match draw 6 with
      | 0 | 1 -> pk.bytes, c
      | 2 | 3 -> mutate_packet !all pk.bytes, c
      | 4 -> pk.bytes, mutate_ctx c
      | _ when c.strict && c.header <> "" ->
        (* the boundary between header and text moves: same bytes, other meaning *)
        fault "net_boundary_shift";
        let h = String.length c.header in let k = range 1 h in
        String.sub c.header (h - k) k ^ pk.bytes, { c with header = String.sub c.header 0 (h - k) }
      | _ -> mutate_packet !all (mutate_packet !all pk.bytes), c in
    judge who c p (receive who c p);
    nontrivial := true in
  let budget = range 3 14 in
  while !steps < budget do
    incr steps; incr sim_time;
    if !net = [] || (draw 3 = 0 && !sent < 6) then (if !sent < 8 then send ()) else deliver ()
  done;
  (* faults stop: everything still in flight arrives and is accepted *)
  List.iter (fun pk -> let c = ctxs.(pk.from) in
    let who = Printf.sprintf "(%d)%s healed" pk.from c.kind in
    judge who c pk.bytes (receive who c pk.bytes)) !net
