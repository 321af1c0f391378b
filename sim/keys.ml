(* Public-key material: generation under hostile generators, and exchanges
   between parties over a faulty network. *)
open Cryptokit
open S

let z = Refm.z_be
let is_prime p = Z.probab_prime p 25 <> 0

(* A generator the adversary interferes with for a while.  Bytes 0.. of the
   interference are constant or periodic; afterwards it is a seeded stream.
   It can also die at some request. *)
type hostile = { rng : Random.rng; requests : int ref; bytes : int ref; failed : bool ref; log : Buffer.t }
let hostile ?(may_fail = true) () =
  let seed = draw 0x3fffffff in
  let mode = draw 6 in
  let upto = match mode with 0 | 1 | 2 -> 0 | _ -> range 1 400 in
  let die = if may_fail && draw 4 = 3 then (match draw 2 with 0 -> draw 6 | _ -> draw 40) else -1 in
  let failed = ref false and requests = ref 0 and bytes = ref 0 and st = ref (seed * 2 + 1) in
  let log = Buffer.create 100 in
  let err = draw 3 in
  if upto > 0 then fault "rng_degenerate_prefix";
  let rng = object
    method random_bytes (b : bytes) o n =
      if o < 0 || n < 0 || o > Bytes.length b - n then fail "bad-range" "the library asked the generator for a range outside its buffer";
      if !requests = die then begin
        failed := true; S.fault "rng_failure";
        (* a source that dies may leave a partial result behind *)
        Bytes.fill b o (n / 2) '\x77';
        raise (match err with 0 -> Error Entropy_source_closed | 1 -> Unix.Unix_error (Unix.EIO, "read", "") | _ -> Error No_entropy_source) end;
      incr requests;
      for i = o to o + n - 1 do
        let c = if !bytes < upto then (match mode with 3 -> 0 | 4 -> 255 | _ -> !bytes land 1)
          else begin st := (!st * 0x5851F42D4C957F2D + 0x14057B7EF767814F) land max_int; (!st lsr 33) land 255 end in
        incr bytes;
        Bytes.set b i (Char.chr c) done;
      Buffer.add_string log (Bytes.sub_string b o n)
    method wipe = ()
  end in
  { rng; requests; bytes; failed; log }

let attempt h who f =
  match lib f with
  | v -> if !(h.failed) then fail "failure-ignored" "%s: the generator failed and a result was returned all the same" who; Some v
  | exception e ->
    if not !(h.failed) then raise e;
    (match e with
     | Error (Entropy_source_closed | No_entropy_source) | Unix.Unix_error _ -> probe "rng-failure-propagated"; None
     | S.Violation _ -> raise e
     | e -> fail "wrong-error" "%s: generator failure turned into %s" who (str_of_exn e))

let modulus_size () = match draw 4 with
  | 0 -> 2 * range 16 40 | 1 -> pick [|32;34;48;62;64;66;126;128;130|] | 2 -> 2 * range 40 150 | _ -> pick [|256;300;320;384;512|]

let rsa_key ?(may_fail = true) who =
  let numbits = modulus_size () in
  let e = match draw 4 with 0 -> None | 1 -> Some 3 | 2 -> Some 65537 | _ -> Some (2 * range 1 500 + 1) in
  let e = match e with Some _ when numbits < 40 -> Some 3 | e -> e in
  let h = hostile ~may_fail () in
  ev "%s rsa new_key %d e=%s" who numbits (match e with None -> "-" | Some e -> string_of_int e);
  match attempt h who (fun () -> RSA.new_key ~rng:h.rng ?e numbits) with
  | None -> None
  | Some (priv, pub) ->
    let bad fmt = Printf.ksprintf (fun s -> fail "bad-key" "%s: RSA key of %d bits: %s" who numbits s) fmt in
    let p = z priv.p and q = z priv.q and n = z priv.n and d = z priv.d in
    let bytes = (numbits + 7) / 8 and bytes2 = (numbits / 2 + 7) / 8 in
    if priv.size <> numbits || pub.size <> numbits then bad "size field";
    if priv.n <> pub.n then bad "moduli differ";
    if not (is_prime p && is_prime q) then bad "a factor is not prime";
    if Z.equal p q then bad "the factors are equal";
    if Z.numbits p <> numbits / 2 || Z.numbits q <> numbits / 2 then bad "factors of %d and %d bits" (Z.numbits p) (Z.numbits q);
    if not (Z.equal n (Z.mul p q)) then bad "n <> p.q";
    let p1 = Z.pred p and q1 = Z.pred q in
    let e' = z pub.e in
    (match e with Some e -> if not (Z.equal e' (Z.of_int e)) then bad "exponent is not the one requested" | None -> ());
    if not (Z.equal (Z.erem (Z.mul d e') (Z.lcm p1 q1)) Z.one) then bad "d.e <> 1";
    if not (Z.equal (z priv.dp) (Z.erem d p1) && Z.equal (z priv.dq) (Z.erem d q1)) then bad "dp or dq";
    if not (Z.equal (Z.erem (Z.mul (z priv.qinv) q) p) Z.one) then bad "qinv";
    if String.length priv.n <> bytes || String.length priv.d <> bytes || String.length pub.e <> bytes then bad "length of n, d or e";
    if List.exists (fun s -> String.length s <> bytes2) [priv.p; priv.q; priv.dp; priv.dq; priv.qinv] then bad "length of a CRT component";
    if !(h.bytes) < 2 * ((numbits / 2 + 7) / 8) then fail "not-random" "%s: only %d random bytes drawn for two primes of %d bits" who !(h.bytes) (numbits / 2);
    nontrivial := true;
    Some (priv, pub)

(* the exact function computed by RSA, on numbers chosen at the edges *)
let rsa_use who ((priv : RSA.private_key), (pub : RSA.public_key)) =
  let n = z priv.n and d = z priv.d and e = z pub.e in
  let bytes = String.length priv.n in
  let pickm () =
    let v = match draw 8 with
      | 0 -> Z.zero | 1 -> Z.one | 2 -> Z.pred n | 3 -> n | 4 -> Z.add n (Z.of_int (draw 100)) | 5 -> z priv.p
      | _ -> Z.erem (z (data bytes)) n in
    let l = (Z.numbits v + 7) / 8 in
    let l = match draw 3 with 0 -> l | 1 -> bytes + 1 | _ -> max l bytes in
    v, Refm.z_to_be l v in
  let expect name want v f =
    match lib f with
    | s ->
      if Z.geq v n then fail "range-accepted" "%s: %s of a number not below the modulus was accepted" who name;
      if String.length s <> bytes then fail "wrong-length" "%s: %s returned %d bytes for a %d byte modulus" who name (String.length s) bytes;
      if not (Z.equal (z s) want) then fail "wrong-result" "%s: %s is not the RSA function" who name;
      s
    | exception Error Message_too_long when Z.geq v n -> probe "message-too-long"; "" in
  let v, m = pickm () in
  ev "%s rsa use %d" who (String.length m);
  let enc x = if Z.geq x n then Z.zero else Z.powm x e n and dec x = if Z.geq x n then Z.zero else Z.powm x d n in
  let keep = m ^ "" in
  let c = expect "encrypt" (enc v) v (fun () -> RSA.encrypt pub m) in
  ignore (expect "decrypt" (dec v) v (fun () -> RSA.decrypt priv m));
  ignore (expect "decrypt_CRT" (dec v) v (fun () -> RSA.decrypt_CRT priv m));
  let s1 = expect "sign" (dec v) v (fun () -> RSA.sign priv m) in
  let s2 = expect "sign_CRT" (dec v) v (fun () -> RSA.sign_CRT priv m) in
  if s1 <> s2 then fail "wrong-result" "%s: sign and sign_CRT differ" who;
  if Z.lt v n then begin
    if Z.numbits n > 0 && not (Z.equal (z (lib (fun () -> RSA.decrypt_CRT priv c))) v) then fail "round-trip" "%s: decryption of encryption differs" who;
    if not (Z.equal (z (lib (fun () -> RSA.unwrap_signature pub s1))) v) then fail "round-trip" "%s: unwrapping a signature differs" who end;
  if m <> keep then fail "input-modified" "%s: the message was modified" who;
  if z priv.n <> n || z pub.n <> n then fail "input-modified" "%s: the key was modified" who

let dh_params ?(may_fail = true) who =
  let numbits = match draw 3 with 0 -> range 33 80 | 1 -> range 64 200 | _ -> pick [|128;160;192;256;257;320|] in
  let privlen = match draw 3 with 0 -> range 2 (numbits - 1) | 1 -> min (numbits - 1) 64 | _ -> numbits - 1 in
  let h = hostile ~may_fail () in
  ev "%s dh new_parameters %d priv %d" who numbits privlen;
  match attempt h who (fun () -> DH.new_parameters ~rng:h.rng ~privlen numbits) with
  | None -> None
  | Some pr ->
    let bad fmt = Printf.ksprintf (fun s -> fail "bad-key" "%s: DH parameters of %d bits: %s" who numbits s) fmt in
    let p = z pr.p and g = z pr.g in
    if not (is_prime p) then bad "p is not prime";
    if Z.numbits p <> numbits then bad "p has %d bits" (Z.numbits p);
    if Z.leq g Z.one || Z.geq g p then bad "g out of range";
    if pr.privlen <> privlen then bad "privlen field";
    if String.length pr.p <> (numbits + 7) / 8 || String.length pr.g <> (numbits + 7) / 8 then bad "length of p or g";
    nontrivial := true;
    Some pr

let paillier_key ?(may_fail = true) who =
  let numbits = match draw 3 with 0 -> 2 * range 16 40 | 1 -> pick [|64;66;128;130|] | _ -> 2 * range 40 100 in
  let h = hostile ~may_fail () in
  ev "%s paillier new_key %d" who numbits;
  match attempt h who (fun () -> Paillier.new_key ~rng:h.rng numbits) with
  | None -> None
  | Some (priv, pub) ->
    let bad fmt = Printf.ksprintf (fun s -> fail "bad-key" "%s: Paillier key of %d bits: %s" who numbits s) fmt in
    let p = z priv.p and q = z priv.q and n = z priv.n in
    if not (is_prime p && is_prime q) || Z.equal p q then bad "factors";
    if Z.numbits p <> numbits / 2 || Z.numbits q <> numbits / 2 then bad "factors of %d and %d bits" (Z.numbits p) (Z.numbits q);
    if not (Z.equal n (Z.mul p q)) || priv.n <> pub.n then bad "n";
    if not (Z.equal (z priv.n2) (Z.mul n n) && Z.equal (z pub.n2) (Z.mul n n)) then bad "n2";
    if not (Z.equal (z priv.lambda) (Z.lcm (Z.pred p) (Z.pred q))) then bad "lambda";
    if not (Z.equal (Z.erem (Z.mul (z priv.mu) (z priv.lambda)) n) Z.one) then bad "mu";
    if not (Z.equal (Z.gcd n (Z.mul (Z.pred p) (Z.pred q))) Z.one) then bad "gcd(n, phi) <> 1";
    nontrivial := true;
    Some (priv, pub)

let paillier_encrypt ?(may_fail = true) who (pub : Paillier.public_key) m =
  let h = hostile ~may_fail () in
  match attempt h who (fun () -> Paillier.encrypt ~rng:h.rng pub m) with
  | None -> None
  | Some c ->
    if !(h.bytes) < (pub.size - 1 + 7) / 8 then fail "not-random" "%s: %d random bytes drawn for blinding modulo %d bits" who !(h.bytes) pub.size;
    Some c

let c07 () =
  set_gc (pick [|0;0;1;4|]) (draw 4 = 3);
  incr sim_time;
  match draw 6 with
  | 0 | 1 | 2 -> (match rsa_key "key" with None -> nontrivial := true | Some k -> if draw 2 = 1 then rsa_use "key" k)
  | 3 -> (match dh_params "key" with
      | None -> nontrivial := true
      | Some pr ->
        let h = hostile () in
        match attempt h "private_secret" (fun () -> DH.private_secret ~rng:h.rng pr) with
        | None -> ()
        | Some s ->
          if !(h.bytes) < (pr.privlen + 7) / 8 then fail "not-random" "private secret of %d bits from %d random bytes" pr.privlen !(h.bytes);
          let m = lib (fun () -> DH.message pr s) in
          (* the secret is an exponent of exactly privlen bits: recover it from the log *)
          ignore m)
  | 4 -> (match paillier_key "key" with
      | None -> nontrivial := true
      | Some (priv, pub) ->
        let n = z priv.n in
        let v = match draw 4 with 0 -> Z.zero | 1 -> Z.pred n | _ -> Z.erem (z (data (String.length priv.n))) n in
        (match paillier_encrypt "key" pub (Refm.z_to_be ((Z.numbits v + 7) / 8) v) with
         | None -> ()
         | Some c -> if not (Z.equal (z (lib (fun () -> Paillier.decrypt priv c))) v) then fail "round-trip" "Paillier decryption differs"))
  | _ ->
    (* the default generator, with the system source failing *)
    Ent.reset (draw 0x3fffffff);
    let p = pick [|0;8;64|] in
    if p > 0 then Ent.config 1 1 p;
    let f0 = fault_count 12 in
    let r = match draw 3 with
      | 0 -> (match lib (fun () -> RSA.new_key ~e:3 64) with _ -> `Ok | exception Error Entropy_source_closed -> `Exn)
      | 1 -> (match lib (fun () -> DH.new_parameters ~privlen:20 48) with _ -> `Ok | exception Error Entropy_source_closed -> `Exn)
      | _ -> (match lib (fun () -> Paillier.new_key 64) with _ -> `Ok | exception Error Entropy_source_closed -> `Exn) in
    let failed = fault_count 12 > f0 in
    Ent.config 1 0 0;
    (match r with
     | `Ok -> if failed then fail "failure-ignored" "the system source failed during key generation and a key was returned";
       if Ent.pos 1 = 0 then fail "not-random" "key generated without reading the default generator"; nontrivial := true
     | `Exn -> if not failed then fail "spurious-failure" "key generation refused with a healthy source"; probe "default-rng-failure-propagated")

(* ---------- exchanges ---------- *)
let flip = Net.flip_any

let c08_dh () =
  match dh_params ~may_fail:false "dh" with
  | None -> ()
  | Some pr ->
    let p = z pr.p and g = z pr.g in
    let np = range 2 4 in
    (* every pair runs its own agreement; all messages share one network *)
    let pairs = ref [] in
    for a = 0 to np - 1 do for b = a + 1 to np - 1 do pairs := (a, b) :: !pairs done done;
    let bits = 8 * String.length pr.p in
    let st = Hashtbl.create 10 and net = ref [] in
    let secret_of = Hashtbl.create 10 in
    List.iter (fun (a, b) -> List.iter (fun (me, peer) ->
      let h = hostile ~may_fail:false () in
      let s = lib (fun () -> DH.private_secret ~rng:h.rng pr) in
      let m = lib (fun () -> DH.message pr s) in
      let m2 = lib (fun () -> DH.message pr s) in
      if m <> m2 then fail "unstable-message" "the message of one private secret changed";
      if String.length m <> String.length pr.p then fail "wrong-length" "DH message of %d bytes for %d bits" (String.length m) bits;
      if Z.geq (z m) p then fail "wrong-result" "DH message not reduced";
      Hashtbl.replace st (me, peer) (s, m);
      net := (me, peer, m) :: !net) [a, b; b, a]) !pairs;
    let recvd = Hashtbl.create 10 in
    let steps = ref 0 in
    while !net <> [] && !steps < 100 do
      incr steps; incr sim_time;
      let k = draw (List.length !net) in
      if k > 0 then fault "net_reorder";
      let (src, dst, m) = List.nth !net k in
      (match draw 6 with
       | 5 when !steps < 60 -> fault "net_delay"
       | 4 when !steps < 60 -> fault "net_duplicate"; net := !net @ [(src, dst, m)]
       | _ ->
         net := List.filteri (fun i _ -> i <> k) !net;
         if not (Hashtbl.mem recvd (dst, src)) then begin
           (* a first delivery; later copies are ignored by the receiver *)
           Hashtbl.replace recvd (dst, src) m;
           let (s, _) = Hashtbl.find st (dst, src) in
           ev "dh %d<-%d shared_secret" dst src;
           let m' = m ^ "" in
           let sh = lib (fun () -> DH.shared_secret pr s m) in
           if m <> m' then fail "input-modified" "shared_secret modified the peer's message";
           if String.length sh <> String.length pr.p then fail "wrong-length" "shared secret of %d bytes" (String.length sh);
           Hashtbl.replace secret_of (dst, src) sh end)
    done;
    List.iter (fun (a, b) ->
      match Hashtbl.find_opt secret_of (a, b), Hashtbl.find_opt secret_of (b, a) with
      | Some x, Some y ->
        if x <> y then fail "disagreement" "parties %d and %d derived different shared secrets (p has %d bits)" a b (Z.numbits p);
        let div = data (draw 10) and n = match draw 3 with 0 -> draw 5 | 1 -> pick [|31;32;33;63;64;65;320|] | _ -> range 0 200 in
        let kx = lib (fun () -> DH.derive_key ~diversification:div x n) and ky = lib (fun () -> DH.derive_key ~diversification:div y n) in
        if kx <> ky || kx <> Refm.derive_key div x n then fail "wrong-key" "derived keys of %d bytes differ" n;
        nontrivial := true
      | _ -> ()) !pairs

let c08_rsa () =
  match rsa_key ~may_fail:false "rsa" with
  | None -> ()
  | Some (priv, pub) ->
    let n = z priv.n in
    let bytes = String.length priv.n in
    for _ = 1 to range 1 4 do
      incr sim_time;
      rsa_use "rsa" (priv, pub);
      let v = Z.erem (z (data bytes)) n in
      let m = Refm.z_to_be bytes v in
      let s = lib (fun () -> if draw 2 = 0 then RSA.sign priv m else RSA.sign_CRT priv m) in
      let s' = match draw 3 with 0 -> fault "net_bitflip"; flip s | 1 -> fault "net_truncate"; String.sub s 0 (draw bytes) | _ -> s in
      ev "rsa verify %b" (s = s');
      (match lib (fun () -> RSA.unwrap_signature pub s') with
       | r ->
         let same = Z.equal (z s) (z s') in
         if Z.equal (z r) v && not same then fail "forgery-accepted" "a modified signature still verifies";
         if same && not (Z.equal (z r) v) then fail "genuine-rejected" "a genuine signature does not verify"
       | exception Error Message_too_long -> if Z.lt (z s') n then fail "genuine-rejected" "Message_too_long for a signature below the modulus")
    done

let c08_paillier () =
  match paillier_key ~may_fail:false "tally" with
  | None -> ()
  | Some (priv, pub) ->
    let n = z priv.n in
    let voters = range 1 6 in
    let net = ref [] and sum = ref Z.zero in
    for i = 0 to voters - 1 do
      let v = match draw 4 with 0 -> Z.zero | 1 -> Z.one | 2 -> Z.pred n | _ -> Z.erem (z (data (String.length priv.n))) n in
      let m = Refm.z_to_be ((Z.numbits v + 7) / 8 + draw 2) v in
      match paillier_encrypt ~may_fail:false "tally" pub m with
      | None -> ()
      | Some c -> sum := Z.erem (Z.add !sum v) n; net := (i, c) :: !net;
        if not (Z.equal (z (lib (fun () -> Paillier.decrypt priv c))) v) then fail "round-trip" "Paillier decryption of a %d bit plaintext modulo %d bits differs" (Z.numbits v) (Z.numbits n) done;
    let seen = Hashtbl.create 8 and acc = ref None and steps = ref 0 in
    while !net <> [] do
      incr steps; incr sim_time;
      let k = draw (List.length !net) in
      let (i, c) = List.nth !net k in
      if draw 5 = 4 && !steps < 40 then fault "net_duplicate" else net := List.filteri (fun j _ -> j <> k) !net;
      if not (Hashtbl.mem seen i) then begin
        Hashtbl.replace seen i ();
        ev "tally add %d" i;
        acc := Some (match !acc with None -> c | Some a -> lib (fun () -> Paillier.add pub a c)) end
    done;
    match !acc with
    | None -> ()
    | Some a ->
      if not (Z.equal (z (lib (fun () -> Paillier.decrypt priv a))) !sum) then fail "wrong-tally" "the tally of %d ciphertexts is not the sum modulo n" voters;
      nontrivial := true

(* the arithmetic utilities, on strings of any width *)
let c08_arith () =
  for _ = 1 to range 1 6 do
    incr sim_time;
    let lc = match draw 3 with 0 -> range 1 9 | 1 -> pick [|8;16;24;32;64|] | _ -> range 1 48 in
    let c = let c = data lc in if Z.equal (z c) Z.zero then String.make (lc - 1) '\000' ^ "\005" else c in
    let n = z c in
    let power = draw 2 = 0 in
    let num l = let v = match draw 5 with 0 -> Z.zero | 1 -> Z.one | 2 -> Z.pred n | _ -> z (data l) in v in
    let width v = Refm.z_to_be ((Z.numbits v + 7) / 8 + draw 3) v in
    let a = let v = num (range 0 48) in if power || draw 2 = 0 then Z.erem v n else v in
    let b = num (range 0 24) in
    let sa = width a and sb = width b in
    if not (power && Z.equal n Z.one) then begin
      (* the constant-time exponentiation is for odd moduli *)
      let r = match lib (fun () -> if power then mod_power sa sb c else mod_mult sa sb c) with
        | r -> Some r
        | exception (Invalid_argument _ | Division_by_zero) when power && Z.is_even n -> None in
      ev "%s %d %d %d" (if power then "mod_power" else "mod_mult") (String.length sa) (String.length sb) lc;
      match r with
      | None -> ()
      | Some r ->
        if String.length r <> lc then fail "wrong-length" "%s returned %d bytes for a %d byte modulus" (if power then "mod_power" else "mod_mult") (String.length r) lc;
        let want = if power then Z.powm a b n else Z.erem (Z.mul a b) n in
        if not (Z.equal (z r) want) then fail "wrong-result" "%s (%s, %s, %s)" (if power then "mod_power" else "mod_mult") (show sa) (show sb) (show c);
        if not (Z.equal (z sa) a && Z.equal (z sb) b && Z.equal (z c) n) then fail "input-modified" "an operand was modified";
        nontrivial := true end
  done

let c08 () =
  set_gc (pick [|0;0;1;4|]) (draw 4 = 3);
  match draw 6 with 0 | 1 -> c08_dh () | 2 | 3 -> c08_rsa () | 5 -> c08_arith () | _ -> c08_paillier ()
