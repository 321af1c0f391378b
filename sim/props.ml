open S
let swarm () =
  (* per-run configuration of the environment *)
  set_gc (pick [|0;0;1;4|]) (draw 4 = 3);
  set_guard (draw 3 = 2)
let n_sessions () = match draw 4 with 0 | 1 -> 1 | 2 -> 2 | _ -> 3
let c01 () = swarm (); if draw 150 = 149 then Big.transform 0 else let n = n_sessions () in
  Sess.run_sessions (List.init n (fun i -> if draw 4 = 3 then Extra.direct i else Sess.transform_session i (Specs.transform_spec ())))
let c02 () = swarm (); if draw 150 = 149 then Big.hash 0 else let n = n_sessions () in
  Sess.run_sessions (List.init n (fun i -> Sess.hash_session i (Specs.hash_spec ())))
let c03 () = swarm (); if draw 150 = 149 then Big.aead 0 else let n = n_sessions () in
  Sess.run_sessions (List.init n (fun i -> Sess.aead_session i (Specs.aead_spec ())))
let c16 () = swarm (); if draw 150 = 149 then Big.prng 0 else let n = n_sessions () in
  Sess.run_sessions (List.init n (fun i -> Sess.prng_session i ()))
let c19_absent () =
  let open Cryptokit in
  for _ = 1 to range 1 4 do
    let comp = draw 2 = 0 in
    let s = data (size 300) and write_zlib_header = draw 2 = 0 and level = pick [|-1;0;1;6;9|] in
    let whole = draw 2 = 0 in
    ev "without zlib: %s" (if comp then "compress" else "uncompress");
    match lib (fun () ->
      let t = if comp then Zlib.compress ~level ~write_zlib_header () else Zlib.uncompress ~expect_zlib_header:write_zlib_header () in
      if whole then ignore (transform_string t s)) with
    | () -> fail "wrong-error" "compression accepted in a library built without zlib"
    | exception Error Compression_not_supported -> nontrivial := true; probe "no-zlib"
  done
let c19 () = swarm (); if Sys.getenv_opt "SIM_NOZ" <> None then c19_absent () else if draw 150 = 149 then Big.zlib 0 else let n = n_sessions () in
  Sess.run_sessions (List.init n (fun i -> if draw 2 = 0 then Sess.compress_session i () else Sess.uncompress_session i ()))
let all = [ "C22", Mem.c22; "C20", Timing.c20; "C01L", Long.run; "C02L", Long.run; "C03L", Long.run; "C16L", Long.run; "C17L", Long.run; "C19L", Long.run; "C14", Extra.c14; "C15", Extra.c15; "C17", Extra.c17; "C18", Extra.c18; "C09", Robust.c09; "C10", Robust.c10; "C11", Robust.c11; "C12", Robust.c12; "C07", Keys.c07; "C08", Keys.c08; "C06", Entropy.c06; "C05", Chan.c05; "C04", Net.c04; "C13", Extra.c13; "C01", c01; "C02", c02; "C03", c03; "C16", c16; "C19", c19 ]
