(* Channel front ends over simulated file descriptors. *)
open Cryptokit
open S
open Specs
external open_in_fd : int -> in_channel = "caml_ml_open_descriptor_in"
external open_out_fd : int -> out_channel = "caml_ml_open_descriptor_out"
external fd_in : string -> int = "sim_fd_in"
external fd_out : int -> int = "sim_fd_out"
external fd_faults : int -> int -> int -> int -> int -> unit = "sim_fd_faults" [@@noalloc]
external fd_data : int -> string = "sim_fd_data"
external fd_errs : int -> int = "sim_fd_errs" [@@noalloc]
external fd_reset : unit -> unit = "sim_fd_reset" [@@noalloc]

let rec tspec_any () =
  let t = if draw 12 = 11 then begin
      (* a stream larger than the channel buffers *)
      let n = 65536 + pick [|-1;0;1;255;4096;70000|] in
      let input = prng_string (draw 0xffffff) n in
      let key = key_bytes 16 in
      { tname = "arcfour-big"; make = (fun () -> Cipher.arcfour key Cipher.Encrypt); input; expect = Refm.xor_str input (Refm.rc4_stream key n); bs = 1; fl = Flush_any; secrets = [] }
    end else match draw 10 with
    | 9 -> let p = Sess.compressible (size 5000) and header = draw 2 = 1 in
      { tname = "uncompress"; make = (fun () -> Zlib.uncompress ~expect_zlib_header:header ()); input = Sess.deflate_ref ~header p; expect = p; bs = 1; fl = No_flush; secrets = [] }
    | _ -> transform_spec () in
  if t.tname = "b64-multiline" || t.tname = "hex-dec" && false then tspec_any () else t

type op = T of tspec * bool (* bounded *) | H of hspec * bool | Raw of string

let c05 () =
  set_gc (pick [|0;0;1|]) false;
  fd_reset ();
  let nops = 1 + draw 4 in
  let ops = List.init nops (fun i ->
    let bounded = i < nops - 1 || draw 2 = 0 in
    match draw 5 with
    | 0 | 1 | 2 -> T (tspec_any (), bounded)
    | 3 -> H (hash_spec (), bounded)
    | _ -> Raw (data (range 0 600))) in
  let trailer = if draw 3 = 0 then data (range 1 40) else "" in
  let last_unbounded = match List.nth ops (nops - 1) with T (_, false) | H (_, false) -> true | _ -> false in
  let trailer = if last_unbounded then "" else trailer in
  let text = String.concat "" (List.map (function T (t, _) -> t.input | H (h, _) -> h.hinput | Raw s -> s) ops) ^ trailer in
  let total = String.length text in
  (* faults of this run *)
  let cut = if draw 4 = 3 && total > 0 then (fault "early_EOF_armed"; draw total) else total in
  let stream = String.sub text 0 cut in
  let limit = if draw 5 = 4 then draw 3000 else max_int / 2 in
  let ifd = fd_in stream and ofd = fd_out limit in
  let sh = pick [|0;8;32;56|] and ei = pick [|0;0;6|] and io = pick [|0;0;0;1;4|] in
  fd_faults ifd sh ei io 0;
  fd_faults ofd (pick [|0;8;32|]) ei (pick [|0;0;0;2|]) 0;
  let ic = open_in_fd ifd and oc = open_out_fd ofd in
  let pos = ref 0 and expected = Buffer.create 1000 in
  let died = ref None and wrote_err = ref false in
  let avail_from p = max 0 (cut - p) in
  (try List.iteri (fun i op ->
    incr sim_time;
    let run who len bounded f check =
      let p0 = !pos in
      if pos_in ic <> p0 then fail "wrong-position" "%s: stream at %d, expected %d" who (pos_in ic) p0;
      let short = bounded && avail_from p0 < len in
      ev "%s len=%d bounded=%b short=%b" who len bounded short;
      (match f () with
       | v ->
         if short then fail "short-read-unreported" "%s: input ended after %d of %d bytes and nothing was raised" who (avail_from p0) len;
         let want = if bounded then p0 + len else cut in
         if pos_in ic <> want then fail "overconsumed" "%s: consumed up to %d, should be %d" who (pos_in ic) want;
         pos := want;
         check v
       | exception End_of_file ->
         if not short then fail "spurious-eof" "%s: End_of_file with %d of %d bytes present" who (avail_from p0) len;
         probe "end-of-file"; died := Some who; raise Exit
       | exception Sys_error m ->
         if fd_errs ifd + fd_errs ofd = 0 then fail "spurious-error" "%s: Sys_error %s without an I/O fault" who m;
         if bounded && pos_in ic > p0 + len then fail "overconsumed" "%s: consumed beyond its %d bytes" who len;
         probe "io-error"; died := Some who; raise Exit
       | exception (Error (Wrong_data_length | Bad_padding | Bad_encoding | Compression_error _) as e) ->
         (* legitimate only when the data itself was cut, in an unbounded read *)
         if bounded || cut = total then fail "spurious-error" "%s: %s on intact input" who (str_of_exn e);
         probe "cut-data-error"; died := Some who; raise Exit) in
    match op with
    | Raw s ->
      let n = String.length s in
      let b = Bytes.create n in
      (match really_input ic b 0 n with
       | () -> if Bytes.to_string b <> s then fail "wrong-input" "bytes between messages differ"; pos := !pos + n
       | exception End_of_file -> died := Some "raw"; raise Exit
       | exception Sys_error _ -> died := Some "raw"; raise Exit)
    | T (t, bounded) ->
      let len = String.length t.input in
      let who = Printf.sprintf "[%d]transform_channel/%s" i t.tname in
      let intact = avail_from !pos >= len in
      let tr = lib t.make in
      if intact || bounded then begin
        Buffer.add_string expected t.expect;
        run who len bounded (fun () -> if bounded then transform_channel tr ~len ic oc else transform_channel tr ic oc) ignore
      end else begin
        (* the file ends early: exactly what the same bytes give without a channel *)
        let tr2 = t.make () in
        tr2#put_string (String.sub stream !pos (cut - !pos));
        let o = tr2#get_string in
        let refused = match tr2#finish with () -> Buffer.add_string expected (o ^ tr2#get_string); false
          | exception Error _ -> Buffer.add_string expected o; true in
        run who len bounded (fun () -> transform_channel tr ic oc)
          (fun () -> if refused then fail "error-unreported" "%s: the input ends at a place where it cannot, and nothing was raised" who);
      end;
      nontrivial := !nontrivial || len > 0
    | H (h, bounded) ->
      let len = String.length h.hinput in
      let who = Printf.sprintf "[%d]hash_channel/%s" i h.hname in
      let intact = avail_from !pos >= len in
      let hs = lib h.hmake and p0 = !pos in
      run who len bounded (fun () -> if bounded then hash_channel hs ~len ic else hash_channel hs ic)
        (fun r -> if intact && r <> h.hexpect || not intact && r <> hash_string (h.hmake ()) (String.sub stream p0 (cut - p0)) then fail "wrong-hash" "%s: wrong hash of %d bytes" who len);
      nontrivial := !nontrivial || len > 0) ops
   with Exit -> ());
  (* what is left in the stream is intact, once the medium recovers *)
  fd_faults ifd 0 0 0 0;
  let p = pos_in ic in
  let rest = Buffer.create 100 in
  (try while true do Buffer.add_channel rest ic 1 done with End_of_file -> ());
  if Buffer.contents rest <> String.sub stream p (cut - p) then fail "lost-input" "%d bytes left in the stream, %d expected" (Buffer.length rest) (cut - p);
  let closed = match close_out oc with () -> true | exception Sys_error _ -> (wrote_err := true; close_out_noerr oc; false) in
  close_in ic;
  let got = fd_data ofd and want = Buffer.contents expected in
  let n = String.length got in
  if n > String.length want || String.sub want 0 n <> got then begin
    let k = ref 0 in
    while !k < n && !k < String.length want && got.[!k] = want.[!k] do incr k done;
    fail "wrong-output" "output differs from the reference at byte %d of %d" !k n end;
  if !died = None && closed && n <> String.length want then fail "silent-loss" "everything succeeded, yet %d of %d bytes were written" n (String.length want);
  if (not closed) && fd_errs ofd = 0 then fail "spurious-error" "closing the output failed without an I/O fault"
