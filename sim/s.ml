(* Simulator core: the choice stream, events, faults, probes. *)
external draw_c : int -> int = "sim_draw" [@@noalloc]
external event_c : string -> unit = "sim_event" [@@noalloc]
external evhash : unit -> string = "sim_evhash"
external evcount : unit -> int = "sim_evcount" [@@noalloc]
external nchoices : unit -> int = "sim_nchoices" [@@noalloc]
external choice_at : int -> int = "sim_choice_at" [@@noalloc]
external set_verbose : bool -> unit = "sim_set_verbose" [@@noalloc]
external begin_ : int -> int -> int -> unit = "sim_begin"
external set_script : int array -> unit = "sim_set_script" [@@noalloc]
external script_used : unit -> int = "sim_script_used" [@@noalloc]
external fault_count : int -> int = "sim_fault_count" [@@noalloc]
external fault_num : unit -> int = "sim_fault_num" [@@noalloc]
external fault_name : int -> string = "sim_fault_name"
external take_cviol : unit -> string = "sim_take_cviol"
external arm : bool -> bool = "sim_arm" [@@noalloc]
external set_gc : int -> bool -> unit = "sim_set_gc" [@@noalloc]
external set_fail : int -> unit = "sim_set_fail" [@@noalloc]
external fail_fired : unit -> bool = "sim_fail_fired" [@@noalloc]
external set_guard : bool -> unit = "sim_set_guard" [@@noalloc]
external alloc_points : unit -> int = "sim_alloc_points" [@@noalloc]
external force_gc : int -> unit = "sim_force_gc"
external guard_bytes : int -> bytes = "sim_guard_bytes" [@@noalloc]
external live : int -> int = "sim_live" [@@noalloc]
external restart : unit -> unit = "sim_restart" [@@noalloc]
external set_bytecode : bool -> unit = "sim_set_bytecode" [@@noalloc]
external bytecode_count : unit -> int = "sim_bytecode_count" [@@noalloc]
external cpu : unit -> int = "sim_cpu" [@@noalloc]

exception Violation of string * string

let fail cls fmt = Printf.ksprintf (fun s -> raise (Violation (cls, s))) fmt

(* a local tape lets a harness run the same session twice with other secrets *)
let tape_mode = ref 0 and tape : int list ref = ref []
let draw n =
  if n <= 1 then 0 else
  match !tape_mode with
  | 0 -> draw_c n
  | 1 -> let v = draw_c n in tape := v :: !tape; v
  | _ -> (match !tape with [] -> 0 | v :: r -> tape := r; v mod n)
let tape_record () = tape_mode := 1; tape := []
let tape_rewind () = tape_mode := 2; tape := List.rev !tape
let tape_off () = tape_mode := 0; tape := []
let chance num den = num > 0 && draw den >= den - num
let range lo hi = lo + draw (hi - lo + 1)
let pick a = a.(draw (Array.length a))

let verbose = ref false
(* events are part of the hash; the message is built eagerly so that the
   verbose flag cannot change anything *)
external step_c : unit -> unit = "sim_step" [@@noalloc]
let ev fmt = Printf.ksprintf (fun s -> event_c s; step_c ()) fmt

let counters : (string, int ref) Hashtbl.t = Hashtbl.create 50
let bump tbl k = match Hashtbl.find_opt tbl k with Some r -> incr r | None -> Hashtbl.add tbl k (ref 1)
let fault k = bump counters k; event_c k
let probes : (string, int ref) Hashtbl.t = Hashtbl.create 50
let probe k = bump probes k
let states : (string, int ref) Hashtbl.t = Hashtbl.create 1000
let state k = bump states k          (* abstract state reached *)
let sim_time = ref 0                  (* simulated steps *)
let nontrivial = ref false

let in_lib = ref 0
let lib f =
  let o = arm true in
  match f () with
  | v -> ignore (arm o);
    let c = take_cviol () in if c <> "" then fail "c-heap" "%s" c; v
  | exception e -> ignore (arm o);
    let c = take_cviol () in if c <> "" then fail "c-heap" "%s" c; raise e

let show s = let n = String.length s in
  if n <= 24 then Refm.hex s else Printf.sprintf "%s..(%d bytes)" (Refm.hex (String.sub s 0 16)) n

(* ------ data ------ *)
let prng_string seed n =
  let st = ref (seed * 2 + 0x1234567) in
  String.init n (fun _ ->
    st := (!st * 0x5851F42D4C957F2D + 0x14057B7EF767814F) land max_int;
    Char.chr ((!st lsr 33) land 255))
let salt = ref 0
let supplied : string list ref = ref []      (* strings that belong to the caller *)
let vary s =
  let s = if !salt = 0 then s else begin
    let m = prng_string (7919 * !salt) (String.length s) in
    String.mapi (fun i c -> Char.chr (Char.code c lxor (Char.code m.[i] lor 1))) s end in
  if !tape_mode <> 0 then supplied := s :: !supplied;
  s
let data n =
  vary @@ match draw 10 with
  | 8 | 9 as k -> (* almost constant *)
    let b = Bytes.make n (if k = 8 then '\000' else '\255') in
    if n > 0 then for _ = 0 to draw 4 do Bytes.set b (draw n) (Char.chr (draw 256)) done; Bytes.to_string b
  | 0 -> String.make n '\000'
  | 1 -> String.init n (fun i -> Char.chr (i land 255))
  | 2 -> String.make n '\255'
  | 3 -> String.init n (fun i -> "the quick brown fox ".[i mod 20])
  | _ -> prng_string (draw 0x3fffffff) n
let key_bytes n = vary @@ match draw 8 with
  | 6 | 7 as k ->
    let b = Bytes.make n (if k = 6 then '\000' else '\255') in
    if n > 0 then for _ = 0 to draw 3 do Bytes.set b (draw n) (Char.chr (draw 256)) done; Bytes.to_string b
  | 0 -> String.init n (fun i -> Char.chr (0x41 + i land 31))
  | 1 -> String.make n '\000' | 2 -> String.make n '\255'
  | _ -> prng_string (draw 0x3fffffff) n
let edge = [|0;1;2;3;4;5;7;8;9;15;16;17;23;24;31;32;33;47;48;54;55;56;57;63;64;65;71;72;73;
  111;112;113;119;120;127;128;129;135;136;137;143;144;145;191;192;193;255;256;257;271;272;287;
  319;320;383;384;511;512;513;767;768;1023;1024;1025;2047;2048;2049;3071;3072;3073;4095;4096;4097|]
let size max =
  let v = match draw 4 with
    | 0 -> draw 40
    | 1 -> pick edge
    | 2 -> range 0 300
    | _ -> if draw 8 = 7 then (if draw 24 = 23 && max >= 2000 then - (range 5000 70000) else draw (max + 1))
      else draw (min max 1200 + 1) in
  if v < 0 then (probe "large-message"; - v) else min v max

(* a buffer of exactly [s], optionally surrounded, in guarded memory *)
let guarded_src s =
  let n = String.length s in
  let pre = if draw 3 = 2 then range 1 9 else 0 and post = if draw 3 = 2 then range 1 9 else 0 in
  if draw 4 = 3 then begin
    let b = Bytes.make (pre + n + post) '\xEE' in Bytes.blit_string s 0 b pre n; (b, pre)
  end else begin
    let b = guard_bytes (pre + n + post) in
    Bytes.fill b 0 (pre + n + post) '\xEE'; Bytes.blit_string s 0 b pre n; (b, pre) end

let str_of_exn = function
  | Cryptokit.Error e -> "Error " ^ (match e with
    | Wrong_key_size -> "Wrong_key_size" | Wrong_IV_size -> "Wrong_IV_size" | Wrong_data_length -> "Wrong_data_length"
    | Bad_padding -> "Bad_padding" | Output_buffer_overflow -> "Output_buffer_overflow"
    | Incompatible_block_size -> "Incompatible_block_size" | Number_too_long -> "Number_too_long"
    | Seed_too_short -> "Seed_too_short" | Message_too_long -> "Message_too_long" | Bad_encoding -> "Bad_encoding"
    | Compression_error (a, b) -> "Compression_error(" ^ a ^ ")"
    | No_entropy_source -> "No_entropy_source" | Entropy_source_closed -> "Entropy_source_closed"
    | Compression_not_supported -> "Compression_not_supported")
  | Out_of_memory -> "Out_of_memory"
  | Sys_error _ -> "Sys_error" | End_of_file -> "End_of_file"
  | Invalid_argument _ -> "Invalid_argument" | Not_found -> "Not_found"
  | Unix.Unix_error (e, _, _) -> "Unix_error"
  | Failure _ -> "Failure"
  | e -> Printexc.exn_slot_name e
