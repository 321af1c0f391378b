let usage () = prerr_endline "usage: sim run|replay ..."; exit 2
let props = Props.all

let json_str s = let b = Buffer.create (String.length s + 2) in
  Buffer.add_char b '"';
  String.iter (fun c -> match c with
    | '"' -> Buffer.add_string b "\\\"" | '\\' -> Buffer.add_string b "\\\\"
    | c when Char.code c < 32 || Char.code c > 126 -> Buffer.add_string b (Printf.sprintf "\\u%04x" (Char.code c))
    | c -> Buffer.add_char b c) s;
  Buffer.add_char b '"'; Buffer.contents b

let tbl t = "{" ^ String.concat "," (List.sort compare (Hashtbl.fold (fun k r l -> Printf.sprintf "%s:%d" (json_str k) !r :: l) t [])) ^ "}"

let hash_name s = let h = ref 17 in String.iter (fun c -> h := (!h * 1000003 + Char.code c) land 0x3fffffffffff) s; !h

let one prop run seed =
  S.begin_ run (seed * 1000003 + hash_name prop) run;
  S.nontrivial := false;
  Gc.minor ();
  Ent.reset 0; Sess.hostile := false; Hashtbl.reset Robust.drawn;
  (* half of the runs find the library as it is at the start of a process *)
  if S.draw 2 = 1 then (S.restart (); S.fault "process_restart");
  (* and one in four calls the primitives the way bytecode programs do *)
  let bc = S.draw 4 = 3 and bc0 = S.bytecode_count () in
  S.set_bytecode bc;
  try
    (List.assoc prop props) ();
    if S.bytecode_count () > bc0 then S.probe "bytecode-entry-points";
    ignore (S.arm false);
    let c = S.take_cviol () in
    if c <> "" then Some ("c-heap", c) else None
  with
  | S.Violation (c, d) -> ignore (S.arm false); Some (c, d)
  | e -> ignore (S.arm false); Some ("unexpected-exception:" ^ S.str_of_exn e, Printexc.to_string e)

let choices () = Array.init (S.nchoices ()) S.choice_at

let () =
  Gc.set { (Gc.get ()) with Gc.minor_heap_size = 8192 };
  ignore (Lazy.force Refm.bf_init);
  match Array.to_list Sys.argv with
  | _ :: "run" :: prop :: seed :: start :: stride :: count :: budget :: out :: _ ->
    let seed = int_of_string seed and start = int_of_string start and stride = int_of_string stride
    and count = int_of_string count and budget = float_of_string budget in
    let t0 = Unix.gettimeofday () in
    let seq = Sys.getenv_opt "SIM_SEQ" <> None in
    let hashes = Hashtbl.create 1000 in
    let runs = ref 0 and nt = ref 0 and nch = ref 0 and evs = ref 0 and viol = ref None and samples = ref [] and first = ref [] in
    let i = ref 0 in
    while !viol = None && !i < count && Unix.gettimeofday () -. t0 < budget do
      let run = start + !i * stride in
      let r = one prop run seed in
      incr runs; nch := !nch + S.nchoices (); evs := !evs + S.evcount ();
      let h = S.evhash () in
      if !S.nontrivial then begin
        incr nt;
        if not (Hashtbl.mem hashes h) then Hashtbl.add hashes h () end;
      if !i < 25 || seq then first := Printf.sprintf "[%d,%s]" run (json_str h) :: !first;
      if List.length !samples < 3 then samples := Printf.sprintf "{\"run\":%d,\"choices\":%d,\"events\":%d,\"hash\":%s}" run (S.nchoices ()) (S.evcount ()) (json_str h) :: !samples;
      (match r with None -> () | Some (c, d) -> viol := Some (run, c, d, choices (), h));
      incr i
    done;
    let oc = open_out out in
    let faults = Hashtbl.create 20 in
    Hashtbl.iter (fun k v -> Hashtbl.replace faults k (ref !v)) S.counters;
    for k = 0 to S.fault_num () - 1 do if S.fault_count k > 0 then Hashtbl.replace faults (S.fault_name k) (ref (S.fault_count k)) done;
    Printf.fprintf oc "{\"runs\":%d,\"nontrivial\":%d,\"distinct\":%d,\"choices\":%d,\"events\":%d,\"sim_steps\":%d,\"wall\":%.3f,\"states\":%d,\"faults\":%s,\"probes\":%s,\"samples\":[%s],\"hashes\":[%s]"
      !runs !nt (Hashtbl.length hashes) !nch !evs !S.sim_time (Unix.gettimeofday () -. t0) (Hashtbl.length S.states) (tbl faults) (tbl S.probes) (String.concat "," !samples)
      (String.concat "," (Hashtbl.fold (fun h () l -> json_str h :: l) hashes []));
    Printf.fprintf oc ",\"first\":[%s]" (String.concat "," (List.rev !first));
    (match !viol with
     | None -> ()
     | Some (run, c, d, ch, h) ->
       Printf.fprintf oc ",\"violation\":{\"run\":%d,\"class\":%s,\"detail\":%s,\"hash\":%s,\"choices\":[%s]}" run (json_str c) (json_str d) (json_str h)
         (String.concat "," (Array.to_list (Array.map string_of_int ch))));
    output_string oc "}\n"; close_out oc;
    exit (if !viol = None then 0 else 1)
  | _ :: "replay" :: prop :: file :: verbose ->
    let ic = open_in file in
    let l = try input_line ic with End_of_file -> "" in
    close_in ic;
    let ch = Array.of_list (List.filter_map int_of_string_opt (String.split_on_char ' ' l)) in
    S.set_script ch;
    if verbose <> [] then S.set_verbose true;
    let r = one prop 0 0 in
    (match r with
     | None -> Printf.printf "OK %s used=%d\n" (S.evhash ()) (S.script_used ()); exit 0
     | Some (c, d) -> Printf.printf "VIOL %s used=%d %s\n%s\n" (S.evhash ()) (S.script_used ()) c d; exit 1)
  | _ :: "hashes" :: prop :: seed :: start :: stride :: count :: _ ->
    for i = 0 to int_of_string count - 1 do
      let run = int_of_string start + i * int_of_string stride in
      S.set_verbose (Sys.getenv_opt "SIM_SHOW" = Some (string_of_int run));
      ignore (one prop run (int_of_string seed)); Printf.printf "%d %s\n" run (S.evhash ()) done
  | _ -> usage ()
