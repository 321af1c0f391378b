(* Threads under a deterministic scheduler: one baton, passed only where the
   simulator says so.  Preemption happens between operations and at the
   safepoints (polls and allocations) of the OCaml code of the library; a
   blocking section entered by the library, or by the runtime on its behalf, is
   a switch point too. *)
open S

exception Abort
let m = Mutex.create ()
let conds = Array.init 9 (fun _ -> Condition.create ())
let baton = ref (-1) and live : int list ref = ref [] and me = ref (-1)
let viol : exn option ref = ref None
let active = ref false
let switches = ref 0

let hand_over self next =
  Mutex.lock m;
  baton := next; Condition.signal conds.(next);
  if self >= 0 then while !baton <> self do Condition.wait conds.(self) m done;
  Mutex.unlock m;
  me := self;
  if self >= 0 && self < 8 && !viol <> None then raise Abort

let yield_now () =
  if !active && !me >= 0 && !me < 8 then begin
    let self = !me in
    match List.filter (fun k -> k <> self) !live with
    | [] -> ()
    | l ->
      let k = draw (List.length l + 1) in
      if k > 0 then begin
        let o = arm false in
        incr switches;
        hand_over self (List.nth l (k - 1));
        ignore (arm o) end
  end

(* The handler runs at every safepoint of armed code (see seam.c, "storm").
   Signals are blocked while it runs. *)
external storm : bool -> unit = "sim_storm" [@@noalloc]
external sections : bool -> unit = "sim_sections" [@@noalloc]
let next_at = ref 0 and gap = ref 40
type hook = [ `Off | `Preempt | `Interrupt ]
let hook_mode : hook ref = ref `Off
let points = ref 0
exception Interrupt
let interrupt_at = ref (-1)
let on_safepoint _ =
  if arm false then begin
    incr points;
    (match !hook_mode with
     | `Off -> ()
     | `Preempt ->
       if !active then begin
         decr next_at;
         if !next_at <= 0 then begin
           next_at := 1 + draw !gap;
           fault "preemption";
           yield_now () end end
     | `Interrupt ->
       if !interrupt_at >= 0 && !points > !interrupt_at then begin
         interrupt_at := -1; fault "async_exception"; raise Interrupt end);
    ignore (arm true) end
let () = Sys.set_signal Sys.sigusr2 (Sys.Signal_handle on_safepoint);
  (* the runtime's own time slices: the baton decides instead *)
  Sys.set_signal Sys.sigvtalrm (Sys.Signal_handle (fun _ -> ()))
let with_hook mode f =
  hook_mode := mode; points := 0;
  storm true; sections (mode = `Preempt);
  Fun.protect ~finally:(fun () -> hook_mode := `Off; storm false; sections false) f

let () = Callback.register "sim_yield" (fun () -> if !active then (fault "blocking_section_switch"; yield_now ()))

let run_threads (bodies : (unit -> unit) list) =
  viol := None; active := true; switches := 0;
  let n = List.length bodies in
  live := List.init n (fun i -> i);
  baton := 8;
  let parked = ref 0 in
  let ths = List.mapi (fun i body ->
   let th = Thread.create (fun () ->
    Mutex.lock m;
    incr parked; Condition.signal conds.(8);
    while !baton <> i do Condition.wait conds.(i) m done;
    Mutex.unlock m;
    me := i;
    (try if !viol = None then body () with
     | Abort -> ()
     | e -> if !viol = None then viol := Some e);
    ignore (arm false);
    live := List.filter (fun k -> k <> i) !live;
    let next = match !live with [] -> 8 | l -> List.nth l (draw (List.length l)) in
    Mutex.lock m; baton := next; Condition.signal conds.(next); Mutex.unlock m) () in
   (* one after the other, so that nothing depends on when a thread starts *)
   Mutex.lock m;
   while !parked <= i do Condition.wait conds.(8) m done;
   Mutex.unlock m; th) bodies in
  let first = draw n in
  Mutex.lock m;
  baton := first; Condition.signal conds.(first);
  while !baton <> 8 do Condition.wait conds.(8) m done;
  Mutex.unlock m;
  List.iter Thread.join ths;
  active := false; me := -1;
  match !viol with Some e -> raise e | None -> ()
