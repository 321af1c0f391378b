(* Simulated entropy sources (see seam.c). *)
external reset_c : int -> unit = "sim_ent_reset" [@@noalloc]
external config : int -> int -> int -> unit = "sim_ent_config" [@@noalloc]
external pos : int -> int = "sim_ent_pos" [@@noalloc]
external calls : int -> int = "sim_ent_calls" [@@noalloc]
external byte : int -> int -> int = "sim_ent_byte" [@@noalloc]
external open_mode : int -> unit = "sim_open_mode" [@@noalloc]
external dev_limit : int -> unit = "sim_dev_limit" [@@noalloc]
external dev_faults : int -> int -> int -> unit = "sim_dev_faults" [@@noalloc]
external dev_errs : unit -> int = "sim_dev_errs" [@@noalloc]
external hw_init : unit -> int = "sim_hw_init" [@@noalloc]
external fd_open_count : unit -> int = "sim_fd_open_count" [@@noalloc]
external rd_reset : unit -> unit = "sim_rd_reset" [@@noalloc]
let reset n = reset_c n
