---------------------------- MODULE BackendModel ----------------------------
(***************************************************************************)
(* Choosing between the compiled extension and pure Python.                *)
(*                                                                         *)
(* DIFF_DIFF_BACKEND (any case) asks for python, rust or, with any other   *)
(* value, whatever is there.  The extension is usable only as a whole: one *)
(* lacking a routine counts as absent.  Asking for rust without a usable   *)
(* extension is an import error.  In fast mode a routine is handed to the  *)
(* extension, whose reply is                                               *)
(*   ok        the routine's answer                                        *)
(*   unstable, singular   it gives up on numerical grounds                 *)
(*   nanvcov   least squares whose covariance it could not form            *)
(*   inversion it found the cross product singular                         *)
(*   other     any other refusal                                           *)
(*   some      a search in which many fits failed;   none  all failed      *)
(*   few       fewer than ten bootstrap draws;  zero  no draw at all       *)
(*   error     an exception of any kind                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Routines == {"generate_bootstrap_weights_batch", "compute_synthetic_weights", "project_simplex", "solve_ols", "compute_robust_vcov",
             "compute_unit_distance_matrix", "loocv_grid_search", "bootstrap_trop_variance", "loocv_grid_search_joint", "bootstrap_trop_variance_joint"}
Envs == {"unset", "", "auto", "AUTO", "none", "c", "python", "Python", "PYTHON", "rust", "Rust", "RUST"}
Asked(e) == CASE e \in {"python", "Python", "PYTHON"} -> "python" [] e \in {"rust", "Rust", "RUST"} -> "rust" [] OTHER -> "auto"
Libs == {"absent", "complete"} \cup Routines     \* a routine's name: the extension without it
Mode(e, lib) == CASE Asked(e) = "python" -> "python" [] lib = "complete" -> "fast" [] Asked(e) = "rust" -> "error" [] OTHER -> "python"
---------------------------------------------------------------------------
Call(op, rank, skip, vc, reply) == [op |-> op, rank |-> rank, skip |-> skip, vc |-> vc, reply |-> reply]
OlsCalls == { c \in { Call("ols", k, s, v, r) : k \in {"full", "deficient"}, s \in BOOLEAN, v \in BOOLEAN, r \in {"ok", "unstable", "singular", "nanvcov", "other"} } :
              (c.skip => c.rank = "full") /\ (c.reply = "nanvcov" => c.vc) }
Plain(op, rs) == { Call(op, "full", FALSE, TRUE, r) : r \in rs }
CallSet == OlsCalls \cup Plain("vcov", {"ok", "unstable", "inversion", "other"})
            \cup Plain("loo", {"ok", "some", "none", "error"}) \cup Plain("loojoint", {"ok", "some", "none", "error"})
            \cup Plain("boot", {"ok", "few", "zero", "error"}) \cup Plain("bootjoint", {"ok", "few", "zero", "error"})
(* who answers, whether a warning must tell, whether the caller gets an exception *)
Out(by, warn, raises) == [by |-> by, warn |-> warn, raises |-> raises]
Outcome(mode, c) ==
  IF mode = "python" \/ (c.op = "ols" /\ c.rank = "deficient") THEN Out("python", FALSE, FALSE) ELSE
  CASE c.reply = "ok" -> Out("fast", FALSE, FALSE)
    [] c.reply \in {"unstable", "singular"} -> Out("python", TRUE, FALSE)
    [] c.reply = "nanvcov" -> IF c.skip THEN Out("any", FALSE, FALSE) ELSE Out("python", TRUE, FALSE)
    [] c.reply \in {"inversion", "other"} -> Out("none", FALSE, TRUE)
    [] c.reply = "some" -> Out("fast", TRUE, FALSE)
    [] c.reply = "none" -> Out("python", TRUE, FALSE)
    [] c.reply \in {"few", "zero"} -> IF c.op = "bootjoint" THEN Out(IF c.reply = "few" THEN "fast" ELSE "undefined", TRUE, FALSE) ELSE Out("python", FALSE, FALSE)
    [] c.reply = "error" -> Out("python", FALSE, FALSE)
=============================================================================
