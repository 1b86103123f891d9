-------------------------------- MODULE SemiE ---------------------------------
(***************************************************************************)
(* The semi-supervised expectation step: two inner steps, each with its    *)
(* own dispatcher, and one outward dispatcher.  Every inner call may emit  *)
(* events; they appear outside exactly once, in order.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Target(y) == IF y < 0 THEN "uns" ELSE "sup"
(* inner calls an operation must cause *)
Calls(op) == CASE op.op = "doc"   -> {<<Target(op.y), "doc">>}
               [] op.op = "epoch" -> {<<"sup", "epoch">>, <<"uns", "epoch">>}
               [] OTHER           -> {}
=============================================================================
