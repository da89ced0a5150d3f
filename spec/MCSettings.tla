----------------------------- MODULE MCSettings -----------------------------
(***************************************************************************)
(* The settings as a store, explored completely by TLC with few ids and    *)
(* values.  The check of C13 executes every transition with ids and values *)
(* of the library, reading everything back as it goes.                     *)
(***************************************************************************)
EXTENDS TaLib

CONSTANTS Ids, Candles   \* numbers of unstable periods and of candle settings
VARIABLES cmd

Values == {0, 1}
Other == [rt |-> 1, ap |-> 3, fac |-> Lit("2")]

Init == LibInit /\ cmd = <<>>

Call == on /\
  \/ \E i \in Ids, v \in Values : SetUnstable(i, v, SUCCESS) /\ cmd' = <<"unst", i, v>>
  \/ \E v \in Values : SetUnstable(NUnst, v, SUCCESS) /\ cmd' = <<"unstall", v>>
  \/ SetUnstable(NUnst + 1, 1, BAD_PARAM) /\ cmd' = <<"unstbad">>
  \/ \E v \in Values : SetCompat(v, SUCCESS) /\ cmd' = <<"compat", v>>
  \/ \E i \in Candles : SetCandle(i, Other.rt, Other.ap, Other.fac, SUCCESS) /\ cmd' = <<"candle", i>>
  \/ SetCandle(NCandle, Other.rt, Other.ap, Other.fac, BAD_PARAM) /\ cmd' = <<"candlebad">>
  \/ \E i \in Candles : RestoreCandle(i, SUCCESS) /\ cmd' = <<"restore", i>>
  \/ RestoreCandle(NCandle, SUCCESS) /\ cmd' = <<"restoreall">>
  \/ RestoreCandle(NCandle + 1, BAD_PARAM) /\ cmd' = <<"restorebad">>
Next == \/ Call
        \/ Initialize(SUCCESS) /\ cmd' = <<"init">>
        \/ Shutdown(IF on THEN SUCCESS ELSE LIB_NOT_INIT) /\ cmd' = <<"shutdown">>
Spec == Init /\ [][Next]_<<libvars, cmd>>

\* a write changes only its own entry
Entries(x) == {<<"u", i, x.unst[i]>> : i \in 1..NUnst} \cup {<<"c", i, x.cs[i]>> : i \in 1..NCandle} \cup {<<"m", 0, x.compat>>}
OneEntry == [][cmd'[1] \in {"unst", "compat", "candle", "restore"} => Cardinality(Entries(g') \ Entries(g)) <= 1]_<<libvars, cmd>>
Rejected == [][cmd'[1] \in {"unstbad", "candlebad", "restorebad", "shutdown"} => g' = g]_<<libvars, cmd>>
Reset == [][cmd'[1] = "init" => g' = DefaultG]_<<libvars, cmd>>
TypeOK == /\ \A i \in 1..NUnst : g.unst[i] \in Values
          /\ \A i \in 1..NCandle : g.cs[i] \in {DefaultCs[i], Other}
          /\ g.compat \in Values

Key(x, o) == IF ~o THEN <<FALSE>>
             ELSE <<[i \in 1..NUnst |-> x.unst[i]], x.compat, [i \in 1..NCandle |-> IF x.cs[i] = DefaultCs[i] THEN 0 ELSE 1]>>
View == Key(g, on)
Emit == PrintT(ToString(View) \o " ==> " \o ToString(cmd') \o " ==> " \o ToString(Key(g', on')))
First == cmd = <<>> => PrintT("initial: " \o ToString(View))
=============================================================================
