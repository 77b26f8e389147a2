------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: the file TRACE holds executions of the real program,  *)
(* one record per line; a record "init" starts an execution and gives all  *)
(* accounts, any other record is one instruction (or read) with its        *)
(* outcome and the accounts it changed.  Every execution is one behaviour; *)
(* each step is judged by the clauses of Props and by the transition       *)
(* function, from the accounts observed before it.                         *)
(* A violated clause is printed as <<"VIOL", line, property, text>>.       *)
(***************************************************************************)
EXTENDS Props, Client, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Check == IOEnv.CHECK

VARIABLES l,    \* line of the record just taken
          i0,   \* line of the execution's init record
          w,    \* the accounts
          sq    \* per queue account and side, the least sequence number not used

vars == <<l, i0, w, sq>>

Fresh == [B |-> NZero, A |-> NZero]
Init == /\ l \in {i \in 1..Len(Log) : Log[i].op = "init"}
        /\ i0 = l
        /\ w = Log[l].w
        /\ sq = [i \in 1..Len(Log[l].w) |-> Fresh]

RECURSIVE Upd(_, _, _)
Upd(v, chg, i) == IF i > Len(chg) THEN v ELSE Upd([v EXCEPT ![chg[i][1]] = chg[i][2]], chg, i + 1)

Report(k, bad) ==
  \A b \in bad : (Check = "ALL" \/ b[1] = Check \/ b[1] = "SPEC") => PrintT("VIOL|" \o ToString(k) \o "|" \o b[1] \o "|" \o b[2])

Instruction == {"create", "new", "cancel", "mass", "consume", "close"}

Step ==
  LET k == l + 1
      e == Log[k]
      full == Log[i0].full
  IN
  /\ l < Len(Log) /\ e.op # "init"
  /\ l' = k
  /\ UNCHANGED i0
  /\ CASE e.op \in Instruction ->
           LET w2  == Upd(w, e.chg, 1)
               q   == IF Bound(w, e.ac) THEN e.ac[2] ELSE 1
               bad == Clauses(w, e, full, sq[q], e.r, w2) \cup Bad(~e.eq, {"P17"}, e.diff)
               spec == IF bad = {} /\ ~Agrees(w, e, full, e.r, w2)
                       THEN {<<"SPEC", "clauses and transition function disagree">>} ELSE {}
           IN /\ w' = w2
              /\ Report(k, bad \cup spec)
              /\ sq' = IF e.r.k # "ok" THEN sq
                       ELSE IF e.op = "new" /\ e.r.posted /\ Bound(w, e.ac)
                       THEN LET n == NAdd(SeqNo(e.s, e.r.l), NOne)
                            IN [sq EXCEPT ![q][e.s] = IF NLt(@, n) THEN n ELSE @]
                       ELSE IF e.op = "create" THEN [sq EXCEPT ![e.ac[2]] = Fresh]
                       ELSE sq
       [] e.op = "env" ->      \* the environment gives accounts, or zeroes closed ones
           IF e.add = <<>> THEN w' = Upd(w, e.chg, 1) /\ UNCHANGED sq
           ELSE w' = w \o e.add /\ sq' = sq \o [i \in 1..Len(e.add) |-> Fresh]
       [] OTHER ->
           /\ UNCHANGED <<w, sq>>
           /\ Report(k, CASE e.op = "read" -> ReadClauses(w, e)
                          [] e.op = "round" -> RoundClauses(e)
                          [] e.op = "wasm" -> WasmClauses(e)
                          [] e.op = "ts" -> ClientClauses(w, e)
                          [] e.op = "readfail" -> {<<p, "reading the market crashes">> : p \in {"P21", "P08"}}
                          [] OTHER -> {})

Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
