----------------------------- MODULE YaskLifeMC -----------------------------
(* All histories of a few life-cycle calls on two solutions, with what the   *)
(* life cycle promises; each state reached is printed with a history leading *)
(* to it, which the harness replays.                                         *)
EXTENDS YaskLife, Json

CONSTANT MaxOps
P0 == [d |-> 1, au |-> 2, av |-> 1, nr |-> 1]
VARIABLES q, h, last
vars == <<q, h, last>>

HookOps(s) == {[op |-> "hook", s |-> s, kind |-> k[1], tag |-> k[2], k |-> k[3], v |-> "u", n |-> 2] :
                 k \in {<<"br", 1, "setall">>, <<"ar", 2, "bsize">>, <<"ap", 3, "run">>, <<"bp", 4, "bsize">>}}
Ops == UNION {{[op |-> "new", s |-> s], [op |-> "from", s |-> s, o |-> 3 - s], [op |-> "osize", s |-> s, n |-> 16],
               [op |-> "rsize", s |-> s, n |-> 32], [op |-> "optl", s |-> s, n |-> 16], [op |-> "bsize", s |-> s, n |-> 8],
               [op |-> "prep", s |-> s], [op |-> "end", s |-> s], [op |-> "rel", s |-> s, v |-> "v"], [op |-> "del", s |-> s],
               [op |-> "run", s |-> s, a |-> 0, b |-> 1], [op |-> "setall", s |-> s, v |-> "w", n |-> 1],
               [op |-> "stats", s |-> s]} \cup HookOps(s) : s \in {1, 2}}
Ok(e) == CASE e.op = "new" -> ~IsLive(q.sol[e.s]) /\ (e.s = 2 => IsLive(q.sol[1]))
           [] e.op = "from" -> ~IsLive(q.sol[e.s]) /\ IsLive(q.sol[e.o])
           [] e.op = "hook" -> IsLive(q.sol[e.s]) /\ \A k \in Kinds : Len(q.sol[e.s].hk[k]) = 0
           [] OTHER -> IsLive(q.sol[e.s])
Init == q = InitLife(3) /\ h = <<>> /\ last = <<>>
Next == \E e \in Ops :
          /\ Len(h) < MaxOps /\ Ok(e)
          /\ \E r \in Do(P0, q, e) : q' = r.q /\ last' = [e |-> e, ex |-> r.ex]
          /\ h' = Append(h, e)
Spec == Init /\ [][Next]_vars
View == <<q.sol, Len(h)>>

(* A solution that may run has storage of one size for all it needs. *)
RunnableInv == \A i \in 1..3 : IsLive(q.sol[i]) =>
    (Ready(q.sol[i]) => q.sol[i].gs # 0 /\ \A v \in Vars : q.sol[i].st[v] # 0 /\ q.sol[i].st[v] = q.sol[i].st["u"])
(* What is refused has no effect (but for hooks and a failed preparation). *)
RefusedP == [][last'.ex = 1 /\ last'.e.op \notin {"prep"} /\ q'.log = <<>> => q'.sol = q.sol]_vars
(* Solutions do not touch each other. *)
IndepP == [][\A i \in 1..3 : i # last'.e.s => q'.sol[i] = q.sol[i]]_vars
(* A run happens only when ready, and then takes exactly the steps asked.    *)
RunP == [][last'.e.op = "run" /\ last'.ex = 0 /\ Len(q'.log) = 0 =>
             LET s == q.sol[last'.e.s] IN Ready(s) /\ q'.sol[last'.e.s].steps = s.steps + 2]_vars
(* Refused when and only when not ready (no hooks). *)
RefuseRunP == [][last'.e.op = "run" /\ q.sol[last'.e.s].hk["br"] = <<>> => (last'.ex = 0) = Ready(q.sol[last'.e.s])]_vars
(* Ending leaves nothing to run with; preparing again makes runnable.        *)
EndP == [][last'.e.op = "end" => ~Ready(q'.sol[last'.e.s])]_vars
PrepP == [][last'.e.op = "prep" /\ last'.ex = 0 /\ q.sol[last'.e.s].hk["ap"] = <<>> => Ready(q'.sol[last'.e.s])]_vars
Emit == PrintT(<<"ST", ToJson(h)>>)
=============================================================================
