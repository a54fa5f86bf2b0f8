-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Ownership.  A pool of objects (signals, responses, filters, banks,      *)
(* spectra, arrays, argument lists, results), each with a version: the     *)
(* number of edits it has seen.  Calling an operation leaves every object  *)
(* of the pool at its version and adds two new ones: the result and the    *)
(* further mutable arguments the call was given; editing an object in      *)
(* place (values, structure or settings) changes the version of that       *)
(* object and of no other one.  Repeating a call on arguments that are at  *)
(* the versions of the earlier call gives the same result again.           *)
(* init: [n: objects in the beginning]                                     *)
(* events: call [name, args: object numbers, like: number of an earlier    *)
(*         call to compare with (0: none)];  edit [i, how]                 *)
(* observation: [ver: version of every object, like: same result?]         *)
(***************************************************************************)
EXTENDS Base

HPInit(i) == [ver |-> Const(i.n, 0), calls |-> <<>>]

HPStep(st, ev) ==
    IF ev.op = "call"
    THEN LET av == [k \in 1..Len(ev.args) |-> st.ver[ev.args[k]]]
             old == st.calls[ev.like]
             rep == ev.like > 0 /\ old.name = ev.name /\ old.args = ev.args /\ old.ver = av
             nver == st.ver \o <<0, 0>>
         IN  [st |-> [ver |-> nver, calls |-> Append(st.calls, [name |-> ev.name, args |-> ev.args, ver |-> av])],
              out |-> [ver |-> nver, like |-> IF rep THEN "same" ELSE "any"]]
    ELSE LET nver == [st.ver EXCEPT ![ev.i] = @ + 1]
         IN  [st |-> [st EXCEPT !.ver = nver], out |-> [ver |-> nver, like |-> "any"]]

HPMatch(out, ob) == /\ ~IsErr(ob) /\ ob.ver = out.ver
                    /\ out.like = "same" => ob.like = "same"

HPInv(st) == /\ Len(st.ver) >= 2 * Len(st.calls)
             /\ \A k \in 1..Len(st.calls) : Len(st.calls[k].args) = Len(st.calls[k].ver)

(* exhaustive part: short programs over operations on two signals *)
HPStarts == {[n |-> 2, pool |-> <<"S", "C">>]}
HPOps1 == {"pad_trim", "normalize", "delay0", "detrend", "fade0", "resample_same", "get_channels", "copy_new"}
HPEvents(st) ==
    {[op |-> "call", name |-> o, args |-> <<i>>, like |-> 0] : o \in HPOps1, i \in 1..2}
    \cup {[op |-> "edit", i |-> i, how |-> h] : i \in 1..Len(st.ver), h \in {0, 2}}
=============================================================================
