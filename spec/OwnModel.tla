------------------------------ MODULE OwnModel ------------------------------
(***************************************************************************)
(* Design model of the integer's storage: a value that fits a machine word *)
(* is held in place, a larger one in a block the object owns.  Explored    *)
(* exhaustively over every history of a few registers: construction, copy, *)
(* move, assignment to itself, in-place update with promotion and          *)
(* demotion, failing calls, destruction.                                   *)
(*   obj[r] = "none" | <<"small", v>> | <<"big", block>>                   *)
(*   mem[b] = FreeMem | value held                                          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Regs, Blocks, Big                      \* values 0..2*Big; v > Big needs a block
VARIABLES obj, mem, val                          \* val: what each register should hold ("none" when dead): the abstract state
vars == <<obj, mem, val>>
None == <<"none", 0>>
FreeMem == 99
Dead == 99
Values == 0..(2 * Big)
Small(v) == v <= Big
Live(r) == val[r] # Dead
Free == {b \in Blocks : mem[b] = FreeMem}
Pick == CHOOSE b \in Free : TRUE
IsBig(r) == obj[r] # None /\ obj[r][1] = "big"
Read(r) == IF IsBig(r) THEN mem[obj[r][2]] ELSE obj[r][2]
\* give register r (dead, or live with its present storage) the value v: what every assigning call comes down to
Give(r, v, o, m) ==          \* -> <<obj, mem>>
    LET had == o[r] # None /\ o[r][1] = "big"
        b0 == o[r][2]
        fr == {b \in Blocks : m[b] = FreeMem}
    IN  IF Small(v)
        THEN <<[o EXCEPT ![r] = <<"small", v>>], IF had THEN [m EXCEPT ![b0] = FreeMem] ELSE m>>          \* demotion releases the block
        ELSE IF had THEN <<o, [m EXCEPT ![b0] = v]>>                                                    \* reuse
             ELSE LET b == CHOOSE b \in fr : TRUE IN <<[o EXCEPT ![r] = <<"big", b>>], [m EXCEPT ![b] = v]>>
Init == obj = [r \in Regs |-> None] /\ mem = [b \in Blocks |-> FreeMem] /\ val = [r \in Regs |-> Dead]
Assign(r, v) == LET g == Give(r, v, obj, mem) IN obj' = g[1] /\ mem' = g[2] /\ val' = [val EXCEPT ![r] = v]
Const(r) == \E v \in Values : Assign(r, v)
Copy(r, x) == Live(x) /\ Assign(r, Read(x))                                  \* r = x allowed
Add(r, x, y) == Live(x) /\ Live(y) /\ Read(x) + Read(y) \in Values /\ Assign(r, Read(x) + Read(y))
Sub(r, x, y) == Live(x) /\ Live(y) /\ Read(x) >= Read(y) /\ Assign(r, Read(x) - Read(y))
Fail(r, x) == Live(r) /\ Live(x) /\ Read(x) = 0 /\ UNCHANGED vars            \* division by zero: a temporary block is taken and released
Destroy(r) == /\ Live(r)
              /\ obj' = [obj EXCEPT ![r] = None] /\ val' = [val EXCEPT ![r] = Dead]
              /\ mem' = IF IsBig(r) THEN [mem EXCEPT ![obj[r][2]] = FreeMem] ELSE mem
\* move: the block changes hands, the source is left a small zero and may be used again
Move(r, x) == /\ Live(x) /\ r # x
              /\ obj' = [obj EXCEPT ![r] = obj[x], ![x] = <<"small", 0>>]
              /\ mem' = IF IsBig(r) THEN [mem EXCEPT ![obj[r][2]] = FreeMem] ELSE mem
              /\ val' = [val EXCEPT ![r] = val[x], ![x] = 0]
Swap(r, x) == /\ Live(r) /\ Live(x)
              /\ obj' = [obj EXCEPT ![r] = obj[x], ![x] = obj[r]] /\ val' = [val EXCEPT ![r] = val[x], ![x] = val[r]] /\ UNCHANGED mem
Next == \E r \in Regs : Const(r) \/ Destroy(r) \/ \E x \in Regs : Copy(r, x) \/ Move(r, x) \/ Swap(r, x) \/ Fail(r, x) \/ \E y \in Regs : Add(r, x, y) \/ Sub(r, x, y)
Spec == Init /\ [][Next]_vars
Owners(b) == {r \in Regs : obj[r] = <<"big", b>>}
NoLeak == \A b \in Blocks : mem[b] # FreeMem => Cardinality(Owners(b)) = 1    \* every block in use has one owner
NoDangling == \A r \in Regs : IsBig(r) => mem[obj[r][2]] # FreeMem
Values_OK == \A r \in Regs : Live(r) => Read(r) = val[r]                     \* refines the value semantics
Canonical == \A r \in Regs : IsBig(r) => ~ Small(Read(r))
Balance == (\A r \in Regs : ~ Live(r)) => Free = Blocks                      \* the check's reading after destruction
=============================================================================
