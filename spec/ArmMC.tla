------------------------------- MODULE ArmMC -------------------------------
(***************************************************************************)
(* The decoder on its own: words are walked by changing one field at a     *)
(* time, and what depends on other fields must stay.                       *)
(***************************************************************************)
EXTENDS Arm
CONSTANTS Regs, Conds
VARIABLES v, op
vars == <<v, op>>

\* The word with a field changed
RECURSIVE Put(_, _, _, _)
Put(w, lo, n, x) == IF n = 0 THEN w
                    ELSE Put(IF Bit(w, lo) = x % 2 THEN w ELSE Flip(w, lo), lo + 1, n - 1, x \div 2)

\* Some of each class: data (immediate, register, shifted both ways, compares), multiply, memory, halfwords, multiple, ...
All == {-494927871, -528416766, -528416510, -528415982, -514785278, -509607935, -481296380, -509607646, -509607406,
        -536804462, -534707310, -528415854, -443543548, -444592124, -409989118, -460320764, -459472892, -506457932,
        -507506508, -507502380, -510652238, -382910448, -390234096, -393150458, -394199034, -374276090, -352321538,
        -335544322, 167772164, -516948194, -516948175, -285212672, -484380672, -512815343, -486539263, -482344959,
        -100663280, -83886064, -442503164}
\* and of the rarer ones: swaps, exclusives, the status, halves, saturation, media, coprocessors, hints
More == {-536149869, -535949935, -525918052, -523859302, -519110656, -517996432, -516948191, -515889181, -515338087, -515216210,
         -515207017, -515074174, -514908160, -513802160, -513405746, -511148140, -510590791, -508522593, -507990113,
         -507707177, -507510346, -505253990, -484380671, -484380668, -479199729, -433057904, -432140464, -427767695,
         -427765840, -427319363, -427094096, -424962160, -424866286, -424857802, -424671110, -423814064, -423686352,
         -423673936, -423653456, -422591376, -421494987, -420737232, -420475952, -419547944, -419367632, -419366338,
         -419366096, -419365552, -419301607, -419234509, -419225005, -419169712, -418123758, -417861605, -416222697,
         -415083696, -414735278, -414558631, -414060527, -410901991, -410780142, -410124272, -408943279, -406059489,
         -405466602, -332382465, -323874544, -313468170, -309278103, -297465614, -297347642, -291909184, -285863847,
         -331310285, -329860295, -329688271, -329565384, -301192688, -300127728, -300008816, -287229424, -286164464, -286131696,
         -200978275, -198545331, -196721335, -194758257, -190423776, -190311424, -189914417, -188261632, -188085747,
         -186103155, -185987680, -185786720, -185774195, -185701203}
Init == v \in All \union More /\ Class(v) # "unknown" /\ op = Op(v)
Condition == F(v, 28, 4) # 15 /\ Class(v) # "breakpoint" /\ \E x \in Conds : v' = Put(v, 28, 4, x) /\ UNCHANGED op
\* fields that have a register in all the classes where they are changed
HasRegisters == Class(v) \in {"data", "multiply", "memory", "extra"} /\ ~IsPop(v)
Register == /\ HasRegisters
            /\ \E x \in Regs, f \in {12, 16} :
                  /\ ~(Class(v) = "extra" /\ f = 12 /\ x % 2 = 1)
                  /\ v' = Put(v, f, 4, x)
            /\ ~IsPop(v')
            /\ UNCHANGED op
ToList == /\ Class(v) = "multiple" /\ \E r \in Regs : v' = Flip(v, r) /\ F(v', 0, 16) # 0
          /\ op' = Op(v')
Ahead == /\ Class(v) = "branch" /\ \E b \in {0, 5, 22, 23} : v' = Flip(v, b) /\ UNCHANGED op
Next == Condition \/ Register \/ ToList \/ Ahead
Spec == Init /\ [][Next]_vars

\* The condition and the registers never change what the operation is; lists may only make a push or a pop of it
OperationStays == op = Op(v)
ClassKnown == Class(v) # "unknown"
\* What is read and written is used, and all that is used is read or written
Cover == /\ Written(v) \union Read(v) = Used(v)
         /\ StoragesWritten(v) \union StoragesRead(v) \subseteq StoragesUsed(v) \union {PC}
         /\ StoragesUsed(v) \subseteq StoragesWritten(v) \union StoragesRead(v) \union {NOREG}
NoRegIsAlone == NOREG \in StoragesUsed(v) => Cardinality(StoragesUsed(v)) = 1
\* Loads and stores are different things
Memory == ((Loads(v) /\ Stores(v)) = (Class(v) = "swap")) /\ ((STORE \in StoragesUsed(v)) = (Loads(v) \/ Stores(v)))
\* Only jumps write the counter
PcIsAJump == (PC \in StoragesWritten(v)) = Jumps(v)
LinkJumps == Links(v) => Jumps(v)
\* Jumping ahead by as much as back is two instructions further
Symmetric == TargetKnown(v) /\ F(v, 28, 4) # 15 => Target(v, 4096) = 4104 + 4 * Offset(v) /\ Offset(v) \in -8388608..8388607
=============================================================================
