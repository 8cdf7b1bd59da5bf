-------------------------------- MODULE Arm --------------------------------
(***************************************************************************)
(* P18: what a 32-bit ARM word means, as far as semantic recovery needs:   *)
(* its condition and operation, the storages (registers, memory) it uses,  *)
(* reads and writes, whether it may change the flags, and where it jumps.  *)
(* Written from the ARM manual; the code asks Capstone.                    *)
(***************************************************************************)
EXTENDS Words, FiniteSets, TLC

SP == 13
LR == 14
PC == 15
STORE == 16
NOREG == 18
OTHER_REG == 100      \* those of coprocessors, floating point and status: none of the 16

F(v, lo, w) == Field(v, lo, w)
On1(v, b) == Bit(v, b) = 1

\* The coprocessors whose numbers are for floating point
FloatUnit(v) == F(v, 8, 4) \in 9..11

\* The operations of the media space, "" if it is none
Parallel == <<"add16", "asx", "sax", "sub16", "add8", "", "", "sub8">>
Media(v) ==
    LET o == F(v, 20, 3)  p == F(v, 5, 3)  sb == F(v, 8, 4) = 15  rn == F(v, 16, 4) = 15  ra == F(v, 12, 4) = 15 IN
    CASE F(v, 23, 2) = 0 -> IF o \in {1, 2, 3, 5, 6, 7} /\ sb /\ Parallel[p + 1] # ""
                            THEN <<"s", "q", "sh", "", "u", "uq", "uh">>[o] \o Parallel[p + 1] ELSE ""
      [] F(v, 23, 2) = 1 ->
            IF o = 0 /\ p % 2 = 0 THEN (IF On1(v, 6) THEN "pkhtb" ELSE "pkhbt")
            ELSE IF o = 0 /\ p = 5 THEN (IF sb THEN "sel" ELSE "")
            ELSE IF p = 3 /\ F(v, 8, 2) = 0 /\ o \in {0, 2, 3, 4, 6, 7}
                 THEN (IF o < 4 THEN "s" ELSE "u") \o (IF rn THEN "xt" ELSE "xta") \o <<"b16", "", "b", "h">>[(o % 4) + 1]
            ELSE IF o \in {2, 3, 6, 7} /\ p % 2 = 0 THEN (IF o < 4 THEN "ssat" ELSE "usat")
            ELSE IF o \in {2, 6} /\ p = 1 /\ sb THEN (IF o < 4 THEN "ssat16" ELSE "usat16")
            ELSE IF o \in {3, 7} /\ p \in {1, 5} /\ sb /\ rn
                 THEN (IF o = 3 THEN (IF p = 1 THEN "rev" ELSE "rev16") ELSE IF p = 1 THEN "rbit" ELSE "revsh")
            ELSE ""
      [] F(v, 23, 2) = 2 ->
            (CASE o = 0 /\ p < 4 -> <<"smlad", "smladx", "smlsd", "smlsdx", "smuad", "smuadx", "smusd", "smusdx">>[p + (IF ra THEN 5 ELSE 1)]
              [] o \in {1, 3} /\ p = 0 /\ ra -> IF o = 1 THEN "sdiv" ELSE "udiv"
              [] o = 4 /\ p < 4 -> <<"smlald", "smlaldx", "smlsld", "smlsldx">>[p + 1]
              [] o = 5 /\ p < 2 -> <<"smmla", "smmlar", "smmul", "smmulr">>[p + (IF ra THEN 3 ELSE 1)]
              [] o = 5 /\ p > 5 -> IF ra THEN "" ELSE <<"smmls", "smmlsr">>[p - 5]
              [] OTHER -> "")
      [] F(v, 23, 2) = 3 ->
            (CASE o = 0 /\ p = 0 -> IF ra THEN "usad8" ELSE "usada8"
              [] o \in {2, 3} /\ p % 4 = 2 -> "sbfx"
              [] o \in {4, 5} /\ p % 4 = 0 -> IF F(v, 0, 4) = 15 THEN "bfc" ELSE "bfi"
              [] o \in {6, 7} /\ p % 4 = 2 -> "ubfx"
              [] OTHER -> "")
MediaNamed(v) ==
    LET o == F(v, 20, 3)  Rd4 == F(v, 12, 4)  Rn4 == F(v, 16, 4)  Rm4 == F(v, 0, 4)  Ra == F(v, 8, 4) IN
    CASE F(v, 23, 2) = 0 -> <<Rd4, Rn4, Rm4>>
      [] F(v, 23, 2) = 1 -> IF Media(v) \in {"pkhbt", "pkhtb", "sel"} \/ (F(v, 5, 3) = 3 /\ Rn4 # 15) THEN <<Rd4, Rn4, Rm4>> ELSE <<Rd4, Rm4>>
      [] F(v, 23, 2) = 2 -> IF o = 4 THEN <<Rd4, Rn4, Rm4, Ra>> ELSE IF Rd4 = 15 THEN <<Rn4, Rm4, Ra>> ELSE <<Rn4, Rm4, Ra, Rd4>>
      [] F(v, 23, 2) = 3 -> IF o = 0 THEN (IF Rd4 = 15 THEN <<Rn4, Rm4, Ra>> ELSE <<Rn4, Rm4, Ra, Rd4>>)
                            ELSE IF Media(v) = "bfc" THEN <<Rd4>> ELSE <<Rd4, Rm4>>

\* How many registers a load or store of vectors has, 0 if it is none: whole registers, lanes of them, or a lane for all
Vectors(v) ==
    IF ~(F(v, 24, 4) = 4 /\ ~On1(v, 20)) THEN 0
    ELSE IF ~On1(v, 23) THEN (CASE F(v, 8, 4) \in {0, 1, 2, 3} -> 4
                                [] F(v, 8, 4) \in {4, 5, 6} -> 3
                                [] F(v, 8, 4) \in {8, 9, 10} -> 2
                                [] F(v, 8, 4) = 7 -> 1
                                [] OTHER -> 0)
    ELSE IF F(v, 10, 2) = 3 /\ ~On1(v, 21) THEN 0
    ELSE IF F(v, 8, 4) = 12 /\ On1(v, 5) THEN 2
    ELSE F(v, 8, 2) + 1
\* In the structures of how many parts they are
Parts(v) == IF On1(v, 23) THEN F(v, 8, 2) + 1
            ELSE IF F(v, 8, 4) \in {2, 6, 7, 10} THEN 1
            ELSE IF F(v, 8, 4) \in {3, 8, 9} THEN 2
            ELSE IF F(v, 8, 4) \in {4, 5} THEN 3 ELSE 4

\* The classes. A word is of the first one it fits.
Class(v) ==
    IF F(v, 28, 4) = 15 THEN (IF F(v, 25, 3) = 5 THEN "branch" ELSE IF Vectors(v) # 0 THEN "vector memory" ELSE "unknown")
    ELSE CASE F(v, 8, 20) = 77823 /\ F(v, 4, 4) \in 1..3 -> "exchange"         \* 12fff1m, 12fff2m, 12fff3m
           [] F(v, 8, 20) = 205040 /\ F(v, 0, 8) \in 0..4 -> "hint"             \* 320f00h
           [] F(v, 24, 4) = 0 /\ F(v, 4, 4) = 9 /\ (F(v, 21, 3) \in {2, 3} => ~On1(v, 20)) -> "multiply"
           [] F(v, 23, 5) = 2 /\ F(v, 20, 2) = 0 /\ F(v, 4, 8) = 9 -> "swap"
           [] F(v, 23, 5) = 3 /\ F(v, 4, 8) = 249 /\ (On1(v, 20) => F(v, 0, 4) = 15) -> "exclusive"
           [] F(v, 23, 5) = 2 /\ F(v, 20, 2) = 0 /\ F(v, 16, 4) = 15 /\ F(v, 0, 12) = 0 -> "from status"
           [] /\ F(v, 23, 2) = 2 /\ F(v, 26, 2) = 0 /\ F(v, 20, 2) = 2 /\ F(v, 12, 4) = 15
              /\ IF On1(v, 25) THEN (F(v, 16, 4) # 0 \/ On1(v, 22)) ELSE F(v, 4, 8) = 0 -> "to status"
           [] F(v, 23, 5) = 2 /\ ~On1(v, 20) /\ On1(v, 7) /\ ~On1(v, 4)
              /\ ((F(v, 21, 2) = 3 \/ (F(v, 21, 2) = 1 /\ On1(v, 5))) => F(v, 12, 4) = 0) -> "half multiply"
           [] F(v, 23, 5) = 2 /\ ~On1(v, 20) /\ F(v, 4, 8) = 5 -> "saturate"
           [] F(v, 20, 8) = 18 /\ F(v, 4, 4) = 7 /\ F(v, 28, 4) = 14 -> "breakpoint"
           [] F(v, 25, 3) = 3 /\ On1(v, 4) -> IF Media(v) = "" THEN "unknown" ELSE "media"
           [] F(v, 24, 4) = 14 /\ ~FloatUnit(v) -> "coprocessor"
           [] F(v, 25, 3) = 6 /\ F(v, 21, 4) = 2 /\ ~FloatUnit(v) -> "coprocessor"             \* mcrr, mrrc
           [] F(v, 25, 3) = 6 /\ F(v, 21, 4) \notin {0, 2} /\ ~FloatUnit(v) -> "coprocessor memory"
           [] F(v, 24, 4) = 13 /\ ~On1(v, 21) /\ F(v, 8, 4) \in {10, 11} -> "float memory"
           [] F(v, 21, 7) = 112 /\ F(v, 8, 4) = 10 /\ F(v, 0, 7) = 16 -> "float move"
           [] F(v, 21, 7) = 98 /\ F(v, 8, 4) = 11 /\ F(v, 6, 2) = 0 /\ On1(v, 4) -> "float move"           \* of two registers
           [] F(v, 21, 7) = 119 /\ F(v, 16, 4) = 1 /\ F(v, 0, 12) = 2576 -> "float status"
           [] F(v, 25, 3) = 0 /\ On1(v, 7) /\ On1(v, 4) /\ F(v, 5, 2) # 0 -> "extra"
           [] F(v, 16, 12) = 367 /\ F(v, 4, 8) = 241 -> "clz"                    \* 16f.f1.
           [] F(v, 20, 8) \in {48, 52} -> "wide"                                 \* movw, movt
           [] F(v, 26, 2) = 0 /\ ~(F(v, 23, 2) = 2 /\ ~On1(v, 20)) /\ ~(~On1(v, 25) /\ On1(v, 7) /\ On1(v, 4)) -> "data"
           [] F(v, 26, 2) = 1 /\ ~(On1(v, 25) /\ On1(v, 4)) -> "memory"
           [] F(v, 25, 3) = 4 -> "multiple"
           [] F(v, 25, 3) = 5 -> "branch"
           [] F(v, 24, 4) = 15 -> "call"
           [] OTHER -> "unknown"

Rn(v) == F(v, 16, 4)
Rd(v) == F(v, 12, 4)
Rs(v) == F(v, 8, 4)
Rm(v) == F(v, 0, 4)

\* Of a multiple transfer
List(v) == {r \in 0..15 : On1(v, r)}
ListSeq(v) == SelectSeq([i \in 1..16 |-> i - 1], LAMBDA r : r \in List(v))
Load(v) == On1(v, 20)
\* Push and pop are transfers through the stack pointer, which they update
IsPush(v) == Class(v) = "multiple" /\ F(v, 16, 12) = 2349 /\ Cardinality(List(v)) >= 2       \* 92d
IsPop(v) == \/ Class(v) = "multiple" /\ F(v, 16, 12) = 2237 /\ Cardinality(List(v)) >= 2    \* 8bd
            \/ Class(v) = "memory" /\ F(v, 16, 12) = 1181 /\ F(v, 0, 12) = 4                \* 49d.004

DataName == <<"and", "eor", "sub", "rsb", "add", "adc", "sbc", "rsc", "tst", "teq", "cmp", "cmn", "orr", "mov", "bic", "mvn">>
DataOp(v) == F(v, 21, 4)
ShiftName == <<"lsl", "lsr", "asr", "ror">>
ByRegister(v) == ~On1(v, 25) /\ On1(v, 4)
Plain(v) == On1(v, 25) \/ (~On1(v, 4) /\ F(v, 5, 7) = 0)        \* not shifted
Size(v) == <<"", "d", "b", "h">>[F(v, 21, 2) + 1]
Half(v, b) == IF On1(v, b) THEN "t" ELSE "b"
ExtraName(v) == IF Load(v) THEN <<"ldrh", "ldrsb", "ldrsh">>[F(v, 5, 2)] ELSE <<"strh", "ldrd", "strd">>[F(v, 5, 2)]

Op(v) ==
    LET k == Class(v) IN
    CASE k = "exchange" -> <<"bx", "bxj", "blx">>[F(v, 4, 4)]
      [] k = "hint" -> "hint"
      [] k = "multiply" -> <<"mul", "mla", "umaal", "mls", "umull", "umlal", "smull", "smlal">>[F(v, 21, 3) + 1]
      [] k = "extra" -> ExtraName(v) \o (IF ~On1(v, 24) /\ On1(v, 21) THEN "t" ELSE "")
      [] k = "swap" -> IF On1(v, 22) THEN "swpb" ELSE "swp"
      [] k = "exclusive" -> (IF Load(v) THEN "ldrex" ELSE "strex") \o Size(v)
      [] k = "from status" -> "mrs"
      [] k = "to status" -> "msr"
      [] k = "half multiply" ->
            (CASE F(v, 21, 2) = 0 -> "smla" \o Half(v, 5) \o Half(v, 6)
              [] F(v, 21, 2) = 1 -> (IF On1(v, 5) THEN "smulw" ELSE "smlaw") \o Half(v, 6)
              [] F(v, 21, 2) = 2 -> "smlal" \o Half(v, 5) \o Half(v, 6)
              [] F(v, 21, 2) = 3 -> "smul" \o Half(v, 5) \o Half(v, 6))
      [] k = "saturate" -> <<"qadd", "qsub", "qdadd", "qdsub">>[F(v, 21, 2) + 1]
      [] k = "breakpoint" -> "bkpt"
      [] k = "media" -> Media(v)
      [] k = "coprocessor" -> IF F(v, 24, 4) # 14 THEN (IF Load(v) THEN "mrrc" ELSE "mcrr")
                              ELSE IF ~On1(v, 4) THEN "cdp" ELSE IF Load(v) THEN "mrc" ELSE "mcr"
      [] k = "coprocessor memory" -> (IF Load(v) THEN "ldc" ELSE "stc") \o (IF On1(v, 22) THEN "l" ELSE "")
      [] k = "float memory" -> IF Load(v) THEN "vldr" ELSE "vstr"
      [] k = "vector memory" -> (IF On1(v, 21) THEN "vld" ELSE "vst") \o <<"1", "2", "3", "4">>[Parts(v)]
      [] k = "float move" -> "vmov"
      [] k = "float status" -> IF ~Load(v) THEN "vmsr" ELSE IF Rd(v) = 15 THEN "fmstat" ELSE "vmrs"
      [] k = "clz" -> "clz"
      [] k = "wide" -> IF F(v, 20, 8) = 48 THEN "mov" ELSE "movt"      \* the manual: MOV, encoding A2
      [] k = "data" -> IF DataOp(v) # 13 \/ Plain(v) THEN DataName[DataOp(v) + 1]
                       ELSE IF ~On1(v, 4) /\ F(v, 5, 2) = 3 /\ F(v, 7, 5) = 0 THEN "rrx"
                       ELSE ShiftName[F(v, 5, 2) + 1]
      [] k = "memory" -> IF IsPop(v) THEN "pop"
                         ELSE (IF Load(v) THEN "ldr" ELSE "str") \o (IF On1(v, 22) THEN "b" ELSE "")
                              \o (IF ~On1(v, 24) /\ On1(v, 21) THEN "t" ELSE "")
      [] k = "multiple" -> IF IsPush(v) THEN "push" ELSE IF IsPop(v) THEN "pop"
                           ELSE (IF Load(v) THEN "ldm" ELSE "stm") \o <<"da", "", "db", "ib">>[F(v, 23, 2) + 1]
      [] k = "branch" -> IF F(v, 28, 4) = 15 THEN "blx" ELSE IF On1(v, 24) THEN "bl" ELSE "b"
      [] k = "call" -> "svc"
      [] OTHER -> "?"

Cond(v) == IF F(v, 28, 4) = 15 THEN 14 ELSE F(v, 28, 4)

\* The registers named, in order
Operand(v) == IF On1(v, 25) THEN <<>> ELSE IF ByRegister(v) THEN <<Rm(v), Rs(v)>> ELSE <<Rm(v)>>
Named(v) ==
    LET k == Class(v) IN
    CASE k = "exchange" -> <<Rm(v)>>
      [] k \in {"hint", "branch", "call", "breakpoint"} -> <<>>
      [] k = "swap" -> <<Rd(v), Rm(v), Rn(v)>>
      [] k = "exclusive" -> LET two == Size(v) = "d" IN
                            IF Load(v) THEN <<Rd(v)>> \o (IF two THEN <<Rd(v) + 1>> ELSE <<>>) \o <<Rn(v)>>
                            ELSE <<Rd(v), Rm(v)>> \o (IF two THEN <<Rm(v) + 1>> ELSE <<>>) \o <<Rn(v)>>
      [] k = "from status" -> <<Rd(v), OTHER_REG>>
      [] k = "to status" -> IF On1(v, 25) THEN <<>> ELSE <<Rm(v)>>
      [] k = "half multiply" -> IF F(v, 21, 2) = 2 THEN <<Rd(v), Rn(v), Rm(v), Rs(v)>>
                                ELSE IF F(v, 21, 2) = 3 \/ (F(v, 21, 2) = 1 /\ On1(v, 5)) THEN <<Rn(v), Rm(v), Rs(v)>>
                                ELSE <<Rn(v), Rm(v), Rs(v), Rd(v)>>
      [] k = "saturate" -> <<Rd(v), Rm(v), Rn(v)>>
      [] k = "media" -> MediaNamed(v)
      [] k = "coprocessor" -> IF F(v, 24, 4) # 14 THEN <<Rd(v), Rn(v)>>
                              ELSE IF ~On1(v, 4) THEN <<>>
                              ELSE IF Load(v) /\ Rd(v) = 15 THEN <<OTHER_REG>> ELSE <<Rd(v)>>
      [] k = "coprocessor memory" -> <<Rn(v)>>
      [] k = "float memory" -> <<OTHER_REG, Rn(v)>>
      [] k = "vector memory" -> [i \in 1..Vectors(v) |-> OTHER_REG] \o <<Rn(v)>> \o (IF Rm(v) \in {SP, PC} THEN <<>> ELSE <<Rm(v)>>)
      [] k = "float move" -> LET core == <<Rd(v)>> \o (IF F(v, 25, 3) = 6 THEN <<Rn(v)>> ELSE <<>>) IN
                             IF Load(v) THEN core \o <<OTHER_REG>> ELSE <<OTHER_REG>> \o core
      [] k = "float status" -> IF ~Load(v) THEN <<OTHER_REG, Rd(v)>>
                               ELSE IF Rd(v) = 15 THEN <<OTHER_REG, OTHER_REG>> ELSE <<Rd(v), OTHER_REG>>
      [] k = "multiply" -> IF F(v, 21, 3) = 0 THEN <<Rn(v), Rm(v), Rs(v)>>
                           ELSE IF F(v, 21, 3) \in {1, 3} THEN <<Rn(v), Rm(v), Rs(v), Rd(v)>>
                           ELSE <<Rd(v), Rn(v), Rm(v), Rs(v)>>
      [] k = "extra" -> (IF Op(v) \in {"ldrd", "strd"} THEN <<Rd(v), Rd(v) + 1>> ELSE <<Rd(v)>>)
                        \o (IF On1(v, 22) THEN <<Rn(v)>> ELSE <<Rn(v), Rm(v)>>)
      [] k = "clz" -> <<Rd(v), Rm(v)>>
      [] k = "wide" -> <<Rd(v)>>
      [] k = "data" -> (IF DataOp(v) \in 8..11 THEN <<Rn(v)>> ELSE IF DataOp(v) \in {13, 15} THEN <<Rd(v)>> ELSE <<Rd(v), Rn(v)>>)
                       \o Operand(v)
      [] k = "memory" -> IF IsPop(v) THEN <<SP, Rd(v)>>
                         ELSE <<Rd(v), Rn(v)>> \o (IF On1(v, 25) THEN <<Rm(v)>> ELSE <<>>)
      [] k = "multiple" -> <<Rn(v)>> \o ListSeq(v)

Used(v) == LET n == Named(v) IN {n[i] : i \in DOMAIN n}

\* The first register named is taken as written and the others as read, but in multiple transfers
Written(v) ==
    IF IsPush(v) THEN {}
    ELSE IF IsPop(v) THEN Used(v)
    ELSE IF Class(v) = "multiple" /\ Load(v) THEN List(v) \union (IF On1(v, 21) THEN {Rn(v)} ELSE {})
    ELSE IF Named(v) = <<>> THEN {} ELSE {Named(v)[1]}
Read(v) ==
    IF IsPush(v) THEN Used(v)
    ELSE IF IsPop(v) THEN {SP}
    ELSE IF Class(v) = "multiple" /\ Load(v) THEN {Rn(v)}
    ELSE IF Named(v) = <<>> THEN {}
    ELSE LET n == Named(v) IN (Used(v) \ {n[1]}) \union (IF Cardinality({i \in DOMAIN n : n[i] = OTHER_REG}) > 1 THEN {OTHER_REG} ELSE {})

MemoryClasses == {"memory", "multiple", "extra", "exclusive", "coprocessor memory", "float memory", "vector memory", "swap"}
Loads(v) == \/ Class(v) \in MemoryClasses \ {"extra", "swap", "vector memory"} /\ Load(v)
            \/ Class(v) = "vector memory" /\ On1(v, 21)
            \/ Class(v) = "extra" /\ (Load(v) \/ Op(v) = "ldrd")
            \/ Class(v) = "swap"
\* A swap does both
Stores(v) == Class(v) = "swap" \/ (Class(v) \in MemoryClasses /\ ~Loads(v))

Jumps(v) == Class(v) \in {"branch", "exchange"} \/ PC \in Written(v)
Links(v) == Op(v) \in {"bl", "blx"}

StoragesUsed(v) == LET s == Used(v) \union (IF Loads(v) \/ Stores(v) THEN {STORE} ELSE {}) IN IF s = {} THEN {NOREG} ELSE s
StoragesWritten(v) == Written(v) \union (IF Stores(v) THEN {STORE} ELSE {}) \union (IF Jumps(v) THEN {PC} ELSE {})
StoragesRead(v) == Read(v) \union (IF Loads(v) THEN {STORE} ELSE {})

ChangesFlags(v) == \/ Class(v) = "data" /\ On1(v, 20)
                   \/ Class(v) = "multiply" /\ On1(v, 20)
                   \/ Class(v) = "to status" /\ ~On1(v, 22) /\ On1(v, 19)       \* those of the current status
                   \/ Op(v) \in {"mrc", "fmstat"} /\ Rd(v) = 15

\* Where a branch goes, from its own address: two instructions ahead when it counts
TargetKnown(v) == Class(v) = "branch"
Offset(v) == LET o == F(v, 0, 24) IN IF o >= 8388608 THEN o - 16777216 ELSE o
Target(v, addr) == addr + 8 + 4 * Offset(v) + (IF F(v, 28, 4) = 15 /\ On1(v, 24) THEN 2 ELSE 0)
=============================================================================
