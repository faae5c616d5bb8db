------------------------------ MODULE ULogParser ------------------------------
(***************************************************************************)
(* The streaming parser as a state machine.  One step is one record (or     *)
(* the file header, or one of the ways of ending), i.e. one result of the   *)
(* iterator; `out' is that result.                                          *)
(*                                                                         *)
(* Environment (only read here): inp, the bytes delivered so far; ending,   *)
(* what comes after them: "open" (more may come), "eof", or "fail" (the     *)
(* reader reports an error); cfg, how the parser was built.                 *)
(***************************************************************************)
EXTENDS ULogCodec

VARIABLES inp, ending, cfg
VARIABLES
  phase,     \* "start", "defs", "data"; "eof"; after an error that ends reading:
             \* "cut" (input was truncated), "bad" (refused header or read failure)
  pos,       \* bytes consumed
  formats,   \* name -> fields
  subs,      \* id -> [name, multi]: live subscriptions
  multi,     \* names for which a non-zero instance was seen
  limit,     \* position of the appended data, -1 if none
  out        \* the latest result

tables == <<formats, subs, multi, limit>>
rvars  == <<phase, pos, formats, subs, multi, limit, out>>

Init ==
  /\ phase = "start" /\ pos = 0 /\ formats = <<>> /\ subs = <<>>
  /\ multi = {} /\ limit = -1 /\ out = Silent

Left      == Len(inp) - pos
HaveLen   == Left >= 2
BodyLen   == U16At(inp, pos + 1)
RecEnd    == pos + 3 + BodyLen
HaveRec   == HaveLen /\ Left >= 3 + BodyLen
RecType   == inp[pos + 3]
Body      == SubSeq(inp, pos + 4, RecEnd)
Reading   == phase \in {"defs", "data"}
\* the next record does not end before the appended data
AtLimit   == limit >= 0 /\ (pos + 3 > limit \/ (Left >= 3 /\ RecEnd > limit))

\* ---- ways of starting and ending -------------------------------------------
ReadHeader ==
  /\ phase = "start" /\ Len(inp) >= 16 /\ IsPrefix(Magic, inp)
  /\ phase' = "defs" /\ pos' = 16
  /\ out' = IF cfg.hdr THEN DecHeader(inp) ELSE Silent
  /\ UNCHANGED tables
BadHeader ==
  /\ phase = "start" /\ Len(inp) >= 16 /\ ~IsPrefix(Magic, inp)
  /\ phase' = "bad" /\ out' = ErrItem
  /\ UNCHANGED <<pos, tables>>
CleanEnd ==
  /\ Reading /\ Left = 0 /\ ending = "eof"
  /\ phase' = "eof" /\ out' = EndItem
  /\ UNCHANGED <<pos, tables>>
LimitEnd ==
  /\ Reading /\ AtLimit
  /\ phase' = "eof" /\ out' = EndItem
  /\ UNCHANGED <<pos, tables>>
Truncated ==
  /\ ending = "eof"
  /\ \/ phase = "start" /\ Len(inp) < 16
     \/ Reading /\ Left > 0 /\ ~HaveRec /\ ~AtLimit
  /\ phase' = "cut" /\ out' = ErrItem
  /\ UNCHANGED <<pos, tables>>
ReadFails ==
  /\ ending = "fail"
  /\ \/ phase = "start" /\ Len(inp) < 16
     \/ Reading /\ ~HaveRec /\ ~AtLimit
  /\ phase' = "bad" /\ out' = ErrItem
  /\ UNCHANGED <<pos, tables>>
\* after a refused header or a read failure: nothing but errors, and the end
BadAgain ==
  /\ phase = "bad"
  /\ \/ phase' = "bad" /\ out' = ErrItem
     \/ phase' = "eof" /\ out' = EndItem
  /\ UNCHANGED <<pos, tables>>
EndAfterCut ==
  /\ phase = "cut" /\ phase' = "eof" /\ out' = EndItem
  /\ UNCHANGED <<pos, tables>>
StaysEnded ==
  /\ phase = "eof" /\ out' = EndItem
  /\ UNCHANGED <<phase, pos, tables>>

\* ---- records -----------------------------------------------------------------
Next1(secs) == phase \in secs /\ ~AtLimit /\ HaveRec
Rec(secs, ty) == Next1(secs) /\ RecType = ty /\ pos' = RecEnd

FlagBits ==
  /\ Rec({"defs"}, 66)
  /\ LET x == DecFlags(Body) IN
     /\ out' = x
     /\ limit' = IF x.t = "flags" /\ FlagsAppended(x) THEN FlagsLimit(x) ELSE limit
  /\ UNCHANGED <<phase, formats, subs, multi>>
FormatDef ==
  /\ Rec({"defs"}, 70)
  /\ LET x == DecFormat(Body) IN
     /\ out' = x
     /\ formats' = IF x.t = "fmt" THEN (x.name :> x.fields) @@ formats ELSE formats
  /\ UNCHANGED <<phase, subs, multi, limit>>
Subscribe ==
  /\ Rec({"defs", "data"}, 65)
  /\ LET x == DecSub(formats, Body) IN
     /\ out' = x
     /\ IF x.t = "sub"
        THEN /\ phase' = "data"
             /\ subs' = (x.id :> [name |-> x.name, multi |-> x.multi]) @@ subs
             /\ multi' = IF x.multi > 0 THEN multi \cup {x.name} ELSE multi
        ELSE UNCHANGED <<phase, subs, multi>>
  /\ UNCHANGED <<formats, limit>>
Unsubscribe ==
  /\ Rec({"data"}, 82)
  /\ IF Len(Body) < 2 THEN out' = ErrItem /\ UNCHANGED subs
     ELSE LET id == U16At(Body, 1) IN
          /\ out' = Opaque(82, Body)
          /\ subs' = [i \in DOMAIN subs \ {id} |-> subs[i]]
  /\ UNCHANGED <<phase, formats, multi, limit>>
Allowed(name) == ~cfg.allow.on \/ Contains(cfg.allow.names, name)
Data ==
  /\ Rec({"data"}, 68)
  /\ out' = IF Len(Body) < 2 THEN ErrItem
            ELSE LET id == U16At(Body, 1) IN
                 IF id \notin DOMAIN subs THEN ErrItem
                 ELSE LET s == subs[id] IN
                      IF ~Allowed(s.name) THEN [t |-> "ign", mt |-> 68]
                      ELSE DecData(formats, cfg, s.name,
                                   IF s.name \in multi THEN s.multi ELSE -1, Body)
  /\ UNCHANGED <<phase, tables>>
Info ==
  /\ Rec({"defs", "data"}, 73) /\ out' = DecInfo(formats, cfg.pad, Body)
  /\ UNCHANGED <<phase, tables>>
MultiInfo ==
  /\ Rec({"defs", "data"}, 77) /\ out' = DecMultiInfo(formats, cfg.pad, Body)
  /\ UNCHANGED <<phase, tables>>
Param ==
  /\ Rec({"defs", "data"}, 80) /\ out' = DecParam(Body)
  /\ UNCHANGED <<phase, tables>>
DefaultParam ==
  /\ Rec({"defs", "data"}, 81) /\ out' = DecDefaultParam(Body)
  /\ UNCHANGED <<phase, tables>>
LogString ==
  /\ Rec({"data"}, 76) /\ out' = DecString(Body)
  /\ UNCHANGED <<phase, tables>>
Tagged ==
  /\ Rec({"data"}, 67) /\ out' = DecTagged(Body)
  /\ UNCHANGED <<phase, tables>>
Dropout ==
  /\ Rec({"data"}, 79) /\ out' = DecDropout(Body)
  /\ UNCHANGED <<phase, tables>>
DefsTypes == {66, 70, 65, 73, 77, 80, 81}
DataTypes == {65, 82, 68, 73, 77, 80, 81, 76, 67, 79}
\* everything else is passed through
PassThrough ==
  /\ \/ Next1({"defs"}) /\ RecType \notin DefsTypes
     \/ Next1({"data"}) /\ RecType \notin DataTypes
  /\ pos' = RecEnd /\ out' = Opaque(RecType, Body)
  /\ UNCHANGED <<phase, tables>>

Next ==
  \/ ReadHeader \/ BadHeader \/ CleanEnd \/ LimitEnd \/ Truncated \/ ReadFails
  \/ BadAgain \/ EndAfterCut \/ StaysEnded
  \/ FlagBits \/ FormatDef \/ Subscribe \/ Unsubscribe \/ Data \/ Info \/ MultiInfo
  \/ Param \/ DefaultParam \/ LogString \/ Tagged \/ Dropout \/ PassThrough

-----------------------------------------------------------------------------
\* ---- properties of the reader itself, true in every reachable state ---------
TypeOK ==
  /\ phase \in {"start", "defs", "data", "eof", "cut", "bad"}
  /\ pos \in 0..Len(inp)
  /\ \A id \in DOMAIN subs : id \in 0..65535 /\ subs[id].multi \in 0..255
  /\ limit >= -1
\* C10: the data section starts with the first accepted subscription
DataOnlyAfterSub == phase = "defs" => subs = <<>> /\ multi = {}
\* C10/C07: every live subscription has a format
SubsHaveFormats == \A id \in DOMAIN subs : subs[id].name \in DOMAIN formats
\* C07: an instance other than 0 marks its name
MultiMarked == \A id \in DOMAIN subs : subs[id].multi > 0 => subs[id].name \in multi
\* C11: nothing is consumed beyond the limit, except what was read before it was known
LimitRespected == (limit >= 0 /\ out.t \notin {"flags", "err", "end"}) => pos <= limit
\* C06: an ignored record is possible only under an allow list
IgnoredOnlyWithList == out.t = "ign" => cfg.allow.on
ReaderInv == TypeOK /\ DataOnlyAfterSub /\ SubsHaveFormats /\ MultiMarked
             /\ LimitRespected /\ IgnoredOnlyWithList
=============================================================================
