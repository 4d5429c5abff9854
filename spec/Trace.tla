------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks histories recorded from the real library against the             *)
(* specification.  Each case (one line of the trace file) is a history of  *)
(* public calls with their outcomes; it is a behaviour of its own,         *)
(* starting from an initial state.  One action per kind of call: it        *)
(* transforms the abstract specification by the operator of Build and      *)
(* judges the outcome.  Verdicts are printed (they are total: an outcome   *)
(* the specification does not allow is reported with the failing clause    *)
(* and the replay goes on); every case ends with a DONE line.              *)
(***************************************************************************)
EXTENDS Conform, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES cid,   \* case
          stepNo,     \* next event of the case
          specNow,     \* abstract specification
          seen   \* <<[key, dg]>>: files written so far in this case (all processes)

vars == <<cid, stepNo, specNow, seen>>
\* a case is deterministic: its position identifies the state
Position == <<cid, stepNo>>

C == Cases[cid]
Ev == C.ev[stepNo]

Init == /\ cid \in 1..Len(Cases) /\ stepNo = 1 /\ specNow = NewSpec(0) /\ seen = <<>>

Report(errs) == \A i \in 1..Len(errs) : PrintT("VERDICT" \o "|" \o C.id \o "|" \o ToString(stepNo) \o "|" \o errs[i][1]
                                               \o "|" \o errs[i][2])

IsEvent(op) == stepNo <= Len(C.ev) /\ Ev.op = op /\ stepNo' = stepNo + 1 /\ UNCHANGED cid

\* the outcome of a call: raised though acceptable; accepted though certain to breach the high-compatibility mode
Outcome(yes, what) == IF ~Ev.ok /\ yes THEN << <<"raise", what \o ": " \o Ev.exc>> >> ELSE <<>>

\* C17: outside the mode, what would be a breach within it is accepted with a warning
Warned(breach, what) ==
    IF ~HC(specNow) /\ Ev.ok /\ breach /\ Ev.warn = 0 THEN << <<"hcwarn", what>> >> ELSE <<>>
HcAccepts(breach, what) ==
    IF HC(specNow) /\ Ev.ok /\ breach THEN << <<"hcacc", what>> >> ELSE <<>>

Process == /\ IsEvent("proc") /\ specNow' = NewSpec(0) /\ UNCHANGED seen

NewFile ==
    /\ IsEvent("file")
    /\ LET breach == Ev.id.t = "txt" /\ ~HcName(Ev.id.c) IN
       Report(Outcome(FileYes(specNow, Ev), "new file") \o Warned(breach, "set identifier") \o HcAccepts(breach, "set identifier"))
    /\ specNow' = IF Ev.ok THEN MakeSul(specNow, Ev) ELSE specNow
    /\ UNCHANGED seen

NewLf ==
    /\ IsEvent("lf")
    /\ LET breach == Ev.id.t = "txt" /\ Ev.name.t = "txt" /\ ~(HcName(Ev.id.c) /\ HcName(Ev.name.c)) IN
       Report(Outcome(LfYes(specNow, Ev), "new logical file") \o Warned(breach, "header") \o HcAccepts(breach, "header"))
    /\ specNow' = IF Ev.ok THEN AddLf(specNow, Ev) ELSE specNow
    /\ UNCHANGED seen

\* breaches of the mode which an add_* call can show: name, enumerated attributes, units
AddBreach(e) ==
    \/ e.name.t = "txt" /\ ~HcName(e.name.c)
    \/ \E i \in 1..Len(e.attrs) :
          LET a == e.attrs[i]
              d == AttrDef(e.ty, a.l)
          IN \/ d.k = "enums" /\ a.v.t = "txt" /\ Str(a.v.c) \notin EnumOf[d.e]
             \/ a.u.t = "txt" /\ Str(a.u.c) \notin EnumOf["Unit"]

Add ==
    /\ IsEvent("add")
    /\ LET b == AddBreach(Ev) IN
       Report(Outcome(AddYes(specNow, Ev), "add " \o Ev.ty) \o Warned(b, "add " \o Ev.ty) \o HcAccepts(b, "add " \o Ev.ty))
    /\ specNow' = IF Ev.ok THEN AddObj(specNow, Ev) ELSE specNow
    /\ UNCHANGED seen

AddNoFormat ==
    /\ IsEvent("nf")
    /\ Report(Outcome(Ev.pay.t = "txt" /\ Ascii7(Ev.pay.c) /\ Ev.ob \in DOMAIN specNow.ob /\ specNow.ob[Ev.ob].ty = "NO-FORMAT", "add no-format data"))
    /\ specNow' = IF Ev.ok THEN AddNf(specNow, Ev) ELSE specNow
    /\ UNCHANGED seen

Set ==
    /\ IsEvent("set")
    /\ IF Ev.ob \notin DOMAIN specNow.ob THEN specNow' = specNow
       ELSE /\ LET d == AttrDef(specNow.ob[Ev.ob].ty, Ev.l)
                   b == \/ Ev.part = "value" /\ d.k = "enums" /\ Ev.v.t = "txt" /\ Str(Ev.v.c) \notin EnumOf[d.e]
                        \/ Ev.part = "units" /\ Ev.v.t = "txt" /\ Str(Ev.v.c) \notin EnumOf["Unit"]
               IN Report(Outcome(SetYesAttr(specNow, Ev), "set " \o Ev.l) \o Warned(b, "set " \o Ev.l)
                         \o HcAccepts(b, "set " \o Ev.l))
            /\ specNow' = IF Ev.ok THEN SetAttr(specNow, Ev) ELSE specNow
    /\ UNCHANGED seen

RenameObj ==
    /\ IsEvent("ren")
    /\ specNow' = IF Ev.ok /\ Ev.ob \in DOMAIN specNow.ob THEN Rename(specNow, Ev) ELSE specNow
    /\ UNCHANGED seen

ChangeOrigin ==
    /\ IsEvent("org")
    /\ specNow' = IF Ev.ok /\ Ev.ob \in DOMAIN specNow.ob THEN SetOrigin(specNow, Ev) ELSE specNow
    /\ UNCHANGED seen

ChangeCast ==
    /\ IsEvent("cast")
    /\ Report(IF Ev.ob \in DOMAIN specNow.ob THEN Outcome(Ev.cast \in SupportedDtypes \cup {""}, "set cast dtype") ELSE <<>>)
    /\ specNow' = IF Ev.ok /\ Ev.ob \in DOMAIN specNow.ob THEN SetCast(specNow, Ev) ELSE specNow
    /\ UNCHANGED seen

ChangeDs ==
    /\ IsEvent("ds")
    /\ specNow' = IF Ev.ok /\ Ev.ob \in DOMAIN specNow.ob THEN SetDs(specNow, Ev) ELSE specNow
    /\ UNCHANGED seen

Enter == IsEvent("hcin") /\ specNow' = EnterHC(specNow) /\ UNCHANGED seen
Leave == IsEvent("hcout") /\ specNow' = LeaveHC(specNow) /\ UNCHANGED seen

\* the mode as seen from outside: is a name with lower-case letters refused?
Probe ==
    /\ IsEvent("probe")
    /\ Report(IF Ev.hc # HC(specNow) THEN << <<"hcleak", "mode is " \o (IF Ev.hc THEN "on" ELSE "off")>> >> ELSE <<>>)
    /\ UNCHANGED <<specNow, seen>>

FileBytes(w) == IF w.f = 0 THEN <<>> ELSE C.files[w.f]

\* C10: what was on disk between the flushes
SnapErrs(w, n, bnd) ==
    FoldLeft(LAMBDA a, s :
        IF s.n > n \/ s.dg # s.pd THEN Append(a, <<"prefix", "content between flushes is not a prefix of the file">>)
        ELSE IF \E i \in 1..Len(bnd) : bnd[i] = s.n THEN a
        ELSE IF s.n = 0 THEN a
        ELSE Append(a, <<"prefix", "flush of " \o ToString(s.n) \o " bytes does not end a visible record">>),
        <<>>, w.snaps)

MutErrs(w) == IF w.before # w.after THEN << <<"mut", "caller's data changed: " \o w.mutwhat>> >> ELSE <<>>

\* warnings expected outside the high-compatibility mode
WriteWarn(w) ==
    IF ~HC(specNow) /\ w.ok
       /\ \E i \in 1..Len(HcBreaches(specNow, w, C.arrays)) :
             HcBreaches(specNow, w, C.arrays)[i] \in {"channel not in exactly one frame", "signed integer data"}
       /\ w.warn = 0
    THEN << <<"hcwarn", "write">> >> ELSE <<>>

NonUniform(w) ==
    \E f \in AllFrames(specNow) :
        /\ Present(specNow.ob[f], "INDEX-TYPE") /\ ChannelsOf(specNow, f) # <<>>
        /\ LET c == ChannelsOf(specNow, f)[1]
               A == C.arrays[DataOf(specNow, w, c)]
               n == NRows(w, A.n)
               dt == A.dt
               xs == [i \in 1..n |-> DecDt(dt, A.rows[From(w) + i])]
           IN /\ A.dims = <<>> /\ specNow.ob[c].cast = "" /\ n > 1
              /\ \A i \in 1..n : xs[i].k = "num"
              /\ AllScalable(xs) /\ Uniformity(Diffs(xs)) = "non"

WriteOk(w) ==
    LET mr == WriteMustRaise(specNow, w, C.arrays) IN
    IF mr # <<>> THEN << <<"accepted", mr[1]>> >>
    ELSE LET b == FileBytes(w)
             hcr == WriteHcRaise(specNow, w, C.arrays)
             hcx == (IF hcr # <<>> THEN << <<"hcacc", "write: " \o hcr[1]>> >> ELSE <<>>)
                    \o (IF HC(specNow) /\ NonUniform(w) THEN << <<"hcacc", "write: spacing not uniform">> >> ELSE <<>>)
                    \o (IF ~HC(specNow) /\ NonUniform(w) /\ w.warn = 0 THEN << <<"hcwarn", "write: spacing">> >> ELSE <<>>)
                    \o WriteWarn(w)
             det == Determined(specNow)
             key == IF det THEN Key(specNow, w, C.arrays) ELSE <<>>
             same == IF det THEN SelectSeq(seen, LAMBDA x : x.key = key) ELSE <<>>
             deterr == IF \E i \in 1..Len(same) : same[i].dg # w.dg
                       THEN << <<"det", "same specification, data and options gave another file before">> >> ELSE <<>>
             sizeerr == (IF w.size # Len(b) THEN << <<"size", "size on disk">> >> ELSE <<>>)
                        \o (IF w.rep >= 0 /\ w.rep # w.size THEN << <<"size", "reported size">> >> ELSE <<>>)
             known == \E i \in 1..Len(same) : same[i].dg = w.dg
             pf == ParseFile(b, specNow.sul)
             recerr == IF known THEN <<>>
                       ELSE pf.errs \o (IF pf.errs = <<>> \/ \A i \in 1..Len(pf.errs) : pf.errs[i][1] = "phys"
                                        THEN RecordErrs(specNow, w, C.arrays, pf.recs) ELSE <<>>)
             taperr == IF w.taps = <<>> THEN <<>> ELSE TapErrs(w.taps, pf.recs)
         IN deterr \o sizeerr \o recerr \o taperr \o hcx
            \o (IF w.snaps = <<>> THEN <<>> ELSE SnapErrs(w, Len(b), pf.bnd))

WriteRaised(w) ==
    IF WriteMustRaise(specNow, w, C.arrays) = <<>> /\ WriteYes(specNow, w, C.arrays)
    THEN << <<"raise", "write: " \o w.exc>> >> ELSE <<>>

Write ==
    /\ IsEvent("write")
    /\ Report((IF Ev.ok THEN WriteOk(Ev) ELSE WriteRaised(Ev)) \o MutErrs(Ev))
    /\ seen' = IF Ev.ok /\ WriteMustRaise(specNow, Ev, C.arrays) = <<>> /\ Determined(specNow)
               THEN Append(seen, [key |-> Key(specNow, Ev, C.arrays), dg |-> Ev.dg]) ELSE seen
    /\ UNCHANGED specNow

\* looking at the specification through its public properties changes nothing
Read == IsEvent("read") /\ UNCHANGED <<specNow, seen>>

\* the encoding of one value
Unit == /\ IsEvent("unit") /\ Report(UnitErrs(specNow, Ev)) /\ UNCHANGED <<specNow, seen>>

End == /\ IsEvent("end") /\ PrintT("DONE|" \o C.id) /\ UNCHANGED <<specNow, seen>>

Next == Process \/ NewFile \/ NewLf \/ Add \/ AddNoFormat \/ Set \/ RenameObj \/ ChangeOrigin \/ ChangeCast
        \/ ChangeDs \/ Enter \/ Leave \/ Probe \/ Write \/ Read \/ Unit \/ End

Spec == Init /\ [][Next]_vars

\* the mode is a depth, never negative
HcDepth == specNow.hc >= 0
=============================================================================
