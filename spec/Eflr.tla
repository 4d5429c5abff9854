-------------------------------- MODULE Eflr --------------------------------
(***************************************************************************)
(* The component grammar of explicitly formatted logical records.          *)
(* ParseEflr(b) decodes a whole record body; total.                        *)
(***************************************************************************)
EXTENDS Framing

\* a decoded attribute: pres = FALSE is an absent attribute
Absent == [pres |-> FALSE, cnt |-> 0, code |-> 0, u |-> <<>>, vals |-> <<>>]

EInit == [p |-> 1, ph |-> "set", ty |-> "", tyc |-> <<>>, nm |-> <<>>, named |-> FALSE,
          tmpl |-> <<>>, objs |-> <<>>, err |-> <<>>, stop |-> FALSE, canon |-> TRUE]

EFail(st, d) == [st EXCEPT !.err = Append(@, d \o " at " \o ToString(st.p)), !.stop = TRUE]

\* decode cnt values of the given code; acc = [ok, p, vals, why]
RECURSIVE DecodeN(_, _, _, _, _)
DecodeN(code, b, p, cnt, acc) ==
    IF cnt = 0 THEN [ok |-> TRUE, p |-> p, vals |-> acc, why |-> ""]
    ELSE LET d == Decode(code, b, p, Len(b)) IN
         IF ~d.ok THEN [ok |-> FALSE, p |-> p, vals |-> acc, why |-> d.why]
         ELSE DecodeN(code, b, d.p, cnt - 1, Append(acc, d.v))

\* length of the shortest encoding of the values, for the codes with length prefixes
CanonLen(code, v) ==
    LET ul(i) == IF i < 128 THEN 1 ELSE IF i < 16384 THEN 2 ELSE 4 IN
    CASE code = ASCII -> ul(Len(v.c)) + Len(v.c)
      [] code \in {IDENT, UNITS} -> 1 + Len(v.c)
      [] code = OBNAME -> ul(v.o) + 2 + Len(v.n)
      [] code = OBJREF -> 1 + Len(v.ty) + ul(v.o) + 2 + Len(v.n)
      [] code = UVARI -> IF Msb(v) <= 7 \/ IsZero(v) THEN 1 ELSE IF Msb(v) <= 14 THEN 2 ELSE 4
      [] OTHER -> 0
Prefixed == {UVARI, IDENT, ASCII, OBNAME, OBJREF, UNITS}
CanonVals(code, vals, n) ==
    code \notin Prefixed \/ FoldLeft(LAMBDA a, v : a + CanonLen(code, v), 0, vals) = n

\* Attribute component at st.p with descriptor bits d (the five low bits); def = template defaults
\* result: [ok, why, p, label, hasl, cnt, code, u, vals, hasv]
AttrComp(b, p0, d, def) ==
    LET end == Len(b)
        bad(w) == [ok |-> FALSE, why |-> w, p |-> p0, hasl |-> FALSE, label |-> <<>>, cnt |-> 0, code |-> 0,
                   u |-> <<>>, vals |-> <<>>, hasv |-> FALSE, canon |-> TRUE]
        l == IF Bit(d, 16) = 1 THEN DecIdent(b, p0, end) ELSE Good([k |-> "txt", c |-> <<>>], p0)
    IN IF ~l.ok THEN bad("label: " \o l.why) ELSE
    LET c == IF Bit(d, 8) = 1 THEN DecUvari(b, l.p, end)
             ELSE Good([k |-> "uv", i |-> def.cnt, short |-> TRUE], l.p)
    IN IF ~c.ok THEN bad("count: " \o c.why) ELSE
    LET rcok == Bit(d, 4) = 0 \/ c.p <= end
        rc == IF Bit(d, 4) = 1 /\ rcok THEN b[c.p] ELSE def.code
        p1 == IF Bit(d, 4) = 1 THEN c.p + 1 ELSE c.p
    IN IF ~rcok THEN bad("representation code out of bounds")
       ELSE IF rc \notin 1..27 THEN bad("undefined representation code " \o ToString(rc)) ELSE
    LET u == IF Bit(d, 2) = 1 THEN DecIdent(b, p1, end) ELSE Good([k |-> "txt", c |-> def.u], p1)
    IN IF ~u.ok THEN bad("units: " \o u.why) ELSE
    IF Bit(d, 1) = 0
    THEN [ok |-> TRUE, why |-> "", p |-> u.p, hasl |-> Bit(d, 16) = 1, label |-> l.v.c, cnt |-> c.v.i,
          code |-> rc, u |-> u.v.c, vals |-> <<>>, hasv |-> FALSE, canon |-> c.v.short]
    ELSE IF c.v.i > end THEN bad("more values announced than there are bytes")
    ELSE LET v == DecodeN(rc, b, u.p, c.v.i, <<>>)
         IN IF ~v.ok THEN bad("value: " \o v.why)
            ELSE [ok |-> TRUE, why |-> "", p |-> v.p, hasl |-> Bit(d, 16) = 1, label |-> l.v.c, cnt |-> c.v.i,
                  code |-> rc, u |-> u.v.c, vals |-> v.vals, hasv |-> TRUE,
                  canon |-> c.v.short /\ CanonVals(rc, v.vals, v.p - u.p)]

GlobalDef == [cnt |-> 1, code |-> IDENT, u |-> <<>>, vals |-> <<>>, hasv |-> FALSE]

EStepSet(b, st, role, d) ==
    IF role # 7 THEN EFail(st, "set component expected")
    ELSE IF d % 8 # 0 THEN EFail(st, "set component: unused bits")
    ELSE IF Bit(d, 16) = 0 THEN EFail(st, "set component without type")
    ELSE LET t == DecIdent(b, st.p + 1, Len(b)) IN
         IF ~t.ok THEN EFail(st, "set type: " \o t.why)
         ELSE IF t.v.c = <<>> THEN EFail(st, "empty set type")
         ELSE IF Bit(d, 8) = 0
              THEN [st EXCEPT !.p = t.p, !.ty = Str(t.v.c), !.tyc = t.v.c, !.ph = "tmpl"]
              ELSE LET n == DecIdent(b, t.p, Len(b)) IN
                   IF ~n.ok THEN EFail(st, "set name: " \o n.why)
                   ELSE [st EXCEPT !.p = n.p, !.ty = Str(t.v.c), !.tyc = t.v.c, !.nm = n.v.c, !.named = TRUE,
                                   !.ph = "tmpl"]

EStepTmpl(b, st, role, d) ==
    IF role \notin {1, 2} THEN EFail(st, "attribute component expected in the template")
    ELSE LET a == AttrComp(b, st.p + 1, d, GlobalDef) IN
         IF ~a.ok THEN EFail(st, "template: " \o a.why)
         ELSE IF ~a.hasl \/ a.label = <<>> THEN EFail(st, "template attribute without label")
         ELSE IF \E i \in 1..Len(st.tmpl) : st.tmpl[i].lc = a.label THEN EFail(st, "template label repeated")
         ELSE [st EXCEPT !.p = a.p, !.canon = @ /\ a.canon,
                         !.tmpl = Append(@, [l |-> Str(a.label), lc |-> a.label, cnt |-> a.cnt, code |-> a.code,
                                             u |-> a.u, vals |-> a.vals, hasv |-> a.hasv, inv |-> role = 2])]

EStepObj(b, st, d) ==
    IF Bit(d, 16) = 0 THEN EFail(st, "object component without name")
    ELSE IF d % 16 # 0 THEN EFail(st, "object component: unused bits")
    ELSE LET o == DecObname(b, st.p + 1, Len(b)) IN
         IF ~o.ok THEN EFail(st, "object name: " \o o.why)
         ELSE [st EXCEPT !.p = o.p, !.ph = "obj", !.canon = @ /\ CanonLen(OBNAME, o.v) = o.p - (st.p + 1),
                         !.objs = Append(@, [o |-> o.v.o, cp |-> o.v.cp, n |-> o.v.n, at |-> <<>>])]

\* templates may hold invariant attributes, which have no components in the objects
NonInv(tmpl) == SelectSeq(tmpl, LAMBDA t : ~t.inv)

EStepAttr(b, st, role, d, tm) ==
    LET k == Len(st.objs)
        i == Len(st.objs[k].at) + 1
    IN IF i > Len(tm) THEN EFail(st, "more attributes than the template has")
       ELSE IF role = 0 /\ d # 0 THEN EFail(st, "absent attribute: unused bits")
       ELSE IF role = 0 THEN [st EXCEPT !.p = @ + 1, !.objs[k].at = Append(@, Absent)]
       ELSE LET t == tm[i]
                a == AttrComp(b, st.p + 1, d, t)
            IN IF ~a.ok THEN EFail(st, t.l \o ": " \o a.why)
               ELSE IF a.hasl /\ a.label # t.lc THEN EFail(st, t.l \o ": label differs from the template")
               ELSE IF ~a.hasv /\ ~t.hasv /\ a.cnt # 0
                    THEN EFail(st, t.l \o ": value announced but omitted")
               ELSE IF ~a.hasv /\ t.hasv /\ (a.cnt # t.cnt \/ a.code # t.code)
                    THEN EFail(st, t.l \o ": default value with another count or code")
               ELSE [st EXCEPT !.p = a.p, !.canon = @ /\ a.canon,
                               !.objs[k].at = Append(@, [pres |-> TRUE, cnt |-> a.cnt, code |-> a.code, u |-> a.u,
                                                         vals |-> IF a.hasv THEN a.vals ELSE t.vals])]

EStep(b, st) ==
    IF st.stop THEN st
    ELSE IF st.p > Len(b) THEN [st EXCEPT !.stop = TRUE]
    ELSE LET role == b[st.p] \div 32
             d == b[st.p] % 32
         IN CASE st.ph = "set" -> EStepSet(b, st, role, d)
              [] st.ph # "set" /\ role = 3 -> EStepObj(b, st, d)
              [] st.ph = "tmpl" /\ role # 3 -> EStepTmpl(b, st, role, d)
              [] OTHER -> IF role \notin {0, 1} THEN EFail(st, "unexpected component role " \o ToString(role))
                          ELSE EStepAttr(b, st, role, d, st.tmpl)

\* every step consumes at least one byte
ParseEflr(b) ==
    LET st0 == FoldLeft(LAMBDA s, i : EStep(b, s), EInit, [i \in 1..(Len(b) + 1) |-> i])
        st == IF st0.err = <<>> /\ st0.tmpl = <<>> THEN [st0 EXCEPT !.err = <<"no template">>]
              ELSE IF st0.err = <<>> /\ st0.objs = <<>> THEN [st0 EXCEPT !.err = <<"no objects">>]
              ELSE IF st0.err = <<>> /\ \E i \in 1..Len(st0.tmpl) : st0.tmpl[i].inv
                   THEN [st0 EXCEPT !.err = <<"invariant attributes are not expected">>]
              ELSE st0
    IN [ok |-> st.err = <<>>, err |-> st.err, ty |-> st.ty, nm |-> st.nm, named |-> st.named, tmpl |-> st.tmpl,
        objs |-> st.objs, canon |-> st.canon]

\* attribute of a decoded object by label; trailing ones left out take the template's default
AttrOf(set, obj, label) ==
    LET idx == {i \in 1..Len(set.tmpl) : set.tmpl[i].l = label} IN
    IF idx = {} THEN Absent
    ELSE LET i == CHOOSE i \in idx : TRUE IN
         IF i <= Len(obj.at) THEN obj.at[i]
         ELSE IF set.tmpl[i].hasv
              THEN [pres |-> TRUE, cnt |-> set.tmpl[i].cnt, code |-> set.tmpl[i].code, u |-> set.tmpl[i].u,
                    vals |-> set.tmpl[i].vals]
              ELSE Absent
=============================================================================
