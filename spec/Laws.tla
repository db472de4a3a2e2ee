-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The properties, as conditions on one observed event of the              *)
(* implementation.  Every operator returns the set of violated clauses.    *)
(***************************************************************************)
EXTENDS Errors, Session, Rollout, Migration, Seeding

If(cond, name) == IF cond THEN {name} ELSE {}

\* C02: the verdict is the meaning of the declaration
C02Clauses(ev) ==
    IF HasGrey(ev.s, ev.v) THEN {}
    ELSE If(Accepts(ev.s, ev.v) # ev.ok, "verdict")

\* C03: every reported error is true and points at the sub-value it reports
C03Clauses(ev) ==
    LET e == ev.e
        x == Follow(ev.v, e.path)
        rs == Reach(ev.s, ev.v, e.path)
    IN If(x # e.actual, "path-reaches-reported-value") \cup
       (IF x # e.actual THEN {}
        ELSE If(~\E i \in 1..Len(rs) : FactHolds(e, rs[i], x), "stated-fact")) \cup
       If(e.msg # <<>> /\ ~NamesPath(e), "message-names-path") \cup
       If(e.msg # <<>> /\ \E i \in 1..Len(e.says) : e.says[i] # <<>> /\ ~Occurs(e.says[i], e.msg),
          "message-states-the-fact") \cup
       If(e.empty, "message-empty")

\* C08: validation returns for every value, and reports by returning errors
C08Clauses(ev) ==
    IF ev.raised # "" THEN {"validate-raised"}
    ELSE If(ev.fmtexc # "", "format-raised") \cup
         If(ev.badmsg # 0, "empty-message") \cup
         If(ev.nerr = 0 /\ ev.vof # "true", "validate-or-fail-on-success") \cup
         If(ev.nerr > 0 /\ ev.vof # "exception", "validate-or-fail-on-failure") \cup
         If(ev.nerr > 0 /\ ev.vof = "exception" /\ ~ev.multi /\ ev.lines # ev.nerr,
            "one-line-per-error") \cup
         If(ev.fmtres # "" \/ ev.reslines # ev.nerr, "format-result") \cup
         If(ev.eqexc # "", "comparison-raised")

\* C01: what is generated conforms, and generating never raises
C01Clauses(ev) ==
    IF ~(IF ev.strict THEN Sat(ev.s) ELSE HSat(ev.s)) THEN {}
    ELSE IF ev.raised # "" THEN {"generation-raised"}
    ELSE If(ev.nerr # 0, "own-validation-rejects") \cup
         If(~HasGrey(ev.s, ev.v) /\ ~Accepts(ev.s, ev.v), "does-not-conform")

\* C04: a substitution pins the value
C04Clauses(ev) ==
    IF ev.outcome # "ok" \/ ~Plain(ev.v) THEN {}
    ELSE LET ps == Precs(ev.s)
             ok == SubOk(ev.s, ev.v)
         IN If(~ev.rv /\ Accepts(ev.s, ev.v) /\ ~HasGrey(ev.s, ev.v), "result-rejects-the-value") \cup
            If(ev.genexc # "" /\ HSat(ev.s), "result-not-usable") \cup
            UNION {LET x == ev.ws[i] IN
                   If((x.r \/ x.gen) /\ ~Carries(ev.v, x.w, ps), "value-not-carried") \cup
                   If(~x.r /\ ok /\ Keep(ev.s, ev.v, x.w) /\ ~HasGrey(ev.s, x.w),
                      "unspecified-part-changed")
                   : i \in 1..Len(ev.ws)}

\* C05: it only narrows
C05Clauses(ev) ==
    IF ev.outcome # "ok" \/ ~Plain(ev.v) THEN {}
    ELSE UNION {LET x == ev.ws[i] IN
                If(x.r /\ ~Accepts(ev.s, x.w) /\ ~HasGrey(ev.s, x.w), "widened")
                : i \in 1..Len(ev.ws)}

\* C12: it fails only with SubstitutionError, never returns an unusable schema,
\* and substituting again changes nothing
C12Clauses(ev) ==
    IF ev.outcome \notin {"ok", "SubstitutionError"} THEN {"wrong-exception"}
    ELSE IF ev.outcome # "ok" THEN {}
    ELSE LET sat == AllSat(ev.s) IN
         If(sat /\ ev.genexc # "", "result-cannot-be-generated-from") \cup
         If(sat /\ ev.genexc = "" /\ ev.genbad, "result-rejects-what-it-generates") \cup
         If(sat /\ ~WellFormed(ev.rs), "result-malformed") \cup
         If(Plain(ev.v) /\ ev.idem # "equal", "not-idempotent")

\* C06: the printed form is a program of the declaration language for the schema
C06Clauses(ev) ==
    IF ev.raised # "" THEN {"repr-raised"}
    ELSE IF ~ev.parsed THEN {"not-an-expression-of-the-language"}
    ELSE LET r == Eval(ev.prog) IN
         If(~r.ok, "text-does-not-declare") \cup
         If(r.ok /\ r.s # ev.s, "text-declares-something-else") \cup
         If(ev.evalexc # "", "evaluation-raises") \cup
         If(ev.evalexc = "" /\ ~ev.eq, "evaluates-to-unequal-schema") \cup
         If(ev.evalexc = "" /\ ~ev.same, "repr-of-rebuilt-differs") \cup
         If(~ev.det, "not-deterministic")

\* C06: the text depends on the declaration alone, whatever the interpreter
C06Texts(ev) == If(\E i \in 1..Len(ev.runs) : Len(ev.runs[i]) # ev.n, "incomplete") \cup
                If(\E i \in 2..Len(ev.runs) : ev.runs[i] # ev.runs[1], "not-deterministic-across-interpreters")

\* the property a call declares is declared already
Declared(s, m) ==
    CASE m = "len" -> HasLen(s)
      [] m = "min" -> s.min # <<>>
      [] m = "max" -> s.max # <<>>
      [] m = "precision" -> s.prec # <<>>
      [] m = "alphabet" -> s.alphabet # <<>>
      [] m = "contains" -> s.substr # <<>>
      [] m = "regex" -> s.pattern # <<>>
      [] m = "" /\ s.t = "list" -> s.elems # <<>> \/ s.type # <<>>
      [] m = "" /\ s.t = "dict" -> s.keys # <<>>
      [] m = "" /\ s.t = "any" -> s.types # <<>>
      [] OTHER -> s.value # <<>>

\* C10: a declaration call fails cleanly or yields a self-consistent schema
C10Clauses(ev) ==
    If(ev.outcome \notin {"ok", "DeclarationError"}, "wrong-exception") \cup
    If(~ev.same, "receiver-changed") \cup
    (IF ev.outcome # "ok" \/ ev.m = "alias" THEN {} ELSE
       If(Declared(ev.s, ev.m), "redeclaration-accepted") \cup
       If(ev.conf = "no", "own-value-not-accepted") \cup
       IF ev.r.t = "broken" THEN {"not-a-schema"}
       ELSE IF ~ev.judge THEN {}
       ELSE IF ~WellFormed(ev.r) THEN {"malformed-schema"}
       ELSE LET e == Refine(ev.s, ev.m, ev.args) IN
            If(~SelfConsistent(ev.r), "contradicts-its-fixed-value") \cup
            If(e.ok /\ e.s # ev.r, "not-what-was-declared"))

\* C11: every order of the same refinements has the same outcome
C11Clauses(ev) ==
    LET n == Len(ev.runs) IN
    If(\E i \in 1..n : ev.runs[i].outcome \notin {"ok", "DeclarationError"}, "wrong-exception") \cup
    If(\E i \in 1..n : (ev.runs[i].outcome = "ok") # (ev.runs[1].outcome = "ok"),
       "order-decides-acceptance") \cup
    If(\E i \in 1..n : ev.runs[i].outcome = "ok" /\ ev.runs[1].outcome = "ok" /\
                        (ev.runs[i].r # ev.runs[1].r \/ ~ev.runs[i].eq), "order-decides-result")

\* C13: a combination means what its parts mean
C13Clauses(ev) ==
    IF ev.exc # "" THEN {"combinator-raised"}
    ELSE UNION {LET x == ev.ws[i] IN
                If(~PartsGrey(ev.kind, ev.parts, x.w) /\ x.r # Means(ev.kind, ev.parts, ev.keys, x.w),
                   "meaning-of-" \o ev.kind)
                : i \in 1..Len(ev.ws)} \cup
         \* what indexing and iteration expose against what was declared
         If(Len(ev.got) # Len(ev.want) \/ \E i \in 1..Len(ev.want) : ~\E j \in 1..Len(ev.got) :
              ev.got[j] = ev.want[i], "members-exposed") \cup
         If(ev.bad # "", "key-that-is-not-declared")

\* C18: rollout undoes flattening, and leaves nested mappings alone
C18Clauses(ev) ==
    IF ev.kind = "roundtrip" /\ ~(Flattenable(ev.m, ev.sep) /\ EqMap(Flatten(ev.m, ev.sep), ev.flat))
    THEN {"harness-flattened-wrongly"}
    ELSE If(ev.exc # "", "raised") \cup
         If(ev.exc = "" /\ ~EqMap(ev.out, ev.m), "not-the-nested-mapping") \cup
         If(ev.kind = "roundtrip" /\ ~EqMap(Unflatten(ev.flat, ev.sep), ev.m), "specification-disagrees")

\* C14: from_native(v) accepts v, generates v, and nothing unlike v
RECURSIVE NotPlain(_)
NotPlain(v) ==
    CASE v.k \in {"tuple", "ell", "optional", "other"} -> TRUE
      [] v.k = "uuid" -> v.ver # 4
      [] v.k = "list" -> \E i \in 1..Len(v.e) : NotPlain(v.e[i])
      [] v.k = "dict" -> \E i \in 1..Len(v.p) :
                            v.p[i][1].k \in {"ell", "optional"} \/ NotPlain(v.p[i][2])
      [] OTHER -> FALSE
ScalarKey(k) == k.k \in PlainKinds \cup {"uuid"} /\ ~VIsNan(k)
RECURSIVE PlainKeys(_)
PlainKeys(v) == CASE v.k = "list" -> \A i \in 1..Len(v.e) : PlainKeys(v.e[i])
                  [] v.k = "dict" -> \A i \in 1..Len(v.p) : ScalarKey(v.p[i][1]) /\ PlainKeys(v.p[i][2])
                  [] OTHER -> TRUE
C14Clauses(ev) ==
    IF ev.outcome \notin {"ok", "ValueError"} THEN {"wrong-exception"}
    ELSE IF ev.forced THEN {}
    ELSE IF NotPlain(ev.v) THEN If(ev.outcome # "ValueError", "accepted-a-value-that-is-not-plain")
    ELSE IF ev.outcome # "ok" THEN If(~ev.sub /\ PlainKeys(ev.v), "refused-a-plain-value")
    ELSE If(ev.genexc # "", "cannot-generate") \cup
         IF ~PlainKeys(ev.v) THEN {} ELSE
         If(\E i \in 1..Len(ev.gens) : ~Same(ev.v, ev.gens[i]), "generates-something-else") \cup
         UNION {LET x == ev.ws[i] IN
                If(Same(ev.v, x.w) /\ ~x.r, "rejects-the-value") \cup
                If(x.r /\ ~Like(ev.v, x.w), "accepts-another-value")
                : i \in 1..Len(ev.ws)}

\* C15: equality
Bool == {"true", "false"}
C15Clauses(ev) ==
    LET all == <<ev.aa, ev.twin, ev.ab, ev.ba, ev.bc, ev.ac, ev.ca>> IN
    If(\E i \in 1..Len(all) : all[i][1] \notin Bool \/ all[i][2] \notin Bool, "comparison-raised") \cup
    If(\E i \in 1..Len(all) : all[i][1] = all[i][2], "ne-is-not-the-negation") \cup
    If(ev.aa[1] # "true", "not-reflexive") \cup
    If(ev.twin[1] # "true", "independent-builds-differ") \cup
    If(ev.a = ev.b /\ ev.ab[1] # "true", "equal-declarations-differ") \cup
    If(ev.ab # ev.ba \/ ev.ac # ev.ca, "not-symmetric") \cup
    If((ev.ab[1] = "true" /\ ev.bc[1] = "true" /\ ev.ac[1] # "true") \/
       (ev.ab[1] = "true" /\ ev.ac[1] = "true" /\ ev.bc[1] # "true") \/
       (ev.bc[1] = "true" /\ ev.ac[1] = "true" /\ ev.ab[1] # "true"), "not-transitive") \cup
    (IF ev.ab[1] # "true" THEN {} ELSE
     UNION {LET x == ev.ws[i] IN
            If(x.a # x.b, "equal-schemas-different-verdicts") \cup
            If(~HasGrey(ev.a, x.w) /\ ~HasGrey(ev.b, x.w) /\ Accepts(ev.a, x.w) # Accepts(ev.b, x.w),
               "equal-schemas-different-meaning")
            : i \in 1..Len(ev.ws)})
C15Value(ev) ==
    If(ev.eq[1] = ev.eq[2], "ne-is-not-the-negation") \cup
    If((ev.eq[1] = "true") # ev.ok, "equality-is-not-validation") \cup
    If(~HasGrey(ev.s, ev.v) /\ (ev.eq[1] = "true") # Accepts(ev.s, ev.v), "equality-is-not-conformance")

\* C16: a forwarding custom type is invisible
RECURSIVE Strip(_)
Strip(s) ==
    CASE s.t = "custom" -> Strip(s.inner)
      [] s.t = "alias" -> [s EXCEPT !.type = Strip(s.type)]
      [] s.t = "list" -> [s EXCEPT !.type = [i \in 1..Len(s.type) |-> Strip(s.type[i])],
                                   !.elems = [i \in 1..Len(s.elems) |->
                                       [j \in 1..Len(s.elems[i]) |-> Strip(s.elems[i][j])]]]
      [] s.t = "dict" -> [s EXCEPT !.keys = [i \in 1..Len(s.keys) |-> [j \in 1..Len(s.keys[i]) |->
                             <<s.keys[i][j][1], Strip(s.keys[i][j][2]), s.keys[i][j][3]>>]]]
      [] s.t = "any" -> [s EXCEPT !.types = [i \in 1..Len(s.types) |->
                             [j \in 1..Len(s.types[i]) |-> Strip(s.types[i][j])]]]
      [] OTHER -> s
C16Clauses(ev) ==
    LET st == Strip(ev.s) IN
    If(ev.ra # ev.rb, "printed-form") \cup
    UNION {LET x == ev.vals[i] IN
           If(x.a # x.b, "errors-differ") \cup
           If(~HasGrey(st, x.w) /\ Accepts(st, x.w) # (x.a = <<>>), "verdict")
           : i \in 1..Len(ev.vals)} \cup
    UNION {LET x == ev.gens[i] IN
           If((x.a = "") # (x.b = ""), "generation-raised") \cup
           If(x.a = "" /\ HSat(st) /\ (~x.ok \/ (~HasGrey(st, x.w) /\ ~Accepts(st, x.w))),
              "generated-value-does-not-conform")
           : i \in 1..Len(ev.gens)} \cup
    UNION {LET x == ev.subs[i] IN
           If(x.a # x.b, "substitution-outcome") \cup
           If(x.ra # x.rb, "substitution-result-printed") \cup
           If(\E j \in 1..Len(x.ws) : x.ws[j].a # x.ws[j].b, "substitution-result-verdicts")
           : i \in 1..Len(ev.subs)}

\* C09: a full match, or a refusal where a construct is not supported
C09Clauses(ev) ==
    LET x == ev.x[1]
        must == IF ev.x = <<>> THEN ev.must ELSE Generatable(x)
    IN IF ev.exc # ""
       THEN If(must, "supported-pattern-refused") \cup If(ev.exc = "HarnessTimeout", "hangs")
       ELSE If(~ev.full, "not-a-full-match") \cup
            If(ev.nerr # 0, "own-validation-rejects") \cup
            If(ev.x # <<>> /\ ~ev.long /\ Regular(x) /\ ~FullMatch(x, ev.t), "does-not-match-the-tree")

\* C17: the sequence is a function of the seed and the schemas
C17Clauses(ev) ==
    LET n == Len(ev.runs) IN
    If(\E i \in 1..n : Len(ev.runs[i]) # ev.n, "incomplete") \cup
    If(\E i \in 2..3 : ev.runs[i] # ev.runs[1], "not-reproducible-in-the-process") \cup
    If(\E i \in 4..n : ev.runs[i] # ev.runs[1], "not-reproducible-in-another-interpreter")

C17Histories(ev) == If(~Reproducible(ev.obs), "not-a-function-of-seed-and-schemas")

\* C07: sessions
C07Clauses(ev) == Purity(ev) \cup If(ev.model /\ ev.got # ev.want, "not-the-pool-of-the-model")

\* C19: the rewriter
C19Clauses(ev) ==
    If(~ev.mapping, "the-mapping-was-changed") \cup
    CASE ev.kind = "none" -> If(HasMapped(ev.in, ev.map), "nothing-reported-but-there-is")
      [] ev.kind = "text" -> If(~Preserved(ev.in, ev.out, ev.map), "not-preserved")
      [] ev.kind = "invalid" -> {"invalid-python"}
      [] OTHER -> {"raised"}
C19Targets(ev) ==
    UNION {If(~ev.ts[i].ok, "target-cannot-be-imported") \cup
           If(ev.ts[i].name # ev.ts[i].nn, "target-binds-another-name") : i \in 1..Len(ev.ts)}

\* C03: no error of one place is reported as if it were of a sibling's: what is said, it is said once
C03Siblings(ev) ==
    If(\E i, j \in 1..Len(ev.said) : i < j /\ ev.said[i] = ev.said[j], "same-error-twice")
=============================================================================
