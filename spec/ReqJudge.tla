------------------------------ MODULE ReqJudge ------------------------------
EXTENDS ReqText
VARIABLES chunk, pos

\* posy's answer to a requirement in the model's terms
Their(x) == [name |-> x.name, extras |-> {x.extras[k] : k \in 1..Len(x.extras)}, specs |-> SpecsMeaning(x.specs), marker |-> FlatOpt(x.marker)]
Ans(v) == IF v THEN "T" ELSE "F"

\* what one text of a document means: <<>> if it is not of the right kind
Means(t) ==
    CASE t.what = "name" -> IF IsName(t.s) THEN <<"name", Norm(t.s)>> ELSE <<>>
      [] t.what = "version" -> LET v == ParseVersion(t.s) IN IF v = <<>> THEN <<>> ELSE <<"version", v[1]>>
      [] t.what = "hash" -> LET v == ParseHash(t.s) IN IF v = <<>> THEN <<>> ELSE <<"hash", v>>
      [] t.what = "specs" -> LET v == ParseSpecs(t.s) IN IF v = <<>> THEN <<>> ELSE <<"specs", SpecsMeaning(v[1])>>
      [] t.what = "req" -> LET v == ParseReq(t.s, TRUE) IN IF v = <<>> THEN <<>> ELSE <<"req", ReqMeaning(v[1])>>
      [] t.what = "userreq" -> LET v == ParseReq(t.s, FALSE) IN IF v = <<>> THEN <<>> ELSE <<"req", ReqMeaning(v[1])>>
      [] t.what = "python" -> LET v == ParseReq(t.s, FALSE) IN IF v = <<>> \/ v[1].extras # <<>> \/ v[1].marker # <<>> THEN <<>> ELSE <<"req", ReqMeaning(v[1])>>
      [] t.what = "true" -> LET v == ParseMarker(t.s, FALSE) IN IF v = <<>> THEN <<>> ELSE <<"true", FlatOpt(v)>>
      [] t.what = "false" -> LET v == ParseMarker(t.s, FALSE) IN IF v = <<>> THEN <<>> ELSE <<"false", FlatOpt(v)>>
      [] t.what = "text" -> <<"text", t.s>>

VerdictReq(x) ==
    IF x.status = "panic" THEN [ok |-> FALSE, want |-> <<"an answer">>]
    ELSE CASE x.kind = "req" ->
            LET r == ParseReq(x.s, x.extraOK)
            IN IF r = <<>> THEN [ok |-> x.status = "err", want |-> <<"refused">>]
               ELSE IF x.status # "ok" THEN [ok |-> FALSE, want |-> <<"accepted">>]
               ELSE IF Their(x) # ReqMeaning(r[1]) THEN [ok |-> FALSE, want |-> ReqMeaning(r[1])]
               ELSE LET p == ParseReq(x.printed, x.extraOK)
                    IN [ok |-> x.rt /\ p # <<>> /\ ReqMeaning(p[1]) = ReqMeaning(r[1]), want |-> <<"printed form that means the same">>]
      [] x.kind = "python" ->
            LET r == ParseReq(x.s, TRUE)
            IN IF r = <<>> \/ r[1].extras # <<>> \/ r[1].marker # <<>> THEN [ok |-> x.status = "err", want |-> <<"refused">>]
               ELSE IF x.status # "ok" THEN [ok |-> FALSE, want |-> <<"accepted">>]
               ELSE LET p == ParseReq(x.printed, TRUE)
                    IN [ok |-> x.rt /\ Their(x) = ReqMeaning(r[1]) /\ p # <<>> /\ ReqMeaning(p[1]) = ReqMeaning(r[1]), want |-> ReqMeaning(r[1])]
      [] x.kind = "specs" ->
            LET r == ParseSpecs(x.s) p == ParseSpecs(x.printed)
            IN IF r = <<>> THEN [ok |-> x.status = "err", want |-> <<"refused">>]
               ELSE IF x.status # "ok" THEN [ok |-> FALSE, want |-> <<"accepted">>]
               ELSE [ok |-> x.rt /\ SpecsMeaning(x.specs) = SpecsMeaning(r[1]) /\ p # <<>> /\ SpecsMeaning(p[1]) = SpecsMeaning(r[1]), want |-> SpecsMeaning(r[1])]
      [] x.kind = "marker" ->
            LET m == ParseMarker(x.s, FALSE) p == ParseMarker(x.printed, FALSE)
            IN IF m = <<>> THEN [ok |-> x.status = "err", want |-> <<"refused">>]
               ELSE IF x.status # "ok" THEN [ok |-> IsWs(x.s[Len(x.s)]), want |-> <<"accepted">>]
               ELSE [ok |-> x.rt /\ FlatOpt(x.marker) = FlatOpt(m) /\ FlatOpt(p) = FlatOpt(m), want |-> FlatOpt(m)]
      [] x.kind = "eval" ->
            LET m == ParseMarker(x.s, TRUE)
                right == IF m = <<>> THEN {"E"} ELSE Eval(m[1], x.env)
            IN [ok |-> (IF x.status = "err" THEN "E" ELSE Ans(x.got)) \in right, want |-> right]
      [] x.kind = "version" ->
            LET v == ParseVersion(x.s) p == ParseVersion(x.printed)
            IN IF v = <<>> THEN [ok |-> x.status = "err", want |-> <<"refused">>]
               ELSE [ok |-> x.status = "ok" /\ x.rt /\ p = v, want |-> v]

      [] x.kind = "hash" ->
            LET h == ParseHash(x.s) p == ParseHash(x.printed)
            IN IF h = <<>> THEN [ok |-> x.status = "err", want |-> <<"refused">>]
               ELSE [ok |-> x.status = "ok" /\ x.rt /\ p = h, want |-> h]
      \* a JSON document: every text in it (x.ins) was written back as x.outs
      [] x.kind = "doc" ->
            IF \E k \in 1..Len(x.ins) : Means(x.ins[k]) = <<>> THEN [ok |-> x.status = "err", want |-> <<"refused">>]
            ELSE IF x.status # "ok" \/ ~x.rt THEN [ok |-> FALSE, want |-> <<"read back equal">>]
            ELSE IF Len(x.ins) # Len(x.outs) THEN [ok |-> FALSE, want |-> <<"the same entries", Len(x.ins)>>]
            ELSE LET bad == {k \in 1..Len(x.ins) : Means(x.ins[k]) # Means(x.outs[k])}
                 IN [ok |-> bad = {}, want |-> <<"the same meaning of entries", bad>>]

INSTANCE Judge WITH Verdict <- VerdictReq
=============================================================================
