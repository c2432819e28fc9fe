------------------------------ MODULE Markers ------------------------------
(* PEP 508 environment markers.

   A marker is a tree: [t |-> "and" / "or", l, r] or [t |-> "cmp", op, l, r], where the
   operands are [var |-> <<name>>, lit |-> <<>>] or [var |-> <<>>, lit |-> <<codes>>].
   An environment is a record from variable names to texts.  Values of a marker are
   "T", "F", and "E" (an error: an unknown variable, or ~= on something that is not a
   version).  A marker that has an answer without the erroneous part may also have it. *)
EXTENDS Text

IsExtra(o) == o.var # <<>> /\ o.var[1] = "extra"
Known(o, env) == o.var = <<>> \/ o.var[1] \in DOMAIN env
Value(o, env) == IF o.var = <<>> THEN o.lit[1] ELSE env[o.var[1]]

\* extra names are compared in normal form (PEP 685)
NormIfName(s) == IF IsName(s) THEN Norm(s) ELSE s

TextCmp(op, a, b) ==
    LET c == CmpText(a, b) IN
    CASE op = "==" -> B(c = 0) [] op = "!=" -> B(c # 0)
      [] op = "<" -> B(c < 0) [] op = "<=" -> B(c <= 0)
      [] op = ">" -> B(c > 0) [] op = ">=" -> B(c >= 0)
      [] op = "~=" -> "E"

EvalCmp(m, env) ==
    IF ~Known(m.l, env) \/ ~Known(m.r, env) THEN "E"
    ELSE LET a0 == Value(m.l, env) b0 == Value(m.r, env)
             ex == IsExtra(m.l) \/ IsExtra(m.r)
             a == IF ex THEN NormIfName(a0) ELSE a0
             b == IF ex THEN NormIfName(b0) ELSE b0
         IN CASE m.op = "in" -> B(Contains(b, a))
              [] m.op = "not in" -> B(~Contains(b, a))
              [] OTHER ->
                   LET va == ParseVersion(a) cl == ParseClause(m.op, b)
                   IN IF va # <<>> /\ cl # <<>> /\ Allowed(cl[1]) # "F"
                      THEN Accepts(cl[1], va[1])       \* "X" where PEP 440 leaves it open
                      ELSE TextCmp(m.op, a, b)

\* The answers that are right: a set, as a part of the marker that does not matter may be
\* evaluated (and be an error) or not.
Leaf(v) == IF v = "X" THEN {"T", "F"} ELSE {v}
AndAns(a, b) == IF a = "F" \/ b = "F" THEN {"F"} \cup (IF "E" \in {a, b} THEN {"E"} ELSE {})
                ELSE IF "E" \in {a, b} THEN {"E"} ELSE {"T"}
OrAns(a, b) == IF a = "T" \/ b = "T" THEN {"T"} \cup (IF "E" \in {a, b} THEN {"E"} ELSE {})
               ELSE IF "E" \in {a, b} THEN {"E"} ELSE {"F"}
RECURSIVE Eval(_, _)
Eval(m, env) ==
    CASE m.t = "cmp" -> Leaf(EvalCmp(m, env))
      [] m.t = "and" -> UNION {AndAns(a, b) : a \in Eval(m.l, env), b \in Eval(m.r, env)}
      [] m.t = "or" -> UNION {OrAns(a, b) : a \in Eval(m.l, env), b \in Eval(m.r, env)}
      [] m.t = "T" -> {"T"}
      [] m.t = "F" -> {"F"}

\* ---------------------------------------------------------------- 'extra' taken out
\* What is left of a marker when extra is known: a marker without 'extra', or "T"/"F".
Tru == [t |-> "T"]
Fls == [t |-> "F"]
ExtraEnv(extra) == [extra |-> extra]
RECURSIVE Without(_, _)
Without(m, extra) ==
    CASE m.t = "cmp" -> LET v == EvalCmp(m, ExtraEnv(extra))
                        IN IF v = "T" THEN Tru ELSE IF v = "F" THEN Fls ELSE m
      [] m.t = "and" -> LET a == Without(m.l, extra) b == Without(m.r, extra)
                        IN IF a.t = "F" \/ b.t = "F" THEN Fls
                           ELSE IF a.t = "T" THEN b ELSE IF b.t = "T" THEN a
                           ELSE [t |-> "and", l |-> a, r |-> b]
      [] m.t = "or" -> LET a == Without(m.l, extra) b == Without(m.r, extra)
                       IN IF a.t = "T" \/ b.t = "T" THEN Tru
                          ELSE IF a.t = "F" THEN b ELSE IF b.t = "F" THEN a
                          ELSE [t |-> "or", l |-> a, r |-> b]
RECURSIVE Mentions(_)
Mentions(m) == IF m.t = "cmp" THEN IsExtra(m.l) \/ IsExtra(m.r) ELSE IF m.t \in {"and", "or"} THEN Mentions(m.l) \/ Mentions(m.r) ELSE FALSE
=============================================================================
