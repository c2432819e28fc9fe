------------------------------ MODULE HttpModel ------------------------------
(* The rules of Http.tla against an origin that tells the truth: whatever the rules let
   posy answer has to be what the origin says or said not too long ago. Checked for every
   history up to a bound; with Record, random histories are printed for replay.            *)
EXTENDS Http, Json
CONSTANTS Urls, Steps, Record
VARIABLES st, now, begun, last, hist, able

\* how the origin presents each URL
H(u) == CASE u = "a" -> [Hdr0 EXCEPT !.maxage = 2, !.etag = "yes"]
          [] u = "b" -> [Hdr0 EXCEPT !.nostore = TRUE, !.maxage = 5]
          [] u = "c" -> [Hdr0 EXCEPT !.nocache = TRUE, !.lm = 0]
          [] u = "d" -> [Hdr0 EXCEPT !.public = TRUE]
          [] u = "e" -> [Hdr0 EXCEPT !.maxage = 3, !.vary = "lang", !.etag = "yes"]
          [] u = "r" -> [Hdr0 EXCEPT !.maxage = 2, !.loc = "a"]
          [] u = "s" -> [Hdr0 EXCEPT !.loc = "s"]
Long(u) == CASE u = "a" -> 2 [] u = "e" -> 3 [] OTHER -> 0
Number(u) == CHOOSE i \in 1..7 : <<"a", "b", "c", "d", "e", "r", "s">>[i] = u
Ver(u) == Len(begun[u])
Lang(l) == IF l = "x" THEN 1 ELSE 0
Body(u, v, l) == 100 * Number(u) + 10 * Lang(l) + v
Code(u) == CASE u = "r" -> 301 [] u = "s" -> 307 [] u = "d" /\ Ver("d") % 2 = 0 -> 404 [] OTHER -> 200
Tag(u, v, l) == <<"t", u, v, l>>
Etag(u, l) == IF H(u).etag = "" THEN "" ELSE ToString(Body(u, Ver(u), l))
Sent(u, l) == [H(u) EXCEPT !.etag = Etag(u, l), !.lm = IF @ = -1 THEN -1 ELSE begun[u][Ver(u)]]
Serve(op, u, cond) ==
    LET h == Sent(u, op.lang)
        l == IF H(u).vary = "lang" THEN op.lang ELSE ""
        same == cond # NoCond /\ (IF cond.inm # "" THEN cond.inm = h.etag ELSE cond.ims >= h.lm)
    IN [method |-> op.method, url |-> u, lang |-> op.lang, inm |-> cond.inm, ims |-> cond.ims, fault |-> FALSE, cut |-> FALSE,
        status |-> IF same THEN 304 ELSE Code(u), h |-> h, body |-> IF same THEN 0 ELSE Body(u, Ver(u), l)]
Conds(op, u) == LET k == Key(op, u) IN {NoCond} \union IF k \in DOMAIN st.cache THEN {[inm |-> st.cache[k].h.etag, ims |-> st.cache[k].h.lm]} ELSE {}
RECURSIVE Seqs(_, _, _)
Seqs(op, u, n) ==
    LET more == IF Code(u) \in Redirects /\ n < MaxRedirects THEN Seqs(op, H(u).loc, n + 1) ELSE {<<>>}
    IN {<<>>} \union {<<Serve(op, u, c)>> \o r : c \in Conds(op, u), r \in more} \union (IF Code(u) \in Redirects THEN more ELSE {})

Op0 == [op |-> "request", method |-> "GET", url |-> "a", mode |-> "default", lang |-> "", reqmax |-> -1, hash |-> 0, alg |-> "sha256"]
Ops == {[Op0 EXCEPT !.url = u, !.mode = m, !.lang = l] : u \in Urls, m \in {"default", "cached", "nostore"}, l \in IF "e" \in Urls THEN {"", "x"} ELSE {""}}
       \union {[Op0 EXCEPT !.op = "index", !.url = u, !.reqmax = 0] : u \in Urls}
       \union {[Op0 EXCEPT !.op = "hashed", !.url = u, !.mode = m, !.hash = Body(u, v, "")] : u \in Urls \ {"r", "s", "e"}, v \in 1..2, m \in {"default", "cached"}}

Which(u, b, l) == b - Body(u, 0, l)
\* was version v of u current at a time in [t, now]?
Current(u, v, t) == v \in 1..Ver(u) /\ (v = Ver(u) \/ begun[u][v + 1] >= t)
True(op, o) ==
    o.got = "ok" /\ op.op # "hashed" =>
       LET l == IF H(o.url).vary = "lang" THEN op.lang ELSE ""
       IN Current(o.url, Which(o.url, o.body, l), now - (IF op.mode = "nostore" \/ op.reqmax = 0 THEN 0 ELSE Long(o.url)))

Init == /\ st = Init0 /\ now = 0 /\ begun = [u \in Urls |-> <<0>>] /\ last = [op |-> Op0, exs |-> <<>>, o |-> [got |-> "err"], true |-> TRUE] /\ hist = <<>> /\ able = TRUE
Say(x) == hist' = IF Record THEN Append(hist, x) ELSE Append(hist, 0)
Tick == \E d \in {1, 3} : now' = now + d /\ Say([do |-> "tick", d |-> d]) /\ UNCHANGED <<st, begun, last, able>>
Change == \E u \in Urls : Ver(u) < 2 /\ now > begun[u][Ver(u)] /\ begun' = [begun EXCEPT ![u] = Append(@, now)] /\ Say([do |-> "change", url |-> u]) /\ UNCHANGED <<st, now, last, able>>
Do == \E op \in Ops :
        LET A == UNION {{<<x, o>> : o \in {o \in Outcomes(st, op, x, now) : o.i = Len(x) + 1}} : x \in Seqs(op, op.url, 0)}
        IN /\ Say([do |-> "op", op |-> op]) /\ UNCHANGED <<now, begun>>
           /\ IF A = {} THEN able' = FALSE /\ UNCHANGED <<st, last>>
              ELSE \E a \in A : st' = a[2].st /\ last' = [op |-> op, exs |-> a[1], o |-> a[2], true |-> True(op, a[2])] /\ UNCHANGED able
Next == Len(hist) < Steps /\ (Tick \/ Change \/ Do)

Truthful == last.true
ByHash == last.o.got = "ok" /\ last.op.op = "hashed" => last.o.body = last.op.hash
Offline == last.op.mode = "cached" => last.exs = <<>>
Bounded == Len(last.exs) <= 1 + MaxRedirects
LoopFails == last.op.url = "s" => last.o.got = "err"
Able == able
Tell == Len(hist) < Steps \/ PrintT(<<"TRACE", ToJson(hist), "END">>)
=============================================================================
