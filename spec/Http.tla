-------------------------------- MODULE Http --------------------------------
(* posy's HTTP layer: caching by URL, downloads by hash, redirects and retries.

   A state has the cache (what is stored for a URL) and the hash store. An operation asks for
   a URL; what it may do is a set of outcomes, each with the new state, how many of the
   exchanges with the origin it used up, and the result. The rules of RFC 9111 leave some
   freedom (what to store, heuristic freshness), hence sets; a history is fine if some choice
   explains all of it.

   An operation: op   "request", "hashed" (a file, by hash unless hash = 0), "index" (a page
                      of the package index, which asks for max-age=0)
                 method, url, mode ("default", "cached": only if cached, "nostore"),
                 lang (a request header that responses may vary on), reqmax (-1: none), hash
   An exchange:  method, url, lang, inm (If-None-Match), ims (If-Modified-Since, -1: none), conditional,
                 fault (no response), cut (the body ends early), status and the fields of Hdr0, body
   Bodies are numbers; a hash is the number of the body that has it;
   alg is its algorithm. Results: got "ok", "none" (no such project), "err".                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Hdr0 == [etag |-> "", lm |-> -1, maxage |-> -1, nostore |-> FALSE, nocache |-> FALSE, mustrev |-> FALSE, private |-> FALSE, public |-> FALSE,
         expires |-> -2, date |-> -1, age |-> -1, vary |-> "", loc |-> "", html |-> TRUE, tag |-> ""]
Init0 == [cache |-> <<>>, hashes |-> {}]
MaxRedirects == 5
Redirects == {301, 302, 303, 307, 308}
Transient == {500, 503, 520, 527}
MaxAttempts == 14     \* a dropped connection may be noticed, and tried again, at two levels
ByDefault == {200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 501}

Put(f, x, v) == (x :> v) @@ f
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* ------------------------------------------------------------------ freshness
Max(a, b) == IF a > b THEN a ELSE b
Born(e) == IF e.h.date >= 0 THEN e.h.date ELSE e.t
Lifetime(e) == IF e.h.maxage >= 0 THEN e.h.maxage
               ELSE IF e.h.expires = -1 THEN 0
               ELSE IF e.h.expires >= 0 THEN Max(0, e.h.expires - Born(e))
               ELSE IF e.h.lm >= 0 THEN Max(0, Born(e) - e.h.lm) \div 10 + 25  \* (leeway for rounding)
               ELSE 0
Age(e, now) == Max(0, now - e.t) + Max(0, e.h.age)
Selected(e, op) == e.h.vary = "" \/ (e.h.vary = "lang" /\ e.lang = op.lang)
MayFresh(e, op, now) == /\ Selected(e, op) /\ ~e.h.nocache /\ ~e.h.nostore
                        /\ Lifetime(e) > Age(e, now)
                        /\ op.reqmax >= 0 => Age(e, now) <= op.reqmax
\* no room for interpretation: then it has to be used
MustFresh(e, op, now) == e.sure /\ MayFresh(e, op, now) /\ e.h.maxage > 0 /\ ~e.h.private /\ op.reqmax = -1
MayStore(op, x) == ~x.h.nostore /\ (x.status \in ByDefault \/ x.h.maxage >= 0 \/ x.h.expires >= -1 \/ x.h.public)
MustStore(op, x) == MayStore(op, x) /\ x.status \in {200, 404} /\ op.method = "GET" /\ ~x.h.private /\ x.h.vary # "star"

\* ------------------------------------------------------------------ exchanges
Key(op, url) == <<op.method, url>>
Entry(op, x, now, sure) == [status |-> x.status, body |-> x.body, h |-> x.h, lang |-> op.lang, t |-> now, sure |-> sure]

NoCond == [inm |-> "", ims |-> -1]
Asks(op, url, cond, x) == x.method = op.method /\ x.url = url /\ x.lang = op.lang /\ x.inm = cond.inm /\ x.ims = cond.ims
\* one request, with retries: the possible [i, got ("reply", "fail"), x]
RECURSIVE Attempt(_, _, _, _, _, _)
Attempt(op, url, cond, exs, i, n) ==
    IF i > Len(exs) \/ n >= MaxAttempts THEN {}
    ELSE LET x == exs[i]
             again == Attempt(op, url, cond, exs, i + 1, n + 1)
         IN IF ~Asks(op, url, cond, x) THEN {}
            ELSE IF x.fault THEN again \union (IF n > 0 THEN {[i |-> i + 1, got |-> "fail", x |-> x]} ELSE {})
            ELSE IF x.status \in Transient THEN again \union (IF n > 0 THEN {[i |-> i + 1, got |-> "reply", x |-> x]} ELSE {})
            ELSE {[i |-> i + 1, got |-> "reply", x |-> x]}

\* ------------------------------------------------------------------ one hop
Hop(st, i, got, status, body, h) == [st |-> st, i |-> i, got |-> got, status |-> status, body |-> body, h |-> h]
Err(st, i) == Hop(st, i, "err", 0, 0, Hdr0)
Reply(st, r) == IF r.x.cut THEN Err(st, r.i) ELSE Hop(st, r.i, "ok", r.x.status, r.x.body, r.x.h)
\* keeps, or not, a response that is not a confirmation of what is stored
Keep(st, op, url, r, now) ==
    LET k == Key(op, url)
        put(sure) == [st EXCEPT !.cache = Put(@, k, Entry(op, r.x, now, sure))]
        gone == [st EXCEPT !.cache = Drop(@, k)]
    IN IF r.x.cut THEN {Err(st, r.i), Err(gone, r.i)}
       ELSE IF MustStore(op, r.x) THEN {Reply(put(TRUE), r)}
       ELSE (IF MayStore(op, r.x) THEN {Reply(put(FALSE), r)} ELSE {})
            \union {Reply(gone, r)} \union (IF r.x.status >= 500 THEN {Reply(st, r)} ELSE {})
\* the stored response after the origin said that it is still good
Has(h, f) == h[f] # Hdr0[f]
Freshness == {"maxage", "nostore", "nocache", "mustrev", "private", "public"}
Confirmed(e, h, all, html, now) ==
    LET one(f) == IF Has(h, f) /\ (all \/ Has(e.h, f)) THEN h[f] ELSE e.h[f]
        ccnew == \E f \in Freshness : Has(h, f)
        ccold == \E f \in Freshness : Has(e.h, f)
    IN [e EXCEPT !.t = now, !.sure = @ /\ ~h.nostore /\ ~h.private, !.h = [f \in DOMAIN Hdr0 |-> IF f \in Freshness THEN IF ccnew /\ (all \/ ccold) THEN h[f] ELSE e.h[f]
                                                         ELSE IF f = "loc" THEN e.h[f]
                                                         ELSE IF f = "html" THEN html ELSE one(f)]]
\* does the confirmation name what we have?
Bare(t) == IF Len(t) > 1 /\ SubSeq(t, 1, 2) = "W/" THEN SubSeq(t, 3, Len(t)) ELSE t
Names(e, h) == Bare(h.etag) = Bare(e.h.etag) \/ h.etag = ""
Ask(st, op, url, exs, i, now) ==
    LET k == Key(op, url) known == k \in DOMAIN st.cache
        e == st.cache[k]
        cond == IF known /\ Selected(e, op) THEN [inm |-> e.h.etag, ims |-> e.h.lm] ELSE NoCond
        failed(R) == {Err(st, r.i) : r \in {r \in R : r.got = "fail"}}
        replies(R) == {r \in R : r.got = "reply"}
        plain == Attempt(op, url, NoCond, exs, i, 0)
        fresh(R) == failed(R) \union UNION {Keep(st, op, url, r, now) : r \in replies(R)}
        good(r) == {Hop([st EXCEPT !.cache = Put(@, k, n)], r.i, "ok", n.status, n.body, n.h) : n \in {Confirmed(e, r.x.h, all, html, now) : all \in BOOLEAN, html \in {e.h.html, r.x.h.html}}}
        \* a confirmation of something else is worth nothing: ask again, or fail
        other(r) == {Err(st, r.i), Err([st EXCEPT !.cache = Drop(@, k)], r.i)} \union fresh(Attempt(op, url, NoCond, exs, r.i, 0))
        checked == LET R == Attempt(op, url, cond, exs, i, 0)
                   IN failed(R) \union UNION {IF r.x.status = 304 THEN (IF Names(e, r.x.h) THEN good(r) ELSE {}) \union (IF r.x.h.etag # e.h.etag THEN other(r) ELSE {})
                                              ELSE Keep(st, op, url, r, now) : r \in replies(R)}
    IN IF known /\ cond # NoCond THEN checked \union (IF e.sure THEN {} ELSE fresh(plain)) ELSE fresh(plain)
\* the ways in which one URL may be answered
OneHop(st, op, url, exs, i, now) ==
    LET k == Key(op, url) known == k \in DOMAIN st.cache e == st.cache[k]
        use == IF known /\ MayFresh(e, op, now) THEN {Hop(st, i, "ok", e.status, e.body, e.h)} ELSE {}
        must == known /\ MustFresh(e, op, now)
    IN IF op.mode = "nostore" THEN {IF r.got = "fail" THEN Err(st, r.i) ELSE Reply(st, r) : r \in Attempt(op, url, NoCond, exs, i, 0)}
       ELSE IF op.mode = "cached" THEN use \union (IF must THEN {} ELSE {Err(st, i)})
       ELSE use \union (IF must THEN {} ELSE Ask(st, op, url, exs, i, now))

\* ------------------------------------------------------------------ redirects
\* h.loc is the absolute target, "" if there is none, "?" if it makes no sense
RECURSIVE Follow(_, _, _, _, _, _, _)
Follow(st, op, url, exs, i, now, n) ==
    UNION {IF o.got = "ok" /\ o.status \in Redirects
           THEN IF o.h.loc = "" THEN {[o EXCEPT !.h.loc = url]} \union (IF n = MaxRedirects THEN {Err(o.st, o.i)} ELSE {})
                ELSE IF n = MaxRedirects \/ o.h.loc = "?" THEN {Err(o.st, o.i)}
                ELSE Follow(o.st, op, o.h.loc, exs, o.i, now, n + 1)
           ELSE {[o EXCEPT !.h.loc = url]}       \* where the answer came from
           : o \in OneHop(st, op, url, exs, i, now)}

Checkable == {"sha256"}
Success(s) == s >= 200 /\ s < 300
\* what an operation may come to: [st, i, got, status, body, url]
Outcomes(st, op, exs, now) ==
    LET F(o) == Follow(st, o, op.url, exs, 1, now, 0)
        res(o, got) == [st |-> o.st, i |-> o.i, got |-> got, status |-> o.status, body |-> o.body, url |-> o.h.loc, tag |-> o.h.tag]
        plain == {res(o, o.got) : o \in F(op)}
        page == UNION {{res(o, g) : g \in IF o.got # "ok" THEN {"err"} ELSE IF o.status = 404 THEN {"none"} ELSE IF o.status = 410 THEN {"none", "err"}
                                         ELSE IF Success(o.status) /\ o.h.html THEN {"ok"} ELSE {"err"}} : o \in F(op)}
        file == {res(o, IF o.got = "ok" /\ ~Success(o.status) THEN "err" ELSE o.got) : o \in F(op)}
        stored == [st |-> st, i |-> 1, got |-> "ok", status |-> 200, body |-> op.hash, url |-> "", tag |-> ""]
        download(o) == LET r == res(o, IF o.got = "ok" /\ o.body = op.hash /\ Success(o.status) THEN "ok" ELSE "err")
                       IN IF r.got = "ok" THEN [r EXCEPT !.st.hashes = @ \union {<<op.alg, op.hash>>}] ELSE r
    IN IF op.op = "index" THEN page
       ELSE IF op.op = "request" THEN plain
       ELSE IF op.hash = 0 THEN file
       ELSE IF <<op.alg, op.hash>> \in st.hashes THEN {stored}
       ELSE IF op.mode = "cached" THEN {[stored EXCEPT !.got = "err"]}
       ELSE LET D == {download(o) : o \in F([op EXCEPT !.mode = "nostore"])}
            IN IF op.alg \in Checkable THEN D      \* else it may be refused, early or late
               ELSE D \union {[r EXCEPT !.st = st, !.got = "err"] : r \in D} \union {[stored EXCEPT !.got = "err"]}

\* does an outcome agree with what was seen?
Agrees(op, exs, res, o) ==
    /\ o.i = Len(exs) + 1
    /\ IF o.got = "ok" THEN /\ res.got = "ok"
                            /\ op.op = "request" => res.status = o.status /\ res.url = o.url /\ res.tag = o.tag
                            /\ op.op = "index" => res.url = "*" \/ res.url = op.dirs[o.url]   \* links are relative to it
                            /\ res.body = o.body
       ELSE res.got = o.got
=============================================================================
