---- MODULE LazyFileJudge ----
EXTENDS LazyFile
VerdictLazy(x) ==
    LET why == Opening(x.open, x.opened)
        r == IF why # "" THEN [at |-> -1, why |-> why] ELSE IF x.opened = "ok" THEN Steps(Opened(x.open.len, x.open.full = "ok"), x.events, 1) ELSE [at |-> 0, why |-> ""]
    IN [ok |-> r.at = 0, want |-> r]
VARIABLES chunk, pos
INSTANCE Judge WITH Verdict <- VerdictLazy
====
