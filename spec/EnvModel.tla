------------------------------- MODULE EnvModel -------------------------------
(* How it comes about, step by step: posy splits the old search path, puts its directories before it and joins that
   again; a program is looked up; Python starts - its own directories, then sitecustomize.py adds the directories that
   $POSY_PYTHON_PACKAGES lists, one after the other, each with what its .pth files name - and imports.  For every
   search path over a small alphabet and every small environment: does this find what Env.tla says?        *)
EXTENDS Env
CONSTANTS MaxPath, MaxWheels, SkipEmpty, UserSite
VARIABLES pc, env, old, path, libs, todo, syspath
vars == <<pc, env, old, path, libs, todo, syspath>>
P == 112 Q == 113 U == 117          \* directory names: /p is the Python's; q, u: others.  The current directory is "."
Cwd == <<46>>
Wheel(k, mods) == [bin |-> <<k, P>>, lib |-> <<k, Q>>, mods |-> mods]
Mods == {"a", "b"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET T == Texts(n - 1) IN T \union {Append(t, c) : t \in {t \in T : Len(t) = n - 1}, c \in {P, Q, U, Colon}}
\* who has which modules besides
In(d) == IF d = <<U>> \/ d = Cwd THEN {"a", "u"} ELSE IF d = <<P>> THEN Elements(env.std)
         ELSE UNION {IF d = env.wheels[k].lib THEN Elements(env.wheels[k].mods) ELSE {} : k \in 1..Len(env.wheels)}
Dirs == {[dir |-> <<P>>, progs |-> <<"x">>], [dir |-> <<Q>>, progs |-> <<"x", "y">>], [dir |-> <<U>>, progs |-> <<"y">>], [dir |-> <<1, P>>, progs |-> <<"x">>], [dir |-> <<2, P>>, progs |-> <<"z">>], [dir |-> <<>>, progs |-> <<"y", "z">>]}
SeqsOf(S) == {<<>>} \union {<<a>> : a \in S} \union {<<a, b>> : a \in S, b \in S}
Init == /\ pc = "vars" /\ path = <<>> /\ libs = <<>> /\ todo = <<>> /\ syspath = <<>>
        /\ old \in Texts(MaxPath)
        /\ \E n \in 0..MaxWheels, std \in {<<>>, <<"b">>} : \E ms \in [1..n -> SeqsOf(Mods)] :
              env = [python |-> <<P, P>>, pybin |-> <<P, U>>, std |-> std, wheels |-> [k \in 1..n |-> Wheel(k, ms[k])]]
Vars == /\ pc = "vars" /\ path' = Join(Bins(env) \o Split(old)) /\ libs' = Join(Libs(env)) /\ pc' = "start" /\ UNCHANGED <<env, old, todo, syspath>>
Start == /\ pc = "start" /\ syspath' = <<<<P>>>> \o (IF UserSite THEN <<<<U>>>> ELSE <<>>) /\ todo' = Split(libs) /\ pc' = "site" /\ UNCHANGED <<env, old, path, libs>>
\* site.addsitedir: an empty name is made absolute - it's the current directory
Site == /\ pc = "site" /\ todo # <<>> /\ todo' = Tail(todo)
        /\ syspath' = IF todo[1] = <<>> THEN (IF SkipEmpty THEN syspath ELSE Append(syspath, Cwd)) ELSE Append(syspath, todo[1])
        /\ UNCHANGED <<pc, env, old, path, libs>>
Started == pc = "site" /\ todo = <<>> /\ pc' = "run" /\ UNCHANGED <<env, old, path, libs, todo, syspath>>
Next == Vars \/ Start \/ Site \/ Started
RECURSIVE Import(_, _)
Import(m, i) == IF i > Len(syspath) THEN <<>> ELSE IF m \in In(syspath[i]) THEN <<syspath[i]>> ELSE Import(m, i + 1)
Whose(m) == LET d == Import(m, 1) IN IF d = <<>> THEN Nobody ELSE IF d = <<<<P>>>> THEN 0
            ELSE LET ks == {k \in 1..Len(env.wheels) : env.wheels[k].lib = d[1]} IN IF ks = {} THEN 1000 ELSE CHOOSE k \in ks : TRUE
Kept == pc # "vars" => path = PathVar(env, old) /\ libs = LibsVar(env)
Programs == pc # "vars" => \A p \in {"x", "y", "z"} : Find(Split(path), p, Dirs) = Program(env, old, p, Dirs)
Imports == pc = "run" => \A m \in Mods \union {"u"} : Whose(m) = Owner(env, m)
===============================================================================
