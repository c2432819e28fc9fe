--------------------------------- MODULE Env ---------------------------------
(* Environments in use: the variables that select one, which programs they make run, and what a Python started that
   way imports.

   env = [python, pybin, std, wheels]   the interpreter, the directory of the Python's scripts, the modules it
         has itself; wheels[k] = [bin, lib, mods]: where its scripts and its modules are, and which modules these are
   dirs  [dir, progs]   the programs in directories (directories that aren't listed have none)             *)
EXTENDS Naturals, Sequences
Colon == 58
Elements(q) == {q[k] : k \in 1..Len(q)}
RECURSIVE Join(_), SplitAt(_, _, _)
Join(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<Colon>> \o Join(Tail(q))
SplitAt(s, i, cur) == IF i > Len(s) THEN <<cur>> ELSE IF s[i] = Colon THEN <<cur>> \o SplitAt(s, i + 1, <<>>) ELSE SplitAt(s, i + 1, Append(cur, s[i]))
Split(s) == SplitAt(s, 1, <<>>)

\* ---------------------------------------------------------------- the variables
Bins(env) == <<env.pybin>> \o [k \in 1..Len(env.wheels) |-> env.wheels[k].bin]
Libs(env) == [k \in 1..Len(env.wheels) |-> env.wheels[k].lib]
\* in front of what was there, whatever that was
PathVar(env, old) == Join(Bins(env)) \o <<Colon>> \o old
LibsVar(env) == Join(Libs(env))
\* there's no way to write down a directory that has a colon in its name
Expressible(env) == \A q \in Elements(Bins(env) \o Libs(env)) : \A i \in 1..Len(q) : q[i] # Colon

\* ---------------------------------------------------------------- which program, which module
\* the directory a program is found in: <<dir>>, or <<>>.  An empty entry is the current directory.
RECURSIVE Find(_, _, _)
Find(path, prog, dirs) ==
    IF path = <<>> THEN <<>>
    ELSE IF \E d \in dirs : d.dir = path[1] /\ prog \in Elements(d.progs) THEN <<path[1]>>
    ELSE Find(Tail(path), prog, dirs)
\* what should be found: the Python's scripts, the packages' in order, and whatever was found before
Program(env, old, prog, dirs) ==
    LET mine == Find(Bins(env), prog, dirs) IN IF mine # <<>> THEN mine ELSE Find(Split(old), prog, dirs)
\* whose module: 0 the Python's, k the k-th package's, -1 nobody's
Nobody == 999
User == 1001
Here == 1002
Owner(env, m) ==
    IF m \in Elements(env.std) THEN 0
    ELSE LET ks == {k \in 1..Len(env.wheels) : m \in Elements(env.wheels[k].mods)} IN IF ks = {} THEN Nobody ELSE CHOOSE k \in ks : \A j \in ks : k <= j

\* ---------------------------------------------------------------- known findings
\* Pythons whose site module is frozen don't see that it was patched, and use the user's site directory (after the
\* standard library, before the rest of their own modules); and without packages, $POSY_PYTHON_PACKAGES is "", which
\* sitecustomize.py takes as the current directory.  x.early: the Python's modules in its standard library; x.user, x.cwd:
\* the modules in these directories.
KnownOwner(x, m) ==
    IF m \in Elements(x.early) THEN 0
    ELSE IF x.frozen /\ m \in Elements(x.user) THEN User
    ELSE IF Owner(x.env, m) # Nobody THEN Owner(x.env, m)
    ELSE IF x.env.wheels = <<>> /\ m \in Elements(x.cwd) THEN Here ELSE Nobody
\* ---------------------------------------------------------------- judging
\* x.old: <<>> if there's no search path at all, <<text>> otherwise; x.vars: what it answered, <<>>: it failed;
\* x.progs: [name, dir]: what ran; x.imports: [mod, owner]: whose module that was; x.ran: the interpreters that launchers ran;
\* x.stray: code from the user's site directory was run
VerdictEnv(x) ==
    LET env == x.env
        dirs == Elements(x.dirs)
        v == x.vars[1]
        badprogs == {p \in Elements(x.progs) : p.dir # Program(env, x.old[1], p.name, dirs)}
        badmods == {m \in Elements(x.imports) : m.owner # Owner(env, m.mod)}
        badruns == {r \in Elements(x.ran) : r # env.python}
        \* apart from whose modules these are
        most == /\ v.path = PathVar(env, x.old[1]) /\ v.libs = LibsVar(env) /\ v.python = env.python /\ v.pythonw = env.python /\ v.others = <<>>
                /\ badprogs = {} /\ badruns = {}
        fine == most /\ badmods = {}
        \* (a module that isn't where a known finding puts it has to be where it should be)
        known == most /\ \A m \in badmods : m.owner = KnownOwner(x, m.mod)
    IN IF x.vars = <<>> THEN [ok |-> x.old = <<>> \/ ~Expressible(env), want |-> "variables"]
       ELSE IF ~Expressible(env) THEN [ok |-> FALSE, want |-> "an error"]
       ELSE IF x.old = <<>> THEN [ok |-> v.path = Join(Bins(env)) /\ v.libs = LibsVar(env), want |-> "no search path"]
       ELSE IF fine /\ ~x.stray THEN [ok |-> TRUE, want |-> ""]
       ELSE IF known /\ x.frozen /\ (x.stray \/ \E m \in badmods : m.owner = User) THEN [ok |-> FALSE, want |-> "known: user site"]
       ELSE IF known /\ ~x.stray THEN [ok |-> FALSE, want |-> "known: current directory"]
       ELSE [ok |-> FALSE,
             want |-> [path |-> v.path = PathVar(env, x.old[1]), libs |-> v.libs = LibsVar(env), python |-> v.python = env.python /\ v.pythonw = env.python, others |-> v.others,
                       progs |-> badprogs, imports |-> {[mod |-> m.mod, owner |-> m.owner, want |-> Owner(env, m.mod)] : m \in badmods}, ran |-> badruns, stray |-> x.stray]]
==============================================================================
