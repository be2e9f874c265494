------------------------------ MODULE Reporter ------------------------------
(***************************************************************************)
(* Reports, the text they are rendered to, and what the shipped reporters  *)
(* do with them: the default reporter (with or without a stream) and the   *)
(* basic reporter, on which the adapters for the test frameworks are built.*)
(*                                                                         *)
(* A location is << set, file, line, column, function >>, an optional text *)
(* << set, text >>.                                                        *)
(* call   [ret, loc, cat, cst, args: seq of << type, text >>]              *)
(* match  [loc, fin, ctl: [k, mn, mx, n, rs, ts], reqs: seq << ok, text >>]*)
(*        ctl.k: 1 applicable, 2 inapplicable, 3 saturated                 *)
(* exp    [loc, fin, times, reqs: seq of texts]                            *)
(* An event: [k, call, ms, ex, exc, msg] with k one of the six below.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoMatch == 1
InappMatch == 2
FullMatch == 3
Unful == 4
Err == 5
Unhandled == 6
Kinds == 1 .. 6

RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN "" ELSE Head(ss) \o Cat(Tail(ss))

\* every line, with its end
RECURSIVE Text(_)
Text(ls) == IF ls = << >> THEN "" ELSE Head(ls) \o "\n" \o Text(Tail(ls))

Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
If(b, ls) == IF b THEN ls ELSE << >>
RECURSIVE Descs(_)      \* the texts of those that have one
Descs(s) == IF s = << >> THEN << >> ELSE (IF Head(s)[1] = 1 THEN << Head(s)[2] >> ELSE << >>) \o Descs(Tail(s))

----------------------------------------------------------------------------
(* Texts.                                                                  *)

LocText(l) == l[2] \o "[" \o l[3] \o ":" \o l[4] \o "], " \o l[5]
CatText(c) == CASE c = 1 -> "lvalue" [] c = 2 -> "rvalue" [] c = 3 -> "any"
CstText(c) == CASE c = 1 -> "mutable" [] c = 2 -> "const" [] c = 3 -> "any"

Often(n) == CASE n = 0 -> "never" [] n = 1 -> "once" [] n = 2 -> "twice" [] OTHER -> ToString(n) \o " times"

TimesText(mn, mx, n) ==
    CASE n = mx  -> "already saturated (matched " \o Often(n) \o ")"
      [] mn <= n /\ n # mx -> "accepts further matches (matched " \o ToString(n) \o " out of " \o ToString(mx) \o " times)"
      [] OTHER   -> "matched " \o Often(n) \o " - "
                    \o (IF mn < mx THEN "between " \o ToString(mn) \o " and " \o ToString(mx) \o " times" ELSE "exactly " \o Often(mx))
                    \o " is expected"

\* the lines that explain why an expectation is not applicable
ControlLines(c) ==
    LET t == TimesText(c.mn, c.mx, c.n)
        N(s) == ToString(Len(s))
    IN CASE c.k = 1 -> IF c.rs = << >> THEN << t >> ELSE << t \o ",", "\tand is the current element of " \o N(c.rs) \o " sequence(s)." >>
         [] c.k = 2 -> << t \o ",", "\tbut is not the current element of " \o N(c.ts) \o " sequence(s) ("
                                    \o N(c.rs \o c.ts) \o " total)." >>
         [] c.k = 3 -> IF c.ts = << >> THEN << t >> ELSE << t \o ",", "\tand is part of " \o N(c.ts) \o " sequence(s)." >>

CallLines(c) ==
    << "call from " \o LocText(c.loc),
       "constness: " \o CstText(c.cst),
       "value category: " \o CatText(c.cat),
       "return type: " \o c.ret >>
    \o If(c.args # << >>, << "args:" >>)
    \o Flat([i \in DOMAIN c.args |-> << "\targ[" \o ToString(i - 1) \o "]: {", "\t\ttype: " \o c.args[i][1] \o ",",
                                        "\t\tvalue: " \o c.args[i][2], "\t}," >>])

Listed(h, ds) == If(ds # << >>, << h >> \o [i \in DOMAIN ds |-> "\t" \o ds[i] \o ","])

ExpLines(e) ==
    << "Expectation report:" >>
    \o If(e.loc[1] = 1, << "from: " \o LocText(e.loc) >>)
    \o If(e.times[1] = 1, << "times: " \o e.times[2] >>)
    \o Listed("expects:", Descs(e.reqs))
    \o If(e.fin[1] = 1, << "finally: " \o e.fin[2] >>)

AllPass(m) == \A i \in DOMAIN m.reqs : m.reqs[i][1] = 1
MatchKind(m) == IF ~AllPass(m) THEN NoMatch ELSE IF m.ctl.k = 1 THEN FullMatch ELSE InappMatch

Side(m, ok) == LET P(r) == r[1] = ok IN Descs(Map(LAMBDA r : r[2], SelectSeq(m.reqs, P)))

MatchLines(m) ==
    (CASE MatchKind(m) = FullMatch  -> << "Matched expectation: {" >>
       [] MatchKind(m) = InappMatch -> << "Inapplicable, but otherwise matched expectation: {" >>
                                       \o LET c == ControlLines(m.ctl) IN << "reason: " \o c[1] >> \o Tail(c)
       [] OTHER                     -> << "Unmatched expectation: {" >>)
    \o If(m.loc[1] = 1, << "from: " \o LocText(m.loc) >>)
    \o Listed("failed:", Side(m, 0))
    \o Listed("passed:", Side(m, 1))
    \o << "}" >>

\* the first line is prefixed
Prefixed(p, ls) == << p \o Head(ls) >> \o Tail(ls)
AllMatches(ms) == Flat(Map(LAMBDA m : MatchLines(m) \o << "" >>, ms))

EventLines(e) ==
    CASE e.k = NoMatch    -> Prefixed("No match for ", CallLines(e.call)) \o << "" >>
                             \o (IF e.ms = << >> THEN << "No expectations available." >>
                                 ELSE << ToString(Len(e.ms)) \o " available expectation(s):" >> \o AllMatches(e.ms))
      [] e.k = InappMatch -> Prefixed("No applicable match for ", CallLines(e.call)) \o << "", "Tested expectations:" >> \o AllMatches(e.ms)
      [] e.k = FullMatch  -> Prefixed("Found match for ", CallLines(e.call)) \o << "" >> \o AllMatches(e.ms)
      [] e.k = Unful      -> << "Unfulfilled expectation:" >> \o ExpLines(e.ex) \o << "" >>
      [] e.k = Unhandled  -> << "Unhandled exception: " \o (IF e.exc \in {1, 2} THEN "what: " \o e.msg ELSE "Unknown exception type."),
                                "while checking expectation:" >> \o ExpLines(e.ex) \o << "" >>
                             \o Prefixed("For ", CallLines(e.call)) \o << "" >>

EventText(e) == IF e.k = Err THEN e.msg ELSE Text(EventLines(e))

----------------------------------------------------------------------------
(* Reporters: 1, 2 default with a stream, 3, 4 default without, 5 basic.   *)
(* unw: 0 plain, 1 unwinding, 2 unwinding twice, 3 handling an exception,  *)
(* 4 unwinding and handling another one, 5 after an exception.             *)

Reps == 1 .. 5
Contexts == 0 .. 5
Unwinding(unw) == unw \in {1, 2, 4}

Dropped(e, unw) == e.k \in {Unful, Err} /\ Unwinding(unw)

\* what the caller of the reporter sees
Outcome(rep, e, unw) ==
    IF e.k \in {FullMatch, Unhandled} \/ Dropped(e, unw) THEN "ret"
    ELSE IF rep = 5 THEN "cbfail"
    ELSE CASE e.k \in {NoMatch, InappMatch} -> "unmatched" [] e.k = Unful -> "unfulfilled" [] e.k = Err -> "error"

\* what is written to its stream
Written(rep, e, unw) ==
    IF rep = 5 \/ e.k = FullMatch \/ Dropped(e, unw) THEN "" ELSE EventText(e) \o "\n"

\* the stream a reporter writes to; 0 none
Stream(rep) == IF rep \in {1, 2} THEN rep ELSE 0

Callbacks(rep, e, unw) ==
    IF rep # 5 \/ Dropped(e, unw) THEN << >>
    ELSE << << CASE e.k = FullMatch -> "ok" [] e.k = Unhandled -> "warn" [] OTHER -> "fail", EventText(e) >> >>
=============================================================================
