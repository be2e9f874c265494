------------------------------- MODULE Printer -------------------------------
(***************************************************************************)
(* How values are printed.  A value is a tree:                             *)
(*  <<"n", text>>            numbers, bool, characters: as they are        *)
(*  <<"s", text>>            a char string                                 *)
(*  <<"w", prefix, codes>>   a string of other characters                  *)
(*  <<"c", codes>>           a string of characters with their own printer *)
(*  <<"p", words>>           a pointer: four groups of 16 bits             *)
(*  <<"o", s>>               an optional, s has no or one element          *)
(*  <<"t", s>>  <<"r", s>>   a tuple, a range, with its elements           *)
(*  <<"u", text>>            a type with a printer of the user's           *)
(*  <<"f", text>>            a formattable type                            *)
(*  <<"l", file, line, column, function>>   a source location              *)
(*  <<"cat", n>> <<"cst", n>>               categories                     *)
(*  <<"?", ...>>             unprintable types                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

QUOTE == "%22"   \* texts are encoded

Digit == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f" >>
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN Digit[n + 1] ELSE Hex(n \div 16) \o Digit[(n % 16) + 1]
Hex4(n) == Digit[(n \div 4096) + 1] \o Digit[((n \div 256) % 16) + 1] \o Digit[((n \div 16) % 16) + 1] \o Digit[(n % 16) + 1]

RECURSIVE JoinRange(_, _, _)      \* long lists are cut in halves
JoinRange(ts, i, j) == IF i = j THEN ts[i] ELSE LET m == (i + j) \div 2 IN JoinRange(ts, i, m) \o JoinRange(ts, m + 1, j)
\* elements, separated
Join(ts, sep) == IF ts = << >> THEN "" ELSE JoinRange([i \in DOMAIN ts |-> IF i = 1 THEN ts[i] ELSE sep \o ts[i]], 1, Len(ts))

RECURSIVE Printed(_)
Printed(v) ==
    LET all(s) == Join([i \in DOMAIN s |-> Printed(s[i])], ", ") IN
    CASE v[1] = "n"   -> v[2]
      [] v[1] = "s"   -> QUOTE \o v[2] \o QUOTE
      [] v[1] = "w"   -> v[2] \o QUOTE \o Join([i \in DOMAIN v[3] |-> "0x" \o Hex(v[3][i])], ", ") \o QUOTE
      [] v[1] = "c"   -> QUOTE \o Join([i \in DOMAIN v[2] |-> "(" \o ToString(v[2][i]) \o ")"], "") \o QUOTE
      [] v[1] = "p"   -> "0x" \o Hex4(v[2][1]) \o Hex4(v[2][2]) \o Hex4(v[2][3]) \o Hex4(v[2][4])
      [] v[1] = "o"   -> IF v[2] = << >> THEN "nullopt" ELSE "{ value: " \o Printed(v[2][1]) \o " }"
      [] v[1] \in {"t", "r"} -> "{ " \o all(v[2]) \o " }"
      [] v[1] = "u"   -> "U<" \o v[2] \o ">"
      [] v[1] = "f"   -> "F" \o v[2]
      [] v[1] = "l"   -> v[2] \o "[" \o v[3] \o ":" \o v[4] \o "], " \o v[5]
      [] v[1] = "cat" -> << "lvalue", "rvalue", "any" >>[v[2]]
      [] v[1] = "cst" -> << "mutable", "const", "any" >>[v[2]]
      [] v[1] = "?"   -> "{?}"

\* no part of the value is lost
RECURSIVE Complete(_)
Complete(v) ==
    CASE v[1] \in {"o", "t", "r"} -> \A i \in DOMAIN v[2] : Complete(v[2][i])
      [] OTHER -> v[1] # "?"
=============================================================================
