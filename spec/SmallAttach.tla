----------------------------- MODULE SmallAttach ----------------------------
(* A few elements of every kind, two declarations and two files, and what   *)
(* can be done with them.                                                   *)
EXTENDS GoTypes

T1 == Named("b/foo", "foo", "U")
NewType(name, form, ts, elem, ms) == [op |-> "type", name |-> name, form |-> form, t |-> ts, elem |-> elem, ms |-> ms]
Recv(via, n, name, ts, elem) == [via |-> via, n |-> n, name |-> name, t |-> ts, elem |-> elem]

Setup == << [op |-> "file", p |-> "a/x", n |-> "x"], [op |-> "file", p |-> "b/y-z", n |-> "yz"],
            [op |-> "const", names |-> <<"c1">>],                                         \* 1
            [op |-> "var", names |-> <<"v1", "v2">>],                                     \* 2
            NewType("T", "struct", <<T1>>, <<>>, <<>>),                                   \* 3
            [op |-> "imethod", name |-> "Im"],                                            \* 4
            [op |-> "arg", s |-> 4, n |-> "p", t |-> [k |-> "slice", e |-> T1]],
            [op |-> "variadic", s |-> 4, v |-> TRUE],
            NewType("I", "iface", <<T1>>, <<>>, <<4>>),                                   \* 5
            [op |-> "func", name |-> "F"],                                                \* 6
            [op |-> "method", name |-> "M", recv |-> Recv("ptrfor", "r", "", <<>>, <<3>>)], \* 7
            [op |-> "result", s |-> 7, n |-> "", t |-> T1],
            [op |-> "decl", k |-> "type", specs |-> <<3, 5>>],
            [op |-> "decl", k |-> "const", specs |-> <<>>] >>

Moves == { [op |-> "add", f |-> f, d |-> d] : f, d \in {1, 2} }
    \cup { [op |-> "additem", f |-> f, s |-> s] : f \in {1, 2}, s \in {1, 2, 3, 5, 6, 7} }
    \cup { [op |-> "append", d |-> 2, s |-> 1] }
    \cup { [op |-> "rename", f |-> 1, n |-> "renamed"] }
MoreMoves == Moves
    \cup { NewType("D", "from", <<>>, <<3>>, <<>>), NewType("A", "aliasfrom", <<>>, <<5>>, <<>>),
           NewType("J", "iface", <<>>, <<>>, <<4>>), NewType("", "iface", <<>>, <<>>, <<4>>),
           NewType("E", "ifaces", <<>>, <<>>, <<>>) @@ [els |-> <<[m |-> <<4>>, sym |-> <<>>], [m |-> <<>>, sym |-> <<Sym("b/foo", "foo", "E")>>]>>],
           NewType("", "structs", <<>>, <<>>, <<>>) @@
             [fields |-> << [n |-> "A", t |-> <<T1>>, elem |-> <<>>, tag |-> "a"], [n |-> "", t |-> <<T1>>, elem |-> <<>>, tag |-> ""] >>],
           NewType("S", "structs", <<>>, <<>>, <<>>) @@ [fields |-> << [n |-> "", t |-> <<>>, elem |-> <<3>>, tag |-> "`"] >>],
           [op |-> "method", name |-> "N", recv |-> Recv("for", "", "", <<T1>>, <<>>)],
           [op |-> "method", name |-> "N", recv |-> Recv("ptrfor", "", "", <<[k |-> "ptr", e |-> T1]>>, <<>>)] }
=============================================================================
