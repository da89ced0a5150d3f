------------------------------ MODULE Describe ------------------------------
(***************************************************************************)
(* What the library says about its functions in text, and what it may say. *)
(*                                                                         *)
(* There are five texts: the shipped description (ta_func_api.xml), the    *)
(* copy of it that TA_FunctionDescriptionXML() returns, the description    *)
(* the library's generator prints from the tables of the abstract          *)
(* interface, the list of functions (ta_func_list.txt) and the             *)
(* documentation in the public header.  A reader goes through a text entry *)
(* by entry: every entry has to be the entry of a function (of Catalog)    *)
(* that was not described before, and at the end all functions have been   *)
(* described.  A description is a tree of nodes <<tag, text, children>>;   *)
(* it gives names, hints, group, flags and, for each of the eight calls of *)
(* a function, its arguments: no more and no less than the call has.       *)
(* Real numbers stand in the tree as "#" and are listed beside it.         *)
(***************************************************************************)
EXTENDS Catalog, Flt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Trees == {"shipped", "array", "printed"}          \* texts that are descriptions
Sources == Trees \cup {"list", "header"}

VARIABLES l,          \* next entry read
          described,  \* text -> functions it has described
          closed      \* texts read to the end
vars == <<l, described, closed>>
E == Trace[l]

Leaf(tag, text) == <<tag, text, <<>>>>
Node(tag, kids) == <<tag, "", kids>>
Num(tag, n) == Leaf(tag, ToString(n))
Real(tag) == Leaf(tag, "#")

(* Names given to the bits of a flag word, in order. *)
FuncFlags == <<<<16777216, "Overlap">>, <<67108864, "Volume">>, <<268435456, "Candlestick">>, <<134217728, "Unstable Period">>>>
OptFlags == <<<<1048576, "Percent">>, <<2097152, "Degree">>, <<4194304, "Currency">>, <<16777216, "Advanced">>>>
OutFlags == <<<<1, "Line">>, <<2, "Dotted Line">>, <<4, "Dashed Line">>, <<8, "Dots">>, <<16, "Histogram">>, <<32, "Pattern Bool">>,
              <<64, "Pattern Bull Bear">>, <<128, "Pattern Strength">>, <<256, "Positive">>, <<512, "Negative">>, <<1024, "Zero">>,
              <<2048, "Upper Limit">>, <<4096, "Lower Limit">>>>
Flags(word, names) == LET s == SelectSeq(names, LAMBDA x : Bit(word, x[1]) = 1)
                      IN IF s = <<>> THEN <<>> ELSE <<Node("Flags", [i \in DOMAIN s |-> Leaf("Flag", s[i][2])])>>

(* The series of a function under the names of a description. *)
Prices == <<<<1, "Open">>, <<2, "High">>, <<4, "Low">>, <<8, "Close">>, <<16, "Volume">>>>
Series(in) == IF in.t = 0
              THEN LET s == SelectSeq(Prices, LAMBDA x : Bit(in.f, x[1]) = 1) IN [i \in DOMAIN s |-> <<s[i][2], "Double">>]
              ELSE <<<<in.n, "series">>>>
AllSeries(f) == FlattenSeq([i \in DOMAIN Cat[f].ins |-> Series(Cat[f].ins[i])])
(* Prices are announced as Double also where an array of them is passed. *)
In(tag, s, array) == Node(tag, <<Leaf("Type", IF s[2] = "series" THEN (IF array THEN "Double Array" ELSE "Double") ELSE s[2]), Leaf("Name", s[1])>>)
Arg(tag, type, name) == Node(tag, <<Leaf("Type", type), Leaf("Name", name)>>)

Required(f, array) ==
  LET s == AllSeries(f)
  IN Node("RequiredInputArguments",
          (IF array THEN <<Arg("RequiredInputArgument", "Integer", "startIdx"), Arg("RequiredInputArgument", "Integer", "endIdx")>> ELSE <<>>)
          \o [i \in DOMAIN s |-> In("RequiredInputArgument", s[i], array)])
Kind(o) == IF o.t \in {0, 1}
           THEN <<Leaf("Type", "Double"),
                  Node("Range", <<Real("Minimum"), Real("Maximum"), Num("Precision", o.prec), Real("SuggestedStart"), Real("SuggestedEnd"), Real("SuggestedIncrement")>>),
                  Real("DefaultValue")>>
           ELSE IF o.t = 2
           THEN <<Leaf("Type", "Integer"),
                  Node("Range", <<Num("Minimum", o.min), Num("Maximum", o.max), Num("SuggestedStart", o.sug[1]), Num("SuggestedEnd", o.sug[2]), Num("SuggestedIncrement", o.sug[3])>>),
                  Num("DefaultValue", o.def)>>
           ELSE <<Leaf("Type", "MA Type"), Num("DefaultValue", o.def)>>
Optional(f) ==
  IF NOpt(f) = 0 THEN <<>>
  ELSE <<Node("OptionalInputArguments",
              [i \in 1..NOpt(f) |-> LET o == Cat[f].opts[i]
                                    IN Node("OptionalInputArgument", <<Leaf("Name", o.disp), Leaf("ShortDescription", o.hint)>> \o Flags(o.f, OptFlags) \o Kind(o))])>>
Output(f, array) ==
  Node("OutputArguments",
       (IF array THEN <<Arg("OutputArgument", "Pointer to Integer", "outBegIdx"), Arg("OutputArgument", "Pointer to Integer", "outNBElement")>> ELSE <<>>)
       \o [i \in 1..NOut(f) |-> LET o == Cat[f].outs[i]
                                IN Node("OutputArgument", <<Leaf("Type", (IF o.t = 1 THEN "Integer" ELSE "Double") \o (IF array THEN " Array" ELSE "")), Leaf("Name", o.n)>>
                                                          \o Flags(o.f, OutFlags))])
Special(args) == Node("SpecialInputArguments", [i \in DOMAIN args |-> Arg("SpecialInputArgument", args[i][1], args[i][2])])
Handle == <<"Pointer", "state">>
HandlePtr == <<"Pointer to Pointer", "state">>
File == <<"Pointer to File", "file">>

Call(f, suffix, type, result, args) == Node("Function", <<Leaf("Name", "TA_" \o f \o suffix), Leaf("Type", type), Leaf("ReturnValue", result)>> \o args)
(* The eight calls of a function and what each is given. *)
Calls(f) == Node("Functions", <<
  Call(f, "_Lookback", "Lookback", "Integer", Optional(f)),
  Call(f, "", "Regular", "TA_Result", <<Required(f, TRUE)>> \o Optional(f) \o <<Output(f, TRUE)>>),
  Call(f, "_StateInit", "StateInit", "TA_Result", <<Special(<<HandlePtr>>)>> \o Optional(f)),
  Call(f, "_State", "State", "TA_Result", <<Special(<<Handle>>), Required(f, FALSE), Output(f, FALSE)>>),
  Call(f, "_BatchState", "BatchState", "TA_Result", <<Special(<<Handle>>), Required(f, TRUE), Output(f, TRUE)>>),
  Call(f, "_StateFree", "StateFree", "TA_Result", <<Special(<<HandlePtr>>)>>),
  Call(f, "_StateLoad", "StateLoad", "TA_Result", <<Special(<<HandlePtr, File>>)>>),
  Call(f, "_StateSave", "StateSave", "TA_Result", <<Special(<<Handle, File>>)>>)>>)
(* One bar of the memory of a stream, and the fields of a stream: the three
   every stream has and the ones the abstract interface announces. *)
Memory(f) == LET s == AllSeries(f) IN Node("StateMemory", [i \in DOMAIN s |-> In("StateMemoryField", s[i], FALSE)])
State(fields) == Node("State", <<Arg("StateField", "Integer", "mem_size"), Arg("StateField", "Integer", "mem_index"), Arg("StateField", "Pointer", "memory")>>
                               \o [i \in DOMAIN fields |-> Arg("StateField", fields[i][1], fields[i][2])])
Tree(f, fields) ==
  Node("FinancialFunctionGroup",
       <<Leaf("Abbreviation", f), Leaf("CamelCaseName", Cat[f].camel), Leaf("ShortDescription", Cat[f].hint), Leaf("GroupId", Cat[f].group)>>
       \o Flags(Cat[f].flags, FuncFlags) \o <<Memory(f), State(fields), Calls(f)>>)
(* The real numbers of a description in their order, once for each of the
   three calls that take the optional parameters; printed to seven digits. *)
RealsOf(f) == FlattenSeq([i \in 1..NOpt(f) |-> LET o == Cat[f].opts[i]
                                              IN IF o.t \in {0, 1} THEN <<o.min, o.max, o.sug[1], o.sug[2], o.sug[3], o.def>> ELSE <<>>])
Same(text, num) == NearS(Lit(text), Lit(num), 6, Zero)
Numbers(f, reals) == LET r == RealsOf(f) \o RealsOf(f) \o RealsOf(f)
                     IN Len(reals) = Len(r) /\ \A i \in DOMAIN r : Same(reals[i], r[i])

(* The documentation in the header: hint, inputs, outputs, parameters. *)
DocIn(f) == LET s == AllSeries(f) IN [i \in DOMAIN s |-> IF s[i][2] = "series" THEN "double" ELSE s[i][1]]
DocOut(f) == [i \in 1..NOut(f) |-> IF Cat[f].outs[i].t = 1 THEN "int" ELSE "double"]
DocOpt(f, opts) == /\ Len(opts) = NOpt(f)
                   /\ \A i \in 1..NOpt(f) : LET o == Cat[f].opts[i]  p == opts[i]
                                            IN /\ p.n = o.n /\ p.hint = o.hint
                                               /\ IF o.t = 3 THEN p.range = <<>>
                                                  ELSE Len(p.range) = 2 /\ IF o.t = 2 THEN p.range = <<ToString(o.min), ToString(o.max)>>
                                                                           ELSE Same(p.range[1], o.min) /\ Same(p.range[2], o.max)

(*------------------------------- reading --------------------------------*)
Init == l = 1 /\ described = [s \in Sources |-> {}] /\ closed = {}
Entry == /\ l <= Len(Trace) /\ l' = l + 1
Fresh(s, f) == s \in Sources \ closed /\ f \in Funcs \ described[s]

Describe == /\ Entry /\ E.e = "tree" /\ E.src \in Trees /\ Fresh(E.src, E.name)
            /\ E.tree = Tree(E.name, E.fields)
            /\ Numbers(E.name, E.reals)
            /\ described' = [described EXCEPT ![E.src] = @ \cup {E.name}] /\ UNCHANGED closed
List == /\ Entry /\ E.e = "list" /\ Fresh("list", E.name)
        /\ E.hint = Cat[E.name].hint
        /\ described' = [described EXCEPT !["list"] = @ \cup {E.name}] /\ UNCHANGED closed
Doc == /\ Entry /\ E.e = "doc" /\ Fresh("header", E.name)
       /\ E.hint = Cat[E.name].hint /\ E.ins = DocIn(E.name) /\ E.outs = DocOut(E.name) /\ DocOpt(E.name, E.opts)
       /\ described' = [described EXCEPT !["header"] = @ \cup {E.name}] /\ UNCHANGED closed
(* The end of a text: everything has been described. *)
Close == /\ Entry /\ E.e = "end" /\ E.src \in Sources \ closed
         /\ described[E.src] = Funcs
         /\ closed' = closed \cup {E.src} /\ UNCHANGED described
(* The returned array is the file: the same length and the same bytes. *)
Copy == /\ Entry /\ E.e = "copy" /\ E.file = E.array
        /\ UNCHANGED <<described, closed>>
Next == Describe \/ List \/ Doc \/ Close \/ Copy
Spec == Init /\ [][Next]_vars
DescribedAreFunctions == \A s \in Sources : described[s] \subseteq Funcs /\ (s \in closed => described[s] = Funcs)
(* The trace ends with all texts read. *)
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Len(Trace)>>) /\ FALSE
=============================================================================
