------------------------------ MODULE MCSchema ------------------------------
(* Every schema made of up to N keywords of a menu, and what it accepts.     *)
EXTENDS Schema, Json
CONSTANT N
S(s) == [t |-> "str", s |-> s]
F(q) == [t |-> "num", g |-> "f64", q |-> q]
Bool(b) == [t |-> "bool", b |-> b]
Nil == [t |-> "nil"]
Arr(e) == [t |-> "arr", e |-> e]
Obj(p) == [t |-> "obj", g |-> "any", p |-> p]
P(n, v) == [n |-> n, v |-> v]
LOCAL a == <<97>>
LOCAL b == <<98>>
RxA == [al |-> TRUE, ar |-> FALSE, alts |-> <<<<[lo |-> 1, hi |-> 1, neg |-> FALSE, r |-> <<<<97, 97>>>>]>>>>]
T(t) == [type |-> <<t>>]
Menu ==
  <<T("string"), T("integer"), T("number"), T("boolean"), T("object"), T("array"), [type |-> <<"string", "null">>], [type |-> <<"array", "integer", "object">>],
    [enum |-> <<S(a), F(2)>>], [enum |-> <<Nil, Bool(TRUE), Arr(<<F(2)>>)>>], [enum |-> <<Obj(<<P(a, F(2))>>), F(3)>>],
    [minLength |-> 1], [maxLength |-> 1], [pattern |-> RxA, patternSrc |-> "^a"], [format |-> "hostname"],
    [minimum |-> 0], [minimum |-> 1], [maximum |-> 2], [exclusiveMinimum |-> TRUE], [exclusiveMaximum |-> TRUE], [multipleOf |-> 3],
    [items |-> [one |-> T("string")]], [items |-> [many |-> <<T("string"), T("integer")>>]], [additionalItems |-> [b |-> FALSE]], [additionalItems |-> [s |-> T("integer")]],
    [uniqueItems |-> TRUE], [minItems |-> 1], [maxItems |-> 1],
    [properties |-> <<[n |-> a, s |-> T("string")]>>], [properties |-> <<[n |-> a, s |-> T("integer")], [n |-> b, s |-> [minLength |-> 1]]>>],
    [required |-> <<a>>], [patternProperties |-> <<[n |-> <<94, 97>>, rx |-> RxA, s |-> T("integer")]>>],
    [additionalProperties |-> [b |-> FALSE]], [additionalProperties |-> [s |-> T("string")]], [minProperties |-> 1], [maxProperties |-> 1],
    [dependencies |-> <<[n |-> a, ns |-> <<b>>]>>], [dependencies |-> <<[n |-> b, s |-> [required |-> <<a>>]]>>],
    [not |-> T("string")], [allOf |-> <<[minLength |-> 1], [maxLength |-> 1]>>], [anyOf |-> <<T("string"), T("integer")>>], [oneOf |-> <<T("number"), T("integer")>>],
    [not |-> [required |-> <<b>>]], [anyOf |-> <<>>], [definitions |-> <<[n |-> a, s |-> T("string")]>>]>>
Vals ==
  <<S(<<>>), S(a), S(<<97, 98>>), S(b), F(0), F(1), F(2), F(3), F(-2), Bool(TRUE), Nil, Arr(<<>>), Arr(<<S(a)>>), Arr(<<F(2)>>), Arr(<<S(a), F(2)>>), Arr(<<S(a), S(a)>>), Arr(<<S(a), F(2), F(2)>>), Arr(<<S(a), F(2), S(b)>>),
    Obj(<<>>), Obj(<<P(a, S(a))>>), Obj(<<P(a, F(2))>>), Obj(<<P(b, S(b))>>), Obj(<<P(b, F(2))>>), Obj(<<P(a, F(4)), P(b, S(b))>>), Obj(<<P(a, S(a)), P(b, S(<<>>))>>)>>
VARIABLE h
Init == h = <<>>
Next == /\ Len(h) < N
        /\ \E i \in 1..Len(Menu) : /\ \A k \in 1..Len(h) : h[k] < i /\ DOMAIN Menu[h[k]] \cap DOMAIN Menu[i] = {}
                                   /\ h' = Append(h, i)
Spec == Init /\ [][Next]_h
RECURSIVE Join(_)
Join(x) == IF x = <<>> THEN [title |-> 0] ELSE Menu[Head(x)] @@ Join(Tail(x))
Doc(x) == LET d == Join(x) IN [k \in DOMAIN d \ {"title"} |-> d[k]]
Ok(x, v) == Sat(Doc(x), v, Doc(x), 2)
\* ----------------------------------------------------------------- laws ---
\* the compiled validator decides the same
Compiles == LET d == Doc(h)
                env == EnvOf(d, d, 2)
            IN \A i \in 1..Len(Vals) : Eval(Compile(d, 2), Vals[i], env).ok = Ok(h, Vals[i])
\* combining keywords and enum are a conjunction with the rest
Combining == {"not", "allOf", "anyOf", "oneOf", "definitions"}
IsComb(i) == DOMAIN Menu[i] \subseteq Combining
Conjunction == \A i \in 1..Len(Vals) :
                 Ok(h, Vals[i]) <=> /\ Ok(SelectSeq(h, LAMBDA k : ~IsComb(k)), Vals[i])
                                    /\ \A k \in 1..Len(h) : IsComb(h[k]) => Ok(<<h[k]>>, Vals[i])
\* with a type given, further keywords only restrict, except that items and
\* properties change which elements additional... applies to
Monotone == \A k \in 1..Len(h) :
              (/\ \E j \in 1..Len(h) : j # k /\ Has(Menu[h[j]], "type")
               /\ DOMAIN Menu[h[k]] \cap {"type", "properties", "patternProperties", "items"} = {})
                => \A i \in 1..Len(Vals) : Ok(h, Vals[i]) => Ok(RemoveAt(h, k), Vals[i]) \/ Has(Menu[h[k]], "exclusiveMinimum")
\* ---------------------------------------------------------------- cases ---
Emit == Len(h) = N => PrintT(<<"CASE", ToJson([doc |-> Doc(h), ev |-> <<[e |-> "build"]>> \o [i \in 1..Len(Vals) |-> [e |-> "val", v |-> Vals[i]]]])>>)
=============================================================================
