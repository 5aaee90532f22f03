------------------------------ MODULE Reject ------------------------------
(* E16: which scripts are run at all.  A script is a sequence of tokens.  The
   generator derives scripts from a grammar of what is supported; they are
   accepted.  A fault makes another script of one: an unknown name, a construct
   that is not supported, an operand too few or too many, an unbalanced bracket,
   a word missing or doubled; that script is refused: nothing is printed, no file
   is touched, the status says so.  Laws (checked by TLC): a derived script is
   well formed, a script with a fault in its words is not.
   Words that start with ^ mark places of the grammar and are not part of the script. *)
EXTENDS Seeded
CONSTANTS Lo, Hi
VARIABLES sd, n, good, log
vars == <<sd, n, good, log>>
Marks == {"^i", "^w", "^t", "^f", "^s", "^d", "^g"}
Plain(q) == SelectSeq(q, LAMBDA w : w \notin Marks)
(* -------------------------------------------------------------- grammar *)
Item1(s) == At(s, <<<<"a">>, <<"b">>, <<"n">>, <<"x.a">>, <<"n", "+", "1", "as", "q">>, <<"'lit'">>, <<"@i">>, <<"@s", "as", "q">>, <<"len", "(", "a", ")">>, <<"left", "(", "a", ",", "1", ")", "as", "q">>,
   <<"case", "when", "n", ">", "1", "then", "a", "else", "b", "end">>, <<"case", "n", "when", "1", "then", "'one'", "end", "as", "q">>, <<"(", "select", "max", "(", "v", ")", "from", "u", ")">>, <<"isnull", "(", "a", ",", "'x'", ")">>, <<"cast", "(", "n", "as", "varchar", "(", "5", ")", ")">>, <<"(", "n", "+", "2", ")", "*", "3">>, <<"-", "@i">>, <<"a", "+", "b">>>>)
Items(s) == <<"^i">> \o Item1(K(s, 1)) \o (IF Ch(K(s, 2), 6) THEN <<",", "^i">> \o At(K(s, 3), <<<<"'second'">>, <<"n", "*", "2">>, <<"len", "(", "b", ")">>, <<"(", "select", "min", "(", "v", ")", "from", "u", ")">>, <<"b", "+", "'x'", "as", "r">>>>) ELSE <<>>)
Cond1(s) == At(s, <<<<"a", "=", "'x'">>, <<"n", ">", "1">>, <<"b", "<>", "'y'">>, <<"n", "in", "(", "1", ",", "2", ")">>, <<"a", "in", "(", "select", "k", "from", "u", "where", "^w", "v", ">", "0", ")">>, <<"a", "not", "in", "(", "select", "k", "from", "u", ")">>, <<"a", "like", "'x%'">>, <<"b", "is", "null">>, <<"a", "is", "not", "null">>,
   <<"n", "+", "0", ">", "@i">>, <<"n", "+", "1", "<", "@i", "+", "9">>, <<"(", "a", "=", "'x'", "or", "^w", "n", "=", "2", ")">>, <<"not", "a", "=", "b">>, <<"len", "(", "a", ")", "=", "1">>, <<"n", "=", "(", "select", "max", "(", "v", ")", "from", "u", ")">>, <<"@s", "=", "a">>>>)
Cond(s) == <<"^w">> \o Cond1(K(s, 1)) \o (IF Ch(K(s, 2), 4) THEN At(K(s, 3), <<<<"and", "^w">>, <<"or", "^w">>>>) \o Cond1(K(s, 4)) ELSE <<>>)
Where(s) == IF Ch(K(s, 1), 6) THEN <<"where">> \o Cond(K(s, 2)) ELSE <<>>
From(s) == At(K(s, 1), <<<<"from", "t", "x", "^f">>, <<"from", "t", "x", "^f">>, <<"from", "t", "x", "^f", "join", "u", "y", "^f", "on", "^w", "x.a", "=", "y.k">>, <<"from", "t", "x", "^f", "left", "join", "u", "y", "^f", "on", "^w", "x.n", "=", "y.v", "and", "y.k", "<>", "'q'">>, <<"from", "(", "select", "^i", "a", ",", "b", ",", "n", "from", "t", "^f", "where", "^w", "n", ">", "0", ")", "x">>, <<"from", "u", "y", "^f", "join", "t", "x", "^f", "on", "^w", "x.n", ">", "y.v">>>>)
Order(s) == IF Ch(K(s, 1), 5) THEN At(K(s, 2), <<<<"order", "by", "^g", "a">>, <<"order", "by", "^g", "n", "desc", ",", "^g", "b">>, <<"order", "by", "^g", "x.a">>, <<"order", "by", "^g", "1">>>>) ELSE <<>>
Group(s) == At(K(s, 1), <<<<"select", "^i", "a", ",", "count", "(", "*", ")", "from", "t", "^f">>, <<"select", "^i", "a", ",", "min", "(", "n", ")", "as", "q", ",", "max", "(", "b", ")", "from", "t", "^f">>>>) \o Where(K(s, 2)) \o <<"group", "by", "^g", "a">> \o At(K(s, 3), <<<<>>, <<"having", "count", "(", "*", ")", ">", "0">>, <<"having", "max", "(", "n", ")", "<", "9", "and", "^w", "a", "<>", "'q'">>>>) \o At(K(s, 4), <<<<>>, <<"order", "by", "^g", "a">>>>) \o <<"^t">>
Union(s) == <<"select", "^i", "a", "from", "t", "^f">> \o Where(K(s, 1)) \o <<"union", "all", "select", "^i", "k", "from", "u", "^f">> \o At(K(s, 2), <<<<>>, <<"order", "by", "^g", "1">>, <<"order", "by", "^g", "a">>>>) \o <<"^t">>
Select(s) == CASE R(K(s, 1), 6) = 0 -> Group(K(s, 2)) [] R(K(s, 1), 6) = 1 -> Union(K(s, 3))
   [] OTHER -> At(K(s, 4), <<<<"select">>, <<"select">>, <<"select", "top", "2">>, <<"select", "distinct">>, <<"select", "top", "(", "3", ")">>>>) \o Items(K(s, 5)) \o From(K(s, 6)) \o Where(K(s, 7)) \o (IF At(K(s, 4), <<0, 0, 0, 1, 0>>) = 1 THEN <<>> ELSE Order(K(s, 8))) \o <<"^t">>
Upd(s) == At(K(s, 1), <<<<"update", "t", "set", "a", "=", "'q'">>, <<"update", "t", "set", "a", "=", "'q'", ",", "n", "=", "n", "+", "1">>, <<"update", "t", "set", "b", "=", "@s">>, <<"update", "u", "set", "v", "=", "(", "select", "max", "(", "n", ")", "from", "t", ")">>>>)
   \o (IF Ch(K(s, 2), 7) /\ R(K(s, 1), 4) # 3 THEN <<"where">> \o Cond(K(s, 3)) ELSE <<>>)
Dele(s) == At(K(s, 1), <<<<"delete", "from", "t">>, <<"delete", "t">>>>) \o <<"where">> \o Cond(K(s, 3))
Into(s) == At(K(s, 1), <<<<"select", "a", ",", "n", "into", "[z.csv]", "from", "t">>, <<"select", "k", "into", "[y.csv]", "from", "u", "where", "v", ">", "1">>, <<"select", "a", "into", "[w]", "from", "t", "order", "by", "a">>>>)
Leaf(s) == CASE R(K(s, 1), 8) \in {0, 1, 2} -> Select(K(s, 2)) [] R(K(s, 1), 8) \in {3, 4} -> Upd(K(s, 3)) [] R(K(s, 1), 8) = 5 -> Dele(K(s, 4))
   [] R(K(s, 1), 8) = 6 -> At(K(s, 5), <<<<"set", "@i", "=", "@i", "+", "1">>, <<"set", "@i", "+=", "2">>, <<"set", "@s", "=", "'z'">>, <<"set", "@s", "=", "(", "select", "max", "(", "a", ")", "from", "t", ")">>>>) [] OTHER -> <<"select", "'seen'", ",", "@i">>
Cmp(s) == At(s, <<<<"1", "=", "2">>, <<"@i", ">", "100">>, <<"@i", "<", "100">>, <<"@s", "=", "'x'", "and", "not", "1", "=", "2">>, <<"(", "select", "max", "(", "v", ")", "from", "u", ")", ">", "1">>>>)
Block(s) == <<"begin", "^s">> \o Leaf(K(s, 1)) \o <<";", "^s">> \o Leaf(K(s, 2)) \o <<";", "end">>
Stmt(s) == CASE R(K(s, 1), 10) \in 0..4 -> Leaf(K(s, 2))
   [] R(K(s, 1), 10) = 5 -> <<"if">> \o Cmp(K(s, 3)) \o Block(K(s, 4))
   [] R(K(s, 1), 10) = 6 -> <<"if">> \o Cmp(K(s, 3)) \o Block(K(s, 4)) \o <<"else">> \o Block(K(s, 5))
   [] R(K(s, 1), 10) = 7 -> <<"while", "@i", "<", "2", "begin", "set", "@i", "=", "@i", "+", "1", ";", "^s">> \o Leaf(K(s, 6)) \o <<";", "end">>
   [] R(K(s, 1), 10) = 8 -> Block(K(s, 7))
   [] OTHER -> Leaf(K(s, 8))
Script(s) == <<"declare", "@i", "int", "=", "0", ";", "declare", "@s", "varchar", "(", "9", ")", "=", "'x'", ";", "^d", "^s", "select", "'first'", ";", "^s">> \o Stmt(K(s, 1)) \o <<";", "^s">> \o Stmt(K(s, 2)) \o (IF Ch(K(s, 4), 5) THEN <<";", "^s">> \o Into(K(s, 3)) ELSE <<>>) \o <<";", "^d", "^s", "update", "t", "set", "b", "=", "'last'">>
(* --------------------------------------------------------------- faults *)
BadItem == <<<<"zz">>, <<"w.a">>, <<"@zz">>, <<"w.*">>, <<"x.zz">>, <<"foo", "(", "a", ")">>, <<"foo", "(", ")">>, <<"len", "(", "a", ",", "b", ")">>, <<"left", "(", "a", ")">>, <<"substring", "(", "a", ",", "1", ")">>, <<"(", "select", "k", ",", "v", "from", "u", ")">>, <<"(", "select", "zz", "from", "u", ")">>, <<"(", "select", "k", "from", "nosuch", ")">>,
   <<"case", "when", "zz", "=", "1", "then", "2", "end">>, <<"row_number", "(", ")", "over", "(", "order", "by", "a", ")">>, <<"sum", "(", "n", ")", "over", "(", "partition", "by", "a", ")">>, <<"sum", "(", "sum", "(", "1", ")", ")">>, <<"a", "at", "time", "zone", "'x'">>, <<"default">>, <<"cast", "(", "'a'", "as", "datetime", ")">>, <<"+">>, <<"1", "+">>, <<"'a'", "'b'", "'c'">>, <<"(", "1">>, <<"1", ")">>, <<"isnull", "(", "'a'", ")">>,
   <<"replace", "(", "'a'", ",", "'b'", ")">>, <<"lower", "(", ")">>, <<"'a'", "collate", "latin1">>, <<"case", "when", "1", "=", "1", "then", "2">>, <<"case", "end">>, <<"from">>>>
BadCond == <<<<"sum", "(", "1", ")", ">", "1">>, <<"1", ">", "any", "(", "select", "v", "from", "u", ")">>, <<"1", ">", "all", "(", "select", "v", "from", "u", ")">>, <<"'a'", "in", "(", "select", "k", ",", "v", "from", "u", ")">>, <<"zz", "=", "1">>, <<"1", "=", "zz">>, <<"w.a", "=", "1">>, <<"@zz", "=", "1">>, <<"exists", "(", "select", "zz", "from", "u", ")">>, <<"exists", "(", "select", "k", "from", "u", ")">>, <<"1", "between", "0", "and", "2">>, <<"'a'", "in", "(", "select", "zz", "from", "u", ")">>, <<"'a'", "in", "(", "select", "k", "from", "nosuch", ")">>,
   <<"1", "=">>, <<"1">>, <<"'a'">>, <<"(", "1", "=", "1">>, <<"1", "=", "1", ")">>, <<"1", "=", "=", "1">>, <<"1", "not", "=", "1">>, <<"'a'", "in", "(", ")">>, <<"1", "between", "1">>, <<"not">>, <<"foo", "(", "1", ")", "=", "1">>, <<"exists", "(", "1", ")">>, <<"1", "is", "1">>, <<"1", "=", "1", "1", "=", "1">>, <<"and">>, <<"len", "(", "'a'", ",", "'b'", ")", "=", "1">>, <<"(", "1", "=", "1", ",", "2", "=", "2", ")">>, <<"contains", "(", "a", ",", "'x'", ")">>>>
BadTail == <<<<"offset", "1", "rows">>, <<"for", "xml", "auto">>, <<"option", "(", "fast", "1", ")">>, <<"except", "select", "k", "from", "u">>, <<"intersect", "select", "k", "from", "u">>, <<"union", "select", "k", "from", "u">>, <<"compute", "sum", "(", "n", ")">>, <<"limit", "1">>, <<"order">>, <<"where">>, <<")">>, <<"union", "all">>, <<"group", "by">>, <<"union", "all", "select", "k", ",", "v", ",", "k", ",", "v", ",", "k", "from", "u">>>>
BadFrom == <<<<"with", "(", "nolock", ")">>, <<"cross", "apply", "u">>, <<"outer", "apply", "u">>, <<"cross", "join", "u">>, <<"right", "join", "u", "z", "on", "1", "=", "1">>, <<"full", "join", "u", "z", "on", "1", "=", "1">>, <<"full", "outer", "join", "u", "z", "on", "1", "=", "1">>, <<",", "u">>, <<"tablesample", "(", "1", ")">>, <<"join">>, <<"join", "u", "z">>, <<"join", "u", "z", "on">>, <<"join", "nosuch", "z", "on", "1", "=", "1">>, <<"join", "u", "z", "on", "z.zz", "=", "1">>,
   <<"pivot", "(", "max", "(", "n", ")", "for", "b", "in", "(", "x", ")", ")", "p">>, <<"on", "1", "=", "1", "on", "1", "=", "1">>, <<"as">>, <<"left", "u", "z", "on", "1", "=", "1">>>>
BadGroup == <<<<"zz", ",">>, <<"w.a", ",">>, <<",">>, <<"all">>, <<"cube", "(", "a", ")", ",">>, <<"rollup", "(", "a", ")", ",">>, <<"@zz", ",">>, <<"by">>>>
BadStmt == <<<<"print", "'a'">>, <<"return">>, <<"break">>, <<"continue">>, <<"goto", "x">>, <<"drop", "table", "t">>, <<"insert", "into", "t", "values", "(", "'a'", ",", "'b'", ",", "1", ")">>, <<"insert", "into", "t", "select", "*", "from", "u">>, <<"truncate", "table", "t">>, <<"create", "table", "w", "(", "a", "int", ")">>, <<"exec", "foo">>, <<"use", "db">>,
   <<"with", "c", "as", "(", "select", "a", "from", "t", ")", "select", "*", "from", "c">>, <<"merge", "t", "using", "u", "on", "a", "=", "k", "when", "matched", "then", "delete">>, <<"begin", "tran">>, <<"commit">>, <<"raiserror", "(", "'x'", ",", "1", ",", "1", ")">>, <<"waitfor", "delay", "'1'">>, <<"begin", "try", "select", "1", "end", "try", "begin", "catch", "select", "2", "end", "catch">>,
   <<"select", "*", "from", "nosuch">>, <<"select", "zz", "from", "t">>, <<"select", "1", "from", "t", "where">>, <<"update", "nosuch", "set", "a", "=", "1">>, <<"update", "t", "set", "zz", "=", "1">>, <<"update", "t", "set", "a">>, <<"update", "t", "set", "a", "=", "1", ",", "a", "=", "2">>, <<"update", "t", "set", "n", "=", "sum", "(", "n", ")">>, <<"update", "t", "set", "a", "=", "(", "select", "k", ",", "v", "from", "u", ")">>, <<"update", "t", "set", "a", "=", "zz">>, <<"update", "t", "set", "a", "=", "1", "where", "zz", "=", "1">>,
   <<"update", "q", "set", "a", "=", "1", "from", "t">>, <<"update", "q", "set", "a", "=", "1", "from", "t", "x", "join", "u", "y", "on", "x.a", "=", "y.k">>, <<"update", "x", "set", "k", "=", "1", "from", "t", "x", "join", "u", "y", "on", "x.a", "=", "y.k">>, <<"update", "y", "set", "k", "=", "1", "from", "t", "x", "join", "u", "y", "on", "x.a", "=", "y.k">>, <<"update", "top", "(", "1", ")", "t", "set", "a", "=", "1">>, <<"update", "t", "set", "a", "=", "1", "output", "inserted.a">>, <<"update", "x", "set", "a", "=", "1", "from", "(", "select", "a", "from", "t", ")", "x">>,
   <<"delete", "from", "nosuch">>, <<"delete", "q", "from", "t">>, <<"delete", "y", "from", "t", "x", "join", "u", "y", "on", "x.a", "=", "y.k">>, <<"delete", "from", "t", "where", "zz", "=", "1">>, <<"delete", "top", "(", "1", ")", "from", "t">>, <<"delete", "from", "t", "output", "deleted.a">>, <<"delete", "x", "from", "(", "select", "a", "from", "t", ")", "x">>, <<"delete">>, <<"delete", "from", "t", "where">>,
   <<"set", "@zz", "=", "1">>, <<"set", "zz", "=", "1">>, <<"set", "@i">>, <<"set", "@i", "=">>, <<"set", "@i", "=", "zz">>, <<"set", "@i", "=", "(", "select", "k", ",", "v", "from", "u", ")">>, <<"if", "1", "select", "1">>, <<"if", "zz", "=", "1", "select", "1">>, <<"if", "@zz", "=", "1", "select", "1">>, <<"while", "zz", "=", "1", "select", "1">>, <<"while", "1", "select", "1">>, <<"end">>, <<"begin">>,
   <<"select", "a", "into", "[t.csv]", "from", "u">>, <<"select", "a", "into", "t", "from", "t">>, <<"select", "k", "into", "[u.csv]", "from", "u", "where", "1", "=", "2">>, <<"select", "a", ",", "b", "from", "t", "union", "all", "select", "k", "from", "u">>, <<"select", "a", "from", "t", "union", "all", "select", "k", ",", "v", "from", "u">>, <<"select", "a", "from", "t", "union", "select", "k", "from", "u">>, <<"select", "a", "from", "t", "group", "by", "b">>, <<"select", "a", ",", "b", "from", "t", "group", "by", "a">>, <<"select", "a", ",", "count", "(", "*", ")", "from", "t">>,
   <<"select", "a", "from", "t", "order", "by", "3">>, <<"select", "a", "from", "t", "order", "by", "0">>, <<"select", "a", "from", "t", "order", "by", "zz">>, <<"select", "top", "(", "-1", ")", "a", "from", "t">>, <<"select", "top", "'x'", "a", "from", "t">>, <<"select", "top", "(", "a", ")", "a", "from", "t">>, <<"select", "a", "from", "t", "having", "a", "=", "1">>, <<"select", "w.a", "from", "t", "x">>, <<"select", "t.a", "from", "t", "x", "where", "u.k", "=", "1">>, <<"select", "k", "from", "u", "join", "t", "on", "t.zz", "=", "u.k">>, <<"select", "z.a", "from", "t", "x", "join", "u", "y", "on", "x.a", "=", "z.k", "join", "t", "z", "on", "1", "=", "1">>,
   <<"select", "top", "1", "percent", "a", "from", "t">>, <<"select", "top", "1", "with", "ties", "a", "from", "t", "order", "by", "a">>, <<"select", "*", "from", "t", "where", "a", "=", "'x'", "b", "=", "'y'">>, <<"select", "a", "from">>, <<"select">>, <<"select", "a", "b", "c", "from", "t">>, <<"declare", "@q", "foo">>, <<"declare", "q", "int">>, <<"declare", "@q">>, <<"selec", "a", "from", "t">>, <<"select", "*", "from", "t", "order", "by", "sum", "(", "n", ")">>, <<"select", "x.v", "from", "(", "select", "k", "from", "u", ")", "x">>, <<"select", "x.k", "from", "(", "select", "zz", "from", "u", ")", "x">>, <<"select", "x.k", "from", "(", "select", "k", "from", "u", "where", ")", "x">>>>
BadDecl == <<<<"declare", "@i", "int", ";">>, <<"declare", "@I", "varchar", "(", "3", ")", ";">>, <<"declare", "@S", "int", "=", "1", ";">>>>
Dup == {"select", "from", "where", "on", "set", "update", "and", "or", "order", "group", "by", "having", "into", "union", "join", "in", "like", "between", "=", "<>", ">", "<", ",", "then", "when", "else", "is", "while", "if", "declare"}
Ident == {"a", "b", "n", "k", "v", "x.a", "y.k", "x.n", "y.v"}
Tabs == {"t", "u"}
NeedsMore == {"select", "from", "where", "on", "set", "update", "and", "or", "order", "group", "by", "having", "into", "union", "join", "in", "like", "between", "=", "<>", ">", "<", ",", "then", "when", "else", "case", "is", "not", "while", "if", "declare", "exists", "+", "*", "top", "cast", "as", "(", "begin"}
Idx(q, S) == {i \in 1..Len(q) : q[i] \in S}
Nth(S, k) == CHOOSE i \in S : Cardinality({j \in S : j < i}) = k
Sub(q, i, mid, skip) == SubSeq(q, 1, i - 1) \o mid \o SubSeq(q, i + skip, Len(q))
\* every fault: a kind, the words it can be put at, and what is put there
Kinds == <<"item", "cond", "tail", "from", "group", "stmt", "stmt", "stmt", "stmt", "decl", "col", "col", "table", "var", "paren", "paren2", "double", "cut", "begin", "end", "cutstmt">>
At2(k) == CASE k = "item" -> {"^i"} [] k = "cond" -> {"^w"} [] k = "tail" -> {"^t"} [] k = "from" -> {"^f"} [] k = "group" -> {"^g"} [] k = "stmt" -> {"^s"} [] k = "decl" -> {"^d"}
   [] k = "col" -> Ident [] k = "table" -> Tabs [] k = "var" -> {"@i", "@s"} [] k \in {"paren", "paren2"} -> {"(", ")"} [] k = "double" -> Dup [] k = "cut" -> NeedsMore [] k = "cutstmt" -> NeedsMore \ {"begin"} [] k = "begin" -> {"begin"} [] k = "end" -> {"end"}
\* (the two declarations at the start stay as they are, but for their words)
Places(q, k) == {i \in Idx(q, At2(k)) : (k \in {"col", "table", "var"} => i > 15 /\ q[i - 1] # "as") /\ (k = "cutstmt" => i > 15)}
\* the end of a statement: the next semicolon
NextSemi(q, i) == LET S == {j \in i..Len(q) : q[j] = ";"} IN IF S = {} THEN Len(q) + 1 ELSE Nth(S, 0)
Faulty(q, k, i, s) ==
  CASE k = "item" -> Sub(q, i, At(s, BadItem) \o <<",">>, 1)
    [] k = "cond" -> Sub(q, i, At(s, BadCond) \o At(K(s, 1), <<<<"and">>, <<"or">>>>), 1)
    [] k = "tail" -> Sub(q, i, At(s, BadTail), 1)
    [] k = "from" -> Sub(q, i, At(s, BadFrom), 1)
    [] k = "group" -> Sub(q, i, At(s, BadGroup), 1)
    [] k = "stmt" -> Sub(q, i, At(s, BadStmt) \o <<";">>, 1)
    [] k = "decl" -> Sub(q, i, At(s, BadDecl), 1)
    [] k = "col" -> Sub(q, i, At(s, <<<<"zz">>, <<"w.a">>, <<"x.zz">>, <<"t2.a">>>>), 1)
    [] k = "table" -> Sub(q, i, At(s, <<<<"nosuch">>, <<"[nosuch.csv]">>, <<"[nodir/t]">>>>), 1)
    [] k = "var" -> Sub(q, i, <<"@zz">>, 1)
    [] k \in {"paren", "begin", "end"} -> Sub(q, i, <<>>, 1)
    [] k = "paren2" -> Sub(q, i, <<q[i], q[i]>>, 1)
    [] k = "double" -> Sub(q, i, <<q[i], q[i]>>, 1)
    [] k = "cut" -> SubSeq(q, 1, i)
    [] k = "cutstmt" -> Sub(q, i + 1, <<>>, NextSemi(q, i) - i - 1)
(* ------------------------------------------------------- what is accepted *)
\* brackets match, and every block and every case has its end
RECURSIVE Bal(_, _, _)
Bal(q, i, st) == IF i > Len(q) THEN st = <<>>
  ELSE IF q[i] \in {"(", "begin", "case"} THEN Bal(q, i + 1, Append(st, q[i]))
  ELSE IF q[i] = ")" THEN st # <<>> /\ Last(st) = "(" /\ Bal(q, i + 1, Front(st))
  ELSE IF q[i] = "end" THEN st # <<>> /\ Last(st) \in {"begin", "case"} /\ Bal(q, i + 1, Front(st))
  ELSE Bal(q, i + 1, st)
Closers == {")", ";", "end", "from", "where", "order", "group", "having", "union", "then", "else", "when", ",", "and", "or", "on", "join", "into"} \ {}
Follows(x, y) ==
  /\ \lnot (x \in NeedsMore /\ y \in {")", ";", "end"} /\ \lnot (x = "*" /\ y = ")"))
  /\ \lnot (x = y /\ x \in Dup)
Known == Ident \cup Tabs \cup {"@i", "@s"}
Words(q) == {q[i] : i \in 1..Len(q)}
Unknown == {"zz", "w.a", "x.zz", "t2.a", "nosuch", "[nosuch.csv]", "[nodir/t]", "@zz"}
WellFormed(p) == /\ Bal(p, 1, <<>>) /\ \A i \in 1..(Len(p) - 1) : Follows(p[i], p[i + 1])
                 /\ Len(p) > 0 => p[Len(p)] \notin NeedsMore
                 /\ Words(p) \cap Unknown = {}
WordFault(k) == k \in {"col", "table", "var", "paren", "paren2", "double", "cut", "begin", "end", "cutstmt"}
(* ------------------------------------------------------------ behaviour *)
Init == sd \in Lo..Hi /\ n = 0 /\ good = <<>> /\ log = <<>>
Fault(s) == \E k \in {At(K(s, 1), Kinds)} : \E P \in {Places(good, k)} :
   IF P = {} THEN UNCHANGED log
   ELSE \E q \in {Plain(Faulty(good, k, Nth(P, R(K(s, 2), Cardinality(P))), K(s, 3)))} : log' = Append(log, <<"refused", k, q>>)
\* any words at all in place of some
Vocab == <<<<"select">>, <<"from">>, <<"where">>, <<"t">>, <<"u">>, <<"a">>, <<"n">>, <<"(">>, <<")">>, <<",">>, <<"and">>, <<"or">>, <<"not">>, <<"in">>, <<"exists">>, <<"group">>, <<"by">>, <<"order">>, <<"union">>, <<"all">>, <<"join">>, <<"left">>, <<"on">>, <<"=">>, <<"<">>, <<"+">>, <<"-">>, <<"*">>, <<"1">>, <<"'q'">>, <<"@i">>, <<"case">>, <<"when">>, <<"then">>, <<"else">>, <<"end">>, <<"begin">>, <<"if">>, <<"set">>, <<"update">>, <<"delete">>, <<"into">>,
   <<"top">>, <<"distinct">>, <<"having">>, <<"as">>, <<"x">>, <<"null">>, <<"is">>, <<"like">>, <<"between">>, <<"count", "(", "*", ")">>, <<"sum", "(", "n", ")">>, <<"len", "(">>, <<"cast", "(">>, <<"declare">>, <<"int">>, <<";">>, <<"x.*">>, <<"[t.csv]">>, <<"[">>, <<"'">>, <<"0">>, <<"/">>, <<"%">>, <<"desc">>, <<"values">>, <<"insert">>, <<"print">>, <<"return">>, <<"x.">>, <<".">>, <<"@">>, <<"--">>, <<"/*">>>>
RECURSIVE Edits(_, _, _)
Edits(q, s, k) == IF k = 0 \/ Len(q) < 3 THEN q
  ELSE Edits(LET i == 1 + R(K(s, 1), Len(q)) j == 1 + R(K(s, 4), Len(q)) IN
             CASE R(K(s, 2), 5) = 0 -> Sub(q, i, <<>>, 1)
               [] R(K(s, 2), 5) = 1 -> Sub(q, i, At(K(s, 3), Vocab), 1)
               [] R(K(s, 2), 5) = 2 -> Sub(q, i, At(K(s, 3), Vocab), 0)
               [] R(K(s, 2), 5) = 3 -> Sub(q, i, <<q[j]>>, 1)
               [] OTHER -> Sub(q, i, SubSeq(q, j, IF j + 5 > Len(q) THEN Len(q) ELSE j + 5), 0), K(s, 7), k - 1)
NoLoop(q) == [i \in 1..Len(q) |-> IF q[i] = "while" THEN "if" ELSE q[i]]
Stir(s) == \E q \in {Edits(NoLoop(Plain(good)), K(s, 2), 1 + R(K(s, 1), 3))} : log' = Append(log, <<"any", "stir", q>>)
Next == /\ n <= D + 1 /\ n' = n + 1 /\ UNCHANGED sd
        /\ IF n = 0 THEN \E q \in {Script(SeedOf(sd))} : good' = q /\ log' = <<<<"accepted", "valid", Plain(q)>>>>
           ELSE /\ UNCHANGED good
                /\ IF n <= D THEN (IF n % 4 = 0 THEN Stir(K(SeedOf(sd), 900 + n)) ELSE Fault(K(SeedOf(sd), 900 + n))) ELSE Emit(log) /\ UNCHANGED log
(* ---------------------------------------------------------------- laws *)
Laws == log # <<>> => LET x == Last(log) IN
          /\ x[1] = "accepted" => WellFormed(x[3])
          /\ x[1] = "refused" /\ WordFault(x[2]) => \lnot WellFormed(x[3])
=============================================================================
