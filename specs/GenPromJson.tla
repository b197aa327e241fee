------------------------------ MODULE GenPromJson -----------------------------
EXTENDS PromJson, Json
CONSTANTS Emitting, MaxRows, MaxPoints, MaxLabels
VARIABLES hist
gvars == <<stream, hist>>

(* Shapes: per row the number of labels and of points. *)
RowShapes(k) == [labels : 0..(IF k = "scalar" THEN 0 ELSE MaxLabels), points : IF k = "matrix" THEN 0..MaxPoints ELSE {1}]
Shapes(k) == UNION {[1..n -> RowShapes(k)] : n \in (IF k = "scalar" THEN {1} ELSE 0..MaxRows)}
Pts(n, i) == [j \in 1..n |-> [t |-> <<i, j>>, v |-> <<i, j>>]]
Result(k, s) == [kind |-> k, rows |-> [i \in DOMAIN s |-> [metric |-> [j \in 1..s[i].labels |-> j], values |-> Pts(s[i].points, i)]]]

Bads == {"len0", "len1", "len3", "timestr", "timebool", "timehuge", "valnum", "valjunk", "valempty", "valhuge", "valnull", "notpoint",
         "type", "notype", "noresult", "resultobj", "nojson", "cut", "errordoc"}
PointBads == {"len0", "len1", "len3", "timestr", "timebool", "timehuge", "valnum", "valjunk", "valempty", "valhuge", "valnull", "notpoint"}
HasPoint(s) == \E i \in DOMAIN s : s[i].points > 0

GInit == JInit /\ hist = <<>>
H(r) == hist' = IF Emitting THEN Append(hist, r) ELSE hist
Once == hist = <<>>

GEncode == \E k \in Kinds, range \in BOOLEAN, api \in {"marshal", "encoder"}, badtime \in BOOLEAN : \E s \in Shapes(k) :
    /\ Once /\ (range => k = "matrix") /\ (badtime => HasPoint(s))
    /\ \E ok \in BOOLEAN : Encode(Result(k, s), ~badtime, ok, Doc(Result(k, s)))
    /\ H([op |-> "enc", api |-> api, kind |-> k, range |-> range, rows |-> s, badtime |-> badtime])
GDecode == \E k \in Kinds, range \in BOOLEAN, api \in {"unmarshal", "decoder"}, bad \in Bads \cup {""} : \E s \in Shapes(k) :
    /\ Once /\ (bad \in PointBads => HasPoint(s))
    /\ LET d == [bad |-> bad] @@ Doc(Result(k, s)) IN \E ok \in BOOLEAN : Decode(d, range, ok, Undoc(d))
    /\ H([op |-> "dec", api |-> api, kind |-> k, range |-> range, rows |-> s, bad |-> bad])
GNext == GEncode \/ GDecode
GSpec == GInit /\ [][GNext]_gvars
Emit == Emitting => PrintT("SCN " \o ToJson(hist'))

(* Decoding inverts encoding, and distinct results have distinct documents. *)
Inverse == \A k \in Kinds : \A s \in Shapes(k) :
    LET r == Result(k, s) IN WellFormed(r) /\ Undoc(Doc(r)) = r /\ Acceptable([bad |-> ""] @@ Doc(r), FALSE)
===============================================================================
