------------------------------- MODULE PromJson -------------------------------
(* Query results and their JSON documents.                                      *)
(*                                                                              *)
(* A result is [kind, rows]; a row has labels (metric) and points (values);     *)
(* a scalar is one row without labels and with one point, a vector's rows have  *)
(* one point each.  A document is [status, type, rows, bad]: bad says in which  *)
(* way it is malformed, "" if it is not.  Times stand for a whole number of     *)
(* milliseconds, values for a floating-point number; both are opaque.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kinds == {"scalar", "vector", "matrix"}

WellFormed(r) == /\ r.kind \in Kinds
                 /\ r.kind = "scalar" => Len(r.rows) = 1 /\ r.rows[1].metric = <<>>
                 /\ r.kind \in {"scalar", "vector"} => \A i \in DOMAIN r.rows : Len(r.rows[i].values) = 1

Doc(r) == [status |-> "success", type |-> r.kind, rows |-> r.rows]

(* Which documents can be decoded, as the answer of an instant or a range query. *)
Acceptable(d, range) == d.bad = "" /\ d.type \in (IF range THEN {"matrix"} ELSE Kinds)
Undoc(d) == [kind |-> d.type, rows |-> d.rows]

(* A stream of documents: what is written by one encoder is read back in order. *)
VARIABLES stream
jvars == <<stream>>
JInit == stream = <<>>

(* Encode a result; times says whether every time in it is a number. *)
Encode(r, times, ok, d) == /\ ok = times
                           /\ ok => d = Doc(r)
                           /\ UNCHANGED stream
Write(r, times, ok)  == ok = times /\ stream' = (IF ok THEN Append(stream, r) ELSE stream)
ReadBack(r) == stream # <<>> /\ r = Head(stream) /\ stream' = Tail(stream)
ReadEnd == stream = <<>> /\ UNCHANGED stream
Decode(d, range, ok, r) == /\ ok = Acceptable(d, range)
                           /\ ok => r = Undoc(d)
                           /\ UNCHANGED stream
===============================================================================
