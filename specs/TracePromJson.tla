----------------------------- MODULE TracePromJson ----------------------------
EXTENDS PromJson, TraceKit
tvars == <<stream, ep, l>>
TInit == KInit /\ JInit
TEnc   == Step("enc") /\ Encode(Ev.in, Ev.times, Ev.ok, Ev.doc)
          (* one document, one line *)
          /\ (Ev.ok => Ev.lines = 1)
TDec   == Step("dec") /\ Decode(Ev.doc, Ev.range, Ev.ok, Ev.out)
TWrite == Step("write") /\ Write(Ev.in, Ev.times, Ev.ok)
TRead  == Step("read") /\ ReadBack(Ev.out)
TEnd   == Step("eof") /\ ReadEnd
(* Other messages come out as the given encoder or decoder would have it. *)
TPass  == Step("pass") /\ Ev.same /\ UNCHANGED stream
TNext == TEnc \/ TDec \/ TWrite \/ TRead \/ TEnd \/ TPass
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
