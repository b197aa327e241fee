--------------------------------- MODULE Tls ---------------------------------
(* Which connections a certificate configuration makes and accepts.            *)
(* A configuration: ca    - the authority file: "A", "B", "AB" (both), or an    *)
(*                          unusable one: "missing", "garbage", "empty";        *)
(*                  pair  - the certificate and key: "A", "B" (by whom it is    *)
(*                          issued), or unusable: "mismatch", "nokey",          *)
(*                          "nocert", "badkey", "badcert";                      *)
(*                  name  - the name expected of servers.                       *)
(* The peer speaks plain TLS: chain - who vouches for it: "A", "B", "self",     *)
(*   "other" (an unknown authority that calls itself A), "interA" (through an   *)
(*   intermediate it presents), "lonely" (through one it does not present),     *)
(*   "none"; names; valid - "now", "past", "future"; usage - what the           *)
(*   certificate is for; min, max - versions (10 = TLS 1.0 .. 13 = TLS 1.3);    *)
(*   ciphers - for versions below 1.3; trusts - its own demands: "any", "A".    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range2(s) == {s[i] : i \in DOMAIN s}
Listed == {"ECDHE-RSA-AES128-GCM", "ECDHE-RSA-AES256-GCM"}
Lowest == 12

VARIABLES cfg, stage, conn
tlsvars == <<cfg, stage, conn>>
TlsInit == cfg = <<>> /\ stage = "none" /\ conn = <<>>

Authorities(c) == IF c.ca = "AB" THEN {"A", "B"} ELSE {c.ca}
UsableCA(c) == c.ca \in {"A", "B", "AB"}
UsablePair(c) == c.pair \in {"A", "B"}
Usable(c) == UsableCA(c) /\ UsablePair(c)

(* Building: an error, or a configuration for both roles. *)
Build(c, ok) == /\ stage = "none" /\ ok = Usable(c)
                /\ cfg' = c /\ stage' = (IF ok THEN "built" ELSE "error") /\ UNCHANGED conn

VouchedBy(p) == CASE p.chain \in {"A", "B"} -> p.chain [] p.chain = "interA" -> "A" [] OTHER -> "nobody"
Versions(p) == {v \in p.min..p.max : v >= Lowest}
Compatible(p) == \E v \in Versions(p) : v >= 13 \/ Range2(p.ciphers) \cap Listed # {}
Genuine(c, p, use) == VouchedBy(p) \in Authorities(c) /\ p.valid = "now" /\ p.usage \in {use, "both"}
NameOk(c, p) == \E i \in DOMAIN p.names : p.names[i] = c.name
(* Whether the peer in turn likes what we present. *)
Liked(c, p) == p.trusts = "any" \/ p.trusts = c.pair

(* role: what we are. *)
May(role, c, p) ==
    /\ Compatible(p) /\ Liked(c, p)
    /\ IF role = "client" THEN Genuine(c, p, "server") /\ NameOk(c, p)
       ELSE Genuine(c, p, "client")
(* What an established connection looks like. *)
Best(p) == CHOOSE v \in Versions(p) : \A w \in Versions(p) : w <= v
Connect(role, p, ok, ver, cipher, ours) ==
    /\ stage = "built" /\ ok = May(role, cfg, p)
    /\ ok => /\ ver = Best(p) /\ (ver < 13 => cipher \in Listed \cap Range2(p.ciphers))
             \* the peer saw our configured certificate
             /\ ours = cfg.pair
    /\ conn' = [ok |-> ok, role |-> role, peer |-> p] /\ UNCHANGED <<cfg, stage>>

(* Two of our own configurations. *)
OwnPeer(c, names) == [chain |-> c.pair, names |-> names, valid |-> "now", usage |-> "both", min |-> Lowest, max |-> 13,
                      ciphers |-> <<"ECDHE-RSA-AES128-GCM", "ECDHE-RSA-AES256-GCM">>, trusts |-> "any"]
MayPair(cl, sv, names) == May("client", cl, OwnPeer(sv, names)) /\ May("server", sv, OwnPeer(cl, names))
=============================================================================
