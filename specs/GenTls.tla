-------------------------------- MODULE GenTls --------------------------------
EXTENDS Tls, Json
CONSTANTS Emitting, Dims
VARIABLES hist
gvars == <<cfg, stage, conn, hist>>

CAs == {"A", "B", "AB", "missing", "garbage", "empty"}
Pairs == {"A", "B", "mismatch", "nokey", "nocert", "badkey", "badcert"}
Names == {"log-cache", "other"}
Chains == {"A", "B", "self", "other", "interA", "lonely", "none"}
NameSets == {<<"log-cache">>, <<"other">>, <<"other", "log-cache">>, <<"Xlog-cache">>}
Spans == {<<10, 13>>, <<10, 10>>, <<10, 11>>, <<10, 12>>, <<12, 12>>, <<12, 13>>, <<13, 13>>}
G1 == "ECDHE-RSA-AES128-GCM"
G2 == "ECDHE-RSA-AES256-GCM"
CipherSets == {<<G1, G2>>, <<G1>>, <<G2>>, <<"ECDHE-RSA-CHACHA20">>, <<"ECDHE-RSA-AES128-CBC">>, <<"RSA-AES128-GCM">>,
               <<"ECDHE-RSA-CHACHA20", G2>>, <<"RSA-AES256-CBC", "ECDHE-RSA-AES256-CBC">>, <<"RSA-3DES">>}
D(x, y) == IF x = y THEN 0 ELSE 1
Peers(role) == {p \in [chain : Chains, names : NameSets, valid : {"now", "past", "future"}, usage : {"both", "server", "client"},
                      span : Spans, ciphers : CipherSets, trusts : {"any", "A"}] :
           /\ (role = "client" => p.chain # "none")
           /\ D(p.chain, "A") + D(p.names, <<"log-cache">>) + D(p.valid, "now") + D(p.usage, "both") + D(p.span, <<12, 12>>)
              + D(p.ciphers, <<G1, G2>>) + D(p.trusts, "any") <= Dims}
Peer(p) == [chain |-> p.chain, names |-> p.names, valid |-> p.valid, usage |-> p.usage, min |-> p.span[1], max |-> p.span[2],
            ciphers |-> p.ciphers, trusts |-> p.trusts]
PeersC == Peers("client")
PeersS == Peers("server")

H(r) == hist' = IF Emitting THEN Append(hist, r) ELSE hist
GInit == TlsInit /\ hist = <<>>
GBuild == \E ca \in CAs, pr \in Pairs, nm \in Names : LET c == [ca |-> ca, pair |-> pr, name |-> nm] IN
          Build(c, Usable(c)) /\ H([op |-> "build", ca |-> ca, pair |-> pr, name |-> nm])
GConnect == /\ stage = "built" /\ conn = <<>> /\ \E role \in {"client", "server"} : \E q \in (IF role = "client" THEN PeersC ELSE PeersS) :
               LET p == Peer(q) IN
               /\ ((cfg.ca # "A" \/ cfg.pair # "A") => p.min = 12 /\ p.max = 12 /\ p.ciphers = <<G1, G2>>)
               /\ LET cs == Listed \cap Range2(p.ciphers) IN Connect(role, p, May(role, cfg, p), IF Versions(p) = {} THEN 0 ELSE Best(p), IF cs = {} THEN G1 ELSE CHOOSE k \in cs : TRUE, cfg.pair)
               /\ H([op |-> "connect", role |-> role, peer |-> p])
GNext == GBuild \/ GConnect
GSpec == GInit /\ [][GNext]_gvars
Emit == (Emitting /\ (conn' # <<>> \/ stage' = "error")) => PrintT("SCN " \o ToJson(hist'))

(* A connection is never made with a stranger, an unusable configuration, or weak protection. *)
NoStranger == conn # <<>> => (conn.ok => /\ conn.peer.chain \notin {"none", "self", "other", "lonely"} /\ stage = "built"
                                         /\ conn.peer.max >= 12 /\ conn.peer.valid = "now")
(* Two nodes with the same usable configuration, named as expected, understand one another. *)
Peace == stage = "built" /\ cfg.pair \in Authorities(cfg) => MayPair(cfg, cfg, <<cfg.name>>)
===============================================================================
