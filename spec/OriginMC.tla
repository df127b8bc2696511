------------------------------ MODULE OriginMC ------------------------------
(* Every combination of the sources, with addresses of each form. *)
EXTENDS Origin, Json
VARIABLE h
Addrs == {"1.2.3.4", "1.2.3.4:80", "[2001:db8::1]:80", "[2001:db8::1]", "2001:db8::1"}
Hosts == {"", "a.com", "a.com:8080", "[2001:db8::1]:80", "[2001:db8::1]"}
Init == h \in [realip : {"", "9.9.9.9", "2001:db8::9"}, fwdfor : {"", "8.8.8.8", " 8.8.8.8:5, 7.7.7.7", ",7.7.7.7"} \cup Addrs,
               remote : {"1.2.3.4:80", "[2001:db8::1]:80", "[::1]:80"}, fwdhost : Hosts, host : Hosts \ {""},
               fwdproto : {"", "https"}, scheme : {""}, origuri : {"", "/o?x=1", "/a%2Fb"}, uri : {"/", "/p%20q?y=2"}]
Next == FALSE
Spec == Init /\ [][Next]_h
Emit == PrintT("SCEN " \o ToJson(h))
(* no port is left, and an IPv6 address is whole *)
NoPortLeft == Count(Ip(h), ":") # 1 /\ Count(Host(h), ":") # 1
Whole == Ip(h) \notin {"", "[", "[2001", "2001"} /\ Host(h) \notin {"", "[", "[2001"}
Plain == h.realip = "" /\ h.fwdfor = "" /\ h.remote = "1.2.3.4:80" => Ip(h) = "1.2.3.4"
=============================================================================
