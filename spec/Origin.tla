------------------------------- MODULE Origin -------------------------------
(* What a request says about where it came from (C31).  Texts of headers; "" *)
(* is an absent header.                                                      *)
EXTENDS StrLib

Count(s, c) == Len(SelectSeq([i \in 1..Len(s) |-> Ch(s, i)], LAMBDA x : x = c))

(* an address or host without its port: [v6]:port, name:port, and without;   *)
(* more than one colon outside brackets is an IPv6 address                   *)
NoPort(s) ==
  IF HasPrefix(s, "[") THEN SubSeq(s, 2, (IF Contains(s, "]") THEN Index(s, "]") ELSE Len(s) + 1) - 1)
  ELSE IF Count(s, ":") = 1 THEN SubSeq(s, 1, Index(s, ":") - 1)
  ELSE s

Ip(h) ==
  IF h.realip # "" THEN h.realip
  ELSE LET first == TrimSpace(Split(h.fwdfor, ",")[1]) IN
       IF first # "" THEN NoPort(first)
       ELSE LET p == NoPort(h.remote) IN IF p \in {"::1", "::"} THEN "127.0.0.1" ELSE p

Host(h) == LET s == IF h.fwdhost # "" THEN h.fwdhost ELSE h.host
               n == NoPort(s)
           IN  IF Contains(n, ":") THEN "[" \o n \o "]" ELSE n

Proto(h) == IF h.fwdproto # "" THEN h.fwdproto ELSE IF h.scheme # "" THEN h.scheme ELSE "http"
Uri(h)   == IF h.origuri # "" THEN h.origuri ELSE h.uri
Url(h)   == Proto(h) \o "://" \o Host(h) \o Uri(h)
All(h)   == [ip |-> Ip(h), host |-> Host(h), proto |-> Proto(h), uri |-> Uri(h), url |-> Url(h),
             kept |-> TRUE]    \* asking changes nothing of the request
=============================================================================
