----------------------------- MODULE TokenTrace -----------------------------
EXTENDS Token, TraceLib

GStart(cfg) == [S |-> {}, R |-> {}, now |-> 0, exp |-> IF "exp" \in DOMAIN cfg THEN cfg.exp ELSE 0,
                at |-> IF "at" \in DOMAIN cfg THEN cfg.at ELSE ""]
Ok(s) == [ok |-> TRUE, st |-> s, want |-> 0]
No(s, w) == [ok |-> FALSE, st |-> s, want |-> w]
Check(c, s, w) == IF c THEN Ok(s) ELSE No(s, w)

Enc(s, i, x) ==
  IF ~CanSign(i.key, i.text) THEN Check(~x.ok, s, "refused")
  ELSE Check(x.ok /\ x.raw = i.text /\ SignOk(s.S, i.key, i.text, i.at, x.v),
             [s EXCEPT !.S = Sign(@, i.key, i.text, i.at, x.v)], "a value of its own, with its text readable")
Dec(s, i, x) ==
  LET rs == Verify(s.S, i.key, i.v)
  IN  IF rs = {} THEN Check(~x.ok, s, "rejected")
      ELSE Check(\E r \in rs : x.ok /\ x.text = r.text /\ x.at = r.at, s, rs)
Write(s, i, x) ==
  IF ~CanRemember(i.psk, i.salt) THEN Check(~x.ok /\ x.v = "", s, "refused")
  ELSE Check(x.ok /\ x.at = s.at /\ \A r \in s.R : r.v = x.v => r.m = i.m /\ r.psk = i.psk /\ r.salt = i.salt,
             [s EXCEPT !.R = Written(@, i.m, i.psk, i.salt, x.v, s.now)], s.at)
Has(s, i, x) ==
  LET rs == Found(s.R, i.m, i.v, s.now, s.exp)
  IN  IF rs = {} THEN Check(~x.ok, s, "rejected")
      ELSE LET r == CHOOSE q \in rs : TRUE
           IN  Check(x.ok /\ x.psk = r.psk /\ HashOk(s.R, r, x.hash), [s EXCEPT !.R = Learn(@, r, x.hash)], r)
Valid(s, i, x) == LET ok == Checks(s.R, i.m, i.psk, i.salt, i.hash, s.now, s.exp) IN Check(x.ok = ok, s, ok)

GStep(s, e) ==
  CASE e.op = "enc" -> Enc(s, e.in, e.obs)
    [] e.op = "dec" -> Dec(s, e.in, e.obs)
    [] e.op = "mgr" -> Check(e.obs.refused = (e.in.key = ""), s, e.in.key = "")
    [] e.op = "write" -> Write(s, e.in, e.obs)
    [] e.op = "has" -> Has(s, e.in, e.obs)
    [] e.op = "valid" -> Valid(s, e.in, e.obs)
    [] e.op = "forget" -> Check(e.obs.gone = 1, s, 1)
    [] e.op = "adv" -> Ok([s EXCEPT !.now = @ + e.in.s])
    [] OTHER -> No(s, "no panic")
=============================================================================
