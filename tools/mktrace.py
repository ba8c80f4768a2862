#!/usr/bin/env python3
"""Writes specs/<M>Trace.tla and .cfg from a body: mktrace.py Module 'hidden events, comma separated or -' [slack] < body"""
import sys, os
mod, hidden = sys.argv[1], sys.argv[2]
slack = len(sys.argv) > 3
body = sys.stdin.read().rstrip("\n")
ext = "" if hidden == "-" else """
  \\* unobservable steps, as late as possible: just before an event that may depend on them
  \\/ l <= Len(Evs(tid)) /\\ Cur.e \\in {%s} /\\ Hidden%s /\\ UNCHANGED <<tid, l>>""" % (
    ", ".join('"%s"' % h for h in hidden.split(",")), "")
init = "Init0(Traces[tid].slack)" if slack else "Init"
t = """%s
(* Decides whether recorded executions of the real code are behaviours of %s. *)
EXTENDS %s, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \\in 1..N /\\ %s /\\ l = 1 /\\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\\ Cur.e = e /\\ l' = l + 1 /\\ UNCHANGED tid
SetOf(s) == {s[i] : i \\in 1..Len(s)}
TNext ==
%s
  \\* the process died or stopped making progress: legal under no property
  \\/ (Is("crash") \\/ Is("stuck")) /\\ P = "NONE" /\\ UNCHANGED vars%s
TSpec == TInit /\\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \\in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\\ PrintT("CHECKED " \\o ToString(N))
  /\\ \\A i \\in Rejected : PrintT("REJECTED " \\o ToString(i) \\o " AT " \\o ToString(TLCGet(i)))
%s
""" % (("-" * 26 + " MODULE " + mod + "Trace " + "-" * 26), mod, mod, init, body, ext, "=" * 77)
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
open(os.path.join(d, mod + "Trace.tla"), "w").write(t)
open(os.path.join(d, mod + "Trace.cfg"), "w").write("SPECIFICATION TSpec\nCONSTANT P <- PropEnv\nCONSTRAINT Progress\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n")
