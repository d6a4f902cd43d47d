------------------------------ MODULE MCThreads ------------------------------
(* The scheduler model exhaustively for three live threads and two words.   *)
(* A thread's context is the sequence number of its last call, so that a    *)
(* thread resumed with another's registers shows. The choices follow one    *)
(* admissible policy, first in first out; with Free = TRUE all of them.     *)
(* Every transition's operation sequence is printed: the driver replays     *)
(* them on the real scheduler.                                              *)
EXTENDS Threads, Sequences, Json
CONSTANTS Depth, MaxLive, MaxTid, Free, Emit
Words == {16, 20}
VARIABLES s, last, path, fifo, sleepers, ghost, nexttid
vars == <<s, last, path, fifo, sleepers, ghost, nexttid>>
\* fifo: ready threads in order, sleepers: blocked threads in order; ghost: the context each thread must resume with
MCChild(ctx, stack, tls) == 1000 + ctx
MCEnter(ctx, h, sp) == 2000 + ctx
Init == /\ s = Start(0, [w \in Words |-> 1], Words) /\ last = [op |-> "start", before |-> 0, after |-> 0, n |-> 0, ctx |-> 0, stop |-> FALSE] /\ path = <<>>
        /\ fifo = <<>> /\ sleepers = <<>> /\ ghost = (Main :> 0) /\ nexttid = 1
Inq(q, D) == LET IsIn(t) == t \in D IN SelectSeq(q, IsIn)
\* first in, first out orders after a step from s to n
NewFifo(n) == LET kept == Inq(fifo, DOMAIN n.ready)
                  fromSleep == Inq(sleepers, DOMAIN n.ready \ {kept[i] : i \in DOMAIN kept})
                  mid == kept \o fromSleep
                  rest == DOMAIN n.ready \ {mid[i] : i \in DOMAIN mid}
              IN IF rest = {} THEN mid ELSE mid \o <<CHOOSE t \in rest : TRUE>>
NewSleep(n) == LET kept == Inq(sleepers, DOMAIN n.blocked)  rest == DOMAIN n.blocked \ {kept[i] : i \in DOMAIN kept}
               IN IF rest = {} THEN kept ELSE kept \o <<CHOOSE t \in rest : TRUE>>
\* the context of a call: which thread made it and how many calls before
Ctx == s.cur
Ops == {[op |-> "yield"], [op |-> "gettid"], [op |-> "exit"]}
       \cup {[op |-> "clone", ctid |-> w, ptid |-> 0, clear |-> c] : w \in {0, 16}, c \in {0, 1}} \cup {[op |-> "clone", ctid |-> 20, ptid |-> 16, clear |-> 1]}
       \cup {[op |-> "wait", at |-> w, mask |-> m, ok |-> k] : w \in Words, m \in {AllBits}, k \in {0, 1}} \cup {[op |-> "wait", at |-> 16, mask |-> m, ok |-> 1] : m \in {1, 2}}
       \cup {[op |-> "wake", at |-> w, n |-> n, mask |-> AllBits] : w \in Words, n \in {0, 1, 2}} \cup {[op |-> "wake", at |-> 16, n |-> 1, mask |-> 2]}
       \cup {[op |-> "settid", at |-> 20]} \cup {[op |-> "action", sig |-> 15, h |-> h, alt |-> 0] : h \in {Ignored, 5}}
       \cup {[op |-> "kill", tid |-> t, sig |-> g] : t \in 0..MaxTid, g \in {0, 15}}
       \cup {[op |-> "yieldto", tid |-> t] : t \in 0..MaxTid} \cup {[op |-> "unblock", tid |-> t] : t \in 0..MaxTid}
       \cup {[op |-> "block", at |-> 20, mask |-> 1]}
Fl(o) == (IF o.ptid # 0 THEN {"ptid"} ELSE {}) \cup (IF o.ctid # 0 THEN {"ctid"} ELSE {}) \cup (IF o.clear = 1 THEN {"clear"} ELSE {})
Ctid(o) == IF o.ctid = 0 THEN 20 ELSE o.ctid
Outcomes(o, ch) ==
  CASE o.op = "yield" -> Yield(s, Ctx, 0, ch)      [] o.op = "gettid" -> GetTid(s, Ctx)     [] o.op = "exit" -> Exit(s, Ctx, 93, ch)
    [] o.op = "clone" -> Clone(s, Ctx, 0, Fl(o), 1, 1, o.ptid, Ctid(o), ch)
    [] o.op = "wait" -> Wait(s, Ctx, 0, o.at, IF o.ok = 1 THEN s.mem[o.at] ELSE s.mem[o.at] + 1, o.mask, ch)
    [] o.op = "wake" -> Wake(s, Ctx, o.at, o.n, o.mask, ch)
    [] o.op = "settid" -> SetTid(s, Ctx, o.at)     [] o.op = "kill" -> Kill(s, Ctx, 0, o.tid, o.sig, ch)
    [] o.op = "action" -> Action(s, Ctx, o.sig, o.h, FALSE)
    [] o.op = "yieldto" -> YieldTo(s, Ctx, o.tid, ch)  [] o.op = "unblock" -> Unblock(s, Ctx, o.tid)
    [] o.op = "block" -> Block(s, Ctx, o.at, o.mask, ch)
Firsts(q, n) == {q[i] : i \in {j \in DOMAIN q : j <= n}}
Woken(o) == LET at == IF o.op = "wake" THEN o.at ELSE IF o.op = "exit" THEN s.clear[s.cur] ELSE IF o.op = "kill" /\ o.tid \in Alive(s) /\ o.sig # 0 THEN s.clear[o.tid] ELSE None
                m == IF o.op = "wake" THEN o.mask ELSE AllBits
                IsM(t) == t \in Matching(s, at, m)
            IN Firsts(SelectSeq(sleepers, IsM), IF o.op = "wake" THEN o.n ELSE 1)
Choices(o) == IF Free THEN [next : Alive(s) \cup {nexttid}, woken : SUBSET DOMAIN s.blocked, tid : {nexttid}]
              ELSE LET w == Woken(o) IN
                   [next : CASE o.op = "clone" -> {nexttid} [] o.op = "yieldto" -> {o.tid}
                             [] o.op \in {"yield", "wait", "block", "exit", "kill"} ->
                                  IF fifo # <<>> THEN {fifo[1]} ELSE IF o.op \in {"exit", "kill"} THEN (IF w # {} THEN w ELSE {Main}) ELSE {s.cur}
                             [] OTHER -> {s.cur},
                    woken : {w}, tid : {nexttid}]
Enabled(o) == /\ (o.op = "clone" => Cardinality(Alive(s)) < MaxLive /\ nexttid <= MaxTid)
              /\ (o.op \in {"kill", "yieldto", "unblock"} => o.tid < nexttid)
Do(o) == /\ Enabled(o)
         /\ \E ch \in Choices(o) : \E out \in Outcomes(o, ch) :
              /\ out.out = "ok" /\ (~Free => ~(o.op = "wait" /\ o.ok = 1 /\ DOMAIN s.ready = {} /\ out.s.mem[o.at] # 0))
              /\ s' = out.s
              /\ last' = [op |-> o.op, before |-> IF o.op = "wake" THEN Cardinality(Matching(s, o.at, o.mask)) ELSE 0,
                          after |-> IF o.op = "wake" THEN Cardinality(Matching(out.s, o.at, o.mask)) ELSE 0, n |-> IF o.op = "wake" THEN o.n ELSE 0,
                          ctx |-> out.ctx, stop |-> out.stop]
              /\ fifo' = NewFifo(out.s) /\ sleepers' = NewSleep(out.s)
              /\ ghost' = [t \in Alive(out.s) |-> IF t \in DOMAIN ghost THEN ghost[t] ELSE 1000 + Ctx]
              /\ nexttid' = IF o.op = "clone" THEN nexttid + 1 ELSE nexttid
              /\ path' = Append(path, o)
              /\ (Emit => PrintT("PATH " \o ToJson(path')))
NotOver == ~last.stop
Next == NotOver /\ Len(path) < Depth /\ \E o \in Ops : Do(o)
Live == Alive(s)
Abs == [s EXCEPT !.tick = 0, !.peak = 0, !.ready = [t \in DOMAIN @ |-> [@[t] EXCEPT !.since = 0]]]
View == IF Free THEN <<Abs, last, 0, <<>>, <<>>, nexttid>> ELSE <<Abs, last.stop, fifo, sleepers, nexttid>>
PartitionOk == Partition(s)
\* whoever runs has its own context, or, in its first moments, its parent's
OwnContext == last.op # "start" => last.ctx \in {s.cur} \cup {1000 + t : t \in 0..MaxTid} \cup (IF last.op = "kill" THEN {2000 + s.cur} ELSE {})
WakeExact == last.op = "wake" => last.after = last.before - MinI(last.n, last.before)
FifoOk == ~Free => {fifo[i] : i \in DOMAIN fifo} = DOMAIN s.ready /\ {sleepers[i] : i \in DOMAIN sleepers} = DOMAIN s.blocked
MainLives == Main \in Alive(s) \/ last.stop
FairUnderFifo == ~Free => Fair(s)
=============================================================================
