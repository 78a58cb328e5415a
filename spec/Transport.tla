----------------------------- MODULE Transport -----------------------------
(***************************************************************************)
(* One direction of a channel at the level of packets: how values of one   *)
(* or several packets are sent and received over a sequential-packet       *)
(* socket, and what happens if a transfer is interrupted by a signal, is   *)
(* given up, or its process dies while another process continues with its  *)
(* own copy of the end.  World describes the same at the level of values:  *)
(* what is checked here is that whole values, errors and end of stream are *)
(* all that can be observed.                                               *)
(*                                                                         *)
(* The protections are switches, so that configurations without them must  *)
(* fail.                                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Size,       \* value -> number of packets; values are sent in order 1, 2, ...
          Cap,        \* packets the socket holds
          Faults,     \* subset of {"signal", "stopS", "stopR", "killS", "killR", "limit"}
          MaxFaults,
          Markers,    \* packets tell whether they are the first and the last of a value
          ShutWrite,  \* a sender that stops half-way closes the direction
          ShutRead,   \* a receiver that stops half-way closes the direction
          Retry,      \* interrupted system calls are repeated
          Checked     \* missing handles are noticed

Sizes == <<2, 3, 1, 2>>
Nvals == Len(Size)

VARIABLES sock,    \* packets on their way
          wshut,   \* the direction is closed for writing / reading
          rshut,
          senders, \* copies of the ends
          receivers,
          s,       \* sender: [v, k, on]: next packet k of value v
          r,       \* receiver: [got, on]: packets of the value being received
          slog,    \* results of sends
          rlog,    \* results of receives
          faults
vars == <<sock, wshut, rshut, senders, receivers, s, r, slog, rlog, faults>>

Init == /\ sock = << >> /\ wshut = FALSE /\ rshut = FALSE
        /\ senders = 2 /\ receivers = 2
        /\ s = [v |-> 1, k |-> 1, on |-> FALSE]
        /\ r = [got |-> << >>, on |-> FALSE, lost |-> FALSE]
        /\ slog = << >> /\ rlog = << >> /\ faults = 0

Can(f) == f \in Faults /\ faults < MaxFaults
Fault == faults' = faults + 1

(* Sender *)
Next1 == [v |-> s.v + 1, k |-> 1, on |-> FALSE]
SendDone(res) == /\ slog' = Append(slog, [v |-> s.v, res |-> res])
                 /\ s' = Next1
Abandon == wshut' = (wshut \/ (ShutWrite /\ s.k > 1))
StartSend == /\ ~s.on /\ s.v <= Nvals /\ senders > 0
             /\ s' = [s EXCEPT !.on = TRUE]
             /\ UNCHANGED <<sock, wshut, rshut, senders, receivers, r, slog, rlog, faults>>
SendPacket == /\ s.on
              /\ ~wshut /\ ~rshut /\ receivers > 0
              /\ Len(sock) < Cap
              /\ sock' = Append(sock, [v |-> s.v, k |-> s.k, first |-> s.k = 1, last |-> s.k = Size[s.v]])
              /\ IF s.k = Size[s.v] THEN SendDone("ok") ELSE s' = [s EXCEPT !.k = @ + 1] /\ UNCHANGED slog
              /\ UNCHANGED <<wshut, rshut, senders, receivers, r, rlog, faults>>
SendFails == /\ s.on
             /\ wshut \/ rshut \/ receivers = 0
             /\ SendDone("err") /\ Abandon
             /\ UNCHANGED <<sock, rshut, senders, receivers, r, rlog, faults>>
StopSend == /\ Can("stopS") /\ Fault /\ s.on
            /\ SendDone("cancelled") /\ Abandon
            /\ UNCHANGED <<sock, rshut, senders, receivers, r, rlog>>
SignalSend == /\ Can("signal") /\ Fault /\ s.on
              /\ IF Retry THEN UNCHANGED <<s, slog, wshut>> ELSE SendDone("err") /\ Abandon
              /\ UNCHANGED <<sock, rshut, senders, receivers, r, rlog>>
\* Another process has a copy of the end and continues with the next value.
KillSender == /\ Can("killS") /\ Fault /\ s.on
              /\ senders' = senders - 1
              /\ slog' = Append(slog, [v |-> s.v, res |-> "killed"])
              /\ s' = Next1
              /\ UNCHANGED <<sock, wshut, rshut, receivers, r, rlog>>
CloseSenders == /\ ~s.on /\ s.v > Nvals /\ senders > 0
                /\ senders' = 0
                /\ UNCHANGED <<sock, wshut, rshut, receivers, s, r, slog, rlog, faults>>

(* Receiver *)
RecvDone(res) == /\ rlog' = Append(rlog, res)
                 /\ r' = [got |-> << >>, on |-> FALSE, lost |-> FALSE]
\* What a receiver does when it stops half-way
GiveUp(rest) == IF ShutRead THEN rshut' = TRUE /\ sock' = << >> ELSE rshut' = rshut /\ sock' = rest
Finished == rlog # << >> /\ rlog[Len(rlog)].t = "none"
StartRecv == /\ ~r.on /\ receivers > 0 /\ ~Finished
             /\ Len(rlog) < 2 * Nvals + 2
             /\ r' = [r EXCEPT !.on = TRUE]
             /\ UNCHANGED <<sock, wshut, rshut, senders, receivers, s, slog, rlog, faults>>
RecvPacket ==
  /\ r.on /\ sock # << >>
  /\ LET p == Head(sock)
         got == Append(r.got, p)
     IN IF Markers /\ (p.first # (r.got = << >>))
        THEN RecvDone([t |-> "err"]) /\ GiveUp(Tail(sock))
        ELSE IF p.last
        THEN RecvDone([t |-> "val", got |-> got, lost |-> r.lost]) /\ sock' = Tail(sock) /\ UNCHANGED rshut
        ELSE r' = [r EXCEPT !.got = got] /\ sock' = Tail(sock) /\ UNCHANGED <<rlog, rshut>>
  /\ UNCHANGED <<wshut, senders, receivers, s, slog, faults>>
\* Not all the handles of a packet could be received.
RecvLimited ==
  /\ Can("limit") /\ Fault /\ r.on /\ sock # << >>
  /\ LET p == Head(sock)
     IN IF Checked
        THEN /\ RecvDone([t |-> "err"])
             /\ IF p.last /\ p.first = (r.got = << >>) THEN sock' = Tail(sock) /\ UNCHANGED rshut ELSE GiveUp(Tail(sock))
        ELSE /\ sock' = Tail(sock) /\ UNCHANGED rshut
             /\ IF p.last THEN RecvDone([t |-> "val", got |-> Append(r.got, p), lost |-> TRUE])
                ELSE r' = [r EXCEPT !.got = Append(@, p), !.lost = TRUE] /\ UNCHANGED rlog
  /\ UNCHANGED <<wshut, senders, receivers, s, slog>>
RecvEnd == /\ r.on /\ sock = << >> /\ (wshut \/ rshut \/ senders = 0)
           /\ IF r.got = << >> THEN RecvDone([t |-> "none"]) /\ UNCHANGED <<rshut, sock>>
              ELSE RecvDone([t |-> "err"]) /\ GiveUp(<< >>)
           /\ UNCHANGED <<wshut, senders, receivers, s, slog, faults>>
StopRecv == /\ Can("stopR") /\ Fault /\ r.on
            /\ RecvDone([t |-> "cancelled"])
            /\ IF r.got # << >> THEN GiveUp(sock) ELSE UNCHANGED <<sock, rshut>>
            /\ UNCHANGED <<wshut, senders, receivers, s, slog>>
SignalRecv == /\ Can("signal") /\ Fault /\ r.on
              /\ IF Retry THEN UNCHANGED <<r, rlog, sock, rshut>>
                 ELSE RecvDone([t |-> "err"]) /\ IF r.got # << >> THEN GiveUp(sock) ELSE UNCHANGED <<sock, rshut>>
              /\ UNCHANGED <<wshut, senders, receivers, s, slog>>
KillReceiver == /\ Can("killR") /\ Fault /\ r.on
                /\ receivers' = receivers - 1
                /\ RecvDone([t |-> "killed"])
                /\ UNCHANGED <<sock, wshut, rshut, senders, s, slog>>

Sender == StartSend \/ SendPacket \/ SendFails \/ CloseSenders
Receiver == StartRecv \/ RecvPacket \/ RecvEnd
Next == Sender \/ Receiver \/ StopSend \/ SignalSend \/ KillSender
        \/ RecvLimited \/ StopRecv \/ SignalRecv \/ KillReceiver
Spec == Init /\ [][Next]_vars /\ WF_vars(Sender) /\ WF_vars(Receiver)

Vals == {i \in 1..Len(rlog) : rlog[i].t = "val"}
ValueOf(i) == rlog[i].got[1].v
\* Every value received is one that was sent, whole.
Whole == \A i \in Vals :
  /\ ~rlog[i].lost
  /\ Len(rlog[i].got) = Size[ValueOf(i)]
  /\ \A j \in 1..Len(rlog[i].got) : rlog[i].got[j].v = ValueOf(i) /\ rlog[i].got[j].k = j
Ordered == \A i \in Vals, j \in Vals : i < j => ValueOf(i) < ValueOf(j)
\* End of stream comes last, and nothing that was sent is missing unless a transfer was interrupted.
NoneIsLast == \A i \in 1..Len(rlog) : rlog[i].t = "none" => i = Len(rlog)
Complete == (faults = 0 /\ Finished) => {ValueOf(i) : i \in Vals} = 1..Nvals
\* Signals alone change nothing.
OnlySignals == Faults \subseteq {"signal"} =>
  /\ \A i \in 1..Len(slog) : slog[i].res = "ok"
  /\ \A i \in 1..Len(rlog) : rlog[i].t \in {"val", "none"}
\* A value whose sender was told that it failed before anything was sent does not arrive.
Honest == \A i \in Vals : \A j \in 1..Len(slog) :
  slog[j].v = ValueOf(i) => slog[j].res \in {"ok", "killed"}
\* Everybody gets an answer.
Ends == <>[](/\ ~s.on /\ (s.v > Nvals \/ senders = 0)
             /\ ~r.on /\ (Finished \/ receivers = 0 \/ Len(rlog) >= 2 * Nvals + 2))
=============================================================================
