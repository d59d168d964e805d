---------------------------- MODULE SparseTrace ----------------------------
(* Accepts a trace recorded by harness/driver_sparse iff it is a behaviour  *)
(* of Sparse in which every changed register shows what it holds.           *)
EXTENDS Sparse, Json, IOUtils

TraceCplx == IOEnv.CPLX = "1"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ ev.op = e /\ l' = l + 1
Cut(w) == [v |-> w.v, r |-> w.r, c |-> w.c]
New(r) == IF r \in DOMAIN ev.ch THEN IF r \in VecR THEN ev.ch[r] ELSE Cut(ev.ch[r]) ELSE reg[r]
Shows(r, X, w) ==
    LET nr == Rows(r, X)
        nc == Cols(r, X)
        rows == IF r \in Coo THEN nr + 1 ELSE nr
    IN  /\ w.nnz = Nnz(X) /\ w.nr = nr /\ w.nc = nc
        /\ IF nr <= full /\ nc <= full
           THEN /\ Len(w.d) = rows /\ Len(w.a) = rows
                /\ \A i \in 1..rows : \A j \in 1..(nc + 1) :
                     LET k == Pos(r, X, i - 1, j - 1)
                     IN  /\ w.d[i][j] = (IF k = 0 THEN NZero ELSE X.v[k])
                         /\ w.a[i][j] = (IF k = 0 THEN 0 ELSE 1)
           ELSE w.d = <<>>
Logged == /\ out' = ev.out /\ ret' = ev.ret
          /\ reg' = [r \in Reg |-> New(r)]
          /\ \A r \in DOMAIN ev.ch : r \in MatR => Shows(r, reg'[r], ev.ch[r])

TraceInit == SparseInit(0, 0) /\ l = 1
TraceNext ==
    \/ IsEvent("reset") /\ Start(ev.E, ev.full)
    \/ IsEvent("init") /\ Same /\ Yields(<<>>) /\ Logged
    \/ IsEvent("coo") /\ LoadCoo(ev.r, ev.v, ev.rows, ev.cols, New(ev.r)) /\ Logged
    \/ IsEvent("csr") /\ LoadCsr(ev.r, ev.v, ev.rows, ev.cols) /\ Logged
    \/ IsEvent("unit") /\ Unit(ev.r, ev.n) /\ Logged
    \/ IsEvent("clear") /\ Clear(ev.r) /\ Logged
    \/ IsEvent("vec") /\ Vec(ev.r, ev.p) /\ Logged
    \/ IsEvent("copy") /\ Copy(ev.r, ev.a) /\ Logged
    \/ IsEvent("assign") /\ Copy(ev.r, ev.a) /\ Logged
    \/ IsEvent("move") /\ Move(ev.r, ev.a) /\ Logged
    \/ IsEvent("conv") /\ Conv(ev.r, ev.a, New(ev.r)) /\ Logged
    \/ IsEvent("get") /\ Get(ev.r, ev.i, ev.j) /\ Logged
    \/ IsEvent("set") /\ Set(ev.r, ev.i, ev.j, ev.x) /\ Logged
    \/ IsEvent("poke") /\ Poke(ev.r, ev.k, ev.x) /\ Logged
    \/ IsEvent("reserve") /\ Reserve(ev.r) /\ Logged
    \/ IsEvent("addas") /\ AddAs(ev.r, ev.a, New(ev.r)) /\ Logged
    \/ IsEvent("add") /\ Add(ev.r, ev.a, ev.b, New(ev.r)) /\ Logged
    \/ IsEvent("sub") /\ Sub(ev.r, ev.a, ev.b, New(ev.r)) /\ Logged
    \/ IsEvent("scale") /\ ScaleS(ev.r, ev.al) /\ Logged
    \/ IsEvent("scalee") /\ ScaleE(ev.r, ev.k) /\ Logged
    \/ IsEvent("muls") /\ MulS(ev.r, ev.al, ev.a) /\ Logged
    \/ IsEvent("neg") /\ NegS(ev.r, ev.a) /\ Logged
    \/ IsEvent("mulv") /\ MulV(ev.y, ev.al, ev.a, ev.x, ev.be) /\ Logged
    \/ IsEvent("opmulv") /\ OpMulV(ev.y, ev.a, ev.x) /\ Logged
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace)
            THEN PrintT("TRACE-ACCEPTED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-REJECTED " \o ToString(TLCGet("stats").diameter))
=============================================================================
