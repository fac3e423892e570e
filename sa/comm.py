"""Model of an MPI communicator: every call is an event; received data are
atoms of fresh message buffers."""
from .world import *

BLOCKING = {"Recv", "recv", "Send", "send", "Ssend", "wait", "Wait", "Waitall", "Sendrecv", "Barrier", "barrier", "Probe"}
COLLECTIVE = {"bcast", "Bcast", "Scatter", "scatter", "Gather", "gather", "Barrier", "barrier", "allreduce", "Allreduce", "reduce", "Reduce",
              "allgather", "Allgather", "Split", "Scatterv", "Gatherv", "alltoall", "Alltoall", "Dup", "Create", "scan", "exscan"}


class Request(Obj):
    label = "mpi request"
    typename = "mpi4py.MPI.Request"

    def __init__(self, comm, post, recv=None):
        self.comm, self.post, self.recv = comm, post, recv
        self.done = False

    def m_wait(self, I, status=None):
        I.event("comm", op="wait", comm=self.comm, post=self.post, request=self)
        if self.recv is not None and not self.done:
            self.comm.fill(I, self.recv, self.post)
        self.done = True
        return True     # as mpi4py does

    m_Wait = m_wait

    def m_test(self, I, status=None):
        I.event("comm", op="test", comm=self.comm, post=self.post, request=self)
        return Term("test", (I.fresh_name("q"),))

    m_Test = m_test

    def m_Free(self, I):
        I.event("comm", op="free", comm=self.comm, post=self.post, request=self)


class CommObj(Obj):
    label = "comm"
    typename = "mpi4py.MPI.Comm"

    def __init__(self, rank, size, label="comm", root_values=None):
        self.rank, self.size, self.label = rank, size, label
        self.root_values = root_values    # values broadcast by the root, in order
        self.n_bcast = 0
        self.inject_at = None

    # queries
    def m_Get_rank(self, I):
        return mk(self.rank)

    def m_Get_size(self, I):
        return mk(self.size)

    def p_rank(self, I):
        return mk(self.rank)

    def p_size(self, I):
        return mk(self.size)

    def ev(self, I, op, **data):
        return I.event("comm", op=op, comm=self, **data)

    def poke(self, I, what):
        if I.inject:
            I.inject(I, what)

    # point to point
    def m_Isend(self, I, buf, dest=None, tag=0):
        e = self.ev(I, "Isend", array=buf, peer=dest, tag=tag, content=content(I, buf), state=memstate(I, buf))
        self.poke(I, "comm.Isend")
        return I.new(Request(self, e))

    m_Issend = m_Isend

    def m_isend(self, I, obj, dest=None, tag=0):
        e = self.ev(I, "isend", array=obj, peer=dest, tag=tag, content=None, state=None)
        self.poke(I, "comm.isend")
        return I.new(Request(self, e))

    def m_Send(self, I, buf, dest=None, tag=0):
        self.poke(I, "comm.Send")
        self.ev(I, "Send", array=buf, peer=dest, tag=tag, content=content(I, buf), state=memstate(I, buf))

    def m_Recv(self, I, buf, source=None, tag=-1, status=None):
        self.poke(I, "comm.Recv")
        e = self.ev(I, "Recv", array=buf, peer=source, tag=tag, state=memstate(I, buf))
        self.fill(I, buf, e)

    def m_Irecv(self, I, buf, source=None, tag=-1):
        self.poke(I, "comm.Irecv")
        e = self.ev(I, "Irecv", array=buf, peer=source, tag=tag, state=memstate(I, buf))
        return I.new(Request(self, e, buf))

    def m_Sendrecv(self, I, sendbuf, dest=None, sendtag=0, recvbuf=None, source=None, recvtag=-1, status=None):
        self.m_Send(I, sendbuf, dest, sendtag)
        self.m_Recv(I, recvbuf, source, recvtag)

    def fill(self, I, buf, post):
        if isinstance(buf, A.ArrV):
            msg = A.external(I, f"msg{post.seq}", buf.shape, buf.buf.dtype, buf.buf.typename)
            msg.buf.message = post
            post.data["msg"] = msg
            A.write(I, buf, msg)
        elif buf is not None:
            raise Unsupported(f"receive into {vrepr(buf)}")

    # collectives
    def m_bcast(self, I, obj=None, root=0):
        self.poke(I, "comm.bcast")
        e = self.ev(I, "bcast", value=obj, root=root)
        k = self.n_bcast
        self.n_bcast += 1
        if I.eq(self.rank, root):
            # the others receive its state at this moment
            e.data["sent"] = obj.snapshot(I) if hasattr(obj, "snapshot") else obj
            return obj
        if self.root_values is not None:
            if k < len(self.root_values):
                return I.M.deepcopy(I, self.root_values[k])
            return Term("bcast", (k,))
        return Term("bcast", (self.label, k))

    def m_Scatter(self, I, sendbuf, recvbuf=None, root=0):
        self.poke(I, "comm.Scatter")
        e = self.ev(I, "Scatter", array=sendbuf, recv=recvbuf, root=root, content=content(I, sendbuf), state=memstate(I, sendbuf),
                    rstate=memstate(I, recvbuf))
        self.fill(I, recvbuf, e)

    def m_Gather(self, I, sendbuf, recvbuf=None, root=0):
        self.poke(I, "comm.Gather")
        e = self.ev(I, "Gather", array=sendbuf, recv=recvbuf, root=root, content=content(I, sendbuf), state=memstate(I, sendbuf),
                    rstate=memstate(I, recvbuf))
        if recvbuf is not None:
            self.fill(I, recvbuf, e)

    def m_Split(self, I, color=0, key=0):
        self.poke(I, "comm.Split")
        e = self.ev(I, "Split", color=color, key=key)
        make = I.hooks.get("split")
        c = make(I, self, color, key) if make else I.new(CommObj(Poly.atom(Sym(I.fresh_name("subrank"))), Poly.atom(Sym(I.fresh_name("subsize"))), "split " + self.label))
        e.data["new"] = c
        return c

    def _simple(op):
        def m(self, I, *a, **k):
            self.poke(I, "comm." + op)
            self.ev(I, op, args=tuple(a), kwargs=dict(k), root=k.get("root"))
            return Term(op, (I.fresh_name("r"),))
        return m

    for _op in sorted(COLLECTIVE - {"bcast", "Scatter", "Gather", "Split"}):
        locals()["m_" + _op] = _simple(_op)
    m_send = _simple("send")
    m_recv = _simple("recv")
    m_Probe = _simple("Probe")
    m_Abort = _simple("Abort")


def content(I, a):
    return A.content_of(I, a) if isinstance(a, A.ArrV) else None


def memstate(I, a):
    """(host, c_contiguous, buffer version) at the time of the call"""
    if not isinstance(a, A.ArrV):
        return None
    h = I.hooks.get("contig")
    return {"host": a.buf.typename == A.HOST, "contig": A.contiguous(I, a, "C"), "version": a.buf.version}


def comm_events(events, ops=None):
    return [e for e in walk_events(events, ("comm",)) if ops is None or e.op in ops]
