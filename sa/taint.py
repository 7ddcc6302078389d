"""Rank dependence: which values may differ between MPI processes.

Forward dataflow with function summaries.  A label is 'R' (differs between
processes) or the index of a parameter (-1 = the object) the value was computed
from; results of reductions carry no label."""
from util import *
import re

# ---- who is collective -------------------------------------------------------
MPI_COLL = {"MPI_Allreduce", "MPI_Reduce", "MPI_Exscan", "MPI_Scan", "MPI_Bcast", "MPI_Scatterv", "MPI_Gatherv",
            "MPI_Gather", "MPI_Scatter", "MPI_Allgather", "MPI_Allgatherv", "MPI_Alltoall", "MPI_Alltoallv", "MPI_Barrier",
            "MPI_Comm_split", "MPI_Comm_dup", "MPI_Comm_create", "MPI_File_open", "MPI_File_close",
            "MPI_File_set_view", "MPI_File_set_size", "MPI_File_read_all", "MPI_File_write_all", "MPI_File_write_at_all",
            "MPI_File_read_at_all", "MPI_File_sync", "File_write_at_all_c", "File_read_at_all_c", "MPI_Comm_free"}
UTIL_COLL = {"sum", "max", "min", "min_max_avg", "logical_or", "all_gather", "gather", "broadcast", "reduce",
             "all_reduce", "compute_set_union", "some_to_some", "scatter", "partial_and_total_sum",
             "compute_point_to_point_communication_pattern", "compute_n_point_to_point_communications",
             "create_evenly_distributed_partitioning", "mean_and_standard_deviation"}
# members of distributed classes every process has to call
VEC_COLL = {"update_ghost_values", "update_ghost_values_start", "update_ghost_values_finish", "compress", "l2_norm",
            "l1_norm", "linfty_norm", "lp_norm", "norm_sqr", "mean_value", "add_and_dot", "all_zero"}
TRIA_COLL = {"execute_coarsening_and_refinement", "refine_global", "coarsen_global", "repartition", "load", "save",
             "communicate_locally_moved_vertices", "notify_ready_to_unpack"}
MISC_COLL = {("DoFHandler", "distribute_dofs"), ("DoFHandler", "distribute_mg_dofs"), ("MatrixFree", "cell_loop"),
             ("MatrixFree", "loop"), ("DataOutInterface", "write_vtu_in_parallel"),
             ("DataOutInterface", "write_vtu_with_pvtu_record"), ("TimerOutput", "print_wall_time_statistics"),
             ("SolutionTransfer", "interpolate"), ("SolutionTransfer", "prepare_for_coarsening_and_refinement"),
             ("SolutionTransfer", "deserialize"), ("SolutionTransfer", "prepare_for_serialization"),
             ("SparseMatrix", "vmult"), ("SparseMatrix", "compress"), ("SparsityPattern", "compress"),
             ("SolverCG", "solve"), ("SolverGMRES", "solve"), ("SolverBicgstab", "solve"), ("SolverIDR", "solve"),
             ("PreconditionAMG", "initialize"), ("PreconditionILU", "initialize"), ("PreconditionIC", "initialize"),
             ("Process", "run"), ("Interface", "run"), ("DataOutBase", "write_filtered_data")}
UNIFORM_RESULT = {"sum", "max", "min", "min_max_avg", "logical_or", "all_gather", "broadcast", "all_reduce",
                  "compute_set_union", "l2_norm", "l1_norm", "linfty_norm", "lp_norm", "norm_sqr", "mean_value",
                  "add_and_dot", "n_mpi_processes", "n_global_active_cells", "n_global_levels", "n_dofs", "all_zero",
                  "n_global_coarse_cells", "compute_global_error", "has_ghost_elements", "get_communicator", "get_mpi_communicator",
                  "is_active", "has_hanging_nodes", "total_size"}
SOURCES = {"this_mpi_process", "is_locally_owned", "is_locally_owned_on_level", "is_ghost", "is_artificial",
           "locally_owned_subdomain", "n_locally_owned_active_cells", "n_locally_owned_dofs", "locally_owned_size",
           "local_size", "n_active_cells", "n_cells", "n_cell_batches", "n_inner_face_batches", "locally_owned_dofs",
           "locally_owned_range", "local_range", "locally_owned_elements", "extract_locally_relevant_dofs",
           "extract_locally_active_dofs", "in_local_range", "local_element", "get_constrained_dofs",
           "active_cell_iterators", "cell_iterators", "begin_active", "active_cell_iterators_on_level",
           "cell_iterators_on_level", "n_vertices", "n_used_vertices", "get_memory_stats", "n_active_entries_per_cell_batch",
           "n_locally_owned_cells", "is_ghost_entry", "n_raw_cells", "n_ghost_cell_batches", "n_ghost_entries"}


def cls_of(q):
    return q.rsplit("::", 2)[-2].split("<")[0] if q and "::" in q else ""


def is_collective(n):
    """leaf collective operation (call into MPI / deal.II)"""
    if n.k != "call":
        return False
    q = n.a.get("q") or ""
    s = short(q)
    if s in MPI_COLL:
        return True
    if "Utilities::MPI" in q and s in UTIL_COLL:
        return True
    if not n.a.get("m"):
        return False
    c = cls_of(q)
    if s in VEC_COLL and q.startswith("dealii::") and ("Vector" in c or "Vector" in q):
        o = unwrap(n.c[0]) if n.c else None
        ty = (o.a.get("ty") or "") if o is not None else ""
        return "distributed" in q or "distributed" in ty or "Trilinos" in q
    if s in TRIA_COLL and ("Triangulation" in c or "Triangulation" in q):
        o = unwrap(n.c[0]) if n.c else None
        ty = clean_ty(o.a.get("ty") or "") if o is not None else ""
        return "distributed" in q + ty or "shared" in q + ty
    for k, m in MISC_COLL:
        if s == m and k in c:
            return not (k == "DoFHandler" and n.c and of_serial_owner(n.c[0]))
    return False


# objects whose pieces are distributed by construction: the object itself is the
# same collective entity everywhere, only its local entries differ
NOCARRY = re.compile(r"distributed::|DoFHandler|Triangulation|AffineConstraints|MatrixFree|SparseMatrix|SparsityPattern|"
                     r"AlignedVector|VectorizedArray|dealii::Table<|Precondition|Solver|FEEvaluation|FEValues|FECellIntegrator|"
                     r"ostream|ConditionalOStream|DataOut|Partitioner|MGTransfer|MGLevelObject|MappingQ|Mapping<|DynamicBlockVector|"
                     r"SolutionHistory|BlockVectorT|VectorType|FullMatrix|Operator<|Operator$|TimerOutput|ompi_|MPI_Comm|MGTwoLevel|NonLinearOperator|SolutionTransfer")


# records of the program that own a mesh (or hold such records): the object is
# there on every process, only what it stores differs
OWNERS = {"mesh": None, "serial": None}
_SERIAL = re.compile(r"^(const )?(class |struct )?dealii::Triangulation<")


def find_owners(P):
    mesh, serial = set(), set()
    for recs in P.rec_by_id.values():
        for r in recs:
            nm = short(r.q).split("<")[0]
            for f in r.fields:
                ty = clean_ty(f["ty"])
                if f["ty"].rstrip().endswith(("&", "*")) or not nm:
                    continue
                if _SERIAL.match(ty):
                    serial.add(nm)
                    mesh.add(nm)
    ch = True
    while ch:
        ch = False
        for recs in P.rec_by_id.values():
            for r in recs:
                nm = short(r.q).split("<")[0]
                if nm and nm not in mesh and any(re.search(r"\b(%s)<" % "|".join(map(re.escape, mesh)), f["ty"]) for f in r.fields if mesh):
                    mesh.add(nm)
                    ch = True
    rx = lambda s: re.compile(r"\b(%s)<" % "|".join(map(re.escape, sorted(s)))) if s else None
    OWNERS["mesh"], OWNERS["serial"] = rx(mesh), rx(serial)


def carries(ty):
    if OWNERS["mesh"] is not None and OWNERS["mesh"].search(ty or ""):
        return False
    return not NOCARRY.search(ty or "")


def of_serial_owner(o):
    """the object is a member next to a serial mesh owned by the same record"""
    o = unwrap(o)
    if o is None or o.k != "mem" or not o.c or OWNERS["serial"] is None:
        return False
    b = unwrap(o.c[0])
    while b is not None and b.k in ("call", "un") and b.c:
        ty = b.a.get("ty") or ""
        if OWNERS["serial"].search(ty):
            return True
        b = unwrap(b.c[0])
    return b is not None and bool(OWNERS["serial"].search(b.a.get("ty") or ""))


def components(e):
    e = unwrap(e)
    while e is not None and e.k == "ctor" and len(e.c) == 1 and not (e.a.get("q") or "").startswith(("std::tuple", "std::pair")):
        e = unwrap(e.c[0])
    while e is not None and e.k == "ctor" and len(e.c) == 1 and unwrap(e.c[0]) is not None and unwrap(e.c[0]).k in ("call", "ctor") and \
            ((unwrap(e.c[0]).a.get("q") or "").startswith(("std::make_tuple", "std::make_pair", "std::tuple", "std::pair", "std::tie"))):
        e = unwrap(e.c[0])
    if e is None:
        return []
    if e.k == "call" and (e.a.get("q") or "") in ("std::make_tuple", "std::make_pair"):
        return e.c
    if e.k == "ctor" and (e.a.get("q") or "").startswith(("std::tuple", "std::pair")) and len(e.c) > 1:
        return e.c
    if e.k == "il" and len(e.c) > 1:
        return e.c
    return []


REDUCTIONS = {"sum", "max", "min", "logical_or", "all_reduce", "reduce"}
COUNT_ARG = {"MPI_Allreduce": 2, "MPI_Reduce": 2, "MPI_Bcast": 1, "MPI_Allgather": 1, "MPI_Gather": 1, "MPI_Exscan": 2, "MPI_Scan": 2}
SIZE = {"size", "n_elements", "length"}
_CONT = re.compile(r"^(const )?(class )?(std::(__cxx11::)?(vector|list|deque|basic_string)<|dealii::Vector<)")


def is_container(ty):
    return bool(_CONT.match(clean_ty(ty or "")))


class Summary:
    __slots__ = ("ret", "outp", "conds", "coll", "outs", "comp", "thisp")

    def __init__(self):
        self.ret = frozenset()
        self.thisp = {}         # member -> parameters stored in it
        self.comp = {}          # component of a returned tuple -> labels
        self.outp = {}          # param index -> labels written through it
        self.conds = {}         # param index -> (cond loc, collective loc)
        self.outs = {}          # param index -> location where it is reported
        self.coll = False


# calls that hand their arguments on without writing to them
PASSING = {"move", "forward", "make_tuple", "make_pair", "tie", "get", "as_const", "addressof", "ref", "cref", "make_optional"}
R = frozenset(["R"])
TIME = frozenset(["T"])        # own wall clock: never equal, but reportable
E0 = frozenset()
OBJ = frozenset([-1])          # what the object at hand holds


class RankFlow(Flow):
    max_depth = 12

    def __init__(self, eng, T, fn):
        super().__init__(eng)
        self.T, self.fn = T, fn
        self.hits = []          # (node, causes)
        self.reports = []       # (node, labels, what)
        self.counts = []        # (collective, labels of the number of elements)
        self.opens = []         # (node, name labels, causes)
        self.ctl = []
        self.retl = E0
        self.pidx = {p[1]: i for i, p in enumerate(fn.params)}
        self.outp = {}
        self.comp = {}
        self.thisp = {}
        self.elem = []          # places reduced element by element in the open loops

    def alone(self, args, fr):
        """labels of the communicator among the arguments: a group of this
        process only makes nothing agree"""
        out = E0
        for x in args:
            if x is not None and "ompi_communicator_t" in (x.a.get("ty") or ""):
                out |= self.comm(x, fr)
        return out

    def comm(self, x, fr):
        o, of = self.E.origin(x, fr)
        for _ in range(5):
            u = unwrap(o)
            if u is None or u.k != "ref" or u.a.get("dk") != "var":
                break
            own = self.E.owner(of, u.a["id"])
            v = self.E.info(own.body if own.body is not None else own.fn).decl.get(u.a["id"])
            if v is None or not v.c or v.c[0] is None:
                break
            o, of = self.E.origin(v.c[0], own)
        for y in (x, o):
            if y is not None and any(z.k in ("ref", "mem") and z.a.get("n") == "ompi_mpi_comm_self" for z in y.walk()):
                return R
        o = unwrap(o)
        if o is not None and o.k == "ref" and o.a.get("id") in self.pidx and self.E.owner(of, o.a["id"]).parent is None:
            return frozenset([self.pidx[o.a["id"]]])
        return E0

    # ---- number of elements of a container: labels under ("#",) + place
    def sizekey(self, n, fr):
        k = self.key(self.E.place(self.strip(n), fr)) if n is not None else None
        return None if k is None else ("#",) + k

    def size_lab(self, n, fr, st, d=0):
        """labels of the value of n where sizes of containers count by what is
        known about their number of elements"""
        n = unwrap(n)
        if n is None or d > 40:
            return E0
        if n.k == "call" and n.a.get("m") and short(n.a.get("q") or "") in SIZE and n.c and not self.P.targets(n):
            return st[0].get(self.sizekey(n.c[0], fr), E0)
        if n.k == "ref" and n.a.get("dk") in ("var", "binding"):
            o, of = self.E.origin(n, fr)
            if o is not None and o is not n:
                return self.size_lab(o, of, st, d + 1)
        if n.k in ("ref", "mem", "sub") or n.k == "call":
            return self.lab(n, fr, st)
        out = E0
        for c in n.c:
            out |= self.size_lab(c, fr, st, d + 1)
        return out

    def set_size(self, tgt, l, fr, st, weak):
        for c in self.ctl:
            l = l | c
        k = self.sizekey(tgt, fr)
        if k is None:
            return st
        # an element of a container of containers: not told apart
        p = self.E.place(self.strip(tgt), fr)
        if p is not None and ("#",) + p != k:
            return st
        new = (st[0].get(k, E0) | l) if weak else l
        if new == st[0].get(k, E0):
            return st
        d = dict(st[0])
        d[k] = new
        return (d, st[1])

    def shape_of(self, e, fr, st, d=0):
        """labels of the number of elements of the container e"""
        e = unwrap(e)
        if e is None or d > 10:
            return E0
        if e.k in ("ref", "mem"):
            return st[0].get(self.sizekey(e, fr), E0)
        if e.k == "ctor":
            c = [x for x in e.c if x is not None and x.k != "defarg"]
            if not c:
                return E0
            if is_container(c[0].a.get("ty")) or (unwrap(c[0]) is not None and is_container(unwrap(c[0]).a.get("ty"))):
                return self.shape_of(c[0], fr, st, d + 1)
            if unwrap(c[0]) is not None and unwrap(c[0]).k in ("il", "initlist"):
                return E0
            ty = (unwrap(c[0]).a.get("ty") or "") if unwrap(c[0]) is not None else ""
            if re.search(r"\b(int|long|short|char|size_t|size_type)\b", ty) and "iterator" not in ty and "*" not in ty:
                return self.size_lab(c[0], fr, st)
        return E0

    # state: (labels dict as frozenset of (place, labels), causes frozenset)
    def join(self, a, b):
        if a == b:
            return a
        d = dict(a[0])
        for k, v in b[0].items():
            d[k] = d.get(k, E0) | v
        return (d, a[1] | b[1])

    def want(self, callee, call, fr):
        return not isinstance(callee, Fn)

    def body(self, callee, fr, st):
        o = super().body(callee, fr, st)
        if o is not None and fr.parent is not None and st is not None:
            o = (o[0], st[1])          # leaving a lambda ends its divergence
        return o

    def key(self, p):
        if p is None or p[0] in ("tmp", "?"):
            return None
        return root_of(p) if p[0] != "this" else p[:2]

    # ---- labels of an expression
    def lab(self, n, fr, st, d=0):
        if n is None or d > 60:
            return E0
        n = unwrap(n)
        if n is None:
            return E0
        k = n.k
        if k in ("lit", "this", "lambda", "sizeof"):
            return E0
        if "ompi_communicator_t" in (n.a.get("ty") or "") and k in ("ref", "mem", "call", "cast", "un"):
            return self.comm(n, fr)
        if k in ("ref", "mem") and not carries(n.a.get("ty")):
            return E0
        if k in ("ref", "mem", "sub") or (k == "call" and self.E.getter(n) is not None):
            p = self.E.place(n, fr)
            out = E0
            if k == "mem" and n.a.get("id") in self.T.fields:
                out |= R
            if p is not None:
                kk = self.key(p)
                if kk in st[0]:
                    out |= st[0][kk]
                if kk and kk[0] == "this" and len(kk) > 1 and (self.fn.clsid, kk[1]) in self.T.fieldn:
                    out |= R
                if kk and kk[0] == "this" and len(kk) > 1 and fr.this == ("this",):
                    out |= OBJ
                if k == "ref":
                    i = n.a.get("id")
                    own = self.E.owner(fr, i)
                    out |= st[0].get(("var", i, own.uid), E0)
                    if i in own.args and own.args[i][1] is not own and p[0] == "var":
                        x, cf, ty = own.args[i]
                        out |= self.lab(x, cf, st, d + 1)
                    elif own.parent is None and i in self.pidx:
                        out |= frozenset([self.pidx[i]])
                elif p[0] == "var" and p[1] in self.pidx:
                    out |= frozenset([self.pidx[p[1]]])
            if k == "sub":
                out |= self.lab(n.c[0], fr, st, d + 1) | self.lab(n.c[1], fr, st, d + 1)
            elif k == "call":
                for x in n.c:
                    out |= self.lab(x, fr, st, d + 1)
            elif k == "mem" and n.c and p is None:
                out |= self.lab(n.c[0], fr, st, d + 1)
            return out
        if k == "call":
            return self.lab_call(n, fr, st, d)
        out = E0
        for c in n.c:
            out |= self.lab(c, fr, st, d + 1)
        return out

    def lab_call(self, n, fr, st, d):
        q = n.a.get("q") or ""
        s = short(q)
        if s == "now" and ("chrono" in q or "clock" in q):
            return TIME
        if s == "n_cells" and n.a.get("m") and len(n.c) == 2 and literal(n.c[1]) == "0":
            return E0              # every process stores the whole coarse mesh
        if s in SOURCES:
            o = unwrap(n.c[0]) if n.c and n.a.get("m") else None
            ty = clean_ty(o.a.get("ty") or "") if o is not None else ""
            if ty.startswith("dealii::Triangulation<") and s in ("n_active_cells", "n_cells", "active_cell_iterators", "cell_iterators", "begin_active", "n_vertices"):
                p = self.E.place(o, fr)
                if p is not None and p[0] == "var" and p[1] not in self.pidx:
                    return E0          # serial helper mesh, replicated
            return R
        if s == "compute_global_error":
            return E0
        if s in UNIFORM_RESULT:
            if "Utilities::MPI" in q:
                out = al = self.alone(args_of(n), fr)
                if "R" in al:
                    for x in n.c:
                        out |= self.lab(x, fr, st, d + 1)
                return out
            if "Utilities::MPI" in q or n.a.get("m") or s == "n_mpi_processes":
                return E0
        if n.a.get("op") in ("[]", "()") and len(n.c) == 2:
            o = unwrap(n.c[0])
            ty = clean_ty(o.a.get("ty") or "") if o is not None else ""
            if "distributed::Vector<" in ty or "distributed::DynamicBlockVector<" in ty:
                return R
        if n.a.get("op") == "*" and len(n.c) == 2:
            ty = [clean_ty((unwrap(x).a.get("ty") or "") if unwrap(x) is not None else "") for x in n.c]
            if all("distributed::Vector" in t or "distributed::DynamicBlockVector" in t for t in ty):
                return E0
        # local lambdas: labels of their returns
        ts = self.P.targets(n)
        if not ts:
            cal = self.E.callees(n, fr)
            out = E0
            lam = [c for c in cal if not isinstance(c, Fn)]
            if lam and d < 20:
                for c in lam:
                    nf = self.E.inline_frame(c, n, fr)
                    for r in c[0].c[0].walk() if c[0].c and c[0].c[0] is not None else ():
                        if r.k == "ret" and r.c and enclosing(r, "lambda") is c[0]:
                            out |= self.lab(r.c[0], nf, st, d + 3)
                return out
            for x in n.c:
                out |= self.lab(x, fr, st, d + 1)
            return out
        out = E0
        a = args_of(n)
        o = obj_of(n) if n.a.get("m") else None
        for t in ts:
            sm = self.T.sum(t)
            for l in sm.ret:
                if l in ("R", "T"):
                    out |= frozenset([l])
                elif l == -1:
                    out |= self.lab(o, fr, st, d + 1) if o is not None else OBJ
                elif l < len(a):
                    out |= self.lab(a[l], fr, st, d + 1)
        return out

    def rootty(self, k, x):
        if k[0] == "var":
            for f in (self.fn,):
                for nm, pid, ty in f.params:
                    if pid == k[1]:
                        return ty
                v = self.E.info(f).decl.get(k[1])
                if v is not None:
                    return v.a.get("ty")
        if k[0] == "this" and len(k) > 1:
            return self.T.ftype(self.fn.clsid, k[1][1:])
        return x.a.get("ty") if x is not None else ""

    def setl(self, lhs, labels, fr, st, weak=True):
        for c in self.ctl:
            labels = labels | c
        x = unwrap(lhs)
        p = self.E.place(lhs, fr)
        k = self.key(p)
        if k is None or not carries(self.rootty(k, x)):
            return st
        whole = (p == k) and not weak
        cur = st[0].get(k, E0)
        new = labels if whole else (cur | labels)
        if k[0] == "var" and k[1] in self.pidx and len(k) > 2:
            if labels:
                i = self.pidx[k[1]]
                self.outp[i] = self.outp.get(i, E0) | labels
        if k[0] == "this" and len(k) > 1 and fr.this == ("this",):
            pl = frozenset(x for x in labels if isinstance(x, int) and x >= 0)
            if pl:
                self.thisp[k[1]] = self.thisp.get(k[1], E0) | pl
        if k[0] == "this" and len(k) > 1 and "R" in labels and (self.fn.clsid, k[1]) not in self.T.reduced:
            self.T.add_field(self.fn.clsid, k[1])
            self.T.fieldw.setdefault((self.fn.clsid, k[1]), (self.fn.q, lhs.loc))
        if new == cur:
            return st
        d = dict(st[0])
        d[k] = new
        return (d, st[1])

    def on_assign(self, n, lhs, rhs, fr, st):
        op = n.a.get("op")
        x = unwrap(lhs)
        if op == "=" and x is not None and is_container(x.a.get("ty")):
            st = self.set_size(lhs, self.shape_of(rhs, fr, st), fr, st, False)
        if op == "=":
            # x[i] = reduce(x[i]): element by element reduction in place
            r = unwrap(rhs)
            if r is not None and r.k == "call" and "Utilities::MPI" in (r.a.get("q") or "") and short(r.a["q"]) in UNIFORM_RESULT and r.c:
                kl, kr = self.key(self.E.place(lhs, fr)), self.key(self.E.place(r.c[0], fr))
                if kl is not None and kl == kr:
                    return self.clear(lhs, fr, st)
        l = self.lab(rhs, fr, st)
        # an index that differs between processes spreads into the container
        x = unwrap(lhs)
        while x is not None and (x.k == "sub" or (x.k == "call" and x.a.get("op") in ("[]", "()") and len(x.c) == 2)):
            l |= self.lab(x.c[1], fr, st)
            x = unwrap(x.c[0])
        return self.setl(lhs, l, fr, st, weak=(op != "="))

    def on_init(self, i, fr, st):
        nm = i.get("n")
        if nm and i.get("id") and fr.parent is None and carries(self.T.ftype(self.fn.clsid, nm)):
            l = self.lab(i["e"], fr, st)
            pl = frozenset(x for x in l if isinstance(x, int) and x >= 0)
            if pl:
                self.thisp["." + nm] = self.thisp.get("." + nm, E0) | pl
            if "R" in l:
                self.T.add_field(self.fn.clsid, "." + nm)
                self.T.fieldw.setdefault((self.fn.clsid, "." + nm), (self.fn.q, self.fn.loc))
        return st

    def store(self, n, a, fr, st):
        """members of the callee's object that receive labelled arguments"""
        out = E0
        own = True
        if n.k == "call" and n.a.get("m") and n.c:
            p = self.E.place(n.c[0], fr)
            # a local object: the label stays with that object
            own = p is None or p[0] != "var" or p[1] in self.pidx
        for t in self.P.targets(n):
            for f, ls in self.T.sum(t).thisp.items():
                l = E0
                for x in ls:
                    if x < len(a):
                        l |= self.lab(a[x], fr, st)
                for c in self.ctl:
                    l |= c
                if own and "R" in l and (t.clsid, f) not in self.T.reduced:
                    self.T.add_field(t.clsid, f)
                    self.T.fieldw.setdefault((t.clsid, f), (self.fn.q, n.loc))
                if fr.this == ("this",) and n.k == "call" and n.a.get("m") and self.E.place(n.c[0], fr) == ("this",):
                    pl = frozenset(x for x in l if isinstance(x, int) and x >= 0)
                    if pl:
                        self.thisp[f] = self.thisp.get(f, E0) | pl
                out |= l
        return out

    def on_incdec(self, n, fr, st):
        return self.setl(n.c[0], E0, fr, st)

    def on_decl(self, v, fr, st):
        if v.c and v.c[0] is not None and carries(v.a.get("ty")):
            l = self.lab(v.c[0], fr, st)
            for c in self.ctl:
                l |= c
            d = dict(st[0])
            d[("var", v.a["id"], fr.uid)] = l
            if is_container(v.a.get("ty")):
                sl = self.shape_of(v.c[0], fr, st)
                for c in self.ctl:
                    sl |= c
                d[("#", "var", v.a["id"], fr.uid)] = sl
            for i, (_, b) in enumerate(v.a.get("bind") or ()):
                d[("var", b, fr.uid)] = self.comp_label(v.c[0], i, l, fr, st)
            # structured bindings are addressed through their component
            return (d, st[1])
        return st

    def comp_label(self, e, i, l, fr, st):
        e = unwrap(e)
        if e is None or e.k != "call":
            return l
        ts = self.P.targets(e)
        if not ts:
            return l
        out = E0
        for c in self.ctl:
            out |= c
        a = args_of(e)
        o = obj_of(e) if e.a.get("m") else None
        for t in ts:
            sm = self.T.sum(t)
            if i not in sm.comp:
                if sm.ret:
                    return l
                continue
            for x in sm.comp[i]:
                if x in ("R", "T"):
                    out |= frozenset([x])
                elif x == -1:
                    out |= self.lab(o, fr, st) if o is not None else frozenset([-1])
                elif x < len(a):
                    out |= self.lab(a[x], fr, st)
        return out

    def on_return(self, n, fr, st):
        if fr.parent is None:
            l = self.lab(n.c[0], fr, st) if n.c and n.c[0] is not None else E0
            ctl = E0
            for c in self.ctl:
                ctl |= c
            for c in st[1]:
                ctl |= c[1] if c[2] == "ret" else E0
            for i, x in enumerate(components(n.c[0]) if n.c else ()):
                self.comp[i] = self.comp.get(i, E0) | ctl | self.lab(x, fr, st)
            for c in self.ctl:
                l |= c
            for c in st[1]:
                l |= c[1] if c[2] == "ret" else E0
            self.retl |= l
        return st

    def on_call(self, n, fr, st):
        q = n.a.get("q") or ""
        s = short(q)
        T = self.T
        if st[1]:
            if is_collective(n) or any(T.sum(t).coll for t in self.P.targets(n)):
                self.hits.append((n, st[1]))
        elif any(self.ctl):
            if is_collective(n) or any(T.sum(t).coll for t in self.P.targets(n)):
                self.hits.append((n, frozenset(("?", c, "") for c in self.ctl if c)))
        # a differing argument decides about a collective inside the callee
        a = args_of(n)
        for t in self.P.targets(n):
            for i, why in T.sum(t).conds.items():
                if isinstance(i, int) and 0 <= i < len(a):
                    l = self.lab(a[i], fr, st)
                    if l:
                        self.hits.append((n, frozenset([(why[0], l, "arg")])))
        self.sinks(n, s, a, fr, st)
        self.count(n, q, s, a, fr, st)
        if n.a.get("m") and n.c and not self.P.targets(n) and is_container((unwrap(n.c[0]).a.get("ty") or "") if unwrap(n.c[0]) is not None else ""):
            if s in ("resize", "assign", "reinit") and a:
                x = unwrap(a[0])
                l = self.shape_of(x, fr, st) if x is not None and is_container(x.a.get("ty")) else \
                    self.size_lab(a[0], fr, st) if x is not None and "iterator" not in (x.a.get("ty") or "") and "*" not in (x.a.get("ty") or "") else E0
                st = self.set_size(n.c[0], l, fr, st, False)
            elif s in ("push_back", "emplace_back", "insert", "emplace", "pop_back", "erase", "push_front", "emplace_front"):
                st = self.set_size(n.c[0], E0, fr, st, True)
            elif s == "clear":
                st = self.set_size(n.c[0], E0, fr, st, False)
        # effects on arguments
        if s in ("MPI_Allreduce", "MPI_Bcast", "MPI_Allgather", "MPI_Allgatherv") or s == "MPI_Reduce":
            buf = a[1] if s != "MPI_Bcast" else a[0]
            if s in ("MPI_Allgather", "MPI_Allgatherv"):
                buf = a[3] if len(a) > 3 else None
            al = self.alone(a, fr)
            if "R" in al:
                return NotImplemented
            st = self.clear(buf, fr, st)
            return self.setl(self.strip(buf), al, fr, st) if al and buf is not None else st
        if s in ("MPI_Exscan", "MPI_Scan", "MPI_Scatterv", "MPI_Recv", "MPI_Comm_rank", "MPI_Reduce"):
            i = {"MPI_Exscan": 1, "MPI_Scan": 1, "MPI_Scatterv": 4, "MPI_Recv": 0, "MPI_Comm_rank": 1}.get(s)
            if i is not None and i < len(a):
                return self.setl(self.strip(a[i]), R, fr, st)
        if "Utilities::MPI" in q and s in UNIFORM_RESULT and len(a) == 3:
            return self.clear(a[2], fr, st)
        ts = self.P.targets(n)
        if ts:
            l = self.store(n, a, fr, st)
            if l and n.a.get("m") and n.c:
                st = self.setl(n.c[0], l, fr, st)
            for t in ts:
                sm = T.sum(t)
                for i, ls in sm.outp.items():
                    if i >= len(a):
                        continue
                    l = E0
                    for x in ls:
                        if x in ("R", "T"):
                            l |= frozenset([x])
                        elif x == -1:
                            if n.a.get("m") and n.c:
                                l |= self.lab(n.c[0], fr, st)
                        elif x < len(a):
                            l |= self.lab(a[x], fr, st)
                    if l:
                        st = self.setl(self.strip(a[i]), l, fr, st)
            return st
        cal = self.E.callees(n, fr)
        if any(not isinstance(c, Fn) for c in cal):
            return NotImplemented
        # external call: written arguments mix all inputs
        if s in UNIFORM_RESULT or is_collective(n):
            return NotImplemented
        w = write_targets(n)
        if w and n.a.get("op") not in ("<<", ">>"):
            l = E0
            for x in n.c:
                l |= self.lab(x, fr, st)
            if s in ("get_dof_values", "get_function_values", "get_dof_indices", "get_function_gradients", "read_dof_values", "get_interpolated_dof_values"):
                l |= R
            for tgt, kind, val in w:
                if kind in ("call", "arg"):
                    y = unwrap(tgt)
                    ty = clean_ty(y.a.get("ty") or "") if y is not None else ""
                    if "ostream" in ty or "ConditionalOStream" in ty:
                        continue
                    if s in PASSING or tgt.k == "defarg":
                        continue
                    if s == "clear" and kind == "call":
                        st = self.setl(self.strip(tgt), E0, fr, st, weak=False)
                        continue
                    st = self.setl(self.strip(tgt), l, fr, st)
        return self.enter(n, fr, st)

    def count(self, n, q, s, a, fr, st):
        """every process contributes the same number of elements"""
        l = None
        if "Utilities::MPI" in q and s in REDUCTIONS and a and "R" not in self.alone(a, fr):
            x = unwrap(a[0])
            ty = clean_ty(x.a.get("ty") or "") if x is not None else ""
            if is_container(ty) or ty.startswith(("dealii::ArrayView<", "const dealii::ArrayView<")):
                l = self.shape_of(self.viewed(a[0]), fr, st)
        elif s in COUNT_ARG and COUNT_ARG[s] < len(a) and "R" not in self.alone(a, fr):
            l = self.size_lab(a[COUNT_ARG[s]], fr, st)
        if l is not None:
            self.counts.append((n, l))

    @staticmethod
    def viewed(x):
        x = unwrap(x)
        while x is not None and x.c and ((x.k == "ctor" and "ArrayView" in (x.a.get("ty") or x.a.get("q") or "")) or
                                         (x.k == "call" and short(x.a.get("q") or "") in ("make_array_view", "move", "data"))):
            x = unwrap(x.c[0])
        return x

    def sinks(self, n, s, a, fr, st):
        """values written by one process on behalf of all"""
        v = None
        if n.a.get("op") == "<<" and len(n.c) == 2:
            o = unwrap(n.c[0])
            while o is not None and o.k == "call" and o.a.get("op") == "<<" and o.c:
                o = unwrap(o.c[0])
            ty = (o.a.get("ty") or "") if o is not None else ""
            if "ConditionalOStream" in ty or "StreamType" in ty or "MyStream" in ty:
                v = n.c[1]
        elif s == "add_value" and len(a) == 2:
            v = a[1]
        if v is not None:
            self.reports.append((n, self.lab(v, fr, st), v))
        for t in self.P.targets(n):
            for i, loc in self.T.sum(t).outs.items():
                if isinstance(i, int) and 0 <= i < len(a):
                    l = self.lab(a[i], fr, st)
                    if l:
                        self.reports.append((n, l, a[i]))

    def on_ctor(self, n, fr, st):
        self.store(n, n.c, fr, st)
        if "ofstream" in (n.a.get("q") or n.a.get("ty") or "") and n.c and n.c[0] is not None:
            self.opens.append((n, self.lab(n.c[0], fr, st), st[1]))
        return NotImplemented

    @staticmethod
    def strip(n):
        while n is not None and n.k in ("cast", "un") and n.c:
            n = n.c[0]
        return n

    def clear(self, buf, fr, st):
        b = self.strip(buf)
        while b is not None and (b.k == "sub" or (b.k == "call" and b.a.get("op") in ("[]", "()") and len(b.c) == 2)):
            b = self.strip(b.c[0])
        while b is not None and b.c and ((b.k == "call" and (short(b.a.get("q") or "") in ("data", "begin", "begin_raw", "operator*") or
                                                            (b.a.get("op") in ("*", "->") and len(b.c) == 1))) or
                                        (b.k == "ctor" and len(b.c) == 1)):
            b = self.strip(b.c[0])
        k = self.key(self.E.place(b, fr))
        if k is not None and k[0] == "this" and len(k) > 1:
            self.T.reduced.add((self.fn.clsid, k[1]))
        if k is not None:
            for e in self.elem:
                e.add(k)
        if k is not None and k in st[0]:
            d = dict(st[0])
            del d[k]
            return (d, st[1])
        return st

    # ---- control
    def split(self, c, fr, st):
        return self.lab(c, fr, st) if c is not None and c.k != "decl" else E0

    def s_if(self, n, fr, st):
        if n.c[0] is not None:
            st = self.ex(n.c[0], fr, st)
            if st is None:
                return None
        l = self.split(n.c[1], fr, st)
        # a reduction in one branch: the other branch is taken when there is
        # nothing to reduce
        self.elem.append(set())
        if not l:
            t, f = self.cond(n.c[1], fr, st)
            a = self.ex(n.c[2], fr, t) if t is not None else None
            b = self.ex(n.c[3], fr, f) if f is not None else None
            done = self.elem.pop()
            o = self.j(a, b)
            if o is not None and done:
                o = ({k: v for k, v in o[0].items() if k not in done}, o[1])
            return o
        t, f = self.cond(n.c[1], fr, st)
        kinds = self.exits(n.c[2]) | self.exits(n.c[3] if len(n.c) > 3 else None)
        cause = (n.c[1].loc, l, "if")
        self.ctl.append(l)
        a = self.ex(n.c[2], fr, (t[0], t[1] | {cause})) if t is not None else None
        b = self.ex(n.c[3], fr, (f[0], f[1] | {cause})) if f is not None else None
        self.ctl.pop()
        done = self.elem.pop()
        o = self.j(a, b)
        if o is None:
            return None
        if done:
            o = ({k: v for k, v in o[0].items() if k not in done}, o[1])
        cs = frozenset(c for c in o[1] if c != cause)
        for kd in ("ret", "brk", "cnt"):
            if kd in kinds:
                cs |= {(n.c[1].loc, l, kd)}
        return (o[0], cs)

    def exits(self, s):
        out = set()
        if s is None:
            return out

        def walk(x, inloop, insw):
            if x is None or x.k == "lambda":
                return
            if x.k == "ret":
                out.add("ret")
            elif x.k == "break" and not inloop and not insw:
                out.add("brk")
            elif x.k == "cont" and not inloop:
                out.add("cnt")
            il = inloop or x.k in ("for", "rfor", "while", "do")
            for c in x.c:
                walk(c, il, insw or x.k == "switch")
        walk(s, False, False)
        return out

    def loop(self, n, cond, body, inc, fr, st, post=False):
        l = E0
        if n.k == "rfor":
            l = self.lab(n.c[1], fr, st)
        elif cond is not None:
            l = self.lab(cond, fr, st)
        outer = st[1]
        self.elem.append(set())
        o = self._loop2(n, cond, body, inc, fr, st, post, l)
        done = self.elem.pop()
        if o is None:
            return None
        done = done | self.united(n, fr)
        if done:
            o = ({k: v for k, v in o[0].items() if k not in done}, o[1])
        cs = frozenset(c for c in o[1] if c in outer or c[2] == "ret")
        if l and "ret" in self.exits(body):
            cs |= {(n.loc, l, "ret")}
        return (o[0], cs)

    def united(self, n, fr):
        """containers that all processes sent to each other and that this loop
        over everything received merges into: the union is the same everywhere"""
        if n.k != "rfor" or any(self.ctl):
            return set()
        r = unwrap(n.c[1])
        if r is None or r.k != "ref":
            return set()
        d = self.E.info(self.fn).decl.get(r.a.get("id"))
        g = unwrap(d.c[0]) if d is not None and d.c else None
        while g is not None and g.k == "ctor" and len(g.c) == 1:
            g = unwrap(g.c[0])
        if g is None or g.k != "call" or short(g.a.get("q") or "") != "all_gather" or len(g.c) < 2 or "R" in self.alone(args_of(g), fr):
            return set()
        src = self.sources_of(args_of(g)[1])
        out = set()
        for m in n.c[2].walk() if n.c[2] is not None else ():
            if m.k != "call":
                continue
            for x in m.find("ref"):
                if x.a.get("id") in src:
                    out.add(("var", x.a["id"], self.E.owner(fr, x.a["id"]).uid))
        return out

    def sources_of(self, e):
        """local variables whose contents went into e"""
        ids = {x.a.get("id") for x in e.find("ref")} if e.k != "ref" else {e.a.get("id")}
        ids |= {e.a.get("id")} if e.k == "ref" else set()
        ids.discard(None)
        body = self.fn.body
        if body is None:
            return ids
        ch = True
        while ch:
            ch = False
            for l in body.find("rfor"):
                into = {x.a.get("id") for m in (l.c[2].walk() if l.c[2] is not None else ()) if m.k == "call"
                        for x in (m.find("ref"))}
                rid = {x.a.get("id") for x in l.c[1].walk() if x.k == "ref"}
                if into & ids and not rid <= ids:
                    ids |= {x for x in rid if x}
                    ch = True
        return ids

    def _loop2(self, n, cond, body, inc, fr, st, post, l):
        if l:
            cause = (n.loc, l, "loop")
            st = (st[0], st[1] | {cause})
            self.ctl.append(l)
        # a second look: the trip count may become dependent inside the body
        o = super().loop(n, cond, body, inc, fr, st, post)
        if l:
            self.ctl.pop()
        elif cond is not None and o is not None:
            l2 = self.lab(cond, fr, o)
            if l2 and l2 - l:
                cause = (n.loc, l2, "loop")
                st2 = (o[0], o[1] | {cause})
                self.ctl.append(l2)
                o2 = super().loop(n, cond, body, inc, fr, st2, post)
                self.ctl.pop()
                o = self.j(o, o2)
                if o is not None and "ret" in self.exits(body):
                    o = (o[0], o[1] | {(n.loc, l2, "ret")})
        return o

    def ev(self, n, fr, st):
        if n is not None and st is not None and n.k == "cond":
            l = self.lab(n.c[0], fr, st)
            if l:
                cause = (n.loc, l, "if")
                st = self.ev(n.c[0], fr, st)
                if st is None:
                    return None
                a = self.ev(n.c[1], fr, (st[0], st[1] | {cause}))
                b = self.ev(n.c[2], fr, (st[0], st[1] | {cause}))
                o = self.j(a, b)
                return None if o is None else (o[0], frozenset(c for c in o[1] if c != cause))
        return super().ev(n, fr, st)

    def cond(self, n, fr, st):
        # a && b with a differing a: b is evaluated by some processes only
        m = n
        while m is not None and m.k == "cast" and len(m.c) == 1:
            m = m.c[0]
        if m is not None and m.k == "bin" and m.a.get("op") in ("&&", "||"):
            l = self.lab(m.c[0], fr, st)
            if l:
                cause = (m.c[0].loc, l, "if")
                t1, f1 = self.cond(m.c[0], fr, st)
                go = t1 if m.a["op"] == "&&" else f1
                if go is not None:
                    t2, f2 = self.cond(m.c[1], fr, (go[0], go[1] | {cause}))
                    rm = lambda s: None if s is None else (s[0], frozenset(c for c in s[1] if c != cause))
                    t2, f2 = rm(t2), rm(f2)
                    if m.a["op"] == "&&":
                        return t2, self.j(f1, f2)
                    return self.j(t1, t2), f2
        return super().cond(n, fr, st)


class Ranks:
    """summaries of the whole program"""

    def __init__(self, P, E):
        self.P, self.E = P, E
        find_owners(P)
        self.s = {}
        self.fields = set()
        self.fieldn = set()
        self.fieldw = {}
        self.ftypes = {}
        self.changed = True
        self.collectives()
        self.hits, self.reports, self.opens, self.counts = {}, {}, {}, {}
        self.reduced = set()       # members that hold the result of a reduction
        for f in P.fns:
            self.analyse(f)
        self.s = {}
        self.fieldn = set()
        self.fieldw = {}
        self.collectives()
        for rnd in range(6):
            self.changed = False
            for f in P.fns:
                self.analyse(f)
            if not self.changed:
                break
        self.rounds = rnd + 1

    def sum(self, f):
        r = self.s.get(f.id)
        if r is None:
            r = self.s[f.id] = Summary()
        return r

    def ftype(self, cls, nm):
        r = self.ftypes.get((cls, nm))
        if r is None:
            r = ""
            for rec in self.P.rec_by_id.get(cls, ()):
                for f in rec.fields:
                    if f["n"] == nm:
                        r = f["ty"]
            self.ftypes[(cls, nm)] = r
        return r

    def add_field(self, cls, nm):
        if (cls, nm) not in self.fieldn:
            self.fieldn.add((cls, nm))
            self.changed = True

    def collectives(self):
        P = self.P
        calls = {}
        for f in P.fns:
            c = set()
            for n in f.find("call", "ctor"):
                if n.k == "call" and is_collective(n):
                    self.sum(f).coll = True
                for t in P.targets(n):
                    c.add(t.id)
            calls.setdefault(f.id, set()).update(c)
        ch = True
        while ch:
            ch = False
            for i, cs in calls.items():
                s = self.s.get(i)
                if s is not None and s.coll:
                    continue
                if any(self.s.get(x) is not None and self.s[x].coll for x in cs):
                    self.s.setdefault(i, Summary()).coll = True
                    ch = True

    def analyse(self, f):
        fl = RankFlow(self.E, self, f)
        fr = self.E.root(f)
        st = ({}, frozenset())
        fl.run(f, st, fr)
        sm = self.sum(f)
        r = sm.ret | fl.retl
        if r != sm.ret:
            sm.ret = r
            self.changed = True
        for i, l in fl.thisp.items():
            if l - sm.thisp.get(i, E0):
                sm.thisp[i] = sm.thisp.get(i, E0) | l
                self.changed = True
        for i, l in fl.comp.items():
            if l - sm.comp.get(i, frozenset(["-"])):
                sm.comp[i] = sm.comp.get(i, E0) | l
                self.changed = True
            sm.comp.setdefault(i, E0)
        for i, l in fl.outp.items():
            o = sm.outp.get(i, E0)
            if o | l != o:
                sm.outp[i] = o | l
                self.changed = True
        hits = []
        for n, causes in fl.hits:
            for c in causes:
                if "R" in c[1] or "T" in c[1]:
                    hits.append((n, c))
                for x in c[1]:
                    if x not in ("R", "T") and x not in sm.conds:
                        sm.conds[x] = (c[0], n.loc)
                        self.changed = True
        self.hits[id(f)] = (f, hits)
        reps = []
        for n, l, v in fl.reports:
            if "R" in l:
                reps.append((n, True, v))
            else:
                reps.append((n, False, v))
            for x in l:
                if x not in ("R", "T") and x not in sm.outs:
                    sm.outs[x] = n.loc
                    self.changed = True
        self.reports[id(f)] = (f, reps)
        self.opens[id(f)] = (f, fl.opens)
        self.counts[id(f)] = (f, fl.counts)
