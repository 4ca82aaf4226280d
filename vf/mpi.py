"""What the MPI calls mean: argument roles, datatypes, communicators."""
import re
from .core import canon, Ctx, strip, walk, kids

# role -> argument index. bufs: list of (buffer, count, datatype) argument triples
SIG = {
    "MPI_Send": dict(bufs=[(0, 1, 2)], peer=3, tag=4, comm=5, dir="s"),
    "MPI_Ssend": dict(bufs=[(0, 1, 2)], peer=3, tag=4, comm=5, dir="s"),
    "MPI_Rsend": dict(bufs=[(0, 1, 2)], peer=3, tag=4, comm=5, dir="s"),
    "MPI_Bsend": dict(bufs=[(0, 1, 2)], peer=3, tag=4, comm=5, dir="s"),
    "MPI_Recv": dict(bufs=[(0, 1, 2)], peer=3, tag=4, comm=5, dir="r"),
    "MPI_Isend": dict(bufs=[(0, 1, 2)], peer=3, tag=4, comm=5, req=6, dir="s"),
    "MPI_Issend": dict(bufs=[(0, 1, 2)], peer=3, tag=4, comm=5, req=6, dir="s"),
    "MPI_Irecv": dict(bufs=[(0, 1, 2)], peer=3, tag=4, comm=5, req=6, dir="r"),
    "MPI_Sendrecv": dict(bufs=[(0, 1, 2), (5, 6, 7)], peer=3, tag=4, peer2=8, tag2=9, comm=10, dir="sr"),
    "MPI_Probe": dict(bufs=[], peer=0, tag=1, comm=2),
    "MPI_Iprobe": dict(bufs=[], peer=0, tag=1, comm=2),
    "MPI_Bcast": dict(bufs=[(0, 1, 2)], root=3, comm=4, coll=True),
    "MPI_Ibcast": dict(bufs=[(0, 1, 2)], root=3, comm=4, req=5, coll=True),
    "MPI_Reduce": dict(bufs=[(0, 2, 3), (1, 2, 3)], op=4, root=5, comm=6, coll=True),
    "MPI_Ireduce": dict(bufs=[(0, 2, 3), (1, 2, 3)], op=4, root=5, comm=6, req=7, coll=True),
    "MPI_Allreduce": dict(bufs=[(0, 2, 3), (1, 2, 3)], op=4, comm=5, coll=True),
    "MPI_Iallreduce": dict(bufs=[(0, 2, 3), (1, 2, 3)], op=4, comm=5, req=6, coll=True),
    "MPI_Exscan": dict(bufs=[(0, 2, 3), (1, 2, 3)], op=4, comm=5, coll=True),
    "MPI_Scan": dict(bufs=[(0, 2, 3), (1, 2, 3)], op=4, comm=5, coll=True),
    "MPI_Gather": dict(bufs=[(0, 1, 2), (3, 4, 5)], root=6, comm=7, coll=True),
    "MPI_Gatherv": dict(bufs=[(0, 1, 2), (3, 4, 6)], root=7, comm=8, coll=True),
    "MPI_Scatter": dict(bufs=[(0, 1, 2), (3, 4, 5)], root=6, comm=7, coll=True),
    "MPI_Scatterv": dict(bufs=[(0, 1, 3), (4, 5, 6)], root=7, comm=8, coll=True),
    "MPI_Allgather": dict(bufs=[(0, 1, 2), (3, 4, 5)], comm=6, coll=True),
    "MPI_Allgatherv": dict(bufs=[(0, 1, 2), (3, 4, 6)], comm=7, coll=True),
    "MPI_Alltoall": dict(bufs=[(0, 1, 2), (3, 4, 5)], comm=6, coll=True),
    "MPI_Alltoallv": dict(bufs=[(0, 1, 3), (4, 5, 7)], comm=8, coll=True),
    "MPI_Barrier": dict(bufs=[], comm=0, coll=True),
    "MPI_Comm_split": dict(bufs=[], comm=0, coll=True),
    "MPI_Comm_dup": dict(bufs=[], comm=0, coll=True),
    "MPI_Comm_create": dict(bufs=[], comm=0, coll=True),
    "MPI_Cart_create": dict(bufs=[], comm=0, coll=True),
    "MPI_File_open": dict(bufs=[], comm=0, coll=True),
    "MPI_Comm_rank": dict(bufs=[], comm=0),
    "MPI_Comm_size": dict(bufs=[], comm=0),
    "MPI_Comm_group": dict(bufs=[], comm=0),
    # file access through a handle opened on a communicator
    "MPI_File_write_at": dict(bufs=[(2, 3, 4)], fh=0),
    "MPI_File_write_at_all": dict(bufs=[(2, 3, 4)], fh=0, coll=True),
    "MPI_File_read_at": dict(bufs=[(2, 3, 4)], fh=0),
    "MPI_File_read_at_all": dict(bufs=[(2, 3, 4)], fh=0, coll=True),
    "MPI_File_write": dict(bufs=[(1, 2, 3)], fh=0),
    "MPI_File_write_all": dict(bufs=[(1, 2, 3)], fh=0, coll=True),
    "MPI_File_read": dict(bufs=[(1, 2, 3)], fh=0),
    "MPI_File_read_all": dict(bufs=[(1, 2, 3)], fh=0, coll=True),
    "MPI_File_write_ordered": dict(bufs=[(1, 2, 3)], fh=0, coll=True),
    "MPI_File_write_shared": dict(bufs=[(1, 2, 3)], fh=0),
    "MPI_File_close": dict(bufs=[], fh=0, coll=True),
    "MPI_File_set_size": dict(bufs=[], fh=0, coll=True),
    "MPI_File_set_view": dict(bufs=[], fh=0, coll=True),
    "MPI_File_sync": dict(bufs=[], fh=0, coll=True),
    "MPI_Win_create": dict(bufs=[], comm=4, coll=True),
}

COMPLETE_ONE = ("MPI_Wait", "MPI_Test")
COMPLETE_ARR = ("MPI_Waitall", "MPI_Testall", "MPI_Waitany", "MPI_Testany", "MPI_Waitsome")

# predefined datatypes -> normalised C element type
MPI_CONST = {
    "ompi_mpi_int": "int", "ompi_mpi_unsigned": "unsigned int", "ompi_mpi_char": "char", "ompi_mpi_double": "double",
    "ompi_mpi_float": "float", "ompi_mpi_long": "long", "ompi_mpi_unsigned_long": "unsigned long",
    "ompi_mpi_short": "short", "ompi_mpi_unsigned_short": "unsigned short", "ompi_mpi_byte": "byte",
    "ompi_mpi_signed_char": "signed char", "ompi_mpi_unsigned_char": "unsigned char",
    "ompi_mpi_long_long_int": "long", "ompi_mpi_unsigned_long_long": "unsigned long",
    "ompi_mpi_c_bool": "bool", "ompi_mpi_cxx_bool": "bool", "ompi_mpi_long_double": "long double",
    "ompi_mpi_c_complex": "std::complex<float>", "ompi_mpi_c_float_complex": "std::complex<float>",
    "ompi_mpi_c_double_complex": "std::complex<double>", "ompi_mpi_cxx_dblcplex": "std::complex<double>",
    "ompi_mpi_cxx_cplex": "std::complex<float>", "ompi_mpi_dblcplex": "std::complex<double>",
    "ompi_mpi_cplex": "std::complex<float>", "ompi_mpi_float_complex": "std::complex<float>",
    "ompi_mpi_int8_t": "signed char", "ompi_mpi_uint8_t": "unsigned char", "ompi_mpi_int16_t": "short",
    "ompi_mpi_uint16_t": "unsigned short", "ompi_mpi_int32_t": "int", "ompi_mpi_uint32_t": "unsigned int",
    "ompi_mpi_int64_t": "long", "ompi_mpi_uint64_t": "unsigned long", "ompi_mpi_offset": "long", "ompi_mpi_aint": "long",
    "ompi_mpi_datatype_null": "null",
}


def norm_type(t):
    """normal form of a C++ scalar type name"""
    t = re.sub(r"\b(const|volatile)\b", "", t).strip()
    t = t.replace("& ", "").rstrip("&").strip()
    t = re.sub(r"\s+", " ", t)
    al = {"size_t": "unsigned long", "std::size_t": "unsigned long", "long long": "long", "unsigned long long": "unsigned long",
          "uint64_t": "unsigned long", "int64_t": "long", "uint32_t": "unsigned int", "int32_t": "int",
          "unsigned": "unsigned int", "std::byte": "byte", "long int": "long", "long unsigned int": "unsigned long"}
    return al.get(t, t)


def call_name(n):
    return n.get("n") or "" if n.get("k") == "call" else ""


def arg(n, i):
    a = n.get("a", [])
    return a[i] if i is not None and i < len(a) else None


def find_in(c, pred):
    """first subtree of a canonical tree with pred"""
    if not isinstance(c, tuple):
        return None
    if pred(c):
        return c
    for x in c:
        if isinstance(x, tuple):
            r = find_in(x, pred)
            if r is not None:
                return r
    return None


SYS = "combigrid::MPISystem::"
COMM_GETTERS = {"getGlobalComm": "global", "getThirdLevelComms": "thirdLevel", "getLocalComm": "local", "getWorldComm": "world",
                "getGlobalReduceComm": "globalReduce", "getOutputGroupComm": "outputGroup", "getOutputComm": "output"}
COMM_FIELDS = {"globalComm_": "global", "thirdLevelComms_": "thirdLevel", "localComm_": "local", "worldComm_": "world",
               "globalReduceComm_": "globalReduce", "outputGroupComm_": "outputGroup", "outputComm_": "output"}


def comm_class(c):
    """which communicator of the system a canonical expression denotes, or None"""
    def p(x):
        if not x:
            return False
        if x[0] == "call" and isinstance(x[1], str) and x[1].startswith(SYS) and x[1][len(SYS):] in COMM_GETTERS:
            return True
        return x[0] == "field" and x[2] in COMM_FIELDS and "MPISystem" in str(x[1])
    r = find_in(c, p)
    if r is None:
        return None
    return COMM_GETTERS[r[1][len(SYS):]] if r[0] == "call" else COMM_FIELDS[r[2]]


ABSTR = {"type_float": "float", "type_double": "double", "type_double_complex": "std::complex<double>",
         "type_float_complex": "std::complex<float>", "type_int32_t": "int", "type_int64_t": "long", "type_size_t": "unsigned long",
         "type_char": "char", "type_uint8_t": "unsigned char", "type_uint16_t": "unsigned short",
         "type_uint32_t": "unsigned int", "type_uint64_t": "unsigned long", "type_int8_t": "signed char", "type_int16_t": "short",
         "type_bool": "bool", "type_short": "short"}


def dtype(c):
    """normalised element type a canonical datatype expression denotes, or None"""
    def p(x):
        return bool(x) and ((x[0] == "gvar" and str(x[1]).split("::")[-1] in MPI_CONST) or
                            (x[0] == "enum" and str(x[1]).split("::")[-1].startswith("type_")) or
                            (x[0] == "call" and "getabstractionDataType<" in str(x[1])))
    r = find_in(c, p)
    if r is None:
        return None
    if r[0] == "gvar":
        return MPI_CONST[str(r[1]).split("::")[-1]]
    if r[0] == "call":
        return norm_type(r[1].split("getabstractionDataType<", 1)[1].rstrip(">"))
    return ABSTR.get(str(r[1]).split("::")[-1])
