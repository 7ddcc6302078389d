#!/usr/bin/env python3
"""Generate the declaration overlay used to type-check hpsint against the
installed deal.II 9.5.1.

hpsint targets a newer deal.II than the one installed here; a handful of member
declarations are missing.  The overlay copies the affected deal.II headers and
inserts *declarations only* (nothing is ever linked or run), so that every
hpsint translation unit can be parsed and instantiated by clang.
"""
import os, re, sys

SRC = "/usr/include/deal.II"


def patch(path, subs):
    s = open(os.path.join(SRC, path)).read()
    for pat, rep, n in subs:
        s2, k = re.subn(pat, rep, s, flags=re.M | re.S)
        if n and k != n or k == 0:
            sys.exit(f"overlay: pattern {pat!r} matched {k} times in {path}")
        s = s2
    return s


def main(out):
    files = {}
    files["dofs/dof_handler.h"] = patch("dofs/dof_handler.h", [
        (r"(\n  MPI_Comm\n  get_communicator\(\) const;)",
         r"\1\n  MPI_Comm get_mpi_communicator() const;", 1)])
    files["lac/affine_constraints.h"] = patch("lac/affine_constraints.h", [
        (r"(\n  reinit\(const IndexSet &local_constraints = IndexSet\(\)\);)",
         r"\1\n  void reinit(const IndexSet &owned, const IndexSet &relevant);", 1)])
    files["base/mpi.h"] = patch("base/mpi.h", [
        (r"(compute_index_owner\(const IndexSet &owned_indices,\s*const IndexSet &indices_to_look_up,\s*const MPI_Comm  comm\);)",
         r"\1\n    std::pair<std::vector<unsigned int>, std::map<unsigned int, IndexSet>>\n"
         r"    compute_index_owner_and_requesters(const IndexSet &owned_indices,\n"
         r"                        const IndexSet &indices_to_look_up,\n"
         r"                        const MPI_Comm  &comm);", 1)])
    files["numerics/solution_transfer.h"] = patch("numerics/solution_transfer.h", [
        (r"(\n  SolutionTransfer\(const DoFHandler<dim, spacedim> &dof\);)",
         r"\1\n"
         r"  void prepare_for_coarsening_and_refinement(const std::vector<const VectorType *> &all_in);\n"
         r"  void interpolate(std::vector<VectorType *> &all_out);\n"
         r"  void interpolate(VectorType &out);\n"
         r"  void prepare_for_serialization(const VectorType &in);\n"
         r"  void prepare_for_serialization(const std::vector<const VectorType *> &all_in);\n"
         r"  void deserialize(VectorType &in);\n"
         r"  void deserialize(std::vector<VectorType *> &all_in);\n", 1)])
    files["base/vectorization.h"] = patch("base/vectorization.h", [
        (r"(\n  (?:Number|double|float)\n  sum\(\))\n", r"\1 const\n", 0),
        ])
    for f, s in files.items():
        p = os.path.join(out, "deal.II", f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != s:
            open(p, "w").write(s)
    # out-of-line definitions of sum() must agree
    p = os.path.join(out, "deal.II/base/vectorization.h")
    s = open(p).read()
    s = re.sub(r"(::sum\(\))(\s*\{)", r"\1 const\2", s)
    open(p, "w").write(s)
    p = os.path.join(out, "pf-applications/base")
    os.makedirs(p, exist_ok=True)
    open(os.path.join(p, "revision.h"), "w").write(
        "#pragma once\n#define PF_APPLICATIONS_GIT_BRANCH \"x\"\n"
        "#define PF_APPLICATIONS_GIT_REVISION \"x\"\n"
        "#define PF_APPLICATIONS_GIT_SHORTREV \"x\"\n")
    os.makedirs(os.path.join(out, "deal.II/base"), exist_ok=True)
    open(os.path.join(out, "deal.II/base/config.h"), "w").write(
        "#include_next <deal.II/base/config.h>\n#undef DEAL_II_WITH_SUNDIALS\n")


main(sys.argv[1])
