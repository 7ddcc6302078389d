// Instantiation driver for static analysis only: block vectors and scalar
// functions with all public members.
#include <deal.II/base/config.h>

#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/numerics/functions.h>

using Block = dealii::LinearAlgebra::distributed::Vector<double>;
using DBV   = dealii::LinearAlgebra::distributed::DynamicBlockVector<double>;

template class dealii::LinearAlgebra::distributed::DynamicBlockVector<double>;
template class Function1DConstant<double>;
template class Function1DPiecewise<double>;

void
block_vectors(std::vector<std::shared_ptr<Block>> &v)
{
  DBV a(v.begin(), v.end());
}
