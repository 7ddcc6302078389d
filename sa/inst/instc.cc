// Instantiation driver for static analysis only: never linked, never run.
// Explicitly instantiates the templates that no application of the repository
// instantiates, so that their bodies are available type-resolved.
#define FE_DEGREE 1
#define N_Q_POINTS_1D FE_DEGREE + 1
#define WITH_TIMING

#include <deal.II/base/config.h>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

#include <pf-applications/sintering/free_energy.h>
#include <pf-applications/sintering/operator_sintering_generic.h>
#include <pf-applications/sintering/driver.h>
#include <pf-applications/sintering/operator_sintering_coupled_monolithic.h>
#include <pf-applications/sintering/projection.h>
#include <pf-applications/sintering/boundary_conditions.h>

#include <pf-applications/base/debug.h>
#include <pf-applications/base/tensor.h>
#include <pf-applications/grain_tracker/distributed_stitching.h>
#include <pf-applications/grain_tracker/ellipsoid.h>
#include <pf-applications/grain_tracker/tracker.h>
#include <pf-applications/grain_tracker/tracking.h>
#include <pf-applications/grid/bounding_box_filter.h>
#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/lac/preconditioners.h>
#include <pf-applications/lac/solvers_linear.h>
#include <pf-applications/lac/solvers_nonlinear.h>
#include <pf-applications/numerics/functions.h>
#include <pf-applications/numerics/output.h>
#include <pf-applications/numerics/vector_tools.h>
#include <pf-applications/time_integration/solution_history.h>
#include <pf-applications/time_integration/time_integrator_data.h>
#include <pf-applications/time_integration/time_marching.h>

using namespace dealii;

using Number = double;
using VA     = VectorizedArray<double>;
using SAVec    = LinearAlgebra::distributed::Vector<double>;
using SABVec   = LinearAlgebra::distributed::DynamicBlockVector<double>;
using OA     = boost::archive::binary_oarchive;
using IA     = boost::archive::binary_iarchive;

// ---- linear algebra
template class dealii::LinearAlgebra::distributed::DynamicBlockVector<double>;
template class TimeIntegration::SolutionHistory<SABVec>;
template class TimeIntegration::TimeIntegratorData<double>;
template class Function1DConstant<double>;
template class Function1DPiecewise<double>;
template struct Sintering::Postprocessors::BlockVectorWrapper<std::vector<SAVec>>;

// ---- grain tracker
template class GrainTracker::Ellipsoid<2, double>;
template class GrainTracker::Ellipsoid<3, double>;
template struct GrainTracker::RepresentationSpherical<2>;
template struct GrainTracker::RepresentationElliptical<2>;
template struct GrainTracker::RepresentationElliptical<3>;
template struct GrainTracker::RepresentationWavefront<2>;
template class GrainTracker::Segment<2>;
template class GrainTracker::Grain<2>;
template class GrainTracker::Tracker<2, double>;

template void GrainTracker::Ellipsoid<2, double>::serialize(OA &, const unsigned int);
template void GrainTracker::Ellipsoid<2, double>::serialize(IA &, const unsigned int);
template void GrainTracker::RepresentationSpherical<2>::serialize(OA &, const unsigned int);
template void GrainTracker::RepresentationElliptical<2>::serialize(OA &, const unsigned int);
template void GrainTracker::RepresentationWavefront<2>::serialize(OA &, const unsigned int);

// ---- coupled operator
namespace Sintering
{
  template <int dim, typename Number, typename VectorizedArrayType>
  class SAOperatorCoupled
    : public SinteringOperatorCoupledMonolithic<
        dim,
        Number,
        VectorizedArrayType,
        SAOperatorCoupled<dim, Number, VectorizedArrayType>>
  {
  public:
    using T    = SAOperatorCoupled<dim, Number, VectorizedArrayType>;
    using Base = SinteringOperatorCoupledMonolithic<dim,
                                                    Number,
                                                    VectorizedArrayType,
                                                    T>;
    using Base::Base;

    template <typename... Arg>
    static T
    create(
      const MatrixFree<dim, Number, VectorizedArrayType>      &matrix_free,
      const AffineConstraints<Number>                         &constraints,
      const FreeEnergy<VectorizedArrayType>                   &free_energy,
      const SinteringOperatorData<dim, VectorizedArrayType>   &sintering_data,
      const TimeIntegration::SolutionHistory<SABVec>          &solution_history,
      const AdvectionMechanism<dim, Number, VectorizedArrayType> &,
      const bool matrix_based,
      Arg &&...)
    {
      return T(matrix_free,
               constraints,
               free_energy,
               sintering_data,
               solution_history,
               matrix_based);
    }

    template <unsigned int with_time_derivative = 2>
    void
    evaluate_nonlinear_residual(
      SABVec &,
      const SABVec &,
      const std::function<void(const unsigned int, const unsigned int)> = {},
      const std::function<void(const unsigned int, const unsigned int)> = {}) const
    {}

    template <typename... A>
    void
    precondition_advection_ch(A &&...) const
    {}

    template <typename... A>
    void
    precondition_advection_ac(A &&...) const
    {}

    EquationType
    equation_type(const unsigned int) const override
    {
      return EquationType::TimeDependent;
    }

    unsigned int
    n_components() const override
    {
      return this->data.n_components() + dim;
    }

    static constexpr unsigned int
    n_grains_to_n_components(const unsigned int n_grains)
    {
      return n_grains + 2 + dim;
    }

    unsigned int
    n_grains() const
    {
      return this->data.n_grains();
    }

    unsigned int
    n_additional_components() const override
    {
      return 0;
    }

    template <int n_comp, int n_grains, typename FECellIntegratorType>
    void
    do_vmult_kernel(FECellIntegratorType &phi) const
    {
      for (unsigned int q = 0; q < phi.n_q_points; ++q)
        {
          phi.submit_value(phi.get_value(q), q);
          phi.submit_gradient(phi.get_gradient(q), q);
        }
    }
  };
} // namespace Sintering

template class Sintering::SinteringOperatorCoupledBase<
  2, double, VA, Sintering::SAOperatorCoupled<2, double, VA>>;
template class Sintering::SinteringOperatorCoupledMonolithic<
  2, double, VA, Sintering::SAOperatorCoupled<2, double, VA>>;

using COp = Sintering::SAOperatorCoupled<2, double, VA>;
template void Sintering::OperatorBase<2, double, VA, COp>::vmult<SABVec>(
  SABVec &, const SABVec &) const;

// ---- block preconditioner with mechanics, solid operator
template class Sintering::OperatorSolid<2, double, VA>;
template class Sintering::
  BlockPreconditioner2<2, double, VA, Sintering::SinteringOperatorGeneric>;
template class Sintering::MassMatrix<2, double, VA>;

// ---- sintering data, advection
template class Sintering::AdvectionCellData<2, double, VA>;
template class Sintering::AdvectionMechanism<2, double, VA>;
template struct Sintering::Postprocessors::StateData<2, double>;
template struct Sintering::Postprocessors::ProjectedData<2, double>;

void
sa_instantiate_functions(DoFHandler<2>                      &dof,
                         SABVec                               &bv,
                         SAVec                                &v,
                         Mapping<2>                         &mapping,
                         AffineConstraints<double>          &ac,
                         std::array<std::vector<unsigned int>, 2> &dispidx,
                         MatrixFree<2, double, VA>          &mf)
{
  VectorTools::split_up_components_fast(v, bv);
  VectorTools::merge_components_fast(bv, v);
  (void)dof;
  (void)mapping;
  (void)ac;
  (void)dispidx;
  (void)mf;
}

#include <pf-applications/sintering/initial_values.h>
template class Sintering::Problem<2, Sintering::SAOperatorCoupled, Sintering::FreeEnergy, double, VA>;
