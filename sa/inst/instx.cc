// Instantiation driver for static analysis only: headers no application
// includes.
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <deal.II/base/config.h>
#include <pf-applications/base/fe_integrator.h>
#include <pf-applications/base/tensor.h>
#include <pf-applications/grain_tracker/cell.h>
#include <pf-applications/sintering/inelastic.h>

template class GrainTracker::Cell<2>;
template void GrainTracker::Cell<2>::serialize(boost::archive::binary_oarchive &, const unsigned int);
template class Sintering::InelasticStrains<2, double, dealii::VectorizedArray<double>>;
