// 3D instantiation of the driver (static analysis only).
#define FE_DEGREE 1
#define N_Q_POINTS_1D FE_DEGREE + 1
#define WITH_TIMING
#include <pf-applications/sintering/free_energy.h>
#include <pf-applications/sintering/operator_sintering_generic.h>
#include <pf-applications/sintering/driver.h>
using namespace dealii;
template class Sintering::Problem<3, Sintering::SinteringOperatorGeneric, Sintering::FreeEnergy, double, VectorizedArray<double>>;
