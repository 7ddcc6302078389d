// Instantiation driver for static analysis only: energies and mobilities with
// all public formulas.
#include <deal.II/base/config.h>

#include <pf-applications/base/tensor.h>
#include <pf-applications/sintering/free_energy.h>
#include <pf-applications/sintering/mobility.h>
#include <pf-applications/sintering/operator_grain_growth.h>
#include <pf-applications/sintering/operator_grand_potential_greenquist.h>
#include <pf-applications/time_integration/time_integrator_data.h>
#include <pf-applications/time_integration/time_schemes.h>

template struct TimeIntegration::BDF1Scheme<double>;
template struct TimeIntegration::BDF2Scheme<double>;
template struct TimeIntegration::BDF3Scheme<double>;
template class TimeIntegration::TimeIntegratorData<double>;
template TimeIntegration::IntegrationSchemeVariant<double>
TimeIntegration::create_time_scheme<double>(std::string);

using namespace Sintering;
using V = dealii::VectorizedArray<double>;

template <typename M>
void
mobility(const M &m)
{
  const V                                  *v = nullptr;
  const dealii::Tensor<1, 2, V>            *g = nullptr;
  dealii::Tensor<1, 2, V>                   d;
  V                                         c;
  (void)m.M_vol(c);
  (void)m.M_vap(c);
  (void)m.M_surf(c, d);
  (void)m.M_gb(v, 3u, g);
  (void)m.dM_dc(c, v, d, g);
  (void)m.dM_dgrad_c(c, d, d);
  (void)m.dM_detai(c, v, 3u, d, g, 1u);
  (void)m.apply_M(c, v, 3u, d, g, d);
  (void)m.apply_M_derivative(v, g, 3u, v, g);
  (void)m.dM_vol_dc(c);
  (void)m.dM_surf_dc(c, d);
  (void)m.Lgb();
}

using EnergyMask = hpsint::EnergyAll;

template <typename F>
void
energy(const F &f)
{
  const V *v = nullptr;
  V       *w = nullptr;
  const auto all = f.template eval<EnergyMask>(v, 3u);
  (void)all.f();
  (void)all.df_detai(*v);
  (void)all.d2f_dc2();
  (void)all.d2f_detai2(*v);
  (void)all.d2f_detaidetaj(*v, *v);
  f.apply_d2f_detaidetaj(1.0, v, 3u, v, w);

  // the other ways of evaluating
  (void)f.template eval<EnergyMask, 1>(v).f();
  (void)f.template eval<EnergyMask, 2>(v).f();
  (void)f.template eval<EnergyMask, 3>(v).f();
  (void)f.template eval<EnergyMask, 4>(v).f();
  const dealii::Tensor<1, 4, V> t4;
  const dealii::Tensor<1, 5, V> t5;
  const std::array<V, 4>        a4{};
  const std::array<V, 5>        a5{};
  (void)f.template eval<EnergyMask>(t4).f();
  (void)f.template eval<EnergyMask>(t5).f();
  (void)f.template eval<EnergyMask>(a4).f();
  (void)f.template eval<EnergyMask>(a5).f();
  (void)f.template eval<EnergyMask>(t5, 3u).f();
  (void)f.template eval<EnergyMask>(a5, 3u).f();
  (void)f.template eval<EnergyMask, 2>(t4).f();
  (void)f.template eval<EnergyMask, 3>(t5).f();
  (void)f.template eval<EnergyMask, 2>(a4).f();
  (void)f.template eval<EnergyMask, 3>(a5).f();
  // reduced evaluators
  (void)f.template eval<hpsint::EnergySecond>(v, 3u).d2f_detai2(*v);
  (void)f.template eval<hpsint::EnergySecond>(v, 3u).d2f_detaidetaj(*v, *v);
  (void)f.template eval<hpsint::EnergySecond, 2>(v).d2f_detai2(*v);
}

void
all(const MobilityScalar<2, V>        &a,
    const MobilityTensorial<2, V>     &b,
    const FreeEnergy<V>               &f,
    const GrainGrowthFreeEnergy<V>    &g,
    const GreenquistFreeEnergy<V>     &h)
{
  mobility(a);
  mobility(b);
  energy(f);
  energy(g);
  energy(h);
  const V *v = nullptr;
  const auto ef = f.eval<EnergyMask>(v, 3u);
  (void)ef.df_dc();
  (void)ef.d2f_dcdetai(*v);
  const auto e = h.eval<EnergyMask>(v, 3u);
  V          p;
  (void)e.H(p);
  (void)e.dH(p);
  (void)e.d2H(p);
  (void)e.hb();
  (void)e.dhb();
  (void)e.d2hb();
  (void)e.hm();
  (void)e.dhm();
  (void)e.d2hm();
  (void)e.chi();
  (void)e.dchi_dphi();
  (void)e.epsilon();
  (void)e.depsilon_dphi();
  (void)e.d2epsilon_dphi2();
  (void)e.kappa();
  (void)e.dkappa_dphi();
  (void)e.d2kappa_dphi2();
  (void)e.omega_b();
  (void)e.domega_b_dmu();
  (void)e.d2omega_b_dmu2();
  (void)e.omega_m();
  (void)e.domega_m_dmu();
  (void)e.domega_m_dphasei(p);
  (void)e.d2omega_m_dmu2(p);
  (void)e.d2omega_m_dmudphasei(p);
  (void)e.d3omega_m_dmudphasei2(p);
  (void)e.d3omega_m_dmudphaseidphasej(p, p);
  (void)e.d2omega_m_dphasei2(p);
  (void)e.d2omega_m_dphaseidphasej(p, p);
  (void)e.cm_eq();
  (void)e.dcm_eq_dphasei(p);
  (void)e.d2cm_eq_dphasei2(p);
  (void)e.d2cm_eq_dphaseiphasej(p, p);
  (void)e.zeta();
  (void)e.dzeta_dphasei(p);
  (void)e.d2zeta_dphasei2(p);
  (void)e.d2zeta_dphaseidphasej(p, p);
}
