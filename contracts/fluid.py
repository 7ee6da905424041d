"""Stand-in for the thermodynamic library (NeqSim, not in the sandbox): the fluid service the process code is given.

In proofs the properties of a fluid are unknown functions of pressure and temperature (of pressure and enthalpy after
an enthalpy flash), one unknown standard density and molar mass per fluid; in runs the fluid is an ideal gas.
"""
from contracts.common import T

FS = "libecalc.process.fluid_stream."
R = 8.31446261815324


def composition(**k):
    return T(FS + "fluid_model:FluidComposition")(**k)


def model(eos="SRK", **k):
    FM, E = T(FS + "fluid_model:FluidModel"), T(FS + "fluid_model:EoSModel")
    return FM(eos_model=E[eos], composition=composition(**(k or dict(methane=0.9, ethane=0.1))))


def properties(**k):
    return T(FS + "fluid_properties:FluidProperties")(**k)


def stream(s, tag, fluid_model=None, rate=None, vapor=1.0, **k):
    """a stream in any state; in runs the state need not be that of any gas"""
    hi = (lambda x: None) if s.symbolic else (lambda x: x)
    p = dict(
        temperature_kelvin=s.real(f"{tag} temperature", lo=1 if s.symbolic else 250, hi=hi(450)),
        pressure_bara=s.real(f"{tag} pressure", lo=0 if s.symbolic else 1, hi=hi(400), lo_open=True),
        density=s.real(f"{tag} density", lo=0 if s.symbolic else 0.5, hi=hi(300), lo_open=True),
        enthalpy_joule_per_kg=s.real(f"{tag} enthalpy", lo=None if s.symbolic else -1e6, hi=hi(1e6)),
        z=1.0, kappa=1.3,
        vapor_fraction_molar=vapor,
        molar_mass=s.real(f"{tag} molar mass", lo=0 if s.symbolic else 0.01, hi=hi(0.05), lo_open=True),
        standard_density=s.real(f"{tag} standard density", lo=0 if s.symbolic else 0.5, hi=hi(1.5), lo_open=True),
    )
    p.update(k)
    mass = s.real(f"{tag} mass rate", lo=0, hi=hi(1e6)) if rate is None else rate
    return T(FS + "fluid_stream:FluidStream")(fluid=T(FS + "fluid:Fluid")(fluid_model=fluid_model or model(), properties=properties(**p)), mass_rate_kg_per_h=mass)


def service(s, standard_density=None, kappa=1.3, two_phase=None):
    """a fluid service; two_phase(fluid) -> (properties of its gas)"""
    base = T(FS + "fluid_service:FluidService")
    Fluid, FluidStream, FluidModel = T(FS + "fluid:Fluid"), T(FS + "fluid_stream:FluidStream"), T(FS + "fluid_model:FluidModel")

    class Service(base):
        def __init__(self):
            self.seen = []
            self.ph = []
            if s.symbolic:
                self.rho, self.h = s.func("density", 3, lo=0, lo_open=True), s.func("enthalpy", 3)
                self.t = s.func("temperature", 3, lo=0, lo_open=True)

        def _of(self, m):
            for i, (x, *v) in enumerate(self.seen):
                if x is m or (not s.symbolic and x == m):
                    return i, v
            i = len(self.seen)
            if s.symbolic:
                v = [standard_density if standard_density is not None else s.real(f"standard density {i}", lo=0, lo_open=True), s.real(f"molar mass {i}", lo=0, lo_open=True)]
            else:
                M = m.composition.molar_mass_mixture
                v = [1.01325e5 * M / (R * 288.15) if standard_density is None else standard_density, M]
            self.seen.append((m, *v))
            return i, v

        def _props(self, m, P, Tk, h=None):
            i, (sd, M) = self._of(m)
            if s.symbolic:
                rho, hh = self.rho(P, Tk, i), self.h(P, Tk, i) if h is None else h
            else:
                rho, hh = P * 1e5 * M / (R * Tk), kappa / (kappa - 1) * R / M * Tk if h is None else h
            return properties(temperature_kelvin=Tk, pressure_bara=P, density=rho, enthalpy_joule_per_kg=hh, z=1.0, kappa=kappa,
                              vapor_fraction_molar=1.0, molar_mass=M, standard_density=sd)

        def flash_pt(self, fluid_model, pressure_bara, temperature_kelvin):
            return self._props(fluid_model, pressure_bara, temperature_kelvin)

        def flash_ph(self, fluid_model, pressure_bara, target_enthalpy_joule_per_kg, temperature_guess_kelvin=None):
            i, (sd, M) = self._of(fluid_model)
            h = target_enthalpy_joule_per_kg
            self.ph.append((fluid_model, pressure_bara, h))
            t = self.t(pressure_bara, h, i) if s.symbolic else max(abs(h), 1.0) / (kappa / (kappa - 1) * R / M)
            return self._props(fluid_model, pressure_bara, t, h)

        def remove_liquid(self, fluid):
            if two_phase is None:
                return fluid
            return two_phase(fluid)

        def create_fluid(self, fluid_model, pressure_bara, temperature_kelvin):
            return Fluid(fluid_model=fluid_model, properties=self._props(fluid_model, pressure_bara, temperature_kelvin))

        def create_stream_from_standard_rate(self, fluid_model, pressure_bara, temperature_kelvin, standard_rate_m3_per_day):
            return self.create_stream_from_mass_rate(fluid_model, pressure_bara, temperature_kelvin, self.standard_rate_to_mass_rate(fluid_model, standard_rate_m3_per_day))

        def create_stream_from_mass_rate(self, fluid_model, pressure_bara, temperature_kelvin, mass_rate_kg_per_h):
            return FluidStream(fluid=self.create_fluid(fluid_model, pressure_bara, temperature_kelvin), mass_rate_kg_per_h=mass_rate_kg_per_h)

        def standard_rate_to_mass_rate(self, fluid_model, standard_rate_m3_per_day):
            return standard_rate_m3_per_day * self._of(fluid_model)[1][0] / 24

        def mass_rate_to_standard_rate(self, fluid_model, mass_rate_kg_per_h):
            return mass_rate_kg_per_h / self._of(fluid_model)[1][0] * 24

    return Service()


def any_stream(s, svc, tag, fluid_model=None, std_rate=None, mass_rate=None, lo=0.0):
    """a stream of the service's own fluid"""
    hi = (lambda x: None) if s.symbolic else (lambda x: x)
    P = s.real(f"{tag} pressure", lo=0 if s.symbolic else 1, hi=hi(400), lo_open=True)
    Tk = s.real(f"{tag} temperature", lo=1 if s.symbolic else 250, hi=hi(450))
    m = fluid_model or model()
    if mass_rate is not None:
        return svc.create_stream_from_mass_rate(m, P, Tk, mass_rate)
    q = s.real(f"{tag} rate", lo=lo, hi=hi(1e7)) if std_rate is None else std_rate
    return svc.create_stream_from_standard_rate(m, P, Tk, q)
