// Builds the real environment / structure / dynamics objects from generated settings files, with the ephemeris under control.
#pragma once
#include <environment/global/global_environment.hpp>
#include <environment/local/local_environment.hpp>
#include <dynamics/dynamics.hpp>
#include <simulation/simulation_configuration.hpp>
#include <simulation/spacecraft/structure/structure.hpp>
#include <map>
#include <memory>
#include <string>

#include "../stubs/env_stub.hpp"
#include "mc.hpp"

namespace env {
using V3 = s2e::math::Vector<3>;
using Quat = s2e::math::Quaternion;
inline V3 MakeV(double x, double y, double z) { V3 v; v[0] = x; v[1] = y; v[2] = z; return v; }

// settings as section -> key -> value, written as an ini file
class Ini {
 public:
  Ini& Set(const std::string& sec, const std::string& key, const std::string& val);
  Ini& Set(const std::string& sec, const std::string& key, double val);
  Ini& SetV(const std::string& sec, const std::string& key, std::initializer_list<double> v);
  Ini& Set(const std::string& sec, const std::string& key, const V3& v) { return SetV(sec, key, {v[0], v[1], v[2]}); }
  std::string Text() const;
  std::string Write(const std::string& name) const;
 private:
  std::vector<std::pair<std::string, std::vector<std::pair<std::string, std::string>>>> s_;
};

struct Settings {
  Ini base, sat, local, structure, gnss;
  Settings();  // everything switched off, one spacecraft in a LEO, EARTH SUN MOON selected, step 1 s
};

struct World {
  s2e::simulation::SimulationConfiguration cfg;
  std::unique_ptr<s2e::environment::GlobalEnvironment> global;
  std::unique_ptr<s2e::environment::LocalEnvironment> local;
  std::unique_ptr<s2e::spacecraft::Structure> structure;
  std::unique_ptr<s2e::dynamics::Dynamics> dynamics;
  Settings set;
  explicit World(const Settings& s = Settings());
  ~World();
  void Activate();
  // new dynamics object at the given state, then one clock update with every subsystem flag raised and an update of the local environment
  void Place(const V3& pos_i, const V3& vel_i, const Quat& q_i2b, const V3& w_b);
  void Tick();         // clock, celestial, dynamics and local environment, in the order of the spacecraft update
  const s2e::environment::SimulationTime& time() const { return global->GetSimulationTime(); }
  const s2e::environment::CelestialInformation& cel() const { return global->GetCelestialInformation(); }
};
// position (m) and velocity (m/s) of bodies as seen from the centre body; bodies not listed keep the default ephemeris
void SetBody(const std::string& name, const V3& pos_m, const V3& vel_m_s = MakeV(0, 0, 0));
void ClearBodies();

// independent rotation model: rotation matrix (rows) of the frame conversion by a quaternion (x,y,z,w)
struct Rot { double m[3][3]; };
Rot RotOf(double x, double y, double z, double w);
inline Rot RotOf(const Quat& q) { return RotOf(q[0], q[1], q[2], q[3]); }
V3 Mul(const Rot& r, const V3& v);
V3 MulT(const Rot& r, const V3& v);
V3 Cross(const V3& a, const V3& b);
inline double Dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double Norm(const V3& a) { return std::sqrt(Dot(a, a)); }
inline V3 Add(const V3& a, const V3& b) { return MakeV(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline V3 Sub(const V3& a, const V3& b) { return MakeV(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline V3 Scale(double k, const V3& a) { return MakeV(k * a[0], k * a[1], k * a[2]); }
inline V3 Unit(const V3& a) { return Scale(1 / Norm(a), a); }
// rotations of a lattice: identity, quarter and half turns, and generic ones
const std::vector<Quat>& Rotations();
const std::vector<V3>& Directions26();
}  // namespace env
