bug("copied-component-fast-update", "S03", [("src/components/base/component.cpp", "  needs_fast_update_ = object.needs_fast_update_;\n", "")],
 "a component that requests fast updates and is copied", "the copy never gets its fast update", "src/components/base/component.cpp src/environment/global/clock_generator.cpp src/components/ports/power_port.cpp src/setting_file_reader/initialize_file_access.cpp",
 r'''#include <components/base/component.hpp>
#include <environment/global/clock_generator.hpp>
using namespace s2e;
struct C : components::Component { int n = 0; C(environment::ClockGenerator* c) : Component(1, c) { SetNeedsFastUpdate(true); } C(const C& o) : Component(o) {} void MainRoutine(const int) override {} void FastUpdate() override { n++; } };
int main() { environment::ClockGenerator k; k.ClearTimerCount(); C a(&k); C b(a); for (int i = 0; i < 3; i++) k.TickToComponents(); return a.n == 3 && b.n == 3 ? 0 : 1; }
''')
bug("calendar-month-end", "S01", [("src/math_physics/orbit/sgp4/sgp4ext.cpp", "while ((dayofyr > inttemp + lmonth[i - 1]) && (i < 12))", "while ((dayofyr >= inttemp + lmonth[i - 1]) && (i < 12))")],
 "a simulation that runs on the last day of a month", "the last day of every month is reported as day zero of the next one", "ALL",
 r'''#include <environment/global/simulation_time.hpp>
using namespace s2e::environment;
int main() { for (int d : {15, 29, 30}) { char s[40]; snprintf(s, 40, "2021/4/%d 23:59:00.0", d); SimulationTime t(200, 10, 10, 10, 10, 10, 10, 10, 10, 10, s, 0); for (int i = 0; i < 3; i++) t.UpdateTime(); auto u = t.GetCurrentUtc(); if (u.month != 4 || u.day != (unsigned)d) return 1; } return 0; }
''')
bug("lag-jump-forgets-recovery", "S02", [("src/environment/global/simulation_time.cpp", "        // Lap time\n        clock_last_time_completed_step_in_time_ = clk.now();\n      }\n    } else {", "      }\n    } else {") if False else ("src/environment/global/simulation_time.cpp", "int exceeded_duration_ms = (int)chrono::duration_cast<chrono::milliseconds>(clk.now() - clock_last_time_completed_step_in_time_).count();", "int exceeded_duration_ms = (int)chrono::duration_cast<chrono::milliseconds>(clk.now() - clock_start_time_millisec_).count();")],
 "a short lag that begins more than a second after the start", "simulated time jumps to the wall clock at the first late step instead of after a sustained lag", "ALL",
 r'''#include <environment/global/simulation_time.hpp>
#include <unistd.h>
#include <cmath>
using namespace s2e::environment;
int main() { SimulationTime t(1000, .1, .1, .1, .1, .1, .1, .1, .1, .1, "2021/4/3 1:2:3.0", 1); t.ResetClock(); for (int i = 0; i < 13; i++) t.UpdateTime(); if (std::fabs(t.GetElapsedTime_s() - 1.3) > 1e-9) return 2; usleep(400000); t.UpdateTime(); return std::fabs(t.GetElapsedTime_s() - 1.4) < 1e-9 ? 0 : 1; }
''')
bug("tripped-port-keeps-voltage", "E01", [("src/components/ports/power_port.cpp", "    current_consumption_A_ = 0.0;\n    voltage_V_ = 0.0;\n", "    current_consumption_A_ = 0.0;\n")],
 "an over-current trip followed by an update with a lower load", "a tripped port switches on again by itself", "src/components/ports/power_port.cpp src/setting_file_reader/initialize_file_access.cpp",
 r'''#include <components/ports/power_port.hpp>
using namespace s2e::components;
int main() { PowerPort p(1, 1.0, 3.0, 10.0); p.SetVoltage_V(5); if (p.GetIsOn()) return 2; p.SetAssumedPowerConsumption_W(1); p.Update(); return p.GetIsOn() || p.GetVoltage_V() != 0 ? 1 : 0; }
''', stubs=False)
bug("charger-ignores-cv-limit", "E02", [("src/components/real/power/pcu_initial_study.cpp", "if (bat_voltage + cc_charge_current_C * battery_resistance_Ohm < cv_charge_voltage_V) {", "if (bat_voltage < cv_charge_voltage_V) {")],
 "a nearly full battery with more generated power than the constant-current limit takes", "the bus exceeds the constant charge voltage", "ALL",
 r'''#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/csv_scenario_interface.hpp>
#include <environment/global/clock_generator.hpp>
#include <environment/local/solar_radiation_pressure_environment.hpp>
#include <fstream>
using namespace s2e; using namespace s2e::components;
int main() { std::ofstream("s.csv") << "t,x,y,z,f,p\n0,1,0,0,1,1\n"; std::ofstream("s.ini") << "[SCENARIO]\nis_csv_scenario_enabled = true\ncsv_path = s.csv\n"; CsvScenarioInterface::Initialize("s.ini");
  int* id = new int[2]{399, 10}; environment::CelestialInformation c("J2000", "NONE", "EARTH", 2, id, {"DISABLE", "DISABLE"}); environment::LocalCelestialInformation l(&c); environment::SolarRadiationPressureEnvironment e(&l);
  environment::ClockGenerator k; k.ClearTimerCount(); Battery b(1, &k, 2, 1, 1.0, {4.1, -0.5}, 1, 2.0, 8.3, 0.2, 1); math::Vector<3> n(0.0); n[0] = 1; SolarArrayPanel s(1, &k, 0, 10, 10, 0.003, n, 0.3, 0.9, &e, &l, 1); PcuInitialStudy u(1, &k, {&s}, &b, 1);
  for (int i = 0; i < 3; i++) k.TickToComponents(); double bus = 0, load = 0; sscanf(u.GetLogValue().c_str(), "%lf,%lf", &load, &bus); return bus > 8.30001 ? 1 : bus < 8.2 ? 2 : 0; }
''')
