From 83ca177a6e287644467b67562a28292ee17d1c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 001/128] fix: access the addressed I2C device and consecutive
 registers in OnBoardComputer

I2cComponentReadRegister passed register and device address in swapped order,
and multi byte accesses hit the same register for every byte.
---
 src/components/real/cdh/on_board_computer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index c661fc6..56a0a32 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -96,7 +96,7 @@ int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
   for (int i = 0; i < length; i++) {
-    i2c_port->WriteRegister(i2c_address, register_address, data[i]);
+    i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
   return 0;
 }
@@ -104,7 +104,7 @@ int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
   for (int i = 0; i < length; i++) {
-    data[i] = i2c_port->ReadRegister(register_address, i2c_address);
+    data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
   return 0;
 }
-- 
2.43.0


From 3ffc5810ba666f1bded9ccb8b67c0b45dd64403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 002/128] fix: reject I2C access to a port which is not
 connected

The other port functions return -1 in this case, but the I2C ones dereferenced a null pointer.
---
 src/components/real/cdh/on_board_computer.cpp          | 3 +++
 src/components/real/cdh/on_board_computer_with_c2a.cpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index 56a0a32..9f39c08 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -95,6 +95,7 @@ int OnBoardComputer::I2cCloseComPort(int port_id) {
 int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
@@ -103,6 +104,7 @@ int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char
 int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
@@ -110,6 +112,7 @@ int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i
 }
 int OnBoardComputer::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
diff --git a/src/components/real/cdh/on_board_computer_with_c2a.cpp b/src/components/real/cdh/on_board_computer_with_c2a.cpp
index 407c393..028286d 100644
--- a/src/components/real/cdh/on_board_computer_with_c2a.cpp
+++ b/src/components/real/cdh/on_board_computer_with_c2a.cpp
@@ -156,12 +156,14 @@ int ObcWithC2a::I2cCloseComPort(int port_id) {
 
 int ObcWithC2a::I2cWriteCommand(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->WriteCommand(i2c_address, data, length);
   return 0;
 }
 
 int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
 
   if (length == 1) {
     i2c_port->WriteRegister(i2c_address, data[0]);
@@ -175,6 +177,7 @@ int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, c
 
 int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address);
   }
@@ -184,6 +187,7 @@ int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, un
 int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                           const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
@@ -192,6 +196,7 @@ int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_a
 int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                          const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
@@ -199,6 +204,7 @@ int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_ad
 }
 int ObcWithC2a::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
-- 
2.43.0


From 9225d4da398f4c7a1e766bef5b34fbf4ad3b8b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 003/128] fix: do not read outside the input when decoding a
 truncated SLIP frame

---
 src/utilities/slip.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utilities/slip.cpp b/src/utilities/slip.cpp
index b1f0fbb..e1d94c2 100644
--- a/src/utilities/slip.cpp
+++ b/src/utilities/slip.cpp
@@ -27,6 +27,11 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
   while (1) {
     fesc_itr = std::find(fesc_itr, out.end(), kSlipFesc_);
     if (fesc_itr == out.end()) break;
+    if (fesc_itr + 1 == out.end()) {
+      // Incomplete escape sequence
+      out.erase(fesc_itr);
+      break;
+    }
     // convert
     if (*(fesc_itr + 1) == kSlipTfend_) {
       *(fesc_itr + 1) = kSlipFend_;
@@ -43,6 +48,7 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
 }
 
 std::vector<uint8_t> decode_slip_with_header(const std::vector<uint8_t> in) {
+  if (in.empty()) return in;
   std::vector<uint8_t> in_without_header = in;
   in_without_header.erase(in_without_header.begin(), in_without_header.begin() + 1);
   return decode_slip(in_without_header);
-- 
2.43.0


From 99cb4d81ba296289876b7a4c11df8655f61d64d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 004/128] fix: keep UART component communication inside its
 buffers

The receive buffer was shrunk to the received size although the data are
written from the offset, the telemetry size was checked against the size of
the receive buffer, and an error of the port was handed to ParseCommand.
---
 .../base/uart_communication_with_obc.cpp           | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index 74a7f92..bbeb2e8 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -139,18 +139,19 @@ void UartCommunicationWithObc::InitializeObcComBase() {
 int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const unsigned int rec_size) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   if (offset > rx_buffer_size_) return -1;
-  if (offset + rec_size > rx_buffer_size_) return -1;
-  rx_buffer_.resize(rec_size);
+  if (rec_size > rx_buffer_size_ - offset) return -1;
+  if (rec_size == 0) return 0;  // No read data
+  rx_buffer_.resize(offset + rec_size);
 
   int ret;
   switch (simulation_mode_) {
     case SimulationMode::kSils:
       ret = obc_->ReceivedByCompo(sils_port_id_, &rx_buffer_.front(), offset, rec_size);
-      if (ret == 0) return 0;  // No read data
+      if (ret <= 0) return ret;  // Error or no read data
       return ParseCommand(ret);
     case SimulationMode::kHils:
       ret = hils_port_manager_->UartReceive(hils_port_id_, &rx_buffer_.front(), offset, rec_size);
-      if (ret == 0) return 0;  // No read data
+      if (ret <= 0) return ret;  // Error or no read data
       return ParseCommand(ret);
     default:
       // NOT REACHED
@@ -161,8 +162,9 @@ int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const un
 int UartCommunicationWithObc::SendTelemetry(const unsigned int offset) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   int tlm_size = GenerateTelemetry();
-  if (offset > rx_buffer_size_) return -1;
-  if (offset + tlm_size > rx_buffer_size_) return -1;
+  if (tlm_size < 0) return -1;
+  if (offset > tx_buffer_size_) return -1;
+  if ((unsigned int)tlm_size > tx_buffer_size_ - offset) return -1;
 
   switch (simulation_mode_) {
     case SimulationMode::kSils:
-- 
2.43.0


From 0320d81bb904889fde48ee09a7f9f47218b33c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 005/128] fix: send the whole telemetry of the example serial
 component

---
 .../examples/example_serial_communication_with_obc.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/examples/example_serial_communication_with_obc.cpp b/src/components/examples/example_serial_communication_with_obc.cpp
index 3017ea9..09ff6b7 100644
--- a/src/components/examples/example_serial_communication_with_obc.cpp
+++ b/src/components/examples/example_serial_communication_with_obc.cpp
@@ -45,7 +45,7 @@ int ExampleSerialCommunicationWithObc::GenerateTelemetry() {
     tx_buffer_[i] = (unsigned char)memory_[i];
   }
   tx_buffer_.assign(std::begin(tx_buffer_), std::end(tx_buffer_));
-  return sizeof(tx_buffer_);
+  return kMaxMemoryLength;
 }
 void ExampleSerialCommunicationWithObc::MainRoutine(const int time_count) {
   UNUSED(time_count);
-- 
2.43.0


From 450ac027593fb19d10e1aa6a8bef750e63f9f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 006/128] fix: start a power port without supply in the off
 state

---
 src/components/ports/power_port.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/components/ports/power_port.cpp b/src/components/ports/power_port.cpp
index 5671b94..1eb094a 100644
--- a/src/components/ports/power_port.cpp
+++ b/src/components/ports/power_port.cpp
@@ -18,6 +18,7 @@ PowerPort::PowerPort() : kPortId(-1), current_limit_A_(10.0), minimum_voltage_V_
 
 PowerPort::PowerPort(const int port_id, const double current_limit_A)
     : kPortId(port_id), current_limit_A_(current_limit_A), minimum_voltage_V_(3.3), assumed_power_consumption_W_(0.0) {
+  is_on_ = false;
   Initialize();
 }
 
@@ -26,6 +27,7 @@ PowerPort::PowerPort(const int port_id, const double current_limit_A, const doub
       current_limit_A_(current_limit_A),
       minimum_voltage_V_(minimum_voltage_V),
       assumed_power_consumption_W_(assumed_power_consumption_W) {
+  is_on_ = false;
   Initialize();
 }
 
-- 
2.43.0


From 7ef5c607a94362b8d0360db3856e80eab2e4e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 007/128] fix: start the lag measurement of the real-time mode
 when the clock is reset

---
 src/environment/global/simulation_time.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index 6438e50..5db48af 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -177,7 +177,10 @@ void SimulationTime::UpdateTime(void) {
   state_.running = true;
 }
 
-void SimulationTime::ResetClock(void) { clock_start_time_millisec_ = chrono::system_clock::now(); }
+void SimulationTime::ResetClock(void) {
+  clock_start_time_millisec_ = chrono::system_clock::now();
+  clock_last_time_completed_step_in_time_ = clock_start_time_millisec_;
+}
 
 void SimulationTime::PrintStartDateTime(void) const {
   int sec_int = int(start_sec_ + 0.5);
-- 
2.43.0


From 5c065a04e61a44348b649476f9ed9edf96b33928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 008/128] fix: do not delay an update by one step when counter
 times step rounds below the period

---
 src/environment/global/simulation_time.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index 5db48af..76f8758 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -140,31 +140,33 @@ void SimulationTime::UpdateTime(void) {
   JdToDecyear(current_jd_, &current_decyear_);
   ConvJDtoCalendarDay(current_jd_);
 
+  // margin for the rounding error of counter * step against a period given in decimal
+  const double rounding_margin_sec = 1e-6 * step_sec_;
   attitude_update_flag_ = false;
-  if (double(attitude_update_counter_) * step_sec_ >= attitude_update_interval_sec_) {
+  if (double(attitude_update_counter_) * step_sec_ >= attitude_update_interval_sec_ - rounding_margin_sec) {
     attitude_update_counter_ = 0;
     attitude_update_flag_ = true;
   }
 
   orbit_update_flag_ = false;
-  if (double(orbit_update_counter_) * step_sec_ >= orbit_update_interval_sec_) {
+  if (double(orbit_update_counter_) * step_sec_ >= orbit_update_interval_sec_ - rounding_margin_sec) {
     orbit_update_counter_ = 0;
     orbit_update_flag_ = true;
   }
 
   thermal_update_flag_ = false;
-  if (double(thermal_update_counter_) * step_sec_ >= thermal_update_interval_sec_) {
+  if (double(thermal_update_counter_) * step_sec_ >= thermal_update_interval_sec_ - rounding_margin_sec) {
     thermal_update_counter_ = 0;
     thermal_update_flag_ = true;
   }
 
   component_update_flag_ = false;
-  if (double(component_update_counter_) * step_sec_ >= component_update_interval_sec_) {
+  if (double(component_update_counter_) * step_sec_ >= component_update_interval_sec_ - rounding_margin_sec) {
     component_update_counter_ = 0;
     component_update_flag_ = true;
   }
 
-  if (double(log_counter_) * step_sec_ >= log_output_interval_sec_) {
+  if (double(log_counter_) * step_sec_ >= log_output_interval_sec_ - rounding_margin_sec) {
     log_counter_ = 0;
     state_.log_output = true;
   }
-- 
2.43.0


From e412e990a2e2acdfcf86d5cc7bc83b7355069a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 009/128] fix: do not report negative UTC seconds at exact
 minutes

---
 src/environment/global/simulation_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index 76f8758..ee13771 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -248,7 +248,7 @@ void SimulationTime::ConvJDtoCalendarDay(const double JD) {
   current_utc_.day = (unsigned int)(day);
   current_utc_.hour = (unsigned int)(hr);
   current_utc_.minute = (unsigned int)(minute);
-  current_utc_.second = sec;
+  current_utc_.second = (sec < 0.0) ? 0.0 : sec;  // invjday returns slightly negative seconds at an exact minute
 }
 
 SimulationTime* InitSimulationTime(std::string file_name) {
-- 
2.43.0


From f4e3eb9c92173913bd093f8efe5bf000a71bb603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 010/128] fix: initialise the charge current and the voltage of
 a new battery

---
 src/components/real/power/battery.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/components/real/power/battery.cpp b/src/components/real/power/battery.cpp
index 865c17b..36864bf 100644
--- a/src/components/real/power/battery.cpp
+++ b/src/components/real/power/battery.cpp
@@ -22,7 +22,10 @@ Battery::Battery(const int prescaler, environment::ClockGenerator* clock_generat
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(component_step_time_s) {}
+      compo_step_time_s_(component_step_time_s) {
+  charge_current_A_ = 0.0;
+  UpdateBatVoltage();
+}
 
 Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_series, int number_of_parallel, double cell_capacity_Ah,
                  const std::vector<double> cell_discharge_curve_coefficients, double initial_dod, double cc_charge_c_rate, double cv_charge_voltage_V,
@@ -36,7 +39,10 @@ Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_ser
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(0.1) {}
+      compo_step_time_s_(0.1) {
+  charge_current_A_ = 0.0;
+  UpdateBatVoltage();
+}
 
 Battery::Battery(const Battery& obj)
     : Component(obj),
-- 
2.43.0


From 3c95290fd9d179aaf347609244775a36833ad62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 011/128] fix: copy the rotations of celestial information and
 do not copy it every update

---
 src/disturbances/lunar_gravity_field.cpp         | 2 +-
 src/environment/global/celestial_information.cpp | 7 ++++++-
 src/environment/global/moon_rotation.hpp         | 6 ++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index 182b447..f1e8640 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -89,7 +89,7 @@ bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
 }
 
 void LunarGravityField::Update(const environment::LocalEnvironment &local_environment, const dynamics::Dynamics &dynamics) {
-  const environment::CelestialInformation global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
+  const environment::CelestialInformation& global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
   math::Matrix<3, 3> dcm_mci2mcmf_ = global_celestial_information.GetMoonRotation().GetDcmJ2000ToMcmf();
 
   math::Vector<3> spacecraft_position_mci_m = dynamics.GetOrbit().GetPosition_i_m();
diff --git a/src/environment/global/celestial_information.cpp b/src/environment/global/celestial_information.cpp
index a8ffde6..a9bed77 100644
--- a/src/environment/global/celestial_information.cpp
+++ b/src/environment/global/celestial_information.cpp
@@ -74,7 +74,8 @@ CelestialInformation::CelestialInformation(const CelestialInformation& obj)
     : number_of_selected_bodies_(obj.number_of_selected_bodies_),
       inertial_frame_name_(obj.inertial_frame_name_),
       center_body_name_(obj.center_body_name_),
-      aberration_correction_setting_(obj.aberration_correction_setting_) {
+      aberration_correction_setting_(obj.aberration_correction_setting_),
+      rotation_mode_list_(obj.rotation_mode_list_) {
   unsigned int num_of_state = number_of_selected_bodies_ * 3;
 
   selected_body_ids_ = new int[number_of_selected_bodies_];
@@ -93,6 +94,9 @@ CelestialInformation::CelestialInformation(const CelestialInformation& obj)
   memcpy(celestial_body_gravity_constant_m3_s2_, obj.celestial_body_gravity_constant_m3_s2_, size_d * number_of_selected_bodies_);
   memcpy(celestial_body_mean_radius_m_, obj.celestial_body_mean_radius_m_, size_d * number_of_selected_bodies_);
   memcpy(celestial_body_planetographic_radii_m_, obj.celestial_body_planetographic_radii_m_, size_d * num_of_state);
+
+  earth_rotation_ = new EarthRotation(*obj.earth_rotation_);
+  moon_rotation_ = new MoonRotation(*this, *obj.moon_rotation_);
 }
 
 CelestialInformation::~CelestialInformation() {
@@ -103,6 +107,7 @@ CelestialInformation::~CelestialInformation() {
   delete[] celestial_body_planetographic_radii_m_;
   delete[] selected_body_ids_;
   delete earth_rotation_;
+  delete moon_rotation_;
 }
 
 void CelestialInformation::UpdateAllObjectsInformation(const SimulationTime& simulation_time) {
diff --git a/src/environment/global/moon_rotation.hpp b/src/environment/global/moon_rotation.hpp
index 1c5ea0d..06a28b9 100644
--- a/src/environment/global/moon_rotation.hpp
+++ b/src/environment/global/moon_rotation.hpp
@@ -42,6 +42,12 @@ class MoonRotation {
    * @brief Constructor
    */
   MoonRotation(const CelestialInformation &celestial_information, MoonRotationMode mode = MoonRotationMode::kIdle);
+  /**
+   * @fn MoonRotation
+   * @brief Copy the rotation state for another celestial information
+   */
+  MoonRotation(const CelestialInformation &celestial_information, const MoonRotation &obj)
+      : mode_(obj.mode_), dcm_j2000_to_mcmf_(obj.dcm_j2000_to_mcmf_), celestial_information_(celestial_information) {}
 
   /**
    * @fn Update
-- 
2.43.0


From 5cac5abf273a109a5e19dc1627e70d9802713379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 012/128] fix: do not report a celestial body which is not
 selected as another body

---
 src/environment/global/celestial_information.cpp   |  3 ++-
 src/environment/global/celestial_information.hpp   | 14 ++++++++------
 .../local/local_celestial_information.cpp          |  2 ++
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/environment/global/celestial_information.cpp b/src/environment/global/celestial_information.cpp
index a9bed77..4d70289 100644
--- a/src/environment/global/celestial_information.cpp
+++ b/src/environment/global/celestial_information.cpp
@@ -138,12 +138,13 @@ void CelestialInformation::UpdateAllObjectsInformation(const SimulationTime& sim
 }
 
 int CelestialInformation::CalcBodyIdFromName(const char* body_name) const {
-  int index = 0;
+  int index = number_of_selected_bodies_;  // Out of range: not selected
   SpiceInt planet_id;
   SpiceBoolean found;
 
   // Acquisition of ID from body name
   bodn2c_c(body_name, (SpiceInt*)&planet_id, (SpiceBoolean*)&found);
+  if (found != SPICETRUE) return index;
   for (unsigned int i = 0; i < number_of_selected_bodies_; i++) {
     if (selected_body_ids_[i] == planet_id) {
       index = i;
diff --git a/src/environment/global/celestial_information.hpp b/src/environment/global/celestial_information.hpp
index ea04e56..7b9d34b 100644
--- a/src/environment/global/celestial_information.hpp
+++ b/src/environment/global/celestial_information.hpp
@@ -77,7 +77,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetPositionFromCenter_i_m(const unsigned int id) const {
     math::Vector<3> pos(0.0);
-    if (id > number_of_selected_bodies_) return pos;
+    if (id >= number_of_selected_bodies_) return pos;
     for (int i = 0; i < 3; i++) pos[i] = celestial_body_position_from_center_i_m_[id * 3 + i];
     return pos;
   }
@@ -112,7 +112,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetVelocityFromCenter_i_m_s(const unsigned int id) const {
     math::Vector<3> vel(0.0);
-    if (id > number_of_selected_bodies_) return vel;
+    if (id >= number_of_selected_bodies_) return vel;
     for (int i = 0; i < 3; i++) vel[i] = celestial_body_velocity_from_center_i_m_s_[id * 3 + i];
     return vel;
   }
@@ -147,7 +147,8 @@ class CelestialInformation : public logger::ILoggable {
    * @param [in] body_name: Name of the body defined in the SPICE
    */
   inline double GetGravityConstant_m3_s2(const char* body_name) const {
-    int index = CalcBodyIdFromName(body_name);
+    unsigned int index = CalcBodyIdFromName(body_name);
+    if (index >= number_of_selected_bodies_) return 0.0;
     return celestial_body_gravity_constant_m3_s2_[index];
   }
   /**
@@ -164,7 +165,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetRadii_m(const unsigned int id) const {
     math::Vector<3> radii(0.0);
-    if (id > number_of_selected_bodies_) return radii;
+    if (id >= number_of_selected_bodies_) return radii;
     for (int i = 0; i < 3; i++) radii[i] = celestial_body_planetographic_radii_m_[id * 3 + i];
     return radii;
   }
@@ -183,7 +184,8 @@ class CelestialInformation : public logger::ILoggable {
    * @param [in] id: ID of CelestialInformation list
    */
   inline double GetMeanRadiusFromName_m(const char* body_name) const {
-    int index = CalcBodyIdFromName(body_name);
+    unsigned int index = CalcBodyIdFromName(body_name);
+    if (index >= number_of_selected_bodies_) return 0.0;
     return celestial_body_mean_radius_m_[index];
   }
 
@@ -221,7 +223,7 @@ class CelestialInformation : public logger::ILoggable {
    * @fn CalcBodyIdFromName
    * @brief Acquisition of ID of CelestialInformation list from body name
    * @param [in] body_name: Celestial body name
-   * @return ID of CelestialInformation list
+   * @return ID of CelestialInformation list. The number of the selected bodies is returned when the body is not selected.
    */
   int CalcBodyIdFromName(const char* body_name) const;
   /**
diff --git a/src/environment/local/local_celestial_information.cpp b/src/environment/local/local_celestial_information.cpp
index dab63ee..64152bb 100644
--- a/src/environment/local/local_celestial_information.cpp
+++ b/src/environment/local/local_celestial_information.cpp
@@ -137,6 +137,7 @@ math::Vector<3> LocalCelestialInformation::GetPositionFromSpacecraft_i_m(const c
   math::Vector<3> position;
   int index = 0;
   index = global_celestial_information_->CalcBodyIdFromName(body_name);
+  if (index >= global_celestial_information_->GetNumberOfSelectedBodies()) return math::Vector<3>(0.0);
   for (int i = 0; i < 3; i++) {
     position[i] = celestial_body_position_from_spacecraft_i_m_[index * 3 + i];
   }
@@ -153,6 +154,7 @@ math::Vector<3> LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const c
   math::Vector<3> position;
   int index = 0;
   index = global_celestial_information_->CalcBodyIdFromName(body_name);
+  if (index >= global_celestial_information_->GetNumberOfSelectedBodies()) return math::Vector<3>(0.0);
   for (int i = 0; i < 3; i++) {
     position[i] = celestial_body_position_from_spacecraft_b_m_[index * 3 + i];
   }
-- 
2.43.0


From b293ffb9140326482b9ae8d35fde109522059921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 013/128] fix: compute the transport term of body-frame
 velocities in one frame

---
 .../local/local_celestial_information.cpp     | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/environment/local/local_celestial_information.cpp b/src/environment/local/local_celestial_information.cpp
index 64152bb..202d4e0 100644
--- a/src/environment/local/local_celestial_information.cpp
+++ b/src/environment/local/local_celestial_information.cpp
@@ -114,20 +114,13 @@ void LocalCelestialInformation::ConvertVelocityInertialToBody(const double* posi
     ri[i] = position_i[i];
   }
 
-  // convert body rate vector into that in inertial coordinate
-  math::Vector<3> wb;
-  for (int i = 0; i < 3; i++) {
-    wb[i] = angular_velocity_b[i];
-  }
-
-  // compute cross term wxr
-  math::Vector<3> wxposition_i = OuterProduct(wb, ri);
-  // compute dr/dt + wxr
-  for (int i = 0; i < 3; i++) {
-    vi[i] = vi[i] - wxposition_i[i];
-  }
-  // convert vector in inertial coordinate into that in body coordinate
+  // convert position and velocity into those in body coordinate
+  math::Vector<3> rb = quaternion_i2b.FrameConversion(ri);
   math::Vector<3> temp_b = quaternion_i2b.FrameConversion(vi);
+
+  // compute cross term wxr in body coordinate and subtract it
+  math::Vector<3> wxposition_b = OuterProduct(angular_velocity_b, rb);
+  temp_b = temp_b - wxposition_b;
   for (int i = 0; i < 3; i++) {
     velocity_b[i] = temp_b[i];
   }
-- 
2.43.0


From 0f43a319eba4e12767fc2dd6ba4181eab140d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 014/128] fix: register every third shadow source

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index c571f30..371d188 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -116,7 +116,7 @@ SolarRadiationPressureEnvironment InitSolarRadiationPressureEnvironment(std::str
   size_t number_of_third_shadow_source = conf.ReadInt(section, "number_of_third_shadow_source");
   std::vector<std::string> list = conf.ReadVectorString(section, "third_shadow_source_name", number_of_third_shadow_source);
   for (size_t i = 0; i < number_of_third_shadow_source; i++) {
-    srp_env.AddShadowSource(list[0]);
+    srp_env.AddShadowSource(list[i]);
   }
 
   return srp_env;
-- 
2.43.0


From 216f1270313c215633529322f5793cce12f3641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 015/128] fix: keep the shadow of other bodies in annular
 eclipses

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 371d188..381c86b 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -89,7 +89,7 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
     shadow_coefficient_ *= 0.0;
   } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
-    shadow_coefficient_ = 1.0 - (b * b) / (a * a);
+    shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
   } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
   {
     double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
-- 
2.43.0


From dd88afaf3aed9f69f6623e4c9a05b1c0fe858b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 016/128] fix: keep the shadow coefficient finite at exact
 alignment and tangency

---
 .../local/solar_radiation_pressure_environment.cpp  | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 381c86b..4b3700d 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -74,7 +74,8 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
 
   // Angle of deviation from shadow source center to sun center
   math::Vector<3> r_source2sun_eci = r_sc2sun_eci - r_sc2source_eci;
-  const double delta = acos(InnerProduct(r_sc2source_eci, r_sc2sun_eci - r_sc2source_eci) / r_sc2source_eci.CalcNorm() / r_source2sun_eci.CalcNorm());
+  const double cos_delta = InnerProduct(r_sc2source_eci, r_source2sun_eci) / r_sc2source_eci.CalcNorm() / r_source2sun_eci.CalcNorm();
+  const double delta = acos(std::min(std::max(cos_delta, -1.0), 1.0));
   // The angle between the center of the sun and the common chord
   const double x = (delta * delta + sd_sun * sd_sun - sd_source * sd_source) / (2.0 * delta);
   // The length of the common chord of the apparent solar disk and apparent telestial disk
@@ -84,15 +85,17 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
   const double b = sd_source;
   const double c = delta;
 
-  if (c < fabs(a - b) && a <= b)  // The occultation is total (spacecraft is in umbra)
+  if (c <= fabs(a - b) && a <= b)  // The occultation is total (spacecraft is in umbra)
   {
     shadow_coefficient_ *= 0.0;
-  } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
+  } else if (c <= fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
     shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
-  } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
+  } else if (fabs(a - b) < c && c <= (a + b))  // spacecraft is in penumbra
   {
-    double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
+    const double cos_sun = std::min(std::max(x / a, -1.0), 1.0);
+    const double cos_source = std::min(std::max((c - x) / b, -1.0), 1.0);
+    double A = a * a * acos(cos_sun) + b * b * acos(cos_source) - c * y;  // The area of the occulted segment of the apparent solar disk
     shadow_coefficient_ *= 1.0 - A / (math::pi * a * a);
   } else {  // no occultation takes place
     if (c < (a + b)) {
-- 
2.43.0


From aae4ff48c70da4b87ee85f151a4899df20c3f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 017/128] fix: answer zero before the first line of a CSV
 scenario and drop the lines of an earlier file

---
 src/components/real/power/csv_scenario_interface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/real/power/csv_scenario_interface.cpp b/src/components/real/power/csv_scenario_interface.cpp
index 54ee31a..6cec2b8 100644
--- a/src/components/real/power/csv_scenario_interface.cpp
+++ b/src/components/real/power/csv_scenario_interface.cpp
@@ -81,6 +81,7 @@ std::vector<std::vector<double>> CsvScenarioInterface::ReadCsvData(const std::st
 
 void CsvScenarioInterface::StoreBuffer(const std::string buffer_name, const std::vector<std::vector<double>>& data) {
   auto line_num = buffer_line_id_.at(buffer_name);
+  buffers_[buffer_name].clear();
   for (const auto& line : data) {
     buffers_[buffer_name][line[0]] = line[line_num];
   }
@@ -89,8 +90,8 @@ void CsvScenarioInterface::StoreBuffer(const std::string buffer_name, const std:
 double CsvScenarioInterface::GetValueFromBuffer(const std::string buffer_name, const double time_query) {
   double output;
   auto itr = buffers_.at(buffer_name).upper_bound(time_query);
+  if (itr == buffers_.at(buffer_name).begin()) return 0;
   itr--;
-  if (itr == buffers_.at(buffer_name).end()) return 0;
   output = itr->second;
   return output;
 }
-- 
2.43.0


From f45283b4df52446959f538481bb4ea118e6e22e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 018/128] fix: treat only two slashes as a comment in settings
 files

---
 ExtLibraries/inih/ini.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ExtLibraries/inih/ini.c b/ExtLibraries/inih/ini.c
index f323a17..c6a3c12 100644
--- a/ExtLibraries/inih/ini.c
+++ b/ExtLibraries/inih/ini.c
@@ -55,7 +55,7 @@ static char* lskip(const char* s) {
 static char* find_chars_or_comment(const char* s, const char* chars) {
 #if INI_ALLOW_INLINE_COMMENTS
   int was_space = 0;
-  while (*s && (!chars || !strchr(chars, *s)) && !(was_space && strchr(INI_INLINE_COMMENT_PREFIXES, *s))) {
+  while (*s && (!chars || !strchr(chars, *s)) && !(was_space && !strncmp(s, INI_INLINE_COMMENT_PREFIXES, strlen(INI_INLINE_COMMENT_PREFIXES)))) {
     was_space = isspace((unsigned char)(*s));
     s++;
   }
@@ -140,7 +140,7 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler, void*
 #endif
     start = lskip(rstrip(start));
 
-    if (strchr(INI_START_COMMENT_PREFIXES, *start)) {
+    if (!strncmp(start, INI_START_COMMENT_PREFIXES, strlen(INI_START_COMMENT_PREFIXES))) {
       /* Start-of-line comment */
     }
 #if INI_ALLOW_MULTILINE
-- 
2.43.0


From bfc77d9e847e37eea82ed2904f78c1aae3360195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 019/128] fix: compute the geodetic altitude at the poles

---
 src/math_physics/geodesy/geodetic_position.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/geodesy/geodetic_position.cpp b/src/math_physics/geodesy/geodetic_position.cpp
index b72aa18..c300785 100644
--- a/src/math_physics/geodesy/geodetic_position.cpp
+++ b/src/math_physics/geodesy/geodetic_position.cpp
@@ -44,7 +44,8 @@ void GeodeticPosition::UpdateFromEcef(const math::Vector<3> position_ecef_m) {
     lat_tmp_rad = AcTan(position_ecef_m[2] + earth_radius_m * c * e2 * sin(phi), r_m);
   } while (fabs(lat_tmp_rad - phi) >= 1E-10);
 
-  altitude_m_ = r_m / cos(lat_tmp_rad) - c * earth_radius_m;
+  // This form stays well-conditioned at the poles, where cos(latitude) is zero
+  altitude_m_ = r_m * cos(lat_tmp_rad) + position_ecef_m[2] * sin(lat_tmp_rad) - earth_radius_m / c;
 
   if (lat_tmp_rad > math::pi_2) lat_tmp_rad -= math::tau;
 
-- 
2.43.0


From ed76da6eecb7a959e7620cee29dd3b791b60d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 020/128] fix: keep the surface incidence cosine in range so
 that facing surfaces do not give NaN forces

---
 src/disturbances/surface_force.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/disturbances/surface_force.cpp b/src/disturbances/surface_force.cpp
index 391a782..88f126f 100644
--- a/src/disturbances/surface_force.cpp
+++ b/src/disturbances/surface_force.cpp
@@ -5,6 +5,9 @@
 
 #include "surface_force.hpp"
 
+#include <algorithm>
+#include <cmath>
+
 #include "../math_physics/math/vector.hpp"
 
 namespace s2e::disturbances {
@@ -51,7 +54,8 @@ void SurfaceForce::CalcTheta(math::Vector<3>& input_direction_b) {
   math::Vector<3> input_b_normal = input_direction_b.CalcNormalizedVector();
 
   for (size_t i = 0; i < surfaces_.size(); i++) {
-    cos_theta_[i] = InnerProduct(surfaces_[i].GetNormal_b(), input_b_normal);
+    // Rounding errors must not push the cosine out of its range, otherwise the sine becomes NaN
+    cos_theta_[i] = std::clamp(InnerProduct(surfaces_[i].GetNormal_b(), input_b_normal), -1.0, 1.0);
     sin_theta_[i] = sqrt(1.0 - cos_theta_[i] * cos_theta_[i]);
   }
 }
-- 
2.43.0


From 6d833ce4d85fe49bd62a952a4e773e698a5cb4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 021/128] fix: convert the molecular weight of the atmosphere
 to kg per molecule in the drag speed ratio

---
 src/disturbances/air_drag.cpp                 | 4 ++--
 src/environment/global/physical_constants.hpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/air_drag.cpp b/src/disturbances/air_drag.cpp
index 2c92540..af0437d 100644
--- a/src/disturbances/air_drag.cpp
+++ b/src/disturbances/air_drag.cpp
@@ -64,8 +64,8 @@ void AirDrag::CalcCnCt(const math::Vector<3>& velocity_b_m_s) {
   double velocity_norm_m_s = velocity_b_m_s.CalcNorm();
 
   // Re-emitting speed
-  double speed =
-      sqrt(molecular_weight_g_mol_ * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
+  double molecular_mass_kg = molecular_weight_g_mol_ * 1e-3 / environment::avogadro_constant_1_mol;
+  double speed = sqrt(molecular_mass_kg * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
   // CalcTheta(vel_b);
   for (size_t i = 0; i < surfaces_.size(); i++) {
     double speed_n = speed * cos_theta_[i];
diff --git a/src/environment/global/physical_constants.hpp b/src/environment/global/physical_constants.hpp
index c97259e..58badb2 100644
--- a/src/environment/global/physical_constants.hpp
+++ b/src/environment/global/physical_constants.hpp
@@ -21,6 +21,7 @@ using enable_if_float = std::enable_if_t<std::is_floating_point_v<T>, T>;
 inline namespace physics {
 DEFINE_PHYSICAL_CONSTANT(speed_of_light_m_s, 299792458.0L)                   //!< Speed of light in vacuum [m/s]
 DEFINE_PHYSICAL_CONSTANT(boltzmann_constant_J_K, 1.380649e-23L)              //!< Boltzmann constant [J/K]
+DEFINE_PHYSICAL_CONSTANT(avogadro_constant_1_mol, 6.02214076e23L)             //!< Avogadro constant [1/mol]
 DEFINE_PHYSICAL_CONSTANT(stefan_boltzmann_constant_W_m2K4, 5.670374419e-8L)  //!< Stefan-Boltzmann constant [W/m2K4]
 DEFINE_PHYSICAL_CONSTANT(absolute_zero_degC, -273.15L)                       //!< Absolute zero [degC]
 DEFINE_PHYSICAL_CONSTANT(solar_constant_W_m2, 1.366e3L)                      //!< Solar constant [W/m2]
-- 
2.43.0


From 8feee8cc337221b79bf7fcf82ecefe6a256f8396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 022/128] fix: normalize surface normal vectors shorter than
 one as well

---
 src/simulation/spacecraft/structure/initialize_structure.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simulation/spacecraft/structure/initialize_structure.cpp b/src/simulation/spacecraft/structure/initialize_structure.cpp
index 4fa2b13..6648ef6 100644
--- a/src/simulation/spacecraft/structure/initialize_structure.cpp
+++ b/src/simulation/spacecraft/structure/initialize_structure.cpp
@@ -5,6 +5,7 @@
 
 #include "initialize_structure.hpp"
 
+#include <cmath>
 #include <math_physics/math/vector.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
@@ -95,9 +96,9 @@ std::vector<spacecraft::Surface> InitSurfaces(std::string file_name) {
 
     keyword = "normal_vector" + idx + "_b";
     conf.ReadVector(section, keyword.c_str(), normal);
-    if (normal.CalcNorm() > 1.0 + MIN_VAL)  // Fixme: magic word
+    if (std::fabs(normal.CalcNorm() - 1.0) > MIN_VAL)  // Fixme: magic word
     {
-      cout << "Surface Warning! " << keyword << ": norm is larger than 1.0.";
+      cout << "Surface Warning! " << keyword << ": norm is not 1.0.";
       cout << "The vector is normalized.\n";
       normal = normal.CalcNormalizedVector();
     }
-- 
2.43.0


From 325c5b6f5d326cbaf909602b657a84f1ca50fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 023/128] fix: use the limited degree in the gravity potentials

---
 src/disturbances/geopotential.cpp        | 2 +-
 src/disturbances/lunar_gravity_field.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/geopotential.cpp b/src/disturbances/geopotential.cpp
index cb6ba22..73b6ddc 100644
--- a/src/disturbances/geopotential.cpp
+++ b/src/disturbances/geopotential.cpp
@@ -45,7 +45,7 @@ Geopotential::Geopotential(const int degree, const std::string file_path, const
     }
   }
   // Initialize GravityPotential
-  geopotential_ = gravity::GravityPotential(degree, c_, s_);
+  geopotential_ = gravity::GravityPotential(degree_, c_, s_);
 }
 
 bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index f1e8640..54a80e9 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -48,7 +48,7 @@ LunarGravityField::LunarGravityField(const int degree, const std::string file_pa
     }
   }
   // Initialize GravityPotential
-  lunar_potential_ = gravity::GravityPotential(degree, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
+  lunar_potential_ = gravity::GravityPotential(degree_, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
 }
 
 bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
-- 
2.43.0


From 0ed4f2994c709419660af86fec673042b36e6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 024/128] fix: reject a geopotential coefficient file that ends
 before the requested degree

---
 src/disturbances/geopotential.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disturbances/geopotential.cpp b/src/disturbances/geopotential.cpp
index 73b6ddc..908c085 100644
--- a/src/disturbances/geopotential.cpp
+++ b/src/disturbances/geopotential.cpp
@@ -63,6 +63,10 @@ bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
     getline(coeff_file, line);
     std::istringstream streamline(line);
     streamline >> n >> m >> c_nm_norm >> s_nm_norm;
+    if (!streamline || n < 0 || n > static_cast<int>(degree_) || m < 0 || m > n) {
+      std::cerr << "The coefficient file does not have enough degree: Geopotential\n";
+      return false;
+    }
 
     c_[n][m] = c_nm_norm;
     s_[n][m] = s_nm_norm;
-- 
2.43.0


From c760cad208e8b8b46f223fb8fb070b23f733e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 025/128] fix: give every magnetic disturbance its own residual
 moment noise

---
 src/disturbances/magnetic_disturbance.cpp | 18 +++++++-----------
 src/disturbances/magnetic_disturbance.hpp |  5 +++++
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/disturbances/magnetic_disturbance.cpp b/src/disturbances/magnetic_disturbance.cpp
index ea00292..09ed080 100644
--- a/src/disturbances/magnetic_disturbance.cpp
+++ b/src/disturbances/magnetic_disturbance.cpp
@@ -10,13 +10,15 @@
 
 #include "../logger/log_utility.hpp"
 #include "../math_physics/randomization/global_randomization.hpp"
-#include "../math_physics/randomization/normal_randomization.hpp"
-#include "../math_physics/randomization/random_walk.hpp"
 
 namespace s2e::disturbances {
 
 MagneticDisturbance::MagneticDisturbance(const spacecraft::ResidualMagneticMoment& rmm_params, const bool is_calculation_enabled)
-    : Disturbance(is_calculation_enabled, true), residual_magnetic_moment_(rmm_params) {
+    : Disturbance(is_calculation_enabled, true),
+      residual_magnetic_moment_(rmm_params),
+      random_walk_(0.1, math::Vector<3>(rmm_params.GetRandomWalkStandardDeviation_Am2()),
+                   math::Vector<3>(rmm_params.GetRandomWalkLimit_Am2())),  // [FIXME] step width is constant
+      random_noise_(0.0, rmm_params.GetRandomNoiseStandardDeviation_Am2(), randomization::global_randomization.MakeSeed()) {
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
 }
 
@@ -33,17 +35,11 @@ void MagneticDisturbance::Update(const environment::LocalEnvironment& local_envi
 }
 
 void MagneticDisturbance::CalcRMM() {
-  static math::Vector<3> random_walk_std_dev(residual_magnetic_moment_.GetRandomWalkStandardDeviation_Am2());
-  static math::Vector<3> random_walk_limit(residual_magnetic_moment_.GetRandomWalkLimit_Am2());
-  static randomization::RandomWalk<3> random_walk(0.1, random_walk_std_dev, random_walk_limit);  // [FIXME] step width is constant
-  static randomization::NormalRand normal_random(0.0, residual_magnetic_moment_.GetRandomNoiseStandardDeviation_Am2(),
-                                                 randomization::global_randomization.MakeSeed());
-
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
   for (int i = 0; i < 3; ++i) {
-    rmm_b_Am2_[i] += random_walk[i] + normal_random;
+    rmm_b_Am2_[i] += random_walk_[i] + random_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string MagneticDisturbance::GetLogHeader() const {
diff --git a/src/disturbances/magnetic_disturbance.hpp b/src/disturbances/magnetic_disturbance.hpp
index f51b392..4c5b33f 100644
--- a/src/disturbances/magnetic_disturbance.hpp
+++ b/src/disturbances/magnetic_disturbance.hpp
@@ -10,6 +10,9 @@
 
 #include "../logger/loggable.hpp"
 #include "../math_physics/math/vector.hpp"
+#include "../math_physics/randomization/global_randomization.hpp"
+#include "../math_physics/randomization/normal_randomization.hpp"
+#include "../math_physics/randomization/random_walk.hpp"
 #include "../simulation/spacecraft/structure/residual_magnetic_moment.hpp"
 #include "disturbance.hpp"
 
@@ -54,6 +57,8 @@ class MagneticDisturbance : public Disturbance {
 
   math::Vector<3> rmm_b_Am2_;                                           //!< True RMM of the spacecraft in the body frame [Am2]
   const spacecraft::ResidualMagneticMoment& residual_magnetic_moment_;  //!< RMM parameters
+  randomization::RandomWalk<3> random_walk_;                            //!< Random walk of the RMM
+  randomization::NormalRand random_noise_;                              //!< White noise of the RMM
 
   /**
    * @fn CalcRMM
-- 
2.43.0


From 353ad1d3c5a5ab46577d4ea6e84aadb5ffdc529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 026/128] Revert "fix: send the whole telemetry of the example
 serial component"

This reverts commit 0320d81bb904889fde48ee09a7f9f47218b33c71.
---
 .../examples/example_serial_communication_with_obc.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/examples/example_serial_communication_with_obc.cpp b/src/components/examples/example_serial_communication_with_obc.cpp
index 09ff6b7..3017ea9 100644
--- a/src/components/examples/example_serial_communication_with_obc.cpp
+++ b/src/components/examples/example_serial_communication_with_obc.cpp
@@ -45,7 +45,7 @@ int ExampleSerialCommunicationWithObc::GenerateTelemetry() {
     tx_buffer_[i] = (unsigned char)memory_[i];
   }
   tx_buffer_.assign(std::begin(tx_buffer_), std::end(tx_buffer_));
-  return kMaxMemoryLength;
+  return sizeof(tx_buffer_);
 }
 void ExampleSerialCommunicationWithObc::MainRoutine(const int time_count) {
   UNUSED(time_count);
-- 
2.43.0


From a19732e5e462338f62b79e0e7576ef783ccf1504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 027/128] fix: give every geomagnetic field its own noise

---
 src/environment/local/geomagnetic_field.cpp | 16 +++++-----------
 src/environment/local/geomagnetic_field.hpp |  5 +++++
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/environment/local/geomagnetic_field.cpp b/src/environment/local/geomagnetic_field.cpp
index 8fff876..5920b4e 100644
--- a/src/environment/local/geomagnetic_field.cpp
+++ b/src/environment/local/geomagnetic_field.cpp
@@ -7,8 +7,6 @@
 
 #include "math_physics/geomagnetic/igrf.h"
 #include "math_physics/randomization/global_randomization.hpp"
-#include "math_physics/randomization/normal_randomization.hpp"
-#include "math_physics/randomization/random_walk.hpp"
 #include "setting_file_reader/initialize_file_access.hpp"
 
 namespace s2e::environment {
@@ -20,7 +18,9 @@ GeomagneticField::GeomagneticField(const std::string igrf_file_name, const doubl
       random_walk_standard_deviation_nT_(random_walk_srandard_deviation_nT),
       random_walk_limit_nT_(random_walk_limit_nT),
       white_noise_standard_deviation_nT_(white_noise_standard_deviation_nT),
-      igrf_file_name_(igrf_file_name) {
+      igrf_file_name_(igrf_file_name),
+      random_walk_(0.1, math::Vector<3>(random_walk_srandard_deviation_nT), math::Vector<3>(random_walk_limit_nT)),  // [FIXME] step width is constant
+      white_noise_(0.0, white_noise_standard_deviation_nT, randomization::global_randomization.MakeSeed()) {
   set_file_path(igrf_file_name_.c_str());
 }
 
@@ -42,16 +42,10 @@ void GeomagneticField::CalcMagneticField(const double decimal_year, const double
 }
 
 void GeomagneticField::AddNoise(double* magnetic_field_array_i_nT) {
-  static math::Vector<3> standard_deviation(random_walk_standard_deviation_nT_);
-  static math::Vector<3> limit(random_walk_limit_nT_);
-  static randomization::RandomWalk<3> random_walk(0.1, standard_deviation, limit);
-
-  static randomization::NormalRand white_noise(0.0, white_noise_standard_deviation_nT_, randomization::global_randomization.MakeSeed());
-
   for (int i = 0; i < 3; ++i) {
-    magnetic_field_array_i_nT[i] += random_walk[i] + white_noise;
+    magnetic_field_array_i_nT[i] += random_walk_[i] + white_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string GeomagneticField::GetLogHeader() const {
diff --git a/src/environment/local/geomagnetic_field.hpp b/src/environment/local/geomagnetic_field.hpp
index 1f38c03..0ab4805 100644
--- a/src/environment/local/geomagnetic_field.hpp
+++ b/src/environment/local/geomagnetic_field.hpp
@@ -10,6 +10,9 @@
 #include "math_physics/geodesy/geodetic_position.hpp"
 #include "math_physics/math/quaternion.hpp"
 #include "math_physics/math/vector.hpp"
+#include "math_physics/randomization/global_randomization.hpp"
+#include "math_physics/randomization/normal_randomization.hpp"
+#include "math_physics/randomization/random_walk.hpp"
 
 namespace s2e::environment {
 
@@ -78,6 +81,8 @@ class GeomagneticField : public logger::ILoggable {
   double random_walk_limit_nT_;               //!< Limit of Random Walk [nT]
   double white_noise_standard_deviation_nT_;  //!< Standard deviation of white noise [nT]
   std::string igrf_file_name_;                //!< Path to the initialize file
+  randomization::RandomWalk<3> random_walk_;  //!< Random walk of the magnetic field
+  randomization::NormalRand white_noise_;     //!< White noise of the magnetic field
 
   /**
    * @fn AddNoise
-- 
2.43.0


From bc04d1237c4592099036b60e49781a866a94ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 028/128] fix: do not stop a simulation around another body
 because of the altitude above the Earth ellipsoid

---
 src/dynamics/orbit/orbit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/orbit.cpp b/src/dynamics/orbit/orbit.cpp
index dbdcb77..79a0019 100644
--- a/src/dynamics/orbit/orbit.cpp
+++ b/src/dynamics/orbit/orbit.cpp
@@ -44,8 +44,8 @@ void Orbit::TransformEciToEcef(void) {
 
 void Orbit::TransformEcefToGeodetic(void) {
   spacecraft_geodetic_position_.UpdateFromEcef(spacecraft_position_ecef_m_);
-  // Check altitude
-  if (spacecraft_geodetic_position_.GetAltitude_m() < 0.0) {
+  // Check altitude (the geodetic position is meaningful only around the Earth)
+  if (celestial_information_->GetCenterBodyName() == "EARTH" && spacecraft_geodetic_position_.GetAltitude_m() < 0.0) {
     std::cout << "[Error Orbit]: The spacecraft altitude is smaller than zero." << std::endl;
     std::cout << "               The orbit or disturbance setting may have something wrong." << std::endl;
     std::exit(1);
-- 
2.43.0


From 05348b163e0022ff0974ffadcd839fca4b854309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 029/128] fix: update the celestial information before the
 orbit dependent environments use it

---
 src/environment/local/local_environment.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/environment/local/local_environment.cpp b/src/environment/local/local_environment.cpp
index 5a1768d..54046d3 100644
--- a/src/environment/local/local_environment.cpp
+++ b/src/environment/local/local_environment.cpp
@@ -57,10 +57,14 @@ void LocalEnvironment::Update(const dynamics::Dynamics* dynamics, const Simulati
   auto& orbit = dynamics->GetOrbit();
   auto& attitude = dynamics->GetAttitude();
 
-  // Update local environments that depend on the attitude (and the position)
-  if (simulation_time->GetAttitudePropagateFlag()) {
+  // The celestial information is used by all local environments below
+  if (simulation_time->GetAttitudePropagateFlag() || simulation_time->GetOrbitPropagateFlag()) {
     celestial_information_->UpdateAllObjectsInformation(orbit.GetPosition_i_m(), orbit.GetVelocity_i_m_s(), attitude.GetQuaternion_i2b(),
                                                         attitude.GetAngularVelocity_b_rad_s());
+  }
+
+  // Update local environments that depend on the attitude (and the position)
+  if (simulation_time->GetAttitudePropagateFlag()) {
     geomagnetic_field_->CalcMagneticField(simulation_time->GetCurrentDecimalYear(), simulation_time->GetCurrentSiderealTime(),
                                           orbit.GetGeodeticPosition(), attitude.GetQuaternion_i2b());
   }
-- 
2.43.0


From 5f930d67345d9974e6fe72e8700c3662bf1cfdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 030/128] fix: carry a fraction sum of exactly one second in
 epoch time additions

---
 src/math_physics/time_system/epoch_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/epoch_time.cpp b/src/math_physics/time_system/epoch_time.cpp
index cee1a40..017e390 100644
--- a/src/math_physics/time_system/epoch_time.cpp
+++ b/src/math_physics/time_system/epoch_time.cpp
@@ -57,7 +57,7 @@ bool EpochTime::operator<(const EpochTime& right_side) const {
 EpochTime EpochTime::operator+(const EpochTime& right_side) const {
   time_t time_s = this->time_s_ + right_side.GetTime_s();
   double fraction_s = this->fraction_s_ + right_side.GetFraction_s();
-  if (fraction_s > 1.0) {
+  if (fraction_s >= 1.0) {
     fraction_s -= 1.0;
     time_s += 1;
   }
-- 
2.43.0


From 3a9fba9faa26785873d351409266134f6fba3565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 031/128] fix: keep the full precision of the seconds in the
 date string

---
 src/math_physics/time_system/date_time_format.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/date_time_format.cpp b/src/math_physics/time_system/date_time_format.cpp
index d470bfe..6c88360 100644
--- a/src/math_physics/time_system/date_time_format.cpp
+++ b/src/math_physics/time_system/date_time_format.cpp
@@ -9,6 +9,7 @@
 
 #include <cmath>
 #include <iomanip>
+#include <limits>
 #include <sstream>
 
 namespace s2e::time_system {
@@ -50,7 +51,7 @@ std::string DateTime::GetAsString() const {
 
   stream << std::setw(2) << std::setfill('0') << (int)hour_ << ":";
   stream << std::setw(2) << std::setfill('0') << (int)minute_ << ":";
-  stream << second_;
+  stream << std::setprecision(std::numeric_limits<double>::max_digits10) << second_;
   std::string output = stream.str();
   return output;
 }
-- 
2.43.0


From eab57f546b9dc5b7828930823d1f77e280887545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 032/128] fix: keep the rotation in the conversion to Euler
 angles at the gimbal lock

---
 src/math_physics/math/quaternion.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/math/quaternion.cpp b/src/math_physics/math/quaternion.cpp
index d2f28f0..e732a99 100644
--- a/src/math_physics/math/quaternion.cpp
+++ b/src/math_physics/math/quaternion.cpp
@@ -189,7 +189,10 @@ Vector<3> Quaternion::ConvertToEuler(void) const {
   Vector<3> euler;
   euler[0] = atan2(dcm[1][2], dcm[2][2]);
   euler[1] = atan2(-dcm[0][2], sqrt(dcm[1][2] * dcm[1][2] + dcm[2][2] * dcm[2][2]));
-  euler[2] = atan2(dcm[0][1], dcm[0][0]);
+  // Use the roll angle for the yaw angle so that the rotation is also kept in the gimbal lock
+  double cos_roll = cos(euler[0]);
+  double sin_roll = sin(euler[0]);
+  euler[2] = atan2(sin_roll * dcm[2][0] - cos_roll * dcm[1][0], cos_roll * dcm[1][1] - sin_roll * dcm[2][1]);
   return euler;
 }
 
-- 
2.43.0


From 143df5a3852786abfacc845dc859ad038d9405e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 033/128] fix: compute the RAAN of a position and velocity in
 all quadrants

---
 src/math_physics/orbit/orbital_elements.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/orbital_elements.cpp b/src/math_physics/orbit/orbital_elements.cpp
index d02a324..33bab84 100644
--- a/src/math_physics/orbit/orbital_elements.cpp
+++ b/src/math_physics/orbit/orbital_elements.cpp
@@ -54,7 +54,7 @@ void OrbitalElements::CalcOeFromPosVel(const double gravity_constant_m3_s2, cons
     // We cannot define raan when i = 0
     raan_rad_ = 0.0;
   } else {
-    raan_rad_ = asin(h[0] / sqrt(h[0] * h[0] + h[1] * h[1]));
+    raan_rad_ = atan2(h[0], -h[1]);
   }
   // position in plane
   double x_p_m = position_i_m[0] * cos(raan_rad_) + position_i_m[1] * sin(raan_rad_);
-- 
2.43.0


From 939ad83afaeb9dbbb3368d76d6e2011f8d6e5748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 034/128] fix: start the Newton iteration of the Kepler
 equation at the point where its derivative is taken

---
 src/math_physics/orbit/kepler_orbit.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/orbit/kepler_orbit.cpp b/src/math_physics/orbit/kepler_orbit.cpp
index 2f49fd5..add039d 100644
--- a/src/math_physics/orbit/kepler_orbit.cpp
+++ b/src/math_physics/orbit/kepler_orbit.cpp
@@ -86,8 +86,9 @@ double KeplerOrbit::SolveKeplerFirstOrder(const double eccentricity, const doubl
 
 double KeplerOrbit::SolveKeplerNewtonMethod(const double eccentricity, const double mean_anomaly_rad, const double angle_limit_rad,
                                             const int iteration_limit) {
-  double u_prev_rad = mean_anomaly_rad;
-  double u_rad = 0.0;
+  // Start on the side of the solution from which the iteration converges monotonically
+  double u_prev_rad = mean_anomaly_rad + (sin(mean_anomaly_rad) < 0.0 ? -eccentricity : eccentricity);
+  double u_rad = u_prev_rad;
 
   for (int i = 0; i < iteration_limit; i++) {
     u_rad -= (u_prev_rad - eccentricity * sin(u_prev_rad) - mean_anomaly_rad) / (1.0 - eccentricity * cos(u_prev_rad));
-- 
2.43.0


From e6c35229a6ebc1262d4a35dad7d8edb8750b3ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 035/128] fix: accept parallel vectors whose inner product is
 rounded below one in the quaternion constructor

---
 src/math_physics/math/quaternion.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/math_physics/math/quaternion.cpp b/src/math_physics/math/quaternion.cpp
index e732a99..171c08d 100644
--- a/src/math_physics/math/quaternion.cpp
+++ b/src/math_physics/math/quaternion.cpp
@@ -34,19 +34,20 @@ Quaternion::Quaternion(const Vector<3>& vector_before, const Vector<3>& vector_a
   // outer product (rotation rotation_axis for converting vector_before to vector_after)
   Vector<3> op = OuterProduct(normalized_v_before, normalized_v_after);
 
-  if (ip > 1.0 - DBL_EPSILON) {  // if theta=0, then rotation is not need
+  double op_norm = op.CalcNorm();
+  bool is_parallel = op_norm < sqrt(DBL_EPSILON);
+  if (is_parallel && ip > 0.0) {  // if theta=0, then rotation is not need
     quaternion_[0] = 0.0;
     quaternion_[1] = 0.0;
     quaternion_[2] = 0.0;
     quaternion_[3] = 1.0;
-  } else if (ip < -1.0 + DBL_EPSILON) {
+  } else if (is_parallel) {
     // if theta=180deg, the rotation rotation_axis can't be defined, so rotate vector_before manually
     Vector<3> rotation_axis = GenerateOrthogonalUnitVector(vector_before);
     quaternion_[0] = rotation_axis[0], quaternion_[1] = rotation_axis[1], quaternion_[2] = rotation_axis[2], quaternion_[3] = 0.0;
   } else {
-    assert(op.CalcNorm() > 0.0);
-    Vector<3> rotation_axis = 1.0 / op.CalcNorm() * op;
-    double rotation_angle = acos(ip);
+    Vector<3> rotation_axis = 1.0 / op_norm * op;
+    double rotation_angle = atan2(op_norm, ip);
     quaternion_[0] = rotation_axis[0] * sin(0.5 * rotation_angle);
     quaternion_[1] = rotation_axis[1] * sin(0.5 * rotation_angle);
     quaternion_[2] = rotation_axis[2] * sin(0.5 * rotation_angle);
-- 
2.43.0


From bbc618a302877a8a9f5357938988e02f3af18871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 036/128] fix: keep the angle between parallel vectors finite

---
 src/math_physics/math/vector_template_functions.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math_physics/math/vector_template_functions.hpp b/src/math_physics/math/vector_template_functions.hpp
index 9b99003..c87e503 100644
--- a/src/math_physics/math/vector_template_functions.hpp
+++ b/src/math_physics/math/vector_template_functions.hpp
@@ -143,6 +143,9 @@ Vector<N, double> Vector<N, T>::CalcNormalizedVector() const {
 template <size_t N>
 double CalcAngleTwoVectors_rad(const Vector<N, double>& v1, const Vector<N, double>& v2) {
   double cos = InnerProduct(v1, v2) / (v1.CalcNorm() * v2.CalcNorm());
+  // The cosine can exceed one by rounding for parallel vectors
+  if (cos > 1.0) cos = 1.0;
+  if (cos < -1.0) cos = -1.0;
   return acos(cos);
 }
 
-- 
2.43.0


From e970368201fc16e6e1d124e18499f61aa1956967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 037/128] Revert "fix: keep the full precision of the seconds
 in the date string"

This reverts commit 3a9fba9faa26785873d351409266134f6fba3565.
---
 src/math_physics/time_system/date_time_format.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/math_physics/time_system/date_time_format.cpp b/src/math_physics/time_system/date_time_format.cpp
index 6c88360..d470bfe 100644
--- a/src/math_physics/time_system/date_time_format.cpp
+++ b/src/math_physics/time_system/date_time_format.cpp
@@ -9,7 +9,6 @@
 
 #include <cmath>
 #include <iomanip>
-#include <limits>
 #include <sstream>
 
 namespace s2e::time_system {
@@ -51,7 +50,7 @@ std::string DateTime::GetAsString() const {
 
   stream << std::setw(2) << std::setfill('0') << (int)hour_ << ":";
   stream << std::setw(2) << std::setfill('0') << (int)minute_ << ":";
-  stream << std::setprecision(std::numeric_limits<double>::max_digits10) << second_;
+  stream << second_;
   std::string output = stream.str();
   return output;
 }
-- 
2.43.0


From 2d48edf0f7c5653b68bdd24b8248c762101426be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 038/128] fix: integrate the last partial step of the
 cantilever attitude over the remaining time

---
 .../attitude/attitude_with_cantilever_vibration.cpp      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index d07cf23..1d6d1f8 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -91,9 +91,12 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
     numerical_integrator_.GetIntegrator()->Integrate();
     current_propagation_time_s_ += propagation_step_s_;
   }
-  numerical_integrator_.GetIntegrator()->SetState(end_time_s - current_propagation_time_s_, numerical_integrator_.GetIntegrator()->GetState());
-  numerical_integrator_.GetIntegrator()->Integrate();
-  attitude_ode_.SetPhysicalQuantitiesFromState(numerical_integrator_.GetIntegrator()->GetState(), angular_velocity_b_rad_s_,
+  // The last step covers the remaining time, which is generally shorter than the propagation step
+  numerical_integration::NumericalIntegratorManager<13> last_step_integrator(end_time_s - current_propagation_time_s_, attitude_ode_,
+                                                                             numerical_integration::NumericalIntegrationMethod::kRk4);
+  last_step_integrator.GetIntegrator()->SetState(current_propagation_time_s_, numerical_integrator_.GetIntegrator()->GetState());
+  last_step_integrator.GetIntegrator()->Integrate();
+  attitude_ode_.SetPhysicalQuantitiesFromState(last_step_integrator.GetIntegrator()->GetState(), angular_velocity_b_rad_s_,
                                                angular_velocity_cantilever_rad_s_, quaternion_i2b_, euler_angular_cantilever_rad_);
   quaternion_i2b_.Normalize();
 
-- 
2.43.0


From 197c6e6f0adf850784497eaefe5318370b5a35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 039/128] fix: keep the controlled attitude a rotation when the
 sub target is parallel to the main target

---
 src/dynamics/attitude/controlled_attitude.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index e92cc13..d43e581 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -130,6 +130,16 @@ math::Matrix<3, 3> ControlledAttitude::CalcDcm(const math::Vector<3> main_direct
   ex = main_direction;
   math::Vector<3> tmp1 = OuterProduct(ex, sub_direction);
   math::Vector<3> tmp2 = OuterProduct(tmp1, ex);
+  if (tmp2.CalcNorm() == 0.0) {
+    // The sub direction is parallel to the main direction or undefined: any direction perpendicular to the main direction is valid
+    size_t min_axis = 0;
+    for (size_t i = 1; i < 3; i++) {
+      if (std::abs(ex[i]) < std::abs(ex[min_axis])) min_axis = i;
+    }
+    math::Vector<3> reference_axis(0.0);
+    reference_axis[min_axis] = 1.0;
+    tmp2 = OuterProduct(OuterProduct(ex, reference_axis), ex);
+  }
   ey = tmp2.CalcNormalizedVector();
   math::Vector<3> tmp3 = OuterProduct(ex, ey);
   ez = tmp3.CalcNormalizedVector();
-- 
2.43.0


From 271ae857702066018988b4c24477347ae0a771bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 040/128] fix: do not reverse the controlled angular velocity
 when the quaternion changes its sign

---
 src/dynamics/attitude/controlled_attitude.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index d43e581..8623a98 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -181,7 +181,9 @@ void ControlledAttitude::CalcAngularVelocity(const double current_time_s) {
     double time_diff_sec = current_time_s - previous_calc_time_s_;
     math::Quaternion prev_q_b2i = previous_quaternion_i2b_.Conjugate();
     math::Quaternion q_diff = prev_q_b2i * quaternion_i2b_;
-    q_diff = (2.0 / time_diff_sec) * q_diff;
+    // Quaternions q and -q express the same rotation: use the one of the rotation within 180 deg
+    const double sign = (q_diff[3] < 0.0) ? -1.0 : 1.0;
+    q_diff = (sign * 2.0 / time_diff_sec) * q_diff;
 
     math::Vector<3> angular_acc_b_rad_s2_;
     for (int i = 0; i < 3; i++) {
-- 
2.43.0


From 08de86624d4e26999bb128a98366339ce1f8a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 041/128] fix: read the altitude of the attitude target under
 its key of the settings file

---
 src/dynamics/attitude/initialize_attitude.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/initialize_attitude.cpp b/src/dynamics/attitude/initialize_attitude.cpp
index 2119bae..25b5f8e 100644
--- a/src/dynamics/attitude/initialize_attitude.cpp
+++ b/src/dynamics/attitude/initialize_attitude.cpp
@@ -41,7 +41,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
     double latitude_deg, longitude_deg, altitude_m;
     latitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_latitude_deg");
     longitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_longitude_deg");
-    altitude_m = ini_file_ca.ReadDouble(section_ca_, "altitude_m");
+    altitude_m = ini_file_ca.ReadDouble(section_ca_, "target_position_altitude_m");
     geodesy::GeodeticPosition target_position(latitude_deg * math::deg_to_rad, longitude_deg * math::deg_to_rad, altitude_m);
 
     Attitude* attitude_temp = new ControlledAttitude(main_mode, sub_mode, quaternion_i2b, main_target_direction_b, sub_target_direction_b,
@@ -96,7 +96,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
     double latitude_deg, longitude_deg, altitude_m;
     latitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_latitude_deg");
     longitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_longitude_deg");
-    altitude_m = ini_file_ca.ReadDouble(section_ca_, "altitude_m");
+    altitude_m = ini_file_ca.ReadDouble(section_ca_, "target_position_altitude_m");
     geodesy::GeodeticPosition target_position(latitude_deg * math::deg_to_rad, longitude_deg * math::deg_to_rad, altitude_m);
 
     attitude = new ControlledAttitude(main_mode, sub_mode, quaternion_i2b, main_target_direction_b, sub_target_direction_b, inertia_tensor_kgm2,
-- 
2.43.0


From a134521409e2780a0c768d9c50a4f7e9c8df393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 042/128] fix: rectify the Encke orbit with the state of the
 time it belongs to

---
 src/dynamics/orbit/encke_orbit_propagation.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index 5a1ae0d..8856ce9 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -20,6 +20,7 @@ EnckeOrbitPropagation::EnckeOrbitPropagation(const environment::CelestialInforma
       error_tolerance_(error_tolerance),
       propagation_step_s_(propagation_step_s) {
   propagation_time_s_ = 0.0;
+  spacecraft_acceleration_i_m_s2_.FillUp(0.0);
   Initialize(current_time_jd, position_i_m, velocity_i_m_s);
 }
 
@@ -29,13 +30,6 @@ EnckeOrbitPropagation::~EnckeOrbitPropagation() {}
 void EnckeOrbitPropagation::Propagate(const double end_time_s, const double current_time_jd) {
   if (!is_calc_enabled_) return;
 
-  // Rectification
-  double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
-  double norm_difference_position_m = difference_position_i_m_.CalcNorm();
-  if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
-    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
-  }
-
   // Update reference orbit
   reference_kepler_orbit.CalcOrbit(current_time_jd);
   reference_position_i_m_ = reference_kepler_orbit.GetPosition_i_m();
@@ -59,6 +53,13 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
   difference_velocity_i_m_s_[2] = GetState()[5];
 
   UpdateSatOrbit();
+
+  // Rectification with the state at the current time
+  double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
+  double norm_difference_position_m = difference_position_i_m_.CalcNorm();
+  if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
+    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
+  }
 }
 
 // Functions for OrdinaryDifferentialEquation
@@ -86,9 +87,6 @@ void EnckeOrbitPropagation::DerivativeFunction(double t, const math::Vector<6>&
 
 // Private Functions
 void EnckeOrbitPropagation::Initialize(double current_time_jd, math::Vector<3> reference_position_i_m, math::Vector<3> reference_velocity_i_m_s) {
-  // General
-  spacecraft_acceleration_i_m_s2_.FillUp(0.0);
-
   // reference orbit
   reference_position_i_m_ = reference_position_i_m;
   reference_velocity_i_m_s_ = reference_velocity_i_m_s;
-- 
2.43.0


From 60a49ad1269c544cea8d50dc017ac493517c048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:31 +0000
Subject: [PATCH 043/128] fix: follow the orbit time series to its last record
 and over several records per update

---
 .../orbit/time_series_file_orbit_propagation.cpp   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 5230a18..9c33a5b 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -41,6 +41,12 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
     reference_interpolation_id_ = nearest_ephemeris_time_id - half_interpolation_number;
   }
 
+  // The interpolation points have to be in the time series
+  const size_t number_of_points = static_cast<size_t>(number_of_interpolation);
+  if (time_series_data_.size() >= number_of_points && reference_interpolation_id_ > time_series_data_.size() - number_of_points) {
+    reference_interpolation_id_ = time_series_data_.size() - number_of_points;
+  }
+
   reference_time_ = CalcEphemerisTimeData(reference_interpolation_id_);
 
   // Initialize orbit
@@ -76,7 +82,7 @@ size_t TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId(const double
 }
 
 double TimeSeriesFileOrbitPropagation::CalcEphemerisTimeData(const size_t ephemeris_time_id) const {
-  if (ephemeris_time_id > time_series_data_.size()) {
+  if (ephemeris_time_id >= time_series_data_.size()) {
     return 0;
   }
   return time_series_data_[ephemeris_time_id][0];
@@ -90,8 +96,8 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
   // Check interpolation update
   double current_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;
   double diff_s = current_ephemris_time - reference_time_;
-  double medium_time_s = orbit_position_i_m_[0].GetTimeList()[static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0))];
-  if (diff_s > medium_time_s) {
+  const size_t medium_id = static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0));
+  while (reference_interpolation_id_ < time_series_data_.size() && diff_s > orbit_position_i_m_[0].GetTimeList()[medium_id]) {
     UpdateInterpolationInformation();
   }
   if (diff_s < 0.0) {
@@ -103,7 +109,7 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
       spacecraft_position_i_m_[i] = time_series_data_[0][i + 1];
       spacecraft_velocity_i_m_s_[i] = time_series_data_[0][i + 4];
     }
-  } else if (diff_s > 1e6 || reference_interpolation_id_ >= time_series_data_.size()) {
+  } else if (current_ephemris_time > time_series_data_.back()[0]) {
     if (!is_time_range_warning_displayed_) {
       std::cout << "[WARNING] Time series file orbit propagation: Time is out of range of time series file." << std::endl;
       is_time_range_warning_displayed_ = true;
-- 
2.43.0


From 3ed0924142eea8c6e415ca94e149e0b27b7ea473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 044/128] fix: keep relative information of spacecraft whose
 IDs are not contiguous

---
 .../relative_information.cpp                  | 65 +++++++++++++------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/simulation/multiple_spacecraft/relative_information.cpp b/src/simulation/multiple_spacecraft/relative_information.cpp
index 3aed97e..8b07f18 100644
--- a/src/simulation/multiple_spacecraft/relative_information.cpp
+++ b/src/simulation/multiple_spacecraft/relative_information.cpp
@@ -12,8 +12,10 @@ RelativeInformation::RelativeInformation() {}
 RelativeInformation::~RelativeInformation() {}
 
 void RelativeInformation::Update() {
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < dynamics_database_.size(); reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
       // Position
       math::Vector<3> target_sat_pos_i = dynamics_database_.at(target_spacecraft_id)->GetOrbit().GetPosition_i_m();
       math::Vector<3> reference_sat_pos_i = dynamics_database_.at(reference_spacecraft_id)->GetOrbit().GetPosition_i_m();
@@ -51,29 +53,41 @@ void RelativeInformation::RemoveDynamicsInfo(const size_t spacecraft_id) {
 
 std::string RelativeInformation::GetLogHeader() const {
   std::string str_tmp = "";
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_position_from_satellite" + std::to_string(reference_spacecraft_id), "i", "m", 3);
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_velocity_from_satellite" + std::to_string(reference_spacecraft_id), "i", "m/s", 3);
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_position_from_satellite" + std::to_string(reference_spacecraft_id), "rtn", "m", 3);
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_velocity_from_satellite" + std::to_string(reference_spacecraft_id), "rtn", "m/s", 3);
     }
@@ -84,26 +98,38 @@ std::string RelativeInformation::GetLogHeader() const {
 
 std::string RelativeInformation::GetLogValue() const {
   std::string str_tmp = "";
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(GetRelativePosition_i_m(target_spacecraft_id, reference_spacecraft_id));
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(GetRelativeVelocity_i_m_s(target_spacecraft_id, reference_spacecraft_id));
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(GetRelativePosition_rtn_m(target_spacecraft_id, reference_spacecraft_id));
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(GetRelativeVelocity_rtn_m_s(target_spacecraft_id, reference_spacecraft_id));
     }
   }
@@ -157,7 +183,8 @@ math::Vector<3> RelativeInformation::CalcRelativeVelocity_rtn_m_s(const size_t t
 }
 
 void RelativeInformation::ResizeLists() {
-  size_t size = dynamics_database_.size();
+  // The lists are indexed by the spacecraft ID, which is not necessarily contiguous
+  size_t size = dynamics_database_.empty() ? 0 : dynamics_database_.rbegin()->first + 1;
   relative_position_list_i_m_.assign(size, std::vector<math::Vector<3>>(size, math::Vector<3>(0)));
   relative_velocity_list_i_m_s_.assign(size, std::vector<math::Vector<3>>(size, math::Vector<3>(0)));
   relative_distance_list_m_.assign(size, std::vector<double>(size, 0.0));
-- 
2.43.0


From c6af06ae860b0a4e7c9360fa89af9d67530c6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 045/128] fix: compose the relative attitude in the order of
 the frame conversions

---
 src/simulation/multiple_spacecraft/relative_information.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/multiple_spacecraft/relative_information.cpp b/src/simulation/multiple_spacecraft/relative_information.cpp
index 8b07f18..d88cc65 100644
--- a/src/simulation/multiple_spacecraft/relative_information.cpp
+++ b/src/simulation/multiple_spacecraft/relative_information.cpp
@@ -147,7 +147,7 @@ math::Quaternion RelativeInformation::CalcRelativeAttitudeQuaternion(const size_
   // ECI frame(i) -> Target SC body frame(main_sat)
   math::Quaternion q_target_i2b = dynamics_database_.at(target_spacecraft_id)->GetAttitude().GetQuaternion_i2b();
 
-  return q_target_i2b * q_reference_b2i;
+  return q_reference_b2i * q_target_i2b;
 }
 
 math::Vector<3> RelativeInformation::CalcRelativePosition_rtn_m(const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
-- 
2.43.0


From 301b9793c685bef46b0e92dbb6cc11dcaf109d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 046/128] fix: add the rotation of the LVLH frame to the
 absolute velocity of the relative orbit

---
 src/dynamics/orbit/relative_orbit.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/relative_orbit.cpp b/src/dynamics/orbit/relative_orbit.cpp
index 6f4b260..2066945 100644
--- a/src/dynamics/orbit/relative_orbit.cpp
+++ b/src/dynamics/orbit/relative_orbit.cpp
@@ -45,7 +45,11 @@ void RelativeOrbit::InitializeState(math::Vector<3> relative_position_lvlh_m, ma
   math::Quaternion q_i2lvlh = relative_information_->GetReferenceSatDynamics(reference_spacecraft_id_)->GetOrbit().CalcQuaternion_i2lvlh();
   math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
   spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(relative_position_lvlh_m_) + reference_sat_position_i;
-  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
+  // The relative velocity is given in the LVLH frame rotating with the reference satellite
+  math::Vector<3> lvlh_angular_velocity_i_rad_s = cross(reference_sat_position_i, reference_sat_velocity_i);
+  lvlh_angular_velocity_i_rad_s /= reference_sat_position_i.CalcNorm() * reference_sat_position_i.CalcNorm();
+  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) +
+                               cross(lvlh_angular_velocity_i_rad_s, q_lvlh2i.FrameConversion(relative_position_lvlh_m_)) + reference_sat_velocity_i;
 
   initial_state_[0] = relative_position_lvlh_m[0];
   initial_state_[1] = relative_position_lvlh_m[1];
@@ -116,7 +120,11 @@ void RelativeOrbit::Propagate(const double end_time_s, const double current_time
   math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
 
   spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(relative_position_lvlh_m_) + reference_sat_position_i;
-  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
+  // The relative velocity is given in the LVLH frame rotating with the reference satellite
+  math::Vector<3> lvlh_angular_velocity_i_rad_s = cross(reference_sat_position_i, reference_sat_velocity_i);
+  lvlh_angular_velocity_i_rad_s /= reference_sat_position_i.CalcNorm() * reference_sat_position_i.CalcNorm();
+  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) +
+                               cross(lvlh_angular_velocity_i_rad_s, q_lvlh2i.FrameConversion(relative_position_lvlh_m_)) + reference_sat_velocity_i;
   TransformEciToEcef();
   TransformEcefToGeodetic();
 }
-- 
2.43.0


From a86087cfd60e612583189cec2ad643031c223a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 047/128] fix: repeat the internal heatload table periodically
 and accept a table with a single entry

---
 src/dynamics/thermal/heatload.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/thermal/heatload.cpp b/src/dynamics/thermal/heatload.cpp
index 29b8cdb..59ef953 100644
--- a/src/dynamics/thermal/heatload.cpp
+++ b/src/dynamics/thermal/heatload.cpp
@@ -28,6 +28,10 @@ Heatload::Heatload(int node_id, std::vector<double> time_table_s, std::vector<do
 Heatload::~Heatload() {}
 
 void Heatload::CalcInternalHeatload(void) {
+  if (time_table_s_.size() < 2) {
+    internal_heatload_W_ = internal_heatload_table_W_[0];
+    return;
+  }
   double time_table_lower_s = time_table_s_[elapsed_time_idx_];      // Time in time_table_s_ that is below and closest to elapsed_time_s_ [s]
   double time_table_upper_s = time_table_s_[elapsed_time_idx_ + 1];  // Time in time_table_s_ that is above and closest to elapsed_time_s_ [s]
 
@@ -43,13 +47,13 @@ void Heatload::CalcInternalHeatload(void) {
 
 void Heatload::SetElapsedTime_s(double elapsed_time_s) {
   elapsed_time_s_ = elapsed_time_s;
+  if (time_table_s_.size() < 2) return;  // A single entry is a constant heatload
   residual_elapsed_time_s_ = fmod(elapsed_time_s_, time_table_period_s_);
 
-  while (residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
+  // Search from the head since the residual time goes back to the head of the table in every period
+  elapsed_time_idx_ = 0;
+  while (elapsed_time_idx_ + 2 < time_table_s_.size() && residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
     elapsed_time_idx_++;
-    if (elapsed_time_idx_ > time_table_s_.size() - 1) {
-      elapsed_time_idx_ = 0;
-    }
   }
 }
 
-- 
2.43.0


From 1a871cfa1afb131203eee09e981866ab3f5902b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 048/128] fix: evaluate the stages of the thermal Runge-Kutta
 step at their own temperatures

---
 src/dynamics/thermal/temperature.cpp | 8 ++------
 src/dynamics/thermal/temperature.hpp | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/dynamics/thermal/temperature.cpp b/src/dynamics/thermal/temperature.cpp
index 46a39b0..dcc11a6 100644
--- a/src/dynamics/thermal/temperature.cpp
+++ b/src/dynamics/thermal/temperature.cpp
@@ -10,7 +10,6 @@
 #include <environment/global/physical_constants.hpp>
 #include <environment/global/simulation_time.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
-#include <utilities/macros.hpp>
 
 using namespace std;
 
@@ -138,9 +137,6 @@ void Temperature::CalcRungeOneStep(double time_now_s, double time_step_s, const
 
 vector<double> Temperature::CalcTemperatureDifferentials(vector<double> temperatures_K, double t,
                                                          const environment::LocalCelestialInformation* local_celestial_information, size_t node_num) {
-  // TODO: consider the following unused arguments are really needed
-  UNUSED(temperatures_K);
-
   math::Vector<3> sun_direction_b = local_celestial_information->GetPositionFromSpacecraft_b_m("SUN").CalcNormalizedVector();
   vector<double> differentials_K_s(node_num);
   for (size_t i = 0; i < node_num; i++) {
@@ -167,9 +163,9 @@ vector<double> Temperature::CalcTemperatureDifferentials(vector<double> temperat
       double conductive_heat_input_W = 0;
       double radiative_heat_input_W = 0;
       for (size_t j = 0; j < node_num; j++) {
-        conductive_heat_input_W += conductance_matrix_W_K_[i][j] * (nodes_[j].GetTemperature_K() - nodes_[i].GetTemperature_K());
+        conductive_heat_input_W += conductance_matrix_W_K_[i][j] * (temperatures_K[j] - temperatures_K[i]);
         radiative_heat_input_W += environment::stefan_boltzmann_constant_W_m2K4 * radiation_matrix_m2_[i][j] *
-                                  (pow(nodes_[j].GetTemperature_K(), 4) - pow(nodes_[i].GetTemperature_K(), 4));
+                                  (pow(temperatures_K[j], 4) - pow(temperatures_K[i], 4));
       }
       double total_heat_input_W = conductive_heat_input_W + radiative_heat_input_W + total_heatload_W;
       differentials_K_s[i] = total_heat_input_W / nodes_[i].GetCapacity_J_K();
diff --git a/src/dynamics/thermal/temperature.hpp b/src/dynamics/thermal/temperature.hpp
index 200d213..dd4496d 100644
--- a/src/dynamics/thermal/temperature.hpp
+++ b/src/dynamics/thermal/temperature.hpp
@@ -66,7 +66,7 @@ class Temperature : public logger::ILoggable {
    * @fn CalcTemperatureDifferentials
    * @brief Calculate differential of thermal equilibrium equation
    *
-   * @param temperatures_K: [UNUSED] Temperatures of each node [K]
+   * @param temperatures_K: Temperatures of each node [K]
    * @param time_now_s: Current elapsed time [s]
    * @param[in] local_celestial_information: LocalCelestialInformation object for calculating radiation
    * @param node_num: Number of nodes
-- 
2.43.0


From b635cb216af12cf9def5ab2efe609db29813acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 049/128] fix: keep the view factor of the earth when rounding
 exceeds the domain of the arc functions

---
 src/dynamics/thermal/node.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dynamics/thermal/node.cpp b/src/dynamics/thermal/node.cpp
index c6189e5..ed36ae9 100644
--- a/src/dynamics/thermal/node.cpp
+++ b/src/dynamics/thermal/node.cpp
@@ -5,6 +5,7 @@
 
 #include "node.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <environment/global/physical_constants.hpp>
@@ -54,7 +55,7 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
   math::Vector<3> vec_b = (sat2sun_direction_b - sat2earth_direction_b).CalcNormalizedVector();
 
   const double cos_theta = InnerProduct(vec_a, vec_b);
-  const double lamda = acos(InnerProduct(sat2earth_direction_b, normal_vector_b_));
+  const double lamda = acos(std::clamp(InnerProduct(sat2earth_direction_b, normal_vector_b_), -1.0, 1.0));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
@@ -67,8 +68,8 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
     if (lamda <= math::pi / 2.0 - phi_m) {
       view_factor = cos(lamda) / H / H;
     } else if (lamda <= math::pi / 2.0 + phi_m) {
-      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(b / (H * sin(lamda))) +
-                    1.0 / (math::pi * pow(H, 2.0)) * (cos(lamda) * acos(-b / tan(lamda)) - b * sqrt(1.0 - pow(H * cos(lamda), 2.0)));
+      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(std::min(b / (H * sin(lamda)), 1.0)) +
+                    1.0 / (math::pi * pow(H, 2.0)) * (cos(lamda) * acos(std::clamp(-b / tan(lamda), -1.0, 1.0)) - b * sqrt(std::max(1.0 - pow(H * cos(lamda), 2.0), 0.0)));
     } else {
       view_factor = 0.0;
     }
@@ -98,7 +99,7 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
 double Node::CalcEarthInfraredRadiation_W(math::Vector<3> earth_position_b_m, double earth_infrared_W_m2) {
   math::Vector<3> earth_direction_b = earth_position_b_m.CalcNormalizedVector();
 
-  const double lamda = acos(InnerProduct(earth_direction_b, normal_vector_b_));
+  const double lamda = acos(std::clamp(InnerProduct(earth_direction_b, normal_vector_b_), -1.0, 1.0));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
@@ -112,8 +113,8 @@ double Node::CalcEarthInfraredRadiation_W(math::Vector<3> earth_position_b_m, do
     if (lamda <= math::pi / 2.0 - phi_m) {
       view_factor = cos(lamda) / H / H;
     } else if (lamda <= math::pi / 2.0 + phi_m) {
-      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(b / (H * sin(lamda))) +
-                    1.0 / (math::pi * pow(H, 2.0)) * (cos(lamda) * acos(-b / tan(lamda)) - b * sqrt(1.0 - pow(H * cos(lamda), 2.0)));
+      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(std::min(b / (H * sin(lamda)), 1.0)) +
+                    1.0 / (math::pi * pow(H, 2.0)) * (cos(lamda) * acos(std::clamp(-b / tan(lamda), -1.0, 1.0)) - b * sqrt(std::max(1.0 - pow(H * cos(lamda), 2.0), 0.0)));
     } else {
       view_factor = 0.0;
     }
-- 
2.43.0


From 7a48839717d10c3f163c211286b3085084a15190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 050/128] fix: let the reaction wheel coast while its power is
 off instead of keeping its last torque

---
 src/components/real/aocs/reaction_wheel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 9cdbac4..1122a5b 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -92,7 +92,11 @@ void ReactionWheel::MainRoutine(const int time_count) {
   CalcTorque();
 }
 
-void ReactionWheel::PowerOffRoutine() { drive_flag_ = 0; }
+void ReactionWheel::PowerOffRoutine() {
+  drive_flag_ = 0;
+  // The rotor keeps coasting without power
+  CalcTorque();
+}
 
 // Jitter calculation
 void ReactionWheel::FastUpdate() {
-- 
2.43.0


From bd032e74f7cb4eef7cf29f186879f0448b257192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 051/128] fix: stop the coasting reaction wheel where the
 friction would reverse its rotation

---
 src/components/real/aocs/reaction_wheel.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 1122a5b..ba2d192 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -144,8 +144,13 @@ math::Vector<3> ReactionWheel::CalcTorque() {
 
   ++ode_angular_velocity_;  // ODE propagate
 
-  // Substitution
   double pre_angular_velocity_rad = angular_velocity_rad_s_;
+  if (!drive_flag_ && ode_angular_velocity_.GetAngularVelocity_rad_s() * pre_angular_velocity_rad <= 0.0) {
+    // Friction stops the rotor, but never reverses its rotation
+    ode_angular_velocity_.Setup(0.0, math::Vector<1>(0.0));
+  }
+
+  // Substitution
   angular_velocity_rad_s_ = ode_angular_velocity_.GetAngularVelocity_rad_s();
   angular_velocity_rpm_ = angular_velocity_rad_s_ * math::rad_s_to_rpm;
   generated_angular_acceleration_rad_s2_ = (angular_velocity_rad_s_ - pre_angular_velocity_rad) / step_width_s_;
-- 
2.43.0


From d1ccbc5bbbf8f5d4e55fcfc0b4c519276b79eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 052/128] fix: do not let the reaction wheel exceed its
 velocity limit within a step

---
 src/components/real/aocs/reaction_wheel.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index ba2d192..0dd9d95 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -4,6 +4,8 @@
  */
 #include "reaction_wheel.hpp"
 
+#include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <math_physics/math/constants.hpp>
@@ -149,6 +151,14 @@ math::Vector<3> ReactionWheel::CalcTorque() {
     // Friction stops the rotor, but never reverses its rotation
     ode_angular_velocity_.Setup(0.0, math::Vector<1>(0.0));
   }
+  if (drive_flag_) {
+    // Limit the velocity reached within the step. The velocity is kept when the limit has been lowered below it
+    const double limit_rad_s = std::max(std::abs(velocity_limit_rpm_ * math::rpm_to_rad_s), std::abs(pre_angular_velocity_rad));
+    const double limited_rad_s = std::clamp(ode_angular_velocity_.GetAngularVelocity_rad_s(), -limit_rad_s, limit_rad_s);
+    if (limited_rad_s != ode_angular_velocity_.GetAngularVelocity_rad_s()) {
+      ode_angular_velocity_.Setup(0.0, math::Vector<1>(limited_rad_s));
+    }
+  }
 
   // Substitution
   angular_velocity_rad_s_ = ode_angular_velocity_.GetAngularVelocity_rad_s();
-- 
2.43.0


From a8910400d68088a6b3ddb06b494fa98e24215267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 053/128] fix: keep the dead time of the reaction wheel when
 its division by the step is rounded down

---
 src/components/real/aocs/reaction_wheel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 0dd9d95..bceb995 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -76,7 +76,8 @@ void ReactionWheel::Initialize() {
 
   // Acceleration
   target_acceleration_rad_s2_ = 0.0;
-  size_t len_buffer = (size_t)floor(dead_time_s_ / step_width_s_) + 1;
+  // The small value avoids losing a step by the rounding of the division
+  size_t len_buffer = (size_t)floor(dead_time_s_ / step_width_s_ + 1e-6) + 1;
   acceleration_delay_buffer_.assign(len_buffer, 0.0);
   generated_angular_acceleration_rad_s2_ = 0.0;
 
-- 
2.43.0


From eb848f77cb6c999e25c5bfcccba80f2375aa420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 054/128] fix: forget the lagged acceleration of the reaction
 wheel when its drive is off

---
 src/components/real/aocs/reaction_wheel.cpp            | 1 +
 src/math_physics/control_utilities/first_order_lag.hpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index bceb995..adcbdab 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -113,6 +113,7 @@ math::Vector<3> ReactionWheel::CalcTorque() {
   {
     // Clear delay buffer
     std::fill(acceleration_delay_buffer_.begin(), acceleration_delay_buffer_.end(), 0.0);
+    delayed_acceleration_rad_s2_.Reset();
 
     // Coasting torque
     double abs_angular_velocity_rad_s = abs(angular_velocity_rad_s_);
diff --git a/src/math_physics/control_utilities/first_order_lag.hpp b/src/math_physics/control_utilities/first_order_lag.hpp
index 3c61593..bbe188e 100644
--- a/src/math_physics/control_utilities/first_order_lag.hpp
+++ b/src/math_physics/control_utilities/first_order_lag.hpp
@@ -34,6 +34,11 @@ class FirstOrderLag {
     return output_;
   }
 
+  /**
+   * @fn Reset
+   * @brief Reset the output to zero
+   */
+  inline void Reset() { output_ = 0.0; }
   /**
    * @fn GetOutput
    * @brief Return output
-- 
2.43.0


From 4b5b065eb93176948f9494e3bee746c5e82eab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 055/128] fix: give every reaction wheel its own jitter

---
 src/components/real/aocs/reaction_wheel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.hpp b/src/components/real/aocs/reaction_wheel.hpp
index 39965a6..39aa76a 100644
--- a/src/components/real/aocs/reaction_wheel.hpp
+++ b/src/components/real/aocs/reaction_wheel.hpp
@@ -209,7 +209,7 @@ class ReactionWheel : public Component, public logger::ILoggable {
   ReactionWheelOde ode_angular_velocity_;  //!< Reaction Wheel OrdinaryDifferentialEquation
 
   // RW jitter
-  ReactionWheelJitter& rw_jitter_;     //!< RW jitter
+  ReactionWheelJitter rw_jitter_;      //!< RW jitter
   bool is_calculated_jitter_ = false;  //!< Flag for calculation of jitter
   bool is_logged_jitter_ = false;      //!< Flag for log output of jitter
 
-- 
2.43.0


From e7cd4d68b985d668e74e41362613684ff114ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 056/128] fix: update only the jitter of the reaction wheel at
 fast ticks while its power is off

---
 src/components/real/aocs/reaction_wheel.cpp | 5 +++++
 src/components/real/aocs/reaction_wheel.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index adcbdab..81c279b 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -108,6 +108,11 @@ void ReactionWheel::FastUpdate() {
   }
 }
 
+void ReactionWheel::FastTick(const unsigned int fast_count) {
+  if (fast_count % fast_prescaler_ > 0) return;
+  FastUpdate();
+}
+
 math::Vector<3> ReactionWheel::CalcTorque() {
   if (!drive_flag_)  // RW idle mode -> coasting mode
   {
diff --git a/src/components/real/aocs/reaction_wheel.hpp b/src/components/real/aocs/reaction_wheel.hpp
index 39aa76a..150fbd7 100644
--- a/src/components/real/aocs/reaction_wheel.hpp
+++ b/src/components/real/aocs/reaction_wheel.hpp
@@ -103,6 +103,11 @@ class ReactionWheel : public Component, public logger::ILoggable {
    * @brief Main routine to output torque of RW jitter
    */
   void FastUpdate() override;
+  /**
+   * @fn FastTick
+   * @brief Update jitter also while the power is off, since the rotor still rotates. Coasting is calculated by the normal update only.
+   */
+  void FastTick(const unsigned int fast_count) override;
 
   // Override logger::ILoggable
   /**
-- 
2.43.0


From e227e852a67d19d41128ea5155fc36bd5fbf9687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 057/128] fix: let users of the reaction wheel link against its
 jitter force getter

---
 src/components/real/aocs/reaction_wheel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.hpp b/src/components/real/aocs/reaction_wheel.hpp
index 150fbd7..8fafa4f 100644
--- a/src/components/real/aocs/reaction_wheel.hpp
+++ b/src/components/real/aocs/reaction_wheel.hpp
@@ -131,7 +131,7 @@ class ReactionWheel : public Component, public logger::ILoggable {
    * @fn GetJitterForce_b_N
    * @brief Return output force by jitter in the body fixed frame [N]
    */
-  inline const math::Vector<3> GetJitterForce_b_N() const;
+  const math::Vector<3> GetJitterForce_b_N() const;
   /**
    * @fn GetDriveFlag
    * @brief Return drive flag
-- 
2.43.0


From da2106bc2ccb49cd4d6c3b108d2c1515dca65125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 058/128] fix: keep the dead time of the simple thruster when
 its division by the step is rounded down

---
 src/components/real/propulsion/simple_thruster.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 0a63653..aa98c12 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -61,7 +61,7 @@ void SimpleThruster::Initialize(const double magnitude_standard_deviation_N, con
 }
 
 void SimpleThruster::InitializeDelay() {
-  size_t len_buffer = (size_t)floor(dead_time_s_ / step_width_s_) + 1;
+  size_t len_buffer = (size_t)floor(dead_time_s_ / step_width_s_ + 1e-6) + 1;
   duty_delay_buffer_.assign(len_buffer, 0.0);
 }
 
-- 
2.43.0


From 5897be5b4d67c73161c51f90c06093c62e805694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 059/128] fix: keep the duty of the simple thruster in its
 range

---
 src/components/real/propulsion/simple_thruster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/real/propulsion/simple_thruster.hpp b/src/components/real/propulsion/simple_thruster.hpp
index c852650..92264f0 100644
--- a/src/components/real/propulsion/simple_thruster.hpp
+++ b/src/components/real/propulsion/simple_thruster.hpp
@@ -6,6 +6,7 @@
 #ifndef S2E_COMPONENTS_REAL_PROPULSION_SIMPLE_THRUSTER_HPP_
 #define S2E_COMPONENTS_REAL_PROPULSION_SIMPLE_THRUSTER_HPP_
 
+#include <algorithm>
 #include <dynamics/dynamics.hpp>
 #include <logger/logger.hpp>
 #include <math_physics/control_utilities/first_order_lag.hpp>
@@ -114,7 +115,7 @@ class SimpleThruster : public Component, public logger::ILoggable {
    * @fn SetDuty
    * @brief Set duty
    */
-  inline void SetDuty(double duty) { duty_ = duty; };
+  inline void SetDuty(double duty) { duty_ = std::clamp(duty, 0.0, 1.0); };
 
  protected:
   // parameters
-- 
2.43.0


From 5dd1a89834952fdab7ee53ce976eb087ef8cfff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 060/128] fix: add the magnitude noise of the simple thruster
 while it generates thrust, not while it is ordered to

---
 src/components/real/propulsion/simple_thruster.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index aa98c12..3e0989f 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -79,7 +79,7 @@ void SimpleThruster::PowerOffRoutine() {
 
 void SimpleThruster::CalcThrust() {
   double mag = CalcThrustMagnitude();
-  if (duty_ > 0.0 + DBL_EPSILON) mag += magnitude_random_noise_;
+  if (mag > 0.0 + DBL_EPSILON) mag += magnitude_random_noise_;
   output_thrust_b_N_ = mag * CalcThrustDirection();
 }
 
-- 
2.43.0


From 637e96bf3053f0a83fbf4db2c9e4f318b6d387b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 061/128] fix: turn the noisy thrust direction about an axis
 perpendicular to it, as a thruster along x had no direction error

---
 .../real/propulsion/simple_thruster.cpp        | 18 ++++++++----------
 .../real/propulsion/simple_thruster.hpp        |  1 +
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 3e0989f..21ec402 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -125,17 +125,15 @@ double SimpleThruster::CalcThrustMagnitude() {
 math::Vector<3> SimpleThruster::CalcThrustDirection() {
   math::Vector<3> thrust_dir_b_true = thrust_direction_b_;
   if (direction_noise_standard_deviation_rad_ > 0.0 + DBL_EPSILON) {
-    math::Vector<3> ex;  // Fixme: to use outer product to generate orthogonal vector
-    ex[0] = 1.0;
-    ex[1] = 0.0;
-    ex[2] = 0.0;
-    int flag = rand() % 2;
-    double make_axis_rot_rad;
-    if (flag == 0) {
-      make_axis_rot_rad = math::pi * (double)rand() / RAND_MAX;
-    } else {
-      make_axis_rot_rad = -math::pi * (double)rand() / RAND_MAX;
+    // Choose a rotation axis perpendicular to the thrust direction, uniformly around it
+    math::Vector<3> ex(0.0);
+    size_t smallest = 0;
+    for (size_t i = 1; i < 3; i++) {
+      if (fabs(thrust_dir_b_true[i]) < fabs(thrust_dir_b_true[smallest])) smallest = i;
     }
+    ex[smallest] = 1.0;
+    ex = OuterProduct(thrust_dir_b_true, ex).CalcNormalizedVector();
+    double make_axis_rot_rad = atan2((double)direction_axis_random_noise_, (double)direction_axis_random_noise_);
 
     math::Quaternion make_axis_rot(thrust_dir_b_true, make_axis_rot_rad);
     math::Vector<3> axis_rot = make_axis_rot.FrameConversion(ex);
diff --git a/src/components/real/propulsion/simple_thruster.hpp b/src/components/real/propulsion/simple_thruster.hpp
index 92264f0..904e93f 100644
--- a/src/components/real/propulsion/simple_thruster.hpp
+++ b/src/components/real/propulsion/simple_thruster.hpp
@@ -127,6 +127,7 @@ class SimpleThruster : public Component, public logger::ILoggable {
   double direction_noise_standard_deviation_rad_ = 0.0;  //!< Standard deviation of thrust direction error [rad]
   randomization::NormalRand magnitude_random_noise_;     //!< Normal random for thrust magnitude error
   randomization::NormalRand direction_random_noise_;     //!< Normal random for thrust direction error
+  randomization::NormalRand direction_axis_random_noise_;  //!< Normal random for axis of the thrust direction error
   // Delay parameters
   const double dead_time_s_;                       //!< Dead time [s]
   const double step_width_s_;                      //!< Step width for simulation [s]
-- 
2.43.0


From 006f05e2d143721271aa96c678569085bde396f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 062/128] fix: rotate the output of the ideal generators by a
 unit quaternion, so that a direction error does not change the magnitude

---
 src/components/ideal/force_generator.cpp  | 1 +
 src/components/ideal/torque_generator.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index 2104ad4..5ba0535 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -101,6 +101,7 @@ math::Quaternion ForceGenerator::GenerateDirectionNoiseQuaternion(math::Vector<3
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
   }
+  rotation_axis = rotation_axis.CalcNormalizedVector();
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
   math::Quaternion error_quaternion(rotation_axis, error_angle_rad);
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index c64478b..ffc561b 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -75,6 +75,7 @@ math::Quaternion TorqueGenerator::GenerateDirectionNoiseQuaternion(math::Vector<
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
   }
+  rotation_axis = rotation_axis.CalcNormalizedVector();
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
   math::Quaternion error_quaternion(rotation_axis, error_angle_rad);
-- 
2.43.0


From 245f49c809818ec311ffdfae5fda25af3dd03d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 063/128] fix: keep the ordered moment of the magnetorquer
 apart from its noisy output, which was scaled and biased again every update

---
 src/components/real/aocs/magnetorquer.cpp | 2 ++
 src/components/real/aocs/magnetorquer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index 0ee096e..f21f5a8 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -66,6 +66,7 @@ void Magnetorquer::MainRoutine(const int time_count) {
 }
 
 void Magnetorquer::PowerOffRoutine() {
+  ordered_magnetic_moment_c_Am2_ *= 0.0;
   torque_b_Nm_ *= 0.0;
   output_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_b_Am2_ *= 0.0;
@@ -74,6 +75,7 @@ void Magnetorquer::PowerOffRoutine() {
 math::Vector<kMtqDimension> Magnetorquer::CalcOutputTorque(void) {
   for (size_t i = 0; i < kMtqDimension; ++i) {
     // Limit Check
+    output_magnetic_moment_c_Am2_[i] = ordered_magnetic_moment_c_Am2_[i];
     if (output_magnetic_moment_c_Am2_[i] > max_magnetic_moment_c_Am2_[i]) {
       output_magnetic_moment_c_Am2_[i] = max_magnetic_moment_c_Am2_[i];
     } else if (output_magnetic_moment_c_Am2_[i] < min_magnetic_moment_c_Am2_[i]) {
diff --git a/src/components/real/aocs/magnetorquer.hpp b/src/components/real/aocs/magnetorquer.hpp
index 0ef0a5e..48497b6 100644
--- a/src/components/real/aocs/magnetorquer.hpp
+++ b/src/components/real/aocs/magnetorquer.hpp
@@ -108,7 +108,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
    * @fn SetOutputMagneticMoment_c_Am2
    * @brief Set output magnetic moment in the component frame [Am2]
    */
-  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { output_magnetic_moment_c_Am2_ = mag_moment_c; };
+  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { ordered_magnetic_moment_c_Am2_ = mag_moment_c; };
 
   /**
    * @fn SetOutputMagneticMoment_b_Am2
@@ -126,6 +126,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
   const int component_id_ = 0;                                     //!< Actuator ID
   const double kConvertNanoT2T = 1.0e-9;                           //!< Constant to convert nT to T
   math::Vector<kMtqDimension> torque_b_Nm_{0.0};                   //!< Output torque in the body fixed frame [Nm]
+  math::Vector<kMtqDimension> ordered_magnetic_moment_c_Am2_{0.0};  //!< Ordered magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_c_Am2_{0.0};  //!< Output output magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_b_Am2_{0.0};  //!< Output output magnetic moment in the body fixed frame [Am2]
   math::Quaternion quaternion_b2c_{0.0, 0.0, 0.0, 1.0};            //!< Quaternion from body frame to component frame
-- 
2.43.0


From cb0ca734b17fb90455fb975a1a499bf4f4c104c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 064/128] fix: seed the noise of every component from the
 global randomization

---
 src/components/ideal/attitude_observer.cpp         | 5 +++--
 src/components/ideal/force_generator.cpp           | 5 +++--
 src/components/ideal/torque_generator.cpp          | 5 +++--
 src/components/real/aocs/magnetorquer.cpp          | 4 ++--
 src/components/real/aocs/reaction_wheel_jitter.cpp | 4 ++--
 src/components/real/aocs/sun_sensor.cpp            | 4 ++--
 src/components/real/propulsion/simple_thruster.cpp | 5 +++--
 7 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/components/ideal/attitude_observer.cpp b/src/components/ideal/attitude_observer.cpp
index a77c1b4..f87509b 100644
--- a/src/components/ideal/attitude_observer.cpp
+++ b/src/components/ideal/attitude_observer.cpp
@@ -6,14 +6,15 @@
 #include "attitude_observer.hpp"
 
 #include <math_physics/math/constants.hpp>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
 
 AttitudeObserver::AttitudeObserver(const int prescaler, environment::ClockGenerator* clock_generator, const double standard_deviation_rad,
                                    const dynamics::attitude::Attitude& attitude)
-    : Component(prescaler, clock_generator), angle_noise_(0.0, standard_deviation_rad), attitude_(attitude) {
-  direction_noise_.SetParameters(0.0, 1.0);
+    : Component(prescaler, clock_generator), angle_noise_(0.0, standard_deviation_rad, randomization::global_randomization.MakeSeed()), attitude_(attitude) {
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 void AttitudeObserver::MainRoutine(const int time_count) {
diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index 5ba0535..ccb03e2 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -6,6 +6,7 @@
 #include "force_generator.hpp"
 
 #include <cfloat>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
@@ -14,10 +15,10 @@ namespace s2e::components {
 ForceGenerator::ForceGenerator(const int prescaler, environment::ClockGenerator* clock_generator, const double magnitude_error_standard_deviation_N,
                                const double direction_error_standard_deviation_rad, const dynamics::Dynamics* dynamics)
     : Component(prescaler, clock_generator),
-      magnitude_noise_(0.0, magnitude_error_standard_deviation_N),
+      magnitude_noise_(0.0, magnitude_error_standard_deviation_N, randomization::global_randomization.MakeSeed()),
       direction_error_standard_deviation_rad_(direction_error_standard_deviation_rad),
       dynamics_(dynamics) {
-  direction_noise_.SetParameters(0.0, 1.0);
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 ForceGenerator::~ForceGenerator() {}
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index ffc561b..71dd9c2 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -6,6 +6,7 @@
 #include "torque_generator.hpp"
 
 #include <cfloat>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
@@ -15,10 +16,10 @@ TorqueGenerator::TorqueGenerator(const int prescaler, environment::ClockGenerato
                                  const double magnitude_error_standard_deviation_Nm, const double direction_error_standard_deviation_rad,
                                  const dynamics::Dynamics* dynamics)
     : Component(prescaler, clock_generator),
-      magnitude_noise_(0.0, magnitude_error_standard_deviation_Nm),
+      magnitude_noise_(0.0, magnitude_error_standard_deviation_Nm, randomization::global_randomization.MakeSeed()),
       direction_error_standard_deviation_rad_(direction_error_standard_deviation_rad),
       dynamics_(dynamics) {
-  direction_noise_.SetParameters(0.0, 1.0);
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 TorqueGenerator::~TorqueGenerator() {}
diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index f21f5a8..96189eb 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -32,7 +32,7 @@ Magnetorquer::Magnetorquer(const int prescaler, environment::ClockGenerator* clo
       random_walk_c_Am2_(random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2),
       geomagnetic_field_(geomagnetic_field) {
   for (size_t i = 0; i < kMtqDimension; i++) {
-    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i]);  // global_randomization.MakeSeed()
+    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i], randomization::global_randomization.MakeSeed());
   }
 }
 
@@ -55,7 +55,7 @@ Magnetorquer::Magnetorquer(const int prescaler, environment::ClockGenerator* clo
       random_walk_c_Am2_(random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2),
       geomagnetic_field_(geomagnetic_field) {
   for (size_t i = 0; i < kMtqDimension; i++) {
-    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i]);  // global_randomization.MakeSeed()
+    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i], randomization::global_randomization.MakeSeed());
   }
 }
 
diff --git a/src/components/real/aocs/reaction_wheel_jitter.cpp b/src/components/real/aocs/reaction_wheel_jitter.cpp
index c7edc49..6045f61 100644
--- a/src/components/real/aocs/reaction_wheel_jitter.cpp
+++ b/src/components/real/aocs/reaction_wheel_jitter.cpp
@@ -6,6 +6,7 @@
 #include "reaction_wheel_jitter.hpp"
 
 #include <math_physics/math/constants.hpp>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <random>
 #include <utilities/macros.hpp>
 
@@ -26,8 +27,7 @@ ReactionWheelJitter::ReactionWheelJitter(std::vector<std::vector<double>> radial
       considers_structural_resonance_(considers_structural_resonance) {
   UNUSED(structural_resonance_frequency_Hz_);  // TODO: implement algorithm to use this variable
   // Generate random number for initial rotation phase
-  std::random_device seed_gen;
-  std::default_random_engine engine(seed_gen());
+  std::default_random_engine engine((std::default_random_engine::result_type)randomization::global_randomization.MakeSeed());
   std::uniform_real_distribution<double> dist(0.0, math::tau);
   // Initialize RW rotation phase
   for (size_t i = 0; i < radial_force_harmonics_coefficients_.size(); i++) {
diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index 3745d99..ed2dcd9 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -52,8 +52,8 @@ void SunSensor::Initialize(const double random_noise_standard_deviation_rad, con
   bias_noise_beta_rad_ += nr;
 
   // Normal Random
-  random_noise_alpha_.SetParameters(0.0, random_noise_standard_deviation_rad);  // global_randomization.MakeSeed()
-  random_noise_beta_.SetParameters(0.0, random_noise_standard_deviation_rad);   // global_randomization.MakeSeed()
+  random_noise_alpha_.SetParameters(0.0, random_noise_standard_deviation_rad, randomization::global_randomization.MakeSeed());
+  random_noise_beta_.SetParameters(0.0, random_noise_standard_deviation_rad, randomization::global_randomization.MakeSeed());
 }
 void SunSensor::MainRoutine(const int time_count) {
   UNUSED(time_count);
diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 21ec402..819843b 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -55,8 +55,9 @@ SimpleThruster::SimpleThruster(const int prescaler, environment::ClockGenerator*
 SimpleThruster::~SimpleThruster() {}
 
 void SimpleThruster::Initialize(const double magnitude_standard_deviation_N, const double direction_standard_deviation_rad) {
-  magnitude_random_noise_.SetParameters(0.0, magnitude_standard_deviation_N);
-  direction_random_noise_.SetParameters(0.0, direction_standard_deviation_rad);
+  magnitude_random_noise_.SetParameters(0.0, magnitude_standard_deviation_N, randomization::global_randomization.MakeSeed());
+  direction_random_noise_.SetParameters(0.0, direction_standard_deviation_rad, randomization::global_randomization.MakeSeed());
+  direction_axis_random_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
   thrust_direction_b_ = thrust_direction_b_.CalcNormalizedVector();
 }
 
-- 
2.43.0


From 34bb6fa019a109e2297f60e63cebe0f2e859dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 065/128] fix: let the star sensor output the attitude of
 exactly its delay ago

---
 src/components/real/aocs/star_sensor.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 1ce9315..c7a3d09 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -73,8 +73,7 @@ void StarSensor::Initialize() {
   measured_quaternion_i2c_ = math::Quaternion(0.0, 0.0, 0.0, 1.0);
 
   // Decide delay buffer size
-  max_delay_ = int(output_delay_ * 2 / step_time_s_);
-  if (max_delay_ <= 0) max_delay_ = 1;
+  max_delay_ = int(output_delay_) + 1;
   vector<math::Quaternion> temp(max_delay_);
   delay_buffer_ = temp;
   // Initialize delay buffer
@@ -95,9 +94,9 @@ Quaternion StarSensor::Measure(const environment::LocalCelestialInformation* loc
                                const dynamics::attitude::Attitude* attitude) {
   update(local_celestial_information, attitude);  // update delay buffer
   if (update_count_ == 0) {
-    int hist = buffer_position_ - output_delay_ - 1;
+    int hist = buffer_position_ - int(output_delay_) - 1;
     if (hist < 0) {
-      hist = max_delay_ - 1;
+      hist += max_delay_;
     }
     measured_quaternion_i2c_ = delay_buffer_[hist];
   }
-- 
2.43.0


From 2eeece3887f9aed7093510a6ca60e245f04951d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 066/128] fix: keep the delay and interval of the star sensor
 when their division by the step is rounded down

---
 src/components/real/aocs/star_sensor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index c7a3d09..36bb81c 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -232,9 +232,9 @@ StarSensor InitStarSensor(environment::ClockGenerator* clock_generator, int sens
   double standard_deviation_orthogonal_direction = STT_conf.ReadDouble(STTSection, "standard_deviation_orthogonal_direction_rad");
   double standard_deviation_sight_direction = STT_conf.ReadDouble(STTSection, "standard_deviation_sight_direction_rad");
   double output_delay_sec = STT_conf.ReadDouble(STTSection, "output_delay_s");
-  int output_delay = max(int(output_delay_sec / step_time_s), 1);
+  int output_delay = max(int(output_delay_sec / step_time_s + 1e-6), 1);
   double output_interval_sec = STT_conf.ReadDouble(STTSection, "output_interval_s");
-  int output_interval = max(int(output_interval_sec / step_time_s), 1);
+  int output_interval = max(int(output_interval_sec / step_time_s + 1e-6), 1);
   double sun_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "sun_exclusion_angle_deg");
   double sun_forbidden_angle_rad = sun_forbidden_angle_deg * math::pi / 180.0;
   double earth_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "earth_exclusion_angle_deg");
@@ -266,9 +266,9 @@ StarSensor InitStarSensor(environment::ClockGenerator* clock_generator, PowerPor
   double standard_deviation_orthogonal_direction = STT_conf.ReadDouble(STTSection, "standard_deviation_orthogonal_direction_rad");
   double standard_deviation_sight_direction = STT_conf.ReadDouble(STTSection, "standard_deviation_sight_direction_rad");
   double output_delay_sec = STT_conf.ReadDouble(STTSection, "output_delay_s");
-  int output_delay = max(int(output_delay_sec / step_time_s), 1);
+  int output_delay = max(int(output_delay_sec / step_time_s + 1e-6), 1);
   double output_interval_sec = STT_conf.ReadDouble(STTSection, "output_interval_s");
-  int output_interval = max(int(output_interval_sec / step_time_s), 1);
+  int output_interval = max(int(output_interval_sec / step_time_s + 1e-6), 1);
   double sun_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "sun_exclusion_angle_deg");
   double sun_forbidden_angle_rad = sun_forbidden_angle_deg * math::pi / 180.0;
   double earth_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "earth_exclusion_angle_deg");
-- 
2.43.0


From c9bd65b336c597ae96340cc357a2a7345b966f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 067/128] fix: judge a body exactly on the sight direction of
 the star sensor as forbidden

---
 src/components/real/aocs/star_sensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 36bb81c..bfd0199 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -5,6 +5,7 @@
 
 #include "star_sensor.hpp"
 
+#include <algorithm>
 #include <environment/global/physical_constants.hpp>
 #include <logger/log_utility.hpp>
 #include <math_physics/math/constants.hpp>
@@ -207,7 +208,7 @@ double StarSensor::CalAngleVector_rad(const Vector<3>& vector1, const Vector<3>&
   math::Vector<3> vect2_normal = vector2.CalcNormalizedVector();
 
   double cosTheta = InnerProduct(vect1_normal, vect2_normal);  // Calc cos value
-  double theta_rad = acos(cosTheta);
+  double theta_rad = acos(std::clamp(cosTheta, -1.0, 1.0));
   return theta_rad;
 }
 
-- 
2.43.0


From 691e4840b553c42629e4ce6c23962e1e56180e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 068/128] fix: use the angular radius of the visible earth limb
 in the earth exclusion of the star sensor

---
 src/components/real/aocs/star_sensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index bfd0199..dd32886 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -155,8 +155,7 @@ int StarSensor::SunJudgement(const math::Vector<3>& sun_b) {
 int StarSensor::EarthJudgement(const math::Vector<3>& earth_b) {
   math::Quaternion q_c2b = quaternion_b2c_.Conjugate();
   math::Vector<3> sight_b = q_c2b.FrameConversion(sight_direction_c_);
-  double earth_size_rad = atan2(environment::earth_equatorial_radius_m,
-                                earth_b.CalcNorm());                      // angles between sat<->earth_center & sat<->earth_edge
+  double earth_size_rad = asin(std::min(environment::earth_equatorial_radius_m / earth_b.CalcNorm(), 1.0));  // angles between sat<->earth_center & sat<->earth_edge
   double earth_center_angle_rad = CalAngleVector_rad(earth_b, sight_b);   // angles between sat<->earth_center & sat_sight
   double earth_edge_angle_rad = earth_center_angle_rad - earth_size_rad;  // angles between sat<->earth_edge & sat_sight
   if (earth_edge_angle_rad < earth_forbidden_angle_rad_)
-- 
2.43.0


From e7775b7ff5fadcdec2ec1c07cf0685dcee80470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 069/128] fix: judge the sun detection of the sun sensor with
 the illuminance of the present update, not of the previous one

---
 src/components/real/aocs/sun_sensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index ed2dcd9..373e772 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -67,6 +67,7 @@ void SunSensor::Measure() {
 
   sun_direction_true_c_ = quaternion_b2c_.FrameConversion(sun_dir_b);  // Frame conversion from body to component
 
+  CalcSolarIlluminance();
   SunDetectionJudgement();  // Judge the sun is inside the FoV
 
   if (sun_detected_flag_) {
@@ -94,8 +95,6 @@ void SunSensor::Measure() {
     alpha_rad_ = 0.0;
     beta_rad_ = 0.0;
   }
-
-  CalcSolarIlluminance();
 }
 
 void SunSensor::SunDetectionJudgement() {
-- 
2.43.0


From b1e85606375f06b6cccf44abb03875ae82c566c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 070/128] fix: detect the sun exactly on the boresight of the
 sun sensor

---
 src/components/real/aocs/sun_sensor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index 373e772..5bfb752 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -5,6 +5,7 @@
 
 #include "sun_sensor.hpp"
 
+#include <algorithm>
 #include <logger/log_utility.hpp>
 #include <math_physics/math/constants.hpp>
 #include <math_physics/randomization/global_randomization.hpp>
@@ -100,7 +101,7 @@ void SunSensor::Measure() {
 void SunSensor::SunDetectionJudgement() {
   math::Vector<3> sun_direction_c = sun_direction_true_c_.CalcNormalizedVector();
 
-  double sun_angle_ = acos(sun_direction_c[2]);
+  double sun_angle_ = acos(std::clamp(sun_direction_c[2], -1.0, 1.0));
 
   if (solar_illuminance_W_m2_ < intensity_lower_threshold_percent_ / 100.0 * srp_environment_->GetSolarConstant_W_m2()) {
     sun_detected_flag_ = false;
@@ -115,7 +116,7 @@ void SunSensor::SunDetectionJudgement() {
 
 void SunSensor::CalcSolarIlluminance() {
   math::Vector<3> sun_direction_c = sun_direction_true_c_.CalcNormalizedVector();
-  double sun_angle_ = acos(sun_direction_c[2]);
+  double sun_angle_ = acos(std::clamp(sun_direction_c[2], -1.0, 1.0));
 
   if (sun_angle_ > math::pi_2) {
     solar_illuminance_W_m2_ = 0.0;
-- 
2.43.0


From 48923201be9a374adadd428773ecb7ec2dd08f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 071/128] fix: block GNSS satellites behind the earth for low
 receivers and do not lose all satellites at the poles

---
 src/components/real/aocs/gnss_receiver.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/components/real/aocs/gnss_receiver.cpp b/src/components/real/aocs/gnss_receiver.cpp
index 8acf578..f281f4c 100644
--- a/src/components/real/aocs/gnss_receiver.cpp
+++ b/src/components/real/aocs/gnss_receiver.cpp
@@ -9,6 +9,7 @@
 #include <math_physics/gnss/gnss_satellite_number.hpp>
 #include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
+#include <algorithm>
 #include <string>
 
 namespace s2e::components {
@@ -132,11 +133,11 @@ void GnssReceiver::CheckAntennaCone(const math::Vector<3> position_true_eci_m, c
 
     // Check GNSS satellites are visible from the receiver(not care antenna direction)
     bool is_gnss_satellite_visible_from_receiver = false;
-    double inner1 = InnerProduct(antenna_position_i_m, gnss_satellite_position_i_m);
-    if (inner1 > 0.0) {  // GNSS satellite and receiver are in the same hemisphere
+    double inner1 = InnerProduct(antenna_to_gnss_satellite_direction_i, gnss_satellite_position_i_m);
+    if (inner1 <= 0.0) {  // GNSS satellite is in front of the point of the sight line closest to the Earth center
       is_gnss_satellite_visible_from_receiver = true;
-    } else {  // GNSS satellite is in the another hemisphere
-      double angle_bw_earth_center_and_edge_rad = asin(environment::earth_equatorial_radius_m / antenna_position_i_m.CalcNorm());
+    } else {
+      double angle_bw_earth_center_and_edge_rad = asin(std::min(1.0, environment::earth_equatorial_radius_m / antenna_position_i_m.CalcNorm()));
       double angle_bw_earth_center_and_gnss_rad =
           acos(InnerProduct(-antenna_position_i_m.CalcNormalizedVector(), antenna_to_gnss_satellite_direction_i));
 
-- 
2.43.0


From 728fe392a20cbf67e5cc123725f1043d4e44fcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 072/128] fix: reject the first absent GNSS satellite instead
 of reading beyond the list

---
 src/environment/global/gnss_satellites.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 25724b5..34471ce 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -77,7 +77,7 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
 }
 
 math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
 
   time_system::EpochTime target_time;
 
@@ -95,7 +95,7 @@ math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_i
 }
 
 double GnssSatellites::GetClock_s(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return 0.0;
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return 0.0;
 
   time_system::EpochTime target_time;
 
-- 
2.43.0


From 1f658f1dd4eaf9200fdf8d9a01ac2a064e2ccf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 073/128] fix: do not read beyond the last SP3 file when the
 simulation reaches its end

---
 src/environment/global/gnss_satellites.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 34471ce..239b919 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -128,6 +128,7 @@ bool GnssSatellites::GetCurrentSp3File(Sp3FileReader& current_sp3_file, const ti
 }
 
 bool GnssSatellites::UpdateInterpolationInformation() {
+  if (sp3_file_id_ >= sp3_files_.size()) return false;
   Sp3FileReader sp3_file = sp3_files_[sp3_file_id_];
 
   for (size_t gnss_id = 0; gnss_id < number_of_calculated_gnss_satellites_; gnss_id++) {
-- 
2.43.0


From 105e47b6fce43eb79165308af93f563eed4487bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 074/128] fix: keep the GNSS interpolation window around the
 current time when the simulation step exceeds the SP3 interval

---
 src/environment/global/gnss_satellites.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 239b919..89cca95 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -69,8 +69,9 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
   // Check interpolation update
   double diff_s = current_epoch_time_.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
   double medium_time_s = orbit_[0].GetTimeList()[4];
-  if (diff_s > medium_time_s) {
-    UpdateInterpolationInformation();
+  while (diff_s > medium_time_s) {
+    if (!UpdateInterpolationInformation()) break;
+    medium_time_s = orbit_[0].GetTimeList()[4];
   }
 
   return;
-- 
2.43.0


From 4d09f9ba6036b4a0adc0514b438d72ab8966d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 075/128] fix: leave no GNSS satellite instead of crashing when
 the SP3 files do not cover the start time

---
 src/environment/global/gnss_satellites.cpp | 2 ++
 src/environment/global/gnss_satellites.hpp | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 89cca95..3c58289 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -66,6 +66,8 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
                                           (size_t)current_utc.minute, current_utc.second);
   current_epoch_time_ = time_system::EpochTime(current_date_time);
 
+  if (orbit_.empty()) return;
+
   // Check interpolation update
   double diff_s = current_epoch_time_.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
   double medium_time_s = orbit_[0].GetTimeList()[4];
diff --git a/src/environment/global/gnss_satellites.hpp b/src/environment/global/gnss_satellites.hpp
index 065dc58..9a10f77 100644
--- a/src/environment/global/gnss_satellites.hpp
+++ b/src/environment/global/gnss_satellites.hpp
@@ -116,8 +116,8 @@ class GnssSatellites : public logger::ILoggable {
   bool is_calc_enabled_ = false;  //!< Flag to manage the GNSS satellite position calculation
 
   std::vector<gnss::Sp3FileReader> sp3_files_;   //!< List of SP3 files
-  size_t number_of_calculated_gnss_satellites_;  //!< Number of calculated GNSS satellites
-  size_t sp3_file_id_;                           //!< Current SP3 file ID
+  size_t number_of_calculated_gnss_satellites_ = 0;  //!< Number of calculated GNSS satellites
+  size_t sp3_file_id_ = 0;                           //!< Current SP3 file ID
   time_system::EpochTime reference_time_;        //!< Reference start time of the SP3 handling
   size_t reference_interpolation_id_ = 0;        //!< Reference epoch ID of the interpolation
   time_system::EpochTime current_epoch_time_;    //!< The last updated time
-- 
2.43.0


From 7da8561851425f8b0f7ad4c4f658f497fb43c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 076/128] fix: read SP3 files of one epoch or one satellite
 without reading beyond them

---
 src/math_physics/gnss/sp3_file_reader.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 2ae1366..02a4cd1 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -116,12 +116,6 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
     }
   }
 
-  // Test
-  time_system::DateTime test = epoch_[0];
-  test = epoch_[1];
-  std::vector<Sp3PositionClock> test_p = position_clock_[0];
-  test_p = position_clock_[1];
-
   sp3_file.close();
   return true;
 }
-- 
2.43.0


From e99956f6a4f5aefbb15c289dc580f392670a2dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 077/128] fix: reject the first absent SP3 epoch instead of
 reading beyond the list

---
 src/math_physics/gnss/sp3_file_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 02a4cd1..b351569 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -16,7 +16,7 @@ namespace s2e::gnss {
 Sp3FileReader::Sp3FileReader(const std::string file_name) { ReadFile(file_name); }
 
 time_system::DateTime Sp3FileReader::GetEpochData(const size_t epoch_id) const {
-  if (epoch_id > epoch_.size()) {
+  if (epoch_id >= epoch_.size()) {
     time_system::DateTime zero;
     return zero;
   }
-- 
2.43.0


From c04afa578ca75e3ac2de465c7ad7bec9240e0a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:02 +0000
Subject: [PATCH 078/128] fix: read SP3 files with velocity records

---
 src/math_physics/gnss/sp3_file_reader.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index b351569..0b51b90 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -156,7 +156,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
   // Read contents
   if (line[2] == 'P') {
     header_.mode_ = Sp3Mode::kPosition;
-  } else if (line[3] == 'V') {
+  } else if (line[2] == 'V') {
     header_.mode_ = Sp3Mode::kVelocity;
   } else {
     header_.mode_ = Sp3Mode::kOther;
@@ -389,10 +389,18 @@ Sp3VelocityClockRate Sp3FileReader::DecodeVelocityClockRateData(std::string line
   if (line.size() > 60) {
     math::Vector<3> velocity_standard_deviation;
     for (size_t axis = 0; axis < 3; axis++) {
-      velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 2, 2));
+      try {
+        velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 3, 2));
+      } catch (const std::invalid_argument&) {
+        velocity_standard_deviation[axis] = 0.0;
+      }
     }
     velocity_clock_rate.velocity_standard_deviation_ = velocity_standard_deviation;
-    velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    try {
+      velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    } catch (const std::invalid_argument&) {
+      velocity_clock_rate.clock_rate_standard_deviation_ = 0.0;
+    }
   }
 
   return velocity_clock_rate;
-- 
2.43.0


From 0924d9eff4a608195510c34b5b9f5d001200a227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:02 +0000
Subject: [PATCH 079/128] fix: read SP3 records whose trailing blanks are
 omitted

---
 src/math_physics/gnss/sp3_file_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 0b51b90..ab556c0 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -13,6 +13,8 @@
 
 namespace s2e::gnss {
 
+const size_t kRecordLength = 80;  //!< Length of a record line
+
 Sp3FileReader::Sp3FileReader(const std::string file_name) { ReadFile(file_name); }
 
 time_system::DateTime Sp3FileReader::GetEpochData(const size_t epoch_id) const {
@@ -302,6 +304,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
 }
 
 Sp3PositionClock Sp3FileReader::DecodePositionClockData(std::string line) {
+  if (line.size() < kRecordLength) line.resize(kRecordLength, ' ');  // Trailing blanks may be omitted
   Sp3PositionClock position_clock;
 
   // Satellite ID
@@ -372,6 +375,7 @@ Sp3PositionClockCorrelation Sp3FileReader::DecodePositionClockCorrelation(std::s
 }
 
 Sp3VelocityClockRate Sp3FileReader::DecodeVelocityClockRateData(std::string line) {
+  if (line.size() < kRecordLength) line.resize(kRecordLength, ' ');  // Trailing blanks may be omitted
   Sp3VelocityClockRate velocity_clock_rate;
 
   // Satellite ID
-- 
2.43.0


From 9159580a3c05550cd06a415c6bd74be623d34fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 080/128] fix: fill the GNSS interpolation window when the
 simulation starts near the end of the last SP3 file

---
 src/environment/global/gnss_satellites.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 3c58289..f7c7bc3 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -39,6 +39,11 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
   if (nearest_epoch_id >= half_interpolation_number) {
     reference_interpolation_id_ = nearest_epoch_id - half_interpolation_number;
   }
+  // No file follows the last one, so the first interpolation window must end within it
+  const size_t number_of_epoch = initial_sp3_file.GetNumberOfEpoch();
+  if (sp3_file_id_ + 1 == sp3_files_.size() && reference_interpolation_id_ + kNumberOfInterpolation > number_of_epoch) {
+    reference_interpolation_id_ = (number_of_epoch > kNumberOfInterpolation) ? number_of_epoch - kNumberOfInterpolation : 0;
+  }
   reference_time_ = time_system::EpochTime(initial_sp3_file.GetEpochData(reference_interpolation_id_));
 
   // Initialize orbit
-- 
2.43.0


From b31f85b606e15fcbd4dd4c92aab61175409dcaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 081/128] fix: do not add an undefined star at the end of the
 Hipparcos catalogue

---
 src/environment/global/hipparcos_catalogue.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/environment/global/hipparcos_catalogue.cpp b/src/environment/global/hipparcos_catalogue.cpp
index 8888085..eea0027 100644
--- a/src/environment/global/hipparcos_catalogue.cpp
+++ b/src/environment/global/hipparcos_catalogue.cpp
@@ -32,11 +32,10 @@ bool HipparcosCatalogue::ReadContents(const std::string& file_name, const char d
 
   std::string title;
   ifs >> title;  // Skip title
-  while (!ifs.eof()) {
+  std::string line;
+  while (ifs >> line) {
     HipparcosData hipparcos_data;
 
-    std::string line;
-    ifs >> line;
     std::replace(line.begin(), line.end(), delimiter, ' ');  // Convert delimiter as space for stringstream
     std::istringstream streamline(line);
 
-- 
2.43.0


From 9b0ceb621d6b09275315dae1383d67ec579850a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 082/128] fix: let the telescope see no star instead of reading
 an empty star catalogue

---
 src/components/real/mission/telescope.cpp | 30 ++++++++++-------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index cf17359..f70008e 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -120,7 +120,7 @@ void Telescope::ObserveStars() {
   star_list_in_sight.clear();  // Clear first
   size_t count = 0;            // Counter for while loop
 
-  while (star_list_in_sight.size() < number_of_logged_stars_) {
+  while (star_list_in_sight.size() < number_of_logged_stars_ && count < hipparcos_->GetCatalogueSize()) {
     math::Vector<3> target_b = hipparcos_->GetStarDirection_b(count, quaternion_i2b);
     math::Vector<3> target_c = quaternion_b2c_.FrameConversion(target_b);
 
@@ -140,23 +140,19 @@ void Telescope::ObserveStars() {
     }
 
     count++;
+  }
 
-    // If read all catalogue, fill -1 and break the loop
-    if (count >= hipparcos_->GetCatalogueSize()) {
-      while (star_list_in_sight.size() < number_of_logged_stars_) {
-        Star star;
-        star.hipparcos_data.hipparcos_id = -1;
-        star.hipparcos_data.visible_magnitude = -1;
-        star.hipparcos_data.right_ascension_deg = -1;
-        star.hipparcos_data.declination_deg = -1;
-        star.position_image_sensor[0] = -1;
-        star.position_image_sensor[1] = -1;
-
-        star_list_in_sight.push_back(star);
-      }
-
-      break;
-    }
+  // If all catalogue was read, fill -1
+  while (star_list_in_sight.size() < number_of_logged_stars_) {
+    Star star;
+    star.hipparcos_data.hipparcos_id = -1;
+    star.hipparcos_data.visible_magnitude = -1;
+    star.hipparcos_data.right_ascension_deg = -1;
+    star.hipparcos_data.declination_deg = -1;
+    star.position_image_sensor[0] = -1;
+    star.position_image_sensor[1] = -1;
+
+    star_list_in_sight.push_back(star);
   }
 }
 
-- 
2.43.0


From e5c61695c78708e3f6798deeff9f200b1848a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 083/128] fix: do not drop half a pixel of the image position
 when the telescope has an odd number of pixels

---
 src/components/real/mission/telescope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index f70008e..2866af7 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -106,8 +106,8 @@ void Telescope::Observe(math::Vector<2>& position_image_sensor, const math::Vect
   double arg_y = atan2(target_c[1], target_c[0]);  // Angle from X-axis on XY plane in the component frame
 
   if (abs(arg_x) < x_field_of_view_rad && abs(arg_y) < y_field_of_view_rad) {
-    position_image_sensor[0] = x_number_of_pix_ / 2 * tan(arg_x) / tan(x_field_of_view_rad) + x_number_of_pix_ / 2;
-    position_image_sensor[1] = y_number_of_pix_ / 2 * tan(arg_y) / tan(y_field_of_view_rad) + y_number_of_pix_ / 2;
+    position_image_sensor[0] = x_number_of_pix_ / 2.0 * tan(arg_x) / tan(x_field_of_view_rad) + x_number_of_pix_ / 2.0;
+    position_image_sensor[1] = y_number_of_pix_ / 2.0 * tan(arg_y) / tan(y_field_of_view_rad) + y_number_of_pix_ / 2.0;
   } else {  // Return -1 when the body is in the out of FoV
     position_image_sensor[0] = -1;
     position_image_sensor[1] = -1;
-- 
2.43.0


From 0a468a953b637d8d6447cab3b614ef9efe65c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 084/128] fix: measure the field of view of the telescope edge
 to edge: its half lies on each side of the sight direction

---
 src/components/real/mission/telescope.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index 2866af7..fcc0d60 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -105,9 +105,9 @@ void Telescope::Observe(math::Vector<2>& position_image_sensor, const math::Vect
   double arg_x = atan2(target_c[2], target_c[0]);  // Angle from X-axis on XZ plane in the component frame
   double arg_y = atan2(target_c[1], target_c[0]);  // Angle from X-axis on XY plane in the component frame
 
-  if (abs(arg_x) < x_field_of_view_rad && abs(arg_y) < y_field_of_view_rad) {
-    position_image_sensor[0] = x_number_of_pix_ / 2.0 * tan(arg_x) / tan(x_field_of_view_rad) + x_number_of_pix_ / 2.0;
-    position_image_sensor[1] = y_number_of_pix_ / 2.0 * tan(arg_y) / tan(y_field_of_view_rad) + y_number_of_pix_ / 2.0;
+  if (abs(arg_x) < x_field_of_view_rad / 2.0 && abs(arg_y) < y_field_of_view_rad / 2.0) {
+    position_image_sensor[0] = x_number_of_pix_ / 2.0 * tan(arg_x) / tan(x_field_of_view_rad / 2.0) + x_number_of_pix_ / 2.0;
+    position_image_sensor[1] = y_number_of_pix_ / 2.0 * tan(arg_y) / tan(y_field_of_view_rad / 2.0) + y_number_of_pix_ / 2.0;
   } else {  // Return -1 when the body is in the out of FoV
     position_image_sensor[0] = -1;
     position_image_sensor[1] = -1;
@@ -127,14 +127,14 @@ void Telescope::ObserveStars() {
     double arg_x = atan2(target_c[2], target_c[0]);  // Angle from X-axis on XZ plane in the component frame
     double arg_y = atan2(target_c[1], target_c[0]);  // Angle from X-axis on XY plane in the component frame
 
-    if (abs(arg_x) <= x_field_of_view_rad && abs(arg_y) <= y_field_of_view_rad) {
+    if (abs(arg_x) <= x_field_of_view_rad / 2.0 && abs(arg_y) <= y_field_of_view_rad / 2.0) {
       Star star;
       star.hipparcos_data.hipparcos_id = hipparcos_->GetHipparcosId(count);
       star.hipparcos_data.visible_magnitude = hipparcos_->GetVisibleMagnitude(count);
       star.hipparcos_data.right_ascension_deg = hipparcos_->GetRightAscension_deg(count);
       star.hipparcos_data.declination_deg = hipparcos_->GetDeclination_deg(count);
-      star.position_image_sensor[0] = x_number_of_pix_ / 2.0 * tan(arg_x) / tan(x_field_of_view_rad) + x_number_of_pix_ / 2.0;
-      star.position_image_sensor[1] = y_number_of_pix_ / 2.0 * tan(arg_y) / tan(y_field_of_view_rad) + y_number_of_pix_ / 2.0;
+      star.position_image_sensor[0] = x_number_of_pix_ / 2.0 * tan(arg_x) / tan(x_field_of_view_rad / 2.0) + x_number_of_pix_ / 2.0;
+      star.position_image_sensor[1] = y_number_of_pix_ / 2.0 * tan(arg_y) / tan(y_field_of_view_rad / 2.0) + y_number_of_pix_ / 2.0;
 
       star_list_in_sight.push_back(star);
     }
-- 
2.43.0


From 0eca60d748be061e1391249711cc6dd330a61ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 085/128] fix: do not return a vacuum from the standard
 atmosphere at exactly 1000 km

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index f616f67..7b89adf 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -15,7 +15,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   double base_rho_kg_m3;
 
   // scale_height_km values: Ref "ミッション解析と軌道設計の基礎" (in Japanese)
-  if (altitude_km > 1000.0) {
+  if (altitude_km >= 1000.0) {
     scale_height_km = 268.0;
     base_height_km = 1000.0;
     base_rho_kg_m3 = 3.019E-15;
-- 
2.43.0


From d241118ef120be4ca40ef38a6928584cdc7b4f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 086/128] fix: correct the transposed digits of the 350 km
 density in the standard atmosphere

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index 7b89adf..109e33b 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -50,7 +50,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   } else if (altitude_km >= 350.0 && altitude_km < 400.0) {
     scale_height_km = 53.298;
     base_height_km = 350.0;
-    base_rho_kg_m3 = 9.158E-12;
+    base_rho_kg_m3 = 9.518E-12;
   } else if (altitude_km >= 300.0 && altitude_km < 350.0) {
     scale_height_km = 53.628;
     base_height_km = 300.0;
-- 
2.43.0


From 4ca7237c3da67be37b1753ed384ca96012ba86fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 087/128] fix: convert the Harris-Priester density below the
 table to kg/m3

---
 src/math_physics/atmosphere/harris_priester_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index 6973caf..add3959 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -55,7 +55,7 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   UNUSED(f10_7);  // TODO: Use F10.7 value to search coefficients
   auto min_density_itr = harris_priester_min_density_table.upper_bound(altitude_km);
   auto max_density_itr = harris_priester_max_density_table.upper_bound(altitude_km);
-  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second;
+  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second * 1e-12;  // Unit conversion g/km3 -> kg/m^3
   if (min_density_itr == harris_priester_min_density_table.end()) return (min_density_itr->second + max_density_itr->second) / 2.0;
   min_density_itr = prev(min_density_itr);
   max_density_itr = prev(max_density_itr);
-- 
2.43.0


From 14c4de9a6004cfa4307807ed1b1ae8a75b13ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 088/128] fix: do not read past the end of the Harris-Priester
 table from 1000 km upwards

---
 src/math_physics/atmosphere/harris_priester_model.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index add3959..8493ada 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -56,7 +56,11 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   auto min_density_itr = harris_priester_min_density_table.upper_bound(altitude_km);
   auto max_density_itr = harris_priester_max_density_table.upper_bound(altitude_km);
   if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second * 1e-12;  // Unit conversion g/km3 -> kg/m^3
-  if (min_density_itr == harris_priester_min_density_table.end()) return (min_density_itr->second + max_density_itr->second) / 2.0;
+  // The last interval of the table also covers the altitudes above it
+  if (min_density_itr == harris_priester_min_density_table.end()) {
+    min_density_itr = prev(min_density_itr);
+    max_density_itr = prev(max_density_itr);
+  }
   min_density_itr = prev(min_density_itr);
   max_density_itr = prev(max_density_itr);
 
-- 
2.43.0


From 4d2bb950ae50092811f2094c1290aa7a07d245c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 089/128] fix: keep the Harris-Priester density finite at the
 antapex of the bulge

---
 src/math_physics/atmosphere/harris_priester_model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index 8493ada..52e581d 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -4,6 +4,7 @@
  */
 #include "harris_priester_model.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <math_physics/math/constants.hpp>
 #include <utilities/macros.hpp>
@@ -49,7 +50,7 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   apex_direction[2] = sin(sun_dec_rad);
 
   double beta_rad = math::InnerProduct(position_ecef_m.CalcNormalizedVector(), apex_direction);
-  double cos_phi = pow(0.5 + beta_rad / 2.0, exponent_parameter / 2.0);
+  double cos_phi = pow(std::max(0.0, 0.5 + beta_rad / 2.0), exponent_parameter / 2.0);
 
   // Find density coefficients from altitude
   UNUSED(f10_7);  // TODO: Use F10.7 value to search coefficients
-- 
2.43.0


From 9f910c0caf4b93b593803dc4ba59f24665afb460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 090/128] fix: compare the Harris-Priester bulge with the
 position in the same earth-fixed frame

---
 src/environment/local/atmosphere.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 74b2323..b5e14b2 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -69,7 +69,10 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
   } else if (model_ == "HARRIS_PRIESTER") {
     // Harris-Priester
     math::Vector<3> sun_direction_eci = local_celestial_information_->GetGlobalInformation().GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
-    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_eci);
+    // The geodetic position is fixed to the earth, so the sun direction has to be so too
+    math::Vector<3> sun_direction_ecef =
+        local_celestial_information_->GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef() * sun_direction_eci;
+    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_ecef);
   } else {
     // No suitable model
     return air_density_kg_m3_ = 0.0;
-- 
2.43.0


From a1571f7f2f05b220545e25cc5323e113ae2c82b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 091/128] fix: let the air density noise reach the users of the
 density and its log

---
 src/environment/local/atmosphere.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index b5e14b2..9857416 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -5,6 +5,8 @@
 
 #include "atmosphere.hpp"
 
+#include <algorithm>
+
 #include "logger/log_utility.hpp"
 #include "math_physics/atmosphere/harris_priester_model.hpp"
 #include "math_physics/atmosphere/simple_air_density_model.hpp"
@@ -78,7 +80,9 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
     return air_density_kg_m3_ = 0.0;
   }
 
-  return AddNoise(air_density_kg_m3_);
+  // A density is never negative, whatever the noise is
+  air_density_kg_m3_ = std::max(0.0, AddNoise(air_density_kg_m3_));
+  return air_density_kg_m3_;
 }
 
 double Atmosphere::AddNoise(const double rho_kg_m3) {
-- 
2.43.0


From 0b7b8bde85c1b73ff29ac720b554aa77d5ddd0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 092/128] fix: read the IGRF coefficients again when the year
 leaves their interval or the file changes

---
 src/math_physics/geomagnetic/igrf.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index 939625b..1f4d8b2 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -87,7 +87,13 @@ static char coeff_file[256];
 
 static void fcalc(void);
 
-void set_file_path(const char *fname) { strcpy(coeff_file, fname); }
+static bool is_loaded = false;       // Coefficients have been read from the current file
+static double load_begin, load_end;  // Interval of the decimal year for which they have been read
+
+void set_file_path(const char *fname) {
+  if (strcmp(coeff_file, fname) != 0) is_loaded = false;
+  strcpy(coeff_file, fname);
+}
 
 static void fcalc(void) /* This is an internal function */
 {
@@ -417,10 +423,15 @@ void gigrf(int gen, double year) {
       exit(1);
     }
   }
-  if (l == ncol)
+  load_begin = -HUGE_VAL;
+  load_end = HUGE_VAL;
+  if (l == ncol) {
     tzero = yr2;
-  else {
+    load_begin = yr2;
+  } else {
     tzero = yr1;
+    if (l > 2) load_begin = yr1;
+    load_end = yr2;
     yr2 -= yr1;
     for (i = 0; i < nlin; i++) cv[i] = (cv[i] - cb[i]) / yr2;
   }
@@ -466,14 +477,13 @@ int TransMagaxisToECI(const double *mag, double *pos, double lonrad, double thet
 // IGRFの計算を実行するメインルーチン
 // Output	:	mag[3]	ECI座標での磁界の値[nT]
 void IgrfCalc(double decyear, double latrad, double lonrad, double alt, double side, double *mag) {
-  static bool first_flg = true;
-
-  if (first_flg == true) {
+  // The coefficients hold for one interval between the epochs of the file
+  if (!is_loaded || decyear < load_begin || decyear >= load_end) {
     // gigrf(10,decyear);	//ファイル読み込み
     // gigrf(11, decyear);
     // gigrf(12, decyear);
     gigrf(13, decyear);
-    first_flg = false;
+    is_loaded = true;
   }
   tyear(decyear);  // 実行年の設定
   igrfc(latrad * RAD2DEG, lonrad * RAD2DEG, alt,
-- 
2.43.0


From f0a6094d8c294fe45c8e4660299e0020968cf136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 093/128] fix: keep the geomagnetic field finite when the
 cosine rounds beyond one at the poles

---
 src/math_physics/geomagnetic/igrf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index 1f4d8b2..ecc9ea2 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -253,6 +253,8 @@ void mfldg(double alat, double alon, double ahi, double *ax, double *ay, double
     rrm = (re4 * clat2 + rp4 * slat2) / rm2;
     r = sqrt(rrm + 2. * hi * rm + hi * hi);
     cth = slat * (hi + rp2 / rm) / r;
+    if (cth > 1.) cth = 1.;  // Rounding at the poles
+    if (cth < -1.) cth = -1.;
     sth = sqrt(1. - cth * cth);
     /*** force sin(colat) non-zero to avoid DIV-by-0 error ***/
     if (sth < 0.00000015) sth = 0.00000015;
-- 
2.43.0


From ed23bd0c26ebf48211bbe44a280c874ca9acbaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 094/128] fix: let the decimal year start on January 1 and last
 one year so that NRLMSISE-00 gets the right day

---
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 9 +++------
 src/math_physics/orbit/sgp4/sgp4ext.cpp            | 3 ++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index c467efe..d251d69 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -88,10 +88,7 @@ void ConvertDecyearToDate(double decyear, int* date) {
 
   // month day
   double days_d = reminder * days_per_year;
-  int days = (int)days_d;
-  if (days == 0) {
-    days = 1;
-  }
+  int days = (int)days_d + 1;  // The first day of the year is 1
   reminder = days_d - (int)days_d;
 
   // hours
@@ -129,7 +126,7 @@ double ConvertDateToDecyear(int year, int month, int day) {
     days_month[1] = 29;
   }
 
-  double days = (double)accumulate(days_month, days_month + month - 1, 0) + (double)day;
+  double days = (double)accumulate(days_month, days_month + month - 1, 0) + (double)(day - 1);
 
   return (double)year + days / (double)days_per_year;
 }
@@ -185,7 +182,7 @@ double CalcNRLMSISE00(double decyear, double latrad, double lonrad, double alt,
 
   ConvertDecyearToDate(decyear, date);
 
-  input.doy = (int)((decyear - (int)decyear) * 365.25);
+  input.doy = (int)((decyear - (int)decyear) * (LeapYear((int)decyear) ? 366 : 365)) + 1;
   input.year = 0; /* without effect */
   input.sec = date[3] * 60.0 * 60.0 + date[4] * 60.0 + date[5];
   input.alt = alt / 1000.0;
diff --git a/src/math_physics/orbit/sgp4/sgp4ext.cpp b/src/math_physics/orbit/sgp4/sgp4ext.cpp
index 593a93c..25a7c29 100644
--- a/src/math_physics/orbit/sgp4/sgp4ext.cpp
+++ b/src/math_physics/orbit/sgp4/sgp4ext.cpp
@@ -750,5 +750,6 @@ void JdToDecyear(double jd, double* decyear) {
     days = temp - ((year - 1900) * 365.0 + leapyrs);
   }
 
-  *decyear = year + days / 365.25;
+  // days is 1.0 at the beginning of the year
+  *decyear = year + (days - 1.0) / ((year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)) ? 366.0 : 365.0);
 }  // end JdToDecyear
-- 
2.43.0


From 7a749aecad324af8136d40d7e82c99cacff6ccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 095/128] fix: do not read past the month table when the space
 weather was updated in December

---
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index d251d69..7be8999 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -272,7 +272,7 @@ size_t GetSpaceWeatherTable_(double decyear, double endsec, const string& filena
 
         // After 1.5 month from the update date, the data is updated once per month. So calculate the decimal year of the date
         int days_month[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
-        decyear_monthly = decyear_updated + (days_month[month_updated] + 14) / 365.0;
+        decyear_monthly = decyear_updated + (days_month[month_updated % 12] + 14) / 365.0;
       }
       continue;
     }
-- 
2.43.0


From ef19f757a8b94402f2a45d8107b931d07051296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 096/128] fix: read all three digits of the averaged
 geomagnetic index Ap

---
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index 7be8999..f7bfb79 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -291,7 +291,7 @@ size_t GetSpaceWeatherTable_(double decyear, double endsec, const string& filena
     line_data.year = year;
     line_data.month = month;
     line_data.day = day;
-    line_data.Ap_avg = atof(line.substr(80, 3).c_str());
+    line_data.Ap_avg = atof(line.substr(79, 3).c_str());
     line_data.F107_adj = atof(line.substr(93, 5).c_str());
     line_data.Ctr81_adj = atof(line.substr(101, 5).c_str());
     line_data.Lst81_adj = atof(line.substr(107, 5).c_str());
-- 
2.43.0


From 5c27dbd5f0a5da8523be5d53360096ad0bbde9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 097/128] fix: look up the antenna gain of the minus Y side in
 its own part of the radiation pattern

---
 .../real/communication/antenna_radiation_pattern.cpp     | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/components/real/communication/antenna_radiation_pattern.cpp b/src/components/real/communication/antenna_radiation_pattern.cpp
index b1a3bce..664571c 100644
--- a/src/components/real/communication/antenna_radiation_pattern.cpp
+++ b/src/components/real/communication/antenna_radiation_pattern.cpp
@@ -26,6 +26,15 @@ double AntennaRadiationPattern::GetGain_dBi(const double theta_rad, const double
   // Argument check
   double theta_rad_clipped = theta_rad;
   double phi_rad_clipped = phi_rad;
+  // A direction on the minus Y side is in the table under another pair of angles
+  if (phi_rad_clipped < 0.0) {
+    if (phi_rad_clipped + math::tau <= phi_max_rad_) {
+      phi_rad_clipped += math::tau;
+    } else if (math::tau - theta_rad_clipped <= theta_max_rad_) {
+      phi_rad_clipped += math::pi;
+      theta_rad_clipped = math::tau - theta_rad_clipped;
+    }
+  }
   if (theta_rad_clipped < 0.0) theta_rad_clipped = 0.0;
   if (theta_rad_clipped > theta_max_rad_) theta_rad_clipped = theta_max_rad_;
   if (phi_rad_clipped < 0.0) phi_rad_clipped = 0.0;
-- 
2.43.0


From d66fbc0e73df27c39fed65970c291c8ab13c8343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 098/128] fix: keep the antenna angle finite when the direction
 rounds beyond the boresight

---
 .../real/communication/ground_station_calculator.cpp         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index bec0c2f..7090899 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -5,6 +5,7 @@
 
 #include "ground_station_calculator.hpp"
 
+#include <algorithm>
 #include <environment/global/physical_constants.hpp>
 #include <math_physics/math/constants.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
@@ -81,7 +82,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
   math::Quaternion q_i_to_sc_ant = spacecraft_tx_antenna.GetQuaternion_b2c() * dynamics.GetAttitude().GetQuaternion_i2b();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
-  double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
+  double theta_on_sc_antenna_rad = acos(std::clamp(gs_direction_on_sc_frame[2], -1.0, 1.0));
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
 
   // SC direction on GS RX antenna frame
@@ -89,7 +90,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
   math::Quaternion q_ecef_to_gs_ant = ground_station_rx_antenna.GetQuaternion_b2c() * ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
-  double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
+  double theta_on_gs_antenna_rad = acos(std::clamp(sc_direction_on_gs_frame[2], -1.0, 1.0));
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
 
   // Calc CN0
-- 
2.43.0


From da5c3b6f6734f5c760b16f27eb76ff10b1b879ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:15 +0000
Subject: [PATCH 099/128] fix: compose the frame conversions to the antennas of
 the link budget in the right order

---
 .../real/communication/ground_station_calculator.cpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index 7090899..33acedb 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -80,7 +80,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // GS direction on SC TX antenna frame
   math::Vector<3> sc_to_gs_i = gs_pos_i - sc_pos_i;
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
-  math::Quaternion q_i_to_sc_ant = spacecraft_tx_antenna.GetQuaternion_b2c() * dynamics.GetAttitude().GetQuaternion_i2b();
+  math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
   double theta_on_sc_antenna_rad = acos(std::clamp(gs_direction_on_sc_frame[2], -1.0, 1.0));
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
@@ -88,7 +88,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // SC direction on GS RX antenna frame
   math::Vector<3> gs_to_sc_ecef = dynamics.GetOrbit().GetPosition_ecef_m() - ground_station.GetPosition_ecef_m();
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
-  math::Quaternion q_ecef_to_gs_ant = ground_station_rx_antenna.GetQuaternion_b2c() * ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc();
+  math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
   double theta_on_gs_antenna_rad = acos(std::clamp(sc_direction_on_gs_frame[2], -1.0, 1.0));
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
-- 
2.43.0


From bb370eafbec8b81cdc298e0f9949afb1188dde97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 100/128] fix: keep the surface disturbances in bounds when
 surfaces are added to the structure

---
 src/disturbances/air_drag.cpp      | 2 ++
 src/disturbances/surface_force.cpp | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/disturbances/air_drag.cpp b/src/disturbances/air_drag.cpp
index af0437d..f989595 100644
--- a/src/disturbances/air_drag.cpp
+++ b/src/disturbances/air_drag.cpp
@@ -61,6 +61,8 @@ double AirDrag::CalcFunctionChi(const double s) {
 }
 
 void AirDrag::CalcCnCt(const math::Vector<3>& velocity_b_m_s) {
+  ct_.resize(surfaces_.size(), 1.0);
+  cn_.resize(surfaces_.size(), 0.0);
   double velocity_norm_m_s = velocity_b_m_s.CalcNorm();
 
   // Re-emitting speed
diff --git a/src/disturbances/surface_force.cpp b/src/disturbances/surface_force.cpp
index 88f126f..6ba7ed5 100644
--- a/src/disturbances/surface_force.cpp
+++ b/src/disturbances/surface_force.cpp
@@ -24,6 +24,13 @@ SurfaceForce::SurfaceForce(const std::vector<spacecraft::Surface>& surfaces, con
 }
 
 math::Vector<3> SurfaceForce::CalcTorqueForce(math::Vector<3>& input_direction_b, double item) {
+  // The number of surfaces can be changed during the simulation
+  const size_t num = surfaces_.size();
+  normal_coefficients_.resize(num, 0.0);
+  tangential_coefficients_.resize(num, 0.0);
+  cos_theta_.resize(num, 0.0);
+  sin_theta_.resize(num, 0.0);
+
   CalcTheta(input_direction_b);
   CalcCoefficients(input_direction_b, item);
 
-- 
2.43.0


From ac8e742549fe69faa7fbb05fbe04e79f4559a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 101/128] fix: let the flexible attitude follow changes of the
 inertia of the structure

---
 src/dynamics/attitude/attitude_with_cantilever_vibration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index 1d6d1f8..858ab74 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -81,6 +81,9 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
   math::Vector<3> torque_inertia_tensor_b_Nm = dot_inertia_tensor * angular_velocity_b_rad_s_;
   attitude_ode_.SetTorqueInertiaTensor_b_Nm(torque_inertia_tensor_b_Nm);
   attitude_ode_.SetInverseInertiaTensor(CalcInverseMatrix(inertia_tensor_kgm2_));
+  const math::Matrix<3, 3> total_inertia_tensor_kgm2 = inertia_tensor_kgm2_ + attitude_ode_.GetInertiaTensorCantilever_kgm2();
+  attitude_ode_.SetInverseTotalInertiaTensor(CalcInverseMatrix(total_inertia_tensor_kgm2));
+  attitude_ode_.SetInverseEquivalentInertiaTensorCantilever(attitude_ode_.GetInverseInertiaTensor() * total_inertia_tensor_kgm2);
   attitude_ode_.SetTorque_b_Nm(torque_b_Nm_);
   attitude_ode_.SetAngularMomentumReactionWheel_b_Nms(angular_momentum_reaction_wheel_b_Nms_);
 
-- 
2.43.0


From 2584e4dd8ed4e429c78a328037bc5f8faf331aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 102/128] fix: read settings lines of more than 199 characters
 as one line

---
 ExtLibraries/inih/ini.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ExtLibraries/inih/ini.h b/ExtLibraries/inih/ini.h
index 1467cd7..72c0bf3 100644
--- a/ExtLibraries/inih/ini.h
+++ b/ExtLibraries/inih/ini.h
@@ -102,7 +102,7 @@ int ini_parse_string(const char* string, ini_handler handler, void* user);
 /* Maximum line length for any line in INI file (stack or heap). Note that
    this must be 3 more than the longest line (due to '\r', '\n', and '\0'). */
 #ifndef INI_MAX_LINE
-#define INI_MAX_LINE 200
+#define INI_MAX_LINE 4096
 #endif
 
 /* Nonzero to allow heap line buffer to grow via realloc(), zero for a
-- 
2.43.0


From 05db96c66d86f70c5d64425134d697da592ce6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 103/128] fix: keep settings sections apart whose names are
 longer than 49 characters

---
 ExtLibraries/inih/ini.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ExtLibraries/inih/ini.c b/ExtLibraries/inih/ini.c
index c6a3c12..f2c7bf8 100644
--- a/ExtLibraries/inih/ini.c
+++ b/ExtLibraries/inih/ini.c
@@ -25,7 +25,7 @@ https://github.com/benhoyt/inih
 #include <stdlib.h>
 #endif
 
-#define MAX_SECTION 50
+#define MAX_SECTION INI_MAX_LINE
 #define MAX_NAME 50
 
 // #define isspace(c) (c==0x20 || c==0x0d || c==0x0a || c== 0x09 || c==0x0b || c== 0x0c)
-- 
2.43.0


From fd216543a1332c280c5a1f75512771c832867bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 104/128] fix: terminate strings that are copied from settings
 into a buffer

---
 src/setting_file_reader/initialize_file_access.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/setting_file_reader/initialize_file_access.cpp b/src/setting_file_reader/initialize_file_access.cpp
index 187b559..61d858e 100644
--- a/src/setting_file_reader/initialize_file_access.cpp
+++ b/src/setting_file_reader/initialize_file_access.cpp
@@ -149,7 +149,8 @@ void IniAccess::ReadChar(const char* section_name, const char* key_name, const i
   GetPrivateProfileStringA(section_name, key_name, 0, data, size, file_path_char_);
 #else
   std::string string_data = ReadString(section_name, key_name);
-  strncpy(data, string_data.c_str(), size);
+  strncpy(data, string_data.c_str(), size - 1);
+  data[size - 1] = '\0';
 #endif
 }
 
-- 
2.43.0


From 75fba7a71851a78239d9f6fe47c537ff00c4a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 105/128] fix: open table files whose path is longer than 1023
 characters

---
 .../initialize_file_access.cpp                 | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/setting_file_reader/initialize_file_access.cpp b/src/setting_file_reader/initialize_file_access.cpp
index 61d858e..31bc873 100644
--- a/src/setting_file_reader/initialize_file_access.cpp
+++ b/src/setting_file_reader/initialize_file_access.cpp
@@ -19,11 +19,13 @@ namespace s2e::setting_file_reader {
 #ifdef WIN32
 IniAccess::IniAccess(const std::string file_path) : file_path_(file_path) {
   // strcpy_s(file_path_char_, (size_t)_countof(file_path_char_), file_path_.c_str());
-  strncpy(file_path_char_, file_path_.c_str(), kMaxCharLength);
+  strncpy(file_path_char_, file_path_.c_str(), kMaxCharLength - 1);
+  file_path_char_[kMaxCharLength - 1] = '\0';
 }
 #else
 IniAccess::IniAccess(const std::string file_path) : file_path_(file_path), ini_reader_(file_path) {
-  strncpy(file_path_char_, file_path_.c_str(), kMaxCharLength);
+  strncpy(file_path_char_, file_path_.c_str(), kMaxCharLength - 1);
+  file_path_char_[kMaxCharLength - 1] = '\0';
 
   std::string ext = ".ini";
   if (file_path_.size() < 4 || !std::equal(std::rbegin(ext), std::rend(ext), std::rbegin(file_path_))) {
@@ -230,9 +232,9 @@ std::vector<std::string> IniAccess::Split(const std::string& input, const char d
 }
 
 void IniAccess::ReadCsvDouble(std::vector<std::vector<double>>& output_value, const size_t node_num) {
-  std::ifstream ifs(file_path_char_);
+  std::ifstream ifs(file_path_);
   if (!ifs.is_open()) {
-    std::cerr << "file open error. filename = " << file_path_char_ << std::endl;
+    std::cerr << "file open error. filename = " << file_path_ << std::endl;
   }
   std::string line;
 
@@ -250,9 +252,9 @@ void IniAccess::ReadCsvDouble(std::vector<std::vector<double>>& output_value, co
 
 void IniAccess::ReadCsvDoubleWithHeader(std::vector<std::vector<double>>& output_value, const size_t node_num, const size_t row_header_num,
                                         const size_t column_header_num) {
-  std::ifstream ifs(file_path_char_);
+  std::ifstream ifs(file_path_);
   if (!ifs.is_open()) {
-    std::cerr << "file open error. filename = " << file_path_char_ << std::endl;
+    std::cerr << "file open error. filename = " << file_path_ << std::endl;
   }
   std::string line;
   size_t line_num = 0;
@@ -274,9 +276,9 @@ void IniAccess::ReadCsvDoubleWithHeader(std::vector<std::vector<double>>& output
 }
 
 void IniAccess::ReadCsvString(std::vector<std::vector<std::string>>& output_value, const size_t node_num) {
-  std::ifstream ifs(file_path_char_);
+  std::ifstream ifs(file_path_);
   if (!ifs.is_open()) {
-    std::cerr << "file open error. filename = " << file_path_char_ << std::endl;
+    std::cerr << "file open error. filename = " << file_path_ << std::endl;
   }
   std::string line;
   output_value.reserve(node_num);
-- 
2.43.0


From e0c4cad40d9895968b40cc0742ff8f821239dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 106/128] fix: do not keep the carriage return in the last
 field of a table of strings

---
 src/setting_file_reader/initialize_file_access.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/setting_file_reader/initialize_file_access.cpp b/src/setting_file_reader/initialize_file_access.cpp
index 31bc873..de95fc9 100644
--- a/src/setting_file_reader/initialize_file_access.cpp
+++ b/src/setting_file_reader/initialize_file_access.cpp
@@ -283,6 +283,7 @@ void IniAccess::ReadCsvString(std::vector<std::vector<std::string>>& output_valu
   std::string line;
   output_value.reserve(node_num);
   while (getline(ifs, line)) {
+    if (!line.empty() && line.back() == '\r') line.pop_back();  // CRLF
     std::vector<std::string> temp = Split(line, ',');
     temp.reserve(node_num);
     output_value.push_back(temp);
-- 
2.43.0


From 79df579e61b18a99e7475781ae18a58e4b5cb86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:39 +0000
Subject: [PATCH 107/128] fix: do not register rows without a name as commands

---
 src/setting_file_reader/c2a_command_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setting_file_reader/c2a_command_database.cpp b/src/setting_file_reader/c2a_command_database.cpp
index 7811b36..44f59f7 100644
--- a/src/setting_file_reader/c2a_command_database.cpp
+++ b/src/setting_file_reader/c2a_command_database.cpp
@@ -26,8 +26,8 @@ C2aCommandInformation::C2aCommandInformation(const std::string cmd_db_line) {
   }
 
   // Command name
+  if (tokens.size() < 2 || tokens[1].empty()) return;
   command_name_ = tokens[1];
-  if (command_name_.empty()) return;
 
   // Command ID
   command_id_ = std::stoul(tokens[3], nullptr, 0);
-- 
2.43.0


From 95abdfc7bb73bfc3227f648ecc2f1d99776a6090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:39 +0000
Subject: [PATCH 108/128] fix: do not encode other values than the given ones
 for malformed or too large command arguments

---
 .../c2a_command_database.cpp                  | 52 +++++++++++++++----
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/setting_file_reader/c2a_command_database.cpp b/src/setting_file_reader/c2a_command_database.cpp
index 44f59f7..fddd911 100644
--- a/src/setting_file_reader/c2a_command_database.cpp
+++ b/src/setting_file_reader/c2a_command_database.cpp
@@ -7,7 +7,9 @@
 
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <sstream>
+#include <stdexcept>
 #include <utilities/endian.hpp>
 #include <utilities/macros.hpp>
 
@@ -90,65 +92,95 @@ C2aCommandDatabase::C2aCommandDatabase(const std::string file_path) {
   }
 }
 
+namespace {
+
+/**
+ * @brief Read a whole string as an integer of the type
+ * @note Throw std::invalid_argument or std::out_of_range when it is not an integer which the type can express
+ */
+template <typename T>
+T ReadInteger(const std::string& argument_string) {
+  size_t read_length = 0;
+  T value;
+  if (std::numeric_limits<T>::is_signed) {
+    long long read_value = std::stoll(argument_string, &read_length);
+    value = (T)read_value;
+    if ((long long)value != read_value) throw std::out_of_range("C2A command argument: " + argument_string);
+  } else {
+    if (argument_string.find('-') != std::string::npos) throw std::out_of_range("C2A command argument: " + argument_string);
+    unsigned long long read_value = std::stoull(argument_string, &read_length);
+    value = (T)read_value;
+    if ((unsigned long long)value != read_value) throw std::out_of_range("C2A command argument: " + argument_string);
+  }
+  if (read_length != argument_string.size()) throw std::invalid_argument("C2A command argument: " + argument_string);
+  return value;
+}
+
+}  // namespace
+
 void DecodeC2aCommandArgument(const C2aArgumentType type, const std::string argument_string, uint8_t* param, size_t& size_param) {
   switch (type) {
     case C2aArgumentType::kUint8t: {
       size_param = 1;
-      uint8_t argument = (uint8_t)std::stoul(argument_string);  // TODO: 範囲外処理
+      uint8_t argument = ReadInteger<uint8_t>(argument_string);  // TODO: 範囲外処理
       utilities::endian_memcpy(param, &argument, size_param);
       break;
     }
     case C2aArgumentType::kUint16t: {
       size_param = 2;
-      uint16_t argument = (uint16_t)std::stoul(argument_string);  // TODO: 範囲外処理
+      uint16_t argument = ReadInteger<uint16_t>(argument_string);  // TODO: 範囲外処理
       utilities::endian_memcpy(param, &argument, size_param);
       break;
     }
     case C2aArgumentType::kUint32t: {
       size_param = 4;
-      uint32_t argument = (uint32_t)std::stoul(argument_string);  // TODO: 範囲外処理
+      uint32_t argument = ReadInteger<uint32_t>(argument_string);  // TODO: 範囲外処理
       utilities::endian_memcpy(param, &argument, size_param);
       break;
     }
     case C2aArgumentType::kUint64t: {
       size_param = 8;
-      uint64_t argument = std::stoul(argument_string);
+      uint64_t argument = ReadInteger<uint64_t>(argument_string);
       utilities::endian_memcpy(param, &argument, size_param);
       break;
     }
     case C2aArgumentType::kInt8t: {
       size_param = 1;
-      int8_t argument = (int8_t)std::stoi(argument_string);  // TODO: 範囲外処理
+      int8_t argument = ReadInteger<int8_t>(argument_string);  // TODO: 範囲外処理
       utilities::endian_memcpy(param, &argument, size_param);
       break;
     }
     case C2aArgumentType::kInt16t: {
       size_param = 2;
-      int16_t argument = (int16_t)std::stoi(argument_string);  // TODO: 範囲外処理
+      int16_t argument = ReadInteger<int16_t>(argument_string);  // TODO: 範囲外処理
       utilities::endian_memcpy(param, &argument, size_param);
       break;
     }
     case C2aArgumentType::kInt32t: {
       size_param = 4;
-      int32_t argument = std::stoi(argument_string);
+      int32_t argument = ReadInteger<int32_t>(argument_string);
       utilities::endian_memcpy(param, &argument, size_param);
       break;
     }
     case C2aArgumentType::kInt64t: {
       size_param = 8;
-      int64_t argument = std::stol(argument_string);
+      int64_t argument = ReadInteger<int64_t>(argument_string);
       utilities::endian_memcpy(param, &argument, size_param);
       break;
     }
     case C2aArgumentType::kFloat: {
       size_param = 4;
-      float argument = std::stof(argument_string);
+      size_t read_length = 0;
+      float argument = std::stof(argument_string, &read_length);
+      if (read_length != argument_string.size()) throw std::invalid_argument("C2A command argument: " + argument_string);
       utilities::endian_memcpy(param, &argument, size_param);
       break;
     }
     case C2aArgumentType::kDouble: {
       size_param = 8;
-      double argument = std::stod(argument_string);
+      size_t read_length = 0;
+      double argument = std::stod(argument_string, &read_length);
+      if (read_length != argument_string.size()) throw std::invalid_argument("C2A command argument: " + argument_string);
       utilities::endian_memcpy(param, &argument, size_param);
       break;
     }
-- 
2.43.0


From 503e903c23a5b97d6154a988b27673e4465250f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:39 +0000
Subject: [PATCH 109/128] fix: do not send unknown commands or commands with a
 wrong number of arguments

---
 .../communication/wings_command_sender_to_c2a.cpp   | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/components/real/communication/wings_command_sender_to_c2a.cpp b/src/components/real/communication/wings_command_sender_to_c2a.cpp
index ae3989f..adfba3e 100644
--- a/src/components/real/communication/wings_command_sender_to_c2a.cpp
+++ b/src/components/real/communication/wings_command_sender_to_c2a.cpp
@@ -87,7 +87,8 @@ void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> t
   // Get command code
   s2e::setting_file_reader::C2aCommandInformation cmd_info = c2a_command_database_.GetCommandInformation(command_name);
   if (cmd_info.GetCommandName() == "Error") {
-    // TODO: error handling
+    std::cerr << "[WINGS command sender] unknown command: " << command_name << std::endl;
+    return;
   }
   CMD_CODE cmd_id = (CMD_CODE)cmd_info.GetCommandId();
 
@@ -97,15 +98,17 @@ void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> t
     if (tokens[i].find("{") == 0) return;  // let command is not supported now TODO: support let command
     arguments.push_back(tokens[i]);
   }
-  // Check number of arguments
-  if (arguments.size() != cmd_info.GetNumberOfArgument()) {
-    // TODO: error handling
+  // Check number of arguments (time line and block commands have the execution time before the arguments of the command)
+  const bool has_time = (command_type == "TL" || command_type == "BL");
+  if (arguments.size() != cmd_info.GetNumberOfArgument() + (has_time ? 1 : 0)) {
+    std::cerr << "[WINGS command sender] wrong number of arguments: " << command_name << std::endl;
+    return;
   }
 
   // Decode arguments
   // Read TI
   uint32_t ti = 0;
-  if (command_type == "TL" || command_type == "BL") {
+  if (has_time) {
     ti = (uint32_t)std::stoi(arguments[0]);
     arguments.erase(arguments.begin());
   }
-- 
2.43.0


From 7ad66ea2078892c13c5f0377171d5c8308a4e70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 110/128] fix: go on with the operation file after a command
 argument that cannot be read

---
 .../wings_command_sender_to_c2a.cpp           | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/components/real/communication/wings_command_sender_to_c2a.cpp b/src/components/real/communication/wings_command_sender_to_c2a.cpp
index adfba3e..314b66e 100644
--- a/src/components/real/communication/wings_command_sender_to_c2a.cpp
+++ b/src/components/real/communication/wings_command_sender_to_c2a.cpp
@@ -108,17 +108,22 @@ void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> t
   // Decode arguments
   // Read TI
   uint32_t ti = 0;
-  if (has_time) {
-    ti = (uint32_t)std::stoi(arguments[0]);
-    arguments.erase(arguments.begin());
-  }
-  // Read arguments
   uint8_t param[CSP_MAX_LEN];
   uint16_t param_len = 0;
-  for (size_t arg_num = 0; arg_num < arguments.size(); arg_num++) {
-    size_t len = 0;
-    s2e::setting_file_reader::DecodeC2aCommandArgument(cmd_info.GetArgumentType(arg_num), arguments[arg_num], param + param_len, len);
-    param_len += (uint16_t)len;
+  try {
+    if (has_time) {
+      ti = (uint32_t)std::stoi(arguments[0]);
+      arguments.erase(arguments.begin());
+    }
+    // Read arguments
+    for (size_t arg_num = 0; arg_num < arguments.size(); arg_num++) {
+      size_t len = 0;
+      s2e::setting_file_reader::DecodeC2aCommandArgument(cmd_info.GetArgumentType(arg_num), arguments[arg_num], param + param_len, len);
+      param_len += (uint16_t)len;
+    }
+  } catch (const std::exception& e) {
+    std::cerr << "[WINGS command sender] wrong argument of " << command_name << ": " << e.what() << std::endl;
+    return;
   }
 
   // Send command
-- 
2.43.0


From 1319db6156ccdfa5124ee417759c8c163931db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 111/128] fix: accept blank lines and incomplete wait lines in
 operation files

---
 .../real/communication/wings_command_sender_to_c2a.cpp    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/components/real/communication/wings_command_sender_to_c2a.cpp b/src/components/real/communication/wings_command_sender_to_c2a.cpp
index 314b66e..dec99f9 100644
--- a/src/components/real/communication/wings_command_sender_to_c2a.cpp
+++ b/src/components/real/communication/wings_command_sender_to_c2a.cpp
@@ -53,10 +53,16 @@ void WingsCommandSenderToC2a::ExecuteCommandLine(const std::string line) {
     tokens.push_back(token);
   }
 
+  if (tokens.empty()) return;
+
   // Handle WINGS commands
   if (tokens[0].find("wait_sec") == 0) {
     // wait process
-    wait_s_ = std::stod(tokens[1]);
+    try {
+      wait_s_ = std::stod(tokens.at(1));
+    } catch (const std::exception&) {
+      std::cerr << "[WINGS command sender] wrong waiting time: " << line << std::endl;
+    }
   } else if (tokens[0].find("check_value") == 0) {
     // TODO: Support check_value
     wait_s_ = 0;
-- 
2.43.0


From 44f2ee3a75cc726052554b885f5865ef934056d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:11 +0000
Subject: [PATCH 112/128] fix: draw uniformly random attitudes in
 QuaternionUniform

---
 .../initialize_monte_carlo_parameters.cpp                 | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index 967b92b..48527ae 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -248,7 +248,6 @@ void InitializedMonteCarloParameters::CalcQuaternionUniform(math::Quaternion& de
   x_axis[0] = 1.0;
 
   // A direction vector converted from the X-axis by a quaternion may follows the uniform distribution in full sphere.
-  math::Quaternion first_cnv;
   math::Vector<3> x_axis_cnvd;
   double theta = acos(1 - (1 - (-1)) * InitializedMonteCarloParameters::Generate1dUniform(0.0, 1.0));
   double phi = InitializedMonteCarloParameters::Generate1dUniform(0, math::tau);
@@ -256,12 +255,7 @@ void InitializedMonteCarloParameters::CalcQuaternionUniform(math::Quaternion& de
   x_axis_cnvd[1] = sin(theta) * sin(phi);
   x_axis_cnvd[2] = cos(theta);
 
-  double cos_angle_between = InnerProduct(x_axis, x_axis_cnvd);
-  math::Vector<3> op = OuterProduct(x_axis, x_axis_cnvd);
-  for (int i = 0; i < 3; i++) {
-    first_cnv[i] = op[i];
-  }
-  first_cnv[3] = cos_angle_between;
+  math::Quaternion first_cnv(x_axis, x_axis_cnvd);
 
   // Generate randomized rotation angle around the X-axis
   double rotation_angle = InitializedMonteCarloParameters::Generate1dUniform(0.0, math::tau);
-- 
2.43.0


From f5e0e244595a850a20e3eb572588caf217bb2fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:11 +0000
Subject: [PATCH 113/128] fix: forget the kept normal value when the Monte
 Carlo seed is set

---
 .../initialize_monte_carlo_parameters.cpp                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index 48527ae..7942dba 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -36,6 +36,8 @@ void InitializedMonteCarloParameters::SetSeed(unsigned long seed, bool is_determ
   } else {
     InitializedMonteCarloParameters::mt_.seed(InitializedMonteCarloParameters::randomizer_());
   }
+  // Discard the value kept by the distribution since it belongs to the previous seed
+  if (InitializedMonteCarloParameters::normal_distribution_ != nullptr) InitializedMonteCarloParameters::normal_distribution_->reset();
 }
 
 void InitializedMonteCarloParameters::GetRandomizedScalar(double& destination) const {
-- 
2.43.0


From 2e6488d5640c704bcbc213f2b16aaead0427f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:11 +0000
Subject: [PATCH 114/128] fix: keep the Monte Carlo seed set before the first
 parameter is declared

---
 .../initialize_monte_carlo_parameters.cpp                     | 4 +++-
 .../initialize_monte_carlo_parameters.hpp                     | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index 7942dba..3c75da0 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -13,6 +13,7 @@ namespace s2e::simulation {
 
 random_device InitializedMonteCarloParameters::randomizer_;
 mt19937 InitializedMonteCarloParameters::mt_;
+bool InitializedMonteCarloParameters::is_seed_set_ = false;
 uniform_real_distribution<>* InitializedMonteCarloParameters::uniform_distribution_;
 normal_distribution<>* InitializedMonteCarloParameters::normal_distribution_;
 
@@ -20,7 +21,7 @@ InitializedMonteCarloParameters::InitializedMonteCarloParameters() {
   // Generate object when the first execution
   static bool initial_setup_done = false;
   if (!initial_setup_done) {
-    SetSeed();
+    if (!is_seed_set_) SetSeed();
     InitializedMonteCarloParameters::uniform_distribution_ = new uniform_real_distribution<>(0.0, 1.0);
     InitializedMonteCarloParameters::normal_distribution_ = new normal_distribution<>(0.0, 1.0);
     initial_setup_done = true;
@@ -31,6 +32,7 @@ InitializedMonteCarloParameters::InitializedMonteCarloParameters() {
 }
 
 void InitializedMonteCarloParameters::SetSeed(unsigned long seed, bool is_deterministic) {
+  is_seed_set_ = true;
   if (is_deterministic) {
     InitializedMonteCarloParameters::mt_.seed(seed);
   } else {
diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
index e4bc346..1780d4a 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
@@ -92,6 +92,7 @@ class InitializedMonteCarloParameters {
   RandomizationType randomization_type_;                           //!< Randomization type
   static std::random_device randomizer_;                           //!< Non-deterministic random number generator with time information
   static std::mt19937 mt_;                                         //!< Deterministic random number generator
+  static bool is_seed_set_;                                        //!< Flag to show the seed was already set by SetSeed
   static std::uniform_real_distribution<>* uniform_distribution_;  //!< Uniform random number generator
   static std::normal_distribution<>* normal_distribution_;         //!< Normal random number generator
 
-- 
2.43.0


From d1f687897093c88398ef44d68064467f93e5d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:02 +0000
Subject: [PATCH 115/128] fix: reduce the seed of the minimal standard
 generator and refuse multiples of its modulus

---
 ...nimal_standard_linear_congruential_generator.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp b/src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp
index c1821e9..530df92 100644
--- a/src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp
+++ b/src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp
@@ -13,16 +13,13 @@ const double MinimalStandardLcg::a_m_ = 1.0 / MinimalStandardLcg::kM;
 
 MinimalStandardLcg::MinimalStandardLcg() : seed_(0xdeadbeef) {}
 
-MinimalStandardLcg::MinimalStandardLcg(const long seed) : seed_(seed) {
-  if (seed == 0) {
-    throw std::invalid_argument("MinimalStandardLcg:: seed is 0.");
-  }
-}
+MinimalStandardLcg::MinimalStandardLcg(const long seed) { Initialize(seed); }
 void MinimalStandardLcg::Initialize(const long seed) {
-  if (seed == 0) {
-    throw std::invalid_argument("MinimalStandardLcg:: seed is 0.");
+  // The recurrence works modulo kM, and zero is not in its cycle
+  if (seed % kM == 0) {
+    throw std::invalid_argument("MinimalStandardLcg:: seed is 0 or a multiple of the modulus.");
   }
-  seed_ = seed;
+  seed_ = seed % kM;
 }
 
 MinimalStandardLcg::operator double() {
-- 
2.43.0


From 89a34138218ec339e3b661e3047c9d1ae7c2f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:02 +0000
Subject: [PATCH 116/128] fix: shuffle the values of the minimal standard
 generator

---
 ...mal_standard_linear_congruential_generator_with_shuffle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
index 3bdd51d..39ca1a8 100644
--- a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
+++ b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
@@ -17,6 +17,7 @@ void MinimalStandardLcgWithShuffle::InitSeed(const long seed) {
 }
 
 void MinimalStandardLcgWithShuffle::Initialize() {
+  table_position_ = 0;
   // Warmup of minimal_lcg_
   for (int i = 0; i < 8; i++) {
     double temp = minimal_lcg_;
@@ -31,7 +32,7 @@ void MinimalStandardLcgWithShuffle::Initialize() {
 MinimalStandardLcgWithShuffle::operator double() {
   double out = mixing_table_[table_position_];
   mixing_table_[table_position_] = minimal_lcg_;  // Compensate next random value
-  table_position_ = (size_t)out * MinimalStandardLcg::kM;
+  table_position_ = (size_t)(out * MinimalStandardLcg::kM);
   table_position_ %= kTableSize;  // y <- [0 : kTableSize-1]
 
   return out;
-- 
2.43.0


From 87db73ab082a93f0e533522657ca07cc98431d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:02 +0000
Subject: [PATCH 117/128] fix: forget the kept normal value when a normal
 generator is seeded again

---
 src/math_physics/randomization/normal_randomization.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math_physics/randomization/normal_randomization.hpp b/src/math_physics/randomization/normal_randomization.hpp
index b230680..d968644 100644
--- a/src/math_physics/randomization/normal_randomization.hpp
+++ b/src/math_physics/randomization/normal_randomization.hpp
@@ -94,6 +94,7 @@ class NormalRand {
     average_ = average;
     standard_deviation_ = standard_deviation;
     randomizer_.InitSeed(seed);
+    is_empty_ = true;  // Discard the value kept from the previous seed
   }
 
  private:
-- 
2.43.0


From 601f6552b3376f06c0fc01c324ea6ffa8f765668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 118/128] fix: initialize the acceleration of the orbit

---
 src/dynamics/orbit/orbit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/orbit/orbit.hpp b/src/dynamics/orbit/orbit.hpp
index c51f0dc..54200ea 100644
--- a/src/dynamics/orbit/orbit.hpp
+++ b/src/dynamics/orbit/orbit.hpp
@@ -202,7 +202,7 @@ class Orbit : public logger::ILoggable {
   math::Vector<3> spacecraft_velocity_b_m_s_;     //!< Spacecraft velocity in the body frame [m/s]
   math::Vector<3> spacecraft_velocity_ecef_m_s_;  //!< Spacecraft velocity in the ECEF frame [m/s]
 
-  math::Vector<3> spacecraft_acceleration_i_m_s2_;  //!< Spacecraft acceleration in the inertial frame [m/s2]
+  math::Vector<3> spacecraft_acceleration_i_m_s2_{0.0}; //!< Spacecraft acceleration in the inertial frame [m/s2]
                                                     //!< NOTE: Clear to zero at the end of the Propagate function
 
   // Frame Conversion TODO: consider other planet
-- 
2.43.0


From 2e7911b92597e7d0e2cfc7648c416c07bb169afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 119/128] fix: apply the random seed of the simulation base
 file

---
 src/simulation/case/simulation_case.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/simulation/case/simulation_case.cpp b/src/simulation/case/simulation_case.cpp
index e8cfb56..50b64c4 100644
--- a/src/simulation/case/simulation_case.cpp
+++ b/src/simulation/case/simulation_case.cpp
@@ -5,13 +5,24 @@
 
 #include "simulation_case.hpp"
 
+#include <ctime>
 #include <logger/initialize_log.hpp>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 #include <string>
 
 namespace s2e::simulation {
 
+static void InitializeRandomSeed(const std::string initialize_base_file, const unsigned long long run_number = 0) {
+  setting_file_reader::IniAccess ini_file(initialize_base_file);
+  if (ini_file.ReadString("RANDOMIZE", "rand_seed") == "NULL") return;
+  long seed = ini_file.ReadInt("RANDOMIZE", "rand_seed");
+  if (seed == 0) seed = (long)time(nullptr);  // The seed is varied by time
+  randomization::global_randomization.SetSeed(seed + (long)run_number);
+}
+
 SimulationCase::SimulationCase(const std::string initialize_base_file) {
+  InitializeRandomSeed(initialize_base_file);
   // Initialize Log
   simulation_configuration_.main_logger_ = logger::InitLog(initialize_base_file);
 
@@ -21,6 +32,7 @@ SimulationCase::SimulationCase(const std::string initialize_base_file) {
 
 SimulationCase::SimulationCase(const std::string initialize_base_file, const MonteCarloSimulationExecutor& monte_carlo_simulator,
                                const std::string log_path) {
+  InitializeRandomSeed(initialize_base_file, monte_carlo_simulator.GetNumberOfExecutionsDone());
   if (monte_carlo_simulator.IsEnabled() == false) {
     // Monte Carlo simulation is disabled
     simulation_configuration_.main_logger_ = logger::InitLog(initialize_base_file);
-- 
2.43.0


From 69bc5e4dba5da8617e348297e516eb6a4a51d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 120/128] fix: release the temporary attitude of the controlled
 initialization

---
 src/dynamics/attitude/initialize_attitude.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics/attitude/initialize_attitude.cpp b/src/dynamics/attitude/initialize_attitude.cpp
index 25b5f8e..ca75dae 100644
--- a/src/dynamics/attitude/initialize_attitude.cpp
+++ b/src/dynamics/attitude/initialize_attitude.cpp
@@ -48,6 +48,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
                                                      inertia_tensor_kgm2, target_position, local_celestial_information, orbit, mc_name_temp);
     attitude_temp->Propagate(step_width_s);
     quaternion_i2b = attitude_temp->GetQuaternion_i2b();
+    delete attitude_temp;
     omega_b = math::Vector<3>(0.0);
     torque_b = math::Vector<3>(0.0);
   } else {
-- 
2.43.0


From b7fdacd60b7efb64a369c1af759c027862122479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:33 +0000
Subject: [PATCH 121/128] fix: calculate the angular momentum and kinetic
 energy in the controlled attitude mode

---
 src/dynamics/attitude/controlled_attitude.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index 8623a98..4bcdae8 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -62,6 +62,7 @@ void ControlledAttitude::Propagate(const double end_time_s) {
 
   if (main_mode_ == AttitudeControlMode::kInertialStabilize) {
     // quaternion_i2b_ = quaternion_i2t_;
+    CalcAngularMomentum();
     return;
   }
 
@@ -73,6 +74,7 @@ void ControlledAttitude::Propagate(const double end_time_s) {
   PointingControl(main_direction_i, sub_direction_i);
   // Calc angular velocity
   CalcAngularVelocity(end_time_s);
+  CalcAngularMomentum();
   return;
 }
 
-- 
2.43.0


From e5e5a995f3ca459ae2c8b25e4c0cf6a4755776aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:33 +0000
Subject: [PATCH 122/128] fix: the control torque of the controlled attitude
 mode is the rate of change of the angular momentum

---
 src/dynamics/attitude/controlled_attitude.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index 4bcdae8..5de62b1 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -190,10 +190,10 @@ void ControlledAttitude::CalcAngularVelocity(const double current_time_s) {
     math::Vector<3> angular_acc_b_rad_s2_;
     for (int i = 0; i < 3; i++) {
       angular_velocity_b_rad_s_[i] = q_diff[i];
-      angular_acc_b_rad_s2_[i] = (previous_omega_b_rad_s_[i] - angular_velocity_b_rad_s_[i]) / time_diff_sec;
+      angular_acc_b_rad_s2_[i] = (angular_velocity_b_rad_s_[i] - previous_omega_b_rad_s_[i]) / time_diff_sec;
     }
-    math::Matrix<3, 3> inv_inertia_tensor = CalcInverseMatrix(inertia_tensor_kgm2_);
-    controlled_torque_b_Nm = inv_inertia_tensor * angular_acc_b_rad_s2_;
+    controlled_torque_b_Nm = inertia_tensor_kgm2_ * angular_acc_b_rad_s2_ +
+                             OuterProduct(angular_velocity_b_rad_s_, inertia_tensor_kgm2_ * angular_velocity_b_rad_s_);
   } else {
     angular_velocity_b_rad_s_ = math::Vector<3>(0.0);
     controlled_torque_b_Nm = math::Vector<3>(0.0);
-- 
2.43.0


From 973b1beca44ac4d003e8de4d5d4c1eba5675dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:09 +0000
Subject: [PATCH 123/128] fix: close the IGRF coefficient file after reading it

Every reading left one more file open, so a process that evaluates fields in many
intervals runs out of file descriptors and exits.
---
 src/math_physics/geomagnetic/igrf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index ecc9ea2..201b466 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -425,6 +425,7 @@ void gigrf(int gen, double year) {
       exit(1);
     }
   }
+  fclose(fp);
   load_begin = -HUGE_VAL;
   load_end = HUGE_VAL;
   if (l == ncol) {
-- 
2.43.0


From 04d6564ef4b7541534cefd9e8f50a97604468299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:20 +0000
Subject: [PATCH 124/128] fix: pace the simulation by real time for every
 simulation speed

The waiting time was computed in simulated time and slept in real time, so a
simulation slower than real time ran ahead and a faster one waited too long; the
last step in time was noted before the wait, so a long wait counted as a delay and
the elapsed time jumped although the computer kept up.
---
 src/environment/global/simulation_time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index ee13771..cd89a95 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -95,8 +95,9 @@ void SimulationTime::UpdateTime(void) {
   elapsed_time_sec_ += step_sec_;
   if (simulation_speed_ > 0) {
     chrono::system_clock clk;
-    int toWaitTime = (int)(elapsed_time_sec_ * 1000 -
-                           chrono::duration_cast<chrono::milliseconds>(clk.now() - clock_start_time_millisec_).count() * simulation_speed_);
+    // Wait time in real time
+    int toWaitTime = (int)(elapsed_time_sec_ * 1000 / simulation_speed_ -
+                           chrono::duration_cast<chrono::milliseconds>(clk.now() - clock_start_time_millisec_).count());
     if (toWaitTime <= 0) {
       // When the execution time is larger than specified step_sec
 
@@ -113,14 +114,13 @@ void SimulationTime::UpdateTime(void) {
         clock_last_time_completed_step_in_time_ = clk.now();
       }
     } else {
-      clock_last_time_completed_step_in_time_ = clk.now();
-
 #ifdef WIN32
       Sleep(toWaitTime);
 #else
       const struct timespec req = {toWaitTime / 1000, (toWaitTime % 1000) * 1000000};
       nanosleep(&req, NULL);
 #endif
+      clock_last_time_completed_step_in_time_ = clk.now();
     }
   }
 
-- 
2.43.0


From 868b4f32bcebad6fff77bd8bf66f222d2e4bad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:28 +0000
Subject: [PATCH 125/128] fix: read the slope and its deviation when they end a
 Bias-SINEX record

---
 .../gnss/bias_sinex_file_reader.cpp           | 26 ++++++-------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/math_physics/gnss/bias_sinex_file_reader.cpp b/src/math_physics/gnss/bias_sinex_file_reader.cpp
index b8a203c..5746e63 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.cpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.cpp
@@ -8,6 +8,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <sstream>
 
 namespace s2e::gnss {
 
@@ -185,24 +186,13 @@ void BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
     solution_data.SetUnit(line.substr(read_point, read_size));
     read_point += read_size + 1;
 
-    read_size = 21;
-    solution_data.SetBias(std::stod(line.substr(read_point, read_size)));
-    read_point += read_size + 1;
-
-    read_size = 12;
-    solution_data.SetBiasStandardDeviation(std::stod(line.substr(read_point, read_size)));
-    read_point += read_size + 1;
-
-    if (read_point + 21 < line.size()) {
-      read_size = 21;
-      solution_data.SetSlope_ns_s(std::stod(line.substr(read_point, read_size)));
-      read_point += read_size + 1;
-    }
-    if (read_point + 12 < line.size()) {
-      read_size = 12;
-      solution_data.SetSlopeStandardDeviation_ns_s(std::stod(line.substr(read_point, read_size)));
-      read_point += read_size + 1;
-    }
+    // The widths of the numerical columns depend on the producer, so they are separated by blanks
+    std::istringstream values(line.substr(read_point));
+    double value;
+    if (values >> value) solution_data.SetBias(value);
+    if (values >> value) solution_data.SetBiasStandardDeviation(value);
+    if (values >> value) solution_data.SetSlope_ns_s(value);
+    if (values >> value) solution_data.SetSlopeStandardDeviation_ns_s(value);
 
     solution_data_.push_back(solution_data);
   }
-- 
2.43.0


From 10bd0fd379ac83235255e003460edf07377ae960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:28 +0000
Subject: [PATCH 126/128] fix: count the last node of an ANTEX zenith grid with
 a decimal step

---
 src/math_physics/gnss/antex_file_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/antex_file_reader.cpp b/src/math_physics/gnss/antex_file_reader.cpp
index 4a3c74f..5210ee0 100644
--- a/src/math_physics/gnss/antex_file_reader.cpp
+++ b/src/math_physics/gnss/antex_file_reader.cpp
@@ -23,7 +23,8 @@ AntexGridDefinition::AntexGridDefinition(const double zenith_start_angle_deg, co
   if (zenith_step_angle_deg_ <= 0.0) {
     number_of_zenith_grid_ = 0;
   } else {
-    number_of_zenith_grid_ = size_t((zenith_end_angle_deg_ - zenith_start_angle_deg_) / zenith_step_angle_deg_) + 1;
+    const double rounding_margin = 1.0e-6;  // A decimal step such as 0.1 deg is not exact
+    number_of_zenith_grid_ = size_t((zenith_end_angle_deg_ - zenith_start_angle_deg_) / zenith_step_angle_deg_ + rounding_margin) + 1;
   }
 
   if (azimuth_step_angle_deg_ <= 0.0) {
-- 
2.43.0


From 6f472b01f3fafdebfe5e2dc7529d7580564f464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:33 +0000
Subject: [PATCH 127/128] fix: quantize numbers of more than 2^31 resolutions

---
 src/utilities/quantization.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utilities/quantization.cpp b/src/utilities/quantization.cpp
index 1cfd326..0e815d7 100644
--- a/src/utilities/quantization.cpp
+++ b/src/utilities/quantization.cpp
@@ -5,11 +5,13 @@
 
 #include "quantization.hpp"
 
+#include <cmath>
+
 namespace s2e::utilities {
 
 double quantization(const double continuous_number, const double resolution) {
-  int bin_num = (int)((double)continuous_number / resolution);
-  return (double)bin_num * resolution;
+  const double bin_num = std::trunc(continuous_number / resolution);
+  return bin_num * resolution;
 }
 
 float quantization_float(const double continuous_number, const double resolution) { return (float)quantization(continuous_number, resolution); }
-- 
2.43.0


From 0f5ba8cd652cf4166b0b1e56cd459daa630177e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:43 +0000
Subject: [PATCH 128/128] fix: copy nothing when endian_memcpy is given no
 bytes

---
 src/utilities/endian.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/utilities/endian.cpp b/src/utilities/endian.cpp
index 6aa2111..c340461 100644
--- a/src/utilities/endian.cpp
+++ b/src/utilities/endian.cpp
@@ -15,12 +15,8 @@ void *endian_memcpy(void *dst, const void *src, size_t size) {
   uint8_t *dst_ = (uint8_t *)dst;
   size_t i;
 
-  if (size > 0) {
-    size--;
-  }
-
-  for (i = 0; i <= size; i++) {
-    *(dst_ + (size - i)) = *(src_ + i);
+  for (i = 0; i < size; i++) {
+    *(dst_ + (size - 1 - i)) = *(src_ + i);
   }
 
   return dst;
-- 
2.43.0

