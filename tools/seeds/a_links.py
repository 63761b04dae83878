bug("ring-buffer-wrap-source", "L01", [("src/utilities/ring_buffer.cpp", "memcpy(&buffer_[write_pointer_], &buffer[offset + write_count], write_len);", "memcpy(&buffer_[write_pointer_], &buffer[offset], write_len);")],
 "a single write that crosses the physical end of the ring buffer", "the bytes after the wrap-around repeat the beginning of the written block", "src/utilities/ring_buffer.cpp",
 r'''#include <utilities/ring_buffer.hpp>
#include <cstring>
int main() { s2e::utilities::RingBuffer b(8); unsigned char a[6] = {1, 2, 3, 4, 5, 6}, o[6] = {0};
  b.Write(a, 0, 6); b.Read(o, 0, 6); b.Write(a, 0, 5); memset(o, 0, 6); int n = b.Read(o, 0, 5); return n == 5 && !memcmp(a, o, 5) ? 0 : 1; }
''', stubs=False)
bug("slip-escape-rescan", "L02", [("src/utilities/slip.cpp", "    ++fesc_itr;\n  }\n\n  return out;\n}\n\nstd::vector<uint8_t> decode_slip_with_header", "  }\n\n  return out;\n}\n\nstd::vector<uint8_t> decode_slip_with_header")],
 "a payload with an escape byte directly followed by 0xdc or 0xdd", "a decoded escape byte is taken for the start of another escape sequence", "src/utilities/slip.cpp",
 r'''#include <utilities/slip.hpp>
using namespace s2e::utilities;
int main() { std::vector<uint8_t> v = {0x10, 0xdb, 0xdc, 0x20}; return decode_slip(encode_slip(v)) == v ? 0 : 1; }
''', stubs=False)
bug("i2c-last-register-wrap", "L03", [("src/components/ports/i2c_port.cpp", "if (saved_register_address_ >= max_register_number_) saved_register_address_ = 0;", "if (saved_register_address_ > max_register_number_) saved_register_address_ = 0;")],
 "a sequential read that passes the last register", "the read after the last register does not return to register zero", "src/components/ports/i2c_port.cpp",
 r'''#include <components/ports/i2c_port.hpp>
using namespace s2e::components;
int main() { I2cPort p(16); p.RegisterDevice(5); p.WriteRegister(5, 0, 42); p.WriteRegister(5, 15, 7); p.ReadRegister(5, 15); unsigned char a = p.ReadRegister(5), b = p.ReadRegister(5); return a == 7 && b == 42 ? 0 : 1; }
''', stubs=False)
bug("uart-telemetry-offset", "L04", [("src/components/base/uart_communication_with_obc.cpp", "obc_->SendFromCompo(sils_port_id_, &tx_buffer_.front(), offset, tlm_size);", "obc_->SendFromCompo(sils_port_id_, &tx_buffer_.front(), 0, tlm_size);")],
 "telemetry that starts at a non-zero offset of the transmission buffer", "the bytes before the telemetry are sent and its end is lost",
 "src/components/base/uart_communication_with_obc.cpp src/components/real/cdh/on_board_computer.cpp src/components/ports/uart_port.cpp src/components/ports/i2c_port.cpp src/components/ports/gpio_port.cpp src/components/ports/power_port.cpp src/utilities/ring_buffer.cpp src/components/base/component.cpp src/environment/global/clock_generator.cpp src/setting_file_reader/initialize_file_access.cpp",
 r'''#include <components/base/uart_communication_with_obc.hpp>
#include <components/real/cdh/on_board_computer.hpp>
#include <environment/global/clock_generator.hpp>
using namespace s2e; using namespace s2e::components;
struct C : UartCommunicationWithObc { C(OnBoardComputer* o) : UartCommunicationWithObc(1u, o) {} int ParseCommand(const int) override { return 0; }
  int GenerateTelemetry() override { for (int i = 0; i < 16; i++) tx_buffer_[i] = 100 + i; return 4; } int Go(int k) { return SendTelemetry(k); } };
int main() { environment::ClockGenerator k; OnBoardComputer o(&k); C c(&o); unsigned char b[16] = {0}; c.Go(0); int n = o.ReceivedByObc(1, b, 0, 16); if (n != 4 || b[0] != 100) return 2;
  c.Go(6); n = o.ReceivedByObc(1, b, 0, 16); return n == 4 && b[0] == 106 && b[3] == 109 ? 0 : 1; }
''')
