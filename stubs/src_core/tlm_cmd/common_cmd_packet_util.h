#pragma once
#include <cstdint>
typedef uint16_t CMD_CODE;
#define CSP_MAX_LEN 432
enum TLCD_ID { TLCD_ID_FROM_GS = 0 };
void CCP_register_rtc(CMD_CODE id, const uint8_t* param, uint16_t len);
void CCP_register_tlc(uint32_t ti, TLCD_ID line, CMD_CODE id, const uint8_t* param, uint16_t len);
