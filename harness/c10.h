#include "v.h"
#include <vector>
namespace brunsli {
bool v_enc_app0(const std::vector<uint8_t>& s, std::vector<uint8_t>* out);
bool v_enc_app2(const std::vector<uint8_t>& s, std::vector<uint8_t>* out);
bool v_enc_app12(const std::vector<uint8_t>& s, std::vector<uint8_t>* out);
bool v_enc_app14(const std::vector<uint8_t>& s, std::vector<uint8_t>* out);
std::vector<uint8_t> v_enc_app(const std::vector<uint8_t>& s, size_t* count);
}
