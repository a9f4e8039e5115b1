// Sanitizer builds keep the sanitizer's allocator.
#include <cstdint>
namespace vf
{
void case_begin(std::uint64_t) {}
bool counts_blocks() { return false; }
std::uint64_t live_blocks() { return 0; }
std::uint64_t live_bytes() { return 0; }
bool side_by_side(int) { return false; }
int side_blocks() { return 0; }
}
