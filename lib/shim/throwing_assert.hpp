// An access of a wrong type to a JSON document is an error that the check sees, instead of an undefined behaviour.
#pragma once
#include <stdexcept>
namespace vp_shim
{
struct WrongAccess : std::logic_error
{
    using std::logic_error::logic_error;
};
}  // namespace vp_shim
#define RAPIDJSON_ASSERT(x) do { if (!(x)) throw vp_shim::WrongAccess("wrong access to a JSON value: " #x); } while (false)
