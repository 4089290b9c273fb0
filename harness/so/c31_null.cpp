// A backend library whose creator makes nothing.
#include <knp/core/backend.h>

static std::shared_ptr<knp::core::Backend> make_nothing() { return nullptr; }
extern "C" __attribute__((visibility("default"))) const void *create_knp_backend = reinterpret_cast<const void *>(&make_nothing);
