// A library that is not a backend.
extern "C" int create_knp_backend_not(int x) { return x + 1; }
