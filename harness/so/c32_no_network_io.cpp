// Stands in for the package's Sonata functions, which need a library that is not installed here.
void export_network_io() {}
