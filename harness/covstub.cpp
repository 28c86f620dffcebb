extern "C" void __sanitizer_cov_trace_pc() { }
