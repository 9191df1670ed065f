fn main() { h_patterns::native_main() }
