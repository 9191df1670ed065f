fn main() { h_resolve::native_main() }
