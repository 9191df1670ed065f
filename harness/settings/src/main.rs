fn main() { h_settings::native_main() }
