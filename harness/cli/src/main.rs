fn main() { h_cli::native_main() }
