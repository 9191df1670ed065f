fn main() { h_sync::native_main() }
