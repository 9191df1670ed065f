fn main() { h_fs::native_main() }
