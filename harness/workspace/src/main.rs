fn main() { h_workspace::native_main() }
