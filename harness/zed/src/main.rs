fn main() { h_zed::native_main() }
