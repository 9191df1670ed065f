fn main() { h_codec::native_main() }
