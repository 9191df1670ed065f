fn main() { h_line_ending::native_main() }
