fn main() { h_schema::native_main() }
