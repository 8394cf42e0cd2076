fn main() { harness::main_for::<f64>() }
