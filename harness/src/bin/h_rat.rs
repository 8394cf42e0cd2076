fn main() { harness::main_for::<harness::rat::Q>() }
